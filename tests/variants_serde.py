L, II, DS, CF, PI = "src/lib.rs", "src/inverted_index.rs", "src/document_store.rs", "src/config.rs", "src/pipeline.rs"
VARIANTS = []


def V(name, kind, edits, expect=()): VARIANTS.append({"name": name, "kind": kind, "edits": edits, "expect": expect})


CH = '''    #[serde(flatten, serialize_with = "IndexItem::serialize")]
    pub children'''
LOOP = '''        for (key, value) in map {
            let key = key.encode_utf8(&mut buf);
            ser_map.serialize_entry(key, value)?;
        }
'''
OPEN = "        let mut ser_map = ser.serialize_map(Some(map.len()))?;\n"
BUF = "        let mut buf = [0u8; 4];\n"
PSEQ = '''        let mut seq = serializer.serialize_seq(Some(self.queue.len()))?;
        for elem in &self.queue {
            seq.serialize_element(&elem.name())?;
        }
        seq.end()
'''
TFD = '''#[derive(Debug, Copy, Clone, Serialize, Deserialize, PartialEq)]
struct TermFrequency {
    #[serde(rename = "tf")]
    pub term_freq: f64,
}
'''
ITD = '''#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Default)]
struct IndexItem {
    pub docs: BTreeMap<String, TermFrequency>,
    #[serde(rename = "df")]
    pub doc_freq: i64,
    #[serde(flatten, serialize_with = "IndexItem::serialize")]
    pub children: BTreeMap<char, IndexItem>,
}
'''
LANG = "        serializer.serialize_str(&lang.name())\n"
TJ = "        serde_json::to_string(&self).unwrap()\n"
OPTS = '''#[derive(Serialize, Deserialize, Default, Debug, Copy, Clone, Eq, PartialEq)]
pub struct SearchOptionsField {
    #[serde(skip_serializing_if = "Option::is_none")]
    pub boost: Option<u8>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub bool: Option<SearchBool>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub expand: Option<bool>,
}
'''

# ---- bugs
V("ser_tf_name", "bug", [(II, '#[serde(rename = "tf")]', '#[serde(rename = "freq")]')], ["C23"])
V("ser_docs_omit", "bug", [(II, "    pub docs: BTreeMap<String, TermFrequency>,", '    #[serde(skip_serializing_if = "BTreeMap::is_empty")]\n    pub docs: BTreeMap<String, TermFrequency>,')], ["C23"])
V("ser_fields_omit", "bug", [(L, "    fields: Vec<String>,\n    #[serde(skip)]", '    #[serde(skip_serializing_if = "Vec::is_empty")]\n    fields: Vec<String>,\n    #[serde(skip)]')], ["C23"])
V("ser_store_snake", "bug", [(DS, '#[serde(rename_all = "camelCase")]\n', "")], ["C23"])
V("ser_len_minus", "bug", [(II, OPEN, "        let mut ser_map = ser.serialize_map(Some(map.len().saturating_sub(1)))?;\n")], ["C26"])
V("ser_lang_lower", "bug", [(L, LANG, "        serializer.serialize_str(&lang.name().to_lowercase())\n")], ["C23"])
V("ser_version", "bug", [(L, 'ELASTICLUNR_VERSION: &str = "0.9.5"', 'ELASTICLUNR_VERSION: &str = "0.9.6"')], ["C23"])
V("ser_tf_round", "bug", [(II, '    #[serde(rename = "tf")]\n', '    #[serde(rename = "tf", serialize_with = "short")]\n'), (II, ITD, "fn short<S: ::serde::Serializer>(f: &f64, s: S) -> Result<S::Ok, S::Error> { s.serialize_f64((f * 1e6).round() / 1e6) }\n" + ITD)], ["C23"])
V("ser_tf_f32", "bug", [(II, '    #[serde(rename = "tf")]\n', '    #[serde(rename = "tf", serialize_with = "short")]\n'), (II, ITD, "fn short<S: ::serde::Serializer>(f: &f64, s: S) -> Result<S::Ok, S::Error> { s.serialize_f32(*f as f32) }\n" + ITD)], ["C23"])
V("ser_pipe_rev", "bug", [(PI, "        for elem in &self.queue {\n            seq.", "        for elem in self.queue.iter().rev() {\n            seq.")], ["C23", "C15"])
V("ser_pipe_len", "bug", [(PI, "serialize_seq(Some(self.queue.len()))", "serialize_seq(Some(self.queue.capacity()))")], [])
V("ser_pipe_skip", "bug", [(PI, "            seq.serialize_element(&elem.name())?;\n", "            if !elem.name().starts_with(\"trimmer\") {\n                seq.serialize_element(&elem.name())?;\n            }\n")], ["C23", "C15"])
V("ser_prune", "bug", [(II, LOOP, LOOP.replace("for (key, value) in map {", "for (key, value) in map.iter().filter(|(_, v)| v.doc_freq > 0 || !v.children.is_empty()) {"))], ["C23"])
V("ser_child_upper", "bug", [(II, LOOP, LOOP.replace("key.encode_utf8(&mut buf)", "&key.to_ascii_lowercase().to_string()[..]"))], ["C23"])
V("ser_json_cleanup", "bug", [(L, TJ, "        serde_json::to_string(&self).unwrap().replace(\"\\\\n\", \" \")\n")], ["C23"])
V("ser_custom_err", "bug", [(PI, PSEQ, '''        if self.queue.len() > 64 {
            return Err(serde::ser::Error::custom("pipeline too long"));
        }
''' + PSEQ)], ["C26"])
V("ser_swap_docs", "bug", [(DS, "    pub docs: BTreeMap<String, BTreeMap<String, String>>,\n", '    #[serde(skip_serializing_if = "BTreeMap::is_empty")]\n    pub docs: BTreeMap<String, BTreeMap<String, String>>,\n')], ["C23"])
V("ser_tok_names", "bug", [(L, LANG, "        serializer.serialize_str(&lang.code())\n")], ["C23"])
V("ser_doc_empty", "bug", [(DS, "    pub docs: BTreeMap<String, BTreeMap<String, String>>,\n", '    #[serde(serialize_with = "only_saved")]\n    pub docs: BTreeMap<String, BTreeMap<String, String>>,\n'), (DS, None, '''
fn only_saved<S: serde::Serializer>(m: &BTreeMap<String, BTreeMap<String, String>>, s: S) -> Result<S::Ok, S::Error> {
    s.collect_map(m.iter().filter(|(_, d)| !d.is_empty()))
}
''')], ["C23"])
V("ser_bool_case", "bug", [(CF, '#[serde(rename_all = "SCREAMING_SNAKE_CASE")]', '#[serde(rename_all = "lowercase")]')], ["C25"])
V("ser_default_and", "bug", [(CF, "        SearchBool::Or\n", "        SearchBool::And\n")], ["C25"])
V("ser_expand_null", "bug", [(CF, '    #[serde(skip_serializing_if = "Option::is_none")]\n    pub expand', "    pub expand")], ["C25"])
V("ser_boost_zero", "bug", [(CF, '    #[serde(skip_serializing_if = "Option::is_none")]\n    pub boost', '    #[serde(skip_serializing_if = "no_boost")]\n    pub boost'), (CF, None, "\nfn no_boost(b: &Option<u8>) -> bool { b.unwrap_or(0) == 0 }\n")], ["C25"])
V("ser_expand_false", "bug", [(CF, '    #[serde(skip_serializing_if = "Option::is_none")]\n    pub expand', '    #[serde(skip_serializing_if = "off")]\n    pub expand'), (CF, None, "\nfn off(b: &Option<bool>) -> bool { *b != Some(true) }\n")], ["C25"])
V("ser_fields_skip", "bug", [(CF, "    pub fields: BTreeMap<String, SearchOptionsField>,", '    #[serde(skip_serializing_if = "BTreeMap::is_empty")]\n    pub fields: BTreeMap<String, SearchOptionsField>,')], ["C25"])
V("ser_int_map", "bug", [(L, LANG, LANG), (II, OPEN, "        let mut ser_map = ser.serialize_map(Some(map.len() + 1))?;\n")], ["C26"])

# ---- the same behaviour
V("ser_tf_hand", "same", [(II, TFD, '''#[derive(Debug, Copy, Clone, Deserialize, PartialEq)]
struct TermFrequency {
    #[serde(rename = "tf")]
    pub term_freq: f64,
}

impl ::serde::Serialize for TermFrequency {
    fn serialize<S: ::serde::Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeStruct;
        let mut s = ser.serialize_struct("TermFrequency", 1)?;
        s.serialize_field("tf", &self.term_freq)?;
        s.end()
    }
}
''')])
V("ser_item_hand", "same", [(II, ITD, '''#[derive(Deserialize, Debug, Clone, PartialEq, Default)]
struct IndexItem {
    pub docs: BTreeMap<String, TermFrequency>,
    #[serde(rename = "df")]
    pub doc_freq: i64,
    #[serde(flatten)]
    pub children: BTreeMap<char, IndexItem>,
}

impl ::serde::Serialize for IndexItem {
    fn serialize<S: ::serde::Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = ser.serialize_map(Some(self.children.len() + 2))?;
        m.serialize_entry("df", &self.doc_freq)?;
        for (c, child) in self.children.iter() {
            m.serialize_key(c)?;
            m.serialize_value(child)?;
        }
        m.serialize_entry("docs", &self.docs)?;
        m.end()
    }
}
'''), (II, '''    fn serialize<S>(map: &BTreeMap<char, IndexItem>, ser: S) -> Result<S::Ok, S::Error>
    where
        S: ::serde::Serializer,
    {
        use serde::ser::SerializeMap;

''' + OPEN + BUF + LOOP + '''        ser_map.end()
    }

''', "")])
V("ser_pipe_collect", "same", [(PI, PSEQ, "        serializer.collect_seq(self.queue.iter().map(|f| f.name()))\n"), (PI, "use serde::ser::{Serialize, SerializeSeq, Serializer};", "use serde::ser::{Serialize, Serializer};")])
V("ser_pipe_vec", "same", [(PI, PSEQ, "        let names: Vec<String> = self.queue.iter().map(|f| f.name()).collect();\n        names.serialize(serializer)\n"), (PI, "use serde::ser::{Serialize, SerializeSeq, Serializer};", "use serde::ser::{Serialize, Serializer};")])
V("ser_lang_collect", "same", [(L, LANG, "        let name = lang.name();\n        serializer.collect_str(&name)\n")])
V("ser_lang_name", "same", [(L, LANG, "        let name = lang.name();\n        name.as_str().serialize(serializer)\n"), (L, "    use serde::{Deserializer, Serializer};", "    use serde::{Deserializer, Serialize, Serializer};")])
V("ser_json_match", "same", [(L, TJ, '''        match serde_json::to_string(self) {
            Ok(text) => text,
            Err(e) => panic!("cannot serialize the index: {}", e),
        }
''')])
V("ser_json_bytes", "same", [(L, TJ, "        String::from_utf8(serde_json::to_vec(self).unwrap()).unwrap()\n")])
V("ser_json_writer", "same", [(L, TJ, "        let mut out = Vec::new();\n        serde_json::to_writer(&mut out, self).unwrap();\n        String::from_utf8(out).unwrap()\n")])
V("ser_child_string", "same", [(II, BUF, ""), (II, LOOP, "        for (key, value) in map {\n            ser_map.serialize_entry(&key.to_string(), value)?;\n        }\n")])
V("ser_child_char", "same", [(II, BUF, ""), (II, LOOP, "        for (key, value) in map.iter() {\n            ser_map.serialize_entry(key, value)?;\n        }\n")])
V("ser_child_try", "same", [(II, BUF, ""), (II, LOOP, "        map.iter().try_for_each(|(k, v)| ser_map.serialize_entry(k, v))?;\n")])
V("ser_child_none", "same", [(II, OPEN, "        let mut ser_map = ser.serialize_map(None)?;\n")])
V("ser_child_flat", "same", [(II, CH, "    #[serde(flatten)]\n    pub children"), (II, '''    fn serialize<S>(map: &BTreeMap<char, IndexItem>, ser: S) -> Result<S::Ok, S::Error>
    where
        S: ::serde::Serializer,
    {
        use serde::ser::SerializeMap;

''' + OPEN + BUF + LOOP + '''        ser_map.end()
    }

''', "")])
V("ser_store_renames", "same", [(DS, '#[serde(rename_all = "camelCase")]\n', ""), (DS, "    pub doc_info: BTreeMap<String, BTreeMap<String, usize>>,", '    #[serde(rename = "docInfo")]\n    pub doc_info: BTreeMap<String, BTreeMap<String, usize>>,')])
V("ser_bool_names", "same", [(CF, '#[serde(rename_all = "SCREAMING_SNAKE_CASE")]\n', ""), (CF, "    Or,\n    And,\n", '    #[serde(rename = "OR")]\n    Or,\n    #[serde(rename = "AND")]\n    And,\n')])
V("ser_opts_hand", "same", [(CF, OPTS, '''#[derive(Deserialize, Default, Debug, Copy, Clone, Eq, PartialEq)]
pub struct SearchOptionsField {
    pub boost: Option<u8>,
    pub bool: Option<SearchBool>,
    pub expand: Option<bool>,
}

impl serde::Serialize for SearchOptionsField {
    fn serialize<S: serde::Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = ser.serialize_map(None)?;
        if let Some(b) = &self.boost {
            m.serialize_entry("boost", b)?;
        }
        if let Some(b) = self.bool {
            m.serialize_entry("bool", &b)?;
        }
        if self.expand.is_some() {
            m.serialize_entry("expand", &self.expand)?;
        }
        m.end()
    }
}
''')])
V("ser_bool_hand", "same", [(CF, "#[derive(Serialize, Deserialize, Debug, Copy, Clone, Eq, PartialEq)]\n#[serde(rename_all", "#[derive(Deserialize, Debug, Copy, Clone, Eq, PartialEq)]\n#[serde(rename_all"), (CF, "impl Default for SearchBool {", '''impl serde::Serialize for SearchBool {
    fn serialize<S: serde::Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        ser.serialize_str(if *self == SearchBool::Or { "OR" } else { "AND" })
    }
}

impl Default for SearchBool {''')])
V("ser_df_docs", "same", [(II, '    #[serde(rename = "df")]\n    pub doc_freq: i64,', '    #[serde(rename = "df", serialize_with = "as_is")]\n    pub doc_freq: i64,'), (II, TFD, TFD + "\nfn as_is<S: ::serde::Serializer>(n: &i64, s: S) -> Result<S::Ok, S::Error> { s.serialize_i64(*n) }\n")])
V("ser_index_wrap", "same", [(L, TJ, '''        struct View<'a>(&'a Index);
        impl<'a> serde::Serialize for View<'a> {
            fn serialize<S: serde::Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
                self.0.serialize(ser)
            }
        }
        use serde::Serialize;
        serde_json::to_string(&View(self)).unwrap()
''')])

V("ser_len_derived", "bug", [(DS, "    pub length: usize,", '    #[serde(skip)]\n    pub length: usize,'), (DS, "#[derive(Serialize, Deserialize, Debug, Clone)]", "#[derive(Deserialize, Debug, Clone)]"), (DS, "#[serde(rename_all = \"camelCase\")]\n", ""), (DS, None, """
impl serde::Serialize for DocumentStore {
    fn serialize<S: serde::Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeStruct;
        let mut s = ser.serialize_struct("DocumentStore", 4)?;
        s.serialize_field("save", &self.save)?;
        s.serialize_field("docs", &self.docs)?;
        s.serialize_field("docInfo", &self.doc_info)?;
        s.serialize_field("length", &self.docs.len())?;
        s.end()
    }
}
""")], ["C24"])
V("ser_len_info", "bug", [(DS, "#[derive(Serialize, Deserialize, Debug, Clone)]", "#[derive(Deserialize, Debug, Clone)]"), (DS, "#[serde(rename_all = \"camelCase\")]\n", ""), (DS, None, """
impl serde::Serialize for DocumentStore {
    fn serialize<S: serde::Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeStruct;
        let mut s = ser.serialize_struct("DocumentStore", 4)?;
        s.serialize_field("save", &self.save)?;
        s.serialize_field("docs", &self.docs)?;
        s.serialize_field("docInfo", &self.doc_info)?;
        s.serialize_field("length", &self.doc_info.len())?;
        s.end()
    }
}
""")], ["C23"])

# ---- C24
V("de_rename_docs", "bug", [(II, "    pub docs: BTreeMap<String, TermFrequency>,", "    #[serde(rename(deserialize = \"docRefs\"))]\n    pub docs: BTreeMap<String, TermFrequency>,")], ["C24"])
V("de_rename_store", "bug", [(DS, '#[serde(rename_all = "camelCase")]', '#[serde(rename_all(serialize = "camelCase"))]')], ["C24"])
V("de_missing_fields", "bug", [(CF, "    pub fields: BTreeMap<String, SearchOptionsField>,", "    #[serde(skip_serializing_if = \"BTreeMap::is_empty\")]\n    pub fields: BTreeMap<String, SearchOptionsField>,")], ["C24", "C25"])
V("de_skip_info", "bug", [(DS, "    pub doc_info: BTreeMap", "    #[serde(skip_deserializing)]\n    pub doc_info: BTreeMap")], ["C24"])
V("de_lower_bool", "bug", [(CF, '#[serde(rename_all = "SCREAMING_SNAKE_CASE")]', '#[serde(rename_all(serialize = "SCREAMING_SNAKE_CASE", deserialize = "snake_case"))]')], ["C24"])
V("de_lang_code", "bug", [(L, "            match crate::lang::from_name(v) {", "            match crate::lang::from_code(v) {")], ["C24"])
V("de_children_lower", "bug", [(II, "            let key = key.encode_utf8(&mut buf);\n            ser_map.serialize_entry(key, value)?;", "            let key = key.to_ascii_lowercase();\n            ser_map.serialize_entry(key.encode_utf8(&mut buf), value)?;")], ["C24", "C23"])
V("de_deny_unknown", "bug", [(CF, "#[derive(Serialize, Deserialize, Default, Debug, Copy, Clone, Eq, PartialEq)]\npub struct SearchOptionsField {\n    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub boost", "#[derive(Serialize, Deserialize, Default, Debug, Copy, Clone, Eq, PartialEq)]\n#[serde(deny_unknown_fields)]\npub struct SearchOptionsField {\n    #[serde(skip_serializing_if = \"Option::is_none\", rename(deserialize = \"weight\"))]\n    pub boost")], ["C24"])
V("de_tf_swapped", "bug", [(DS, "    pub docs: BTreeMap<String, BTreeMap<String, String>>,", "    #[serde(rename(deserialize = \"documents\"), default)]\n    pub docs: BTreeMap<String, BTreeMap<String, String>>,")], ["C24"])
V("de_index_default", "bug", [(L, "    index: BTreeMap<String, InvertedIndex>,\n    document_store", "    #[serde(default, rename(deserialize = \"indices\"))]\n    index: BTreeMap<String, InvertedIndex>,\n    document_store")], ["C24"])
V("de_boost_twice", "bug", [(CF, "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub boost: Option<u8>,", "    #[serde(skip_serializing_if = \"Option::is_none\", deserialize_with = \"clamped\")]\n    pub boost: Option<u8>,"),
  (CF, None, "\nfn clamped<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Option<u8>, D::Error> {\n    use serde::Deserialize;\n    Ok(Option::<u8>::deserialize(d)?.map(|b| b.min(100)))\n}\n")], ["C24"])
V("de_alias_ok", "refactor", [(II, '    #[serde(rename = "tf")]', '    #[serde(rename = "tf", alias = "term_freq")]')])
V("de_default_ok", "refactor", [(CF, "    pub fields: BTreeMap<String, SearchOptionsField>,", "    #[serde(default)]\n    pub fields: BTreeMap<String, SearchOptionsField>,")])
V("de_container_default_ok", "refactor", [(CF, "pub struct SearchOptions {", "#[serde(default)]\npub struct SearchOptions {")])
V("de_visit_str_ok", "refactor", [(L, "        fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Self::Value, E>", "        fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>")])
V("de_lang_string_ok", "refactor", [(L, "        deserializer.deserialize_str(LanguageVisitor)", "        use serde::Deserialize;\n        let _ = LanguageVisitor;\n        let name = String::deserialize(deserializer)?;\n        crate::lang::from_name(&name).ok_or_else(|| de::Error::custom(format!(\"Unknown language name: {}\", name)))")])
V("de_pipeline_fixed_ok", "refactor", [(PI, "#[derive(Deserialize)]\npub struct Pipeline {\n    #[serde(skip_deserializing)]\n", "pub struct Pipeline {\n"),
  (PI, "impl Serialize for Pipeline {", "use serde::de::Deserialize;\n\nimpl<'de> Deserialize<'de> for Pipeline {\n    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {\n        let _names = Vec::<String>::deserialize(d)?;\n        Ok(Pipeline { queue: vec![] })\n    }\n}\n\nimpl Serialize for Pipeline {")])
V("de_tf_manual_ok", "refactor", [(II, "#[derive(Debug, Copy, Clone, Serialize, Deserialize, PartialEq)]\nstruct TermFrequency {\n    #[serde(rename = \"tf\")]\n", "#[derive(Debug, Copy, Clone, Serialize, Deserialize, PartialEq)]\n#[serde(rename_all = \"camelCase\", from = \"Tf\")]\nstruct TermFrequency {\n    #[serde(rename = \"tf\")]\n"),
  (II, None, "\n#[derive(Deserialize)]\nstruct Tf {\n    tf: f64,\n}\n\nimpl From<Tf> for TermFrequency {\n    fn from(t: Tf) -> Self {\n        TermFrequency { term_freq: t.tf }\n    }\n}\n")])
V("de_tf_into", "bug", [(II, "#[derive(Debug, Copy, Clone, Serialize, Deserialize, PartialEq)]\nstruct TermFrequency {\n    #[serde(rename = \"tf\")]\n", "#[derive(Debug, Copy, Clone, Serialize, Deserialize, PartialEq)]\n#[serde(from = \"Tf\")]\nstruct TermFrequency {\n    #[serde(rename = \"tf\")]\n"),
  (II, None, "\n#[derive(Deserialize)]\nstruct Tf {\n    tf: f64,\n}\n\nimpl From<Tf> for TermFrequency {\n    fn from(t: Tf) -> Self {\n        TermFrequency { term_freq: t.tf.floor() }\n    }\n}\n")], ["C24"])
