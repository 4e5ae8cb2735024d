"""Further refactorings (helpers extracted, statements reordered, loops rewritten) and bugs, across the crate."""
V = []
L, P, DS, II, CM, LM, EN, CF = "src/lib.rs", "src/pipeline.rs", "src/document_store.rs", "src/inverted_index.rs", "src/lang/common.rs", "src/lang/mod.rs", "src/lang/en.rs", "src/config.rs"


def _e(f, old, new): return [(f, old, new)] if not isinstance(f, list) else f
def bug(name, expect, f, old=None, new=None): V.append(dict(name="msc_" + name, kind="bug", edits=_e(f, old, new), expect=[expect] if isinstance(expect, str) else list(expect)))
def same(name, f, old=None, new=None): V.append(dict(name="msc_" + name, kind="same", edits=_e(f, old, new)))


ADD = open("/repo/" + L).read()
BODY = ADD[ADD.index("        let mut doc = BTreeMap::new();\n        doc.insert(self.ref_field"):ADD.index("        self.document_store.add_doc(doc_ref, doc);\n") + len("        self.document_store.add_doc(doc_ref, doc);\n")]
GETF = "    pub fn get_fields(&self) -> &[String] {\n        &self.fields\n    }\n"
RAW = BODY[BODY.index("            let raw_tokens"):BODY.index("            let tokens = self")]
TOKS = "            let tokens = self.pipeline.run(raw_tokens);\n"
FREQ = BODY[BODY.index("            let mut token_freq"):BODY.index("            for (token, count)")]
ADDT = BODY[BODY.index("            for (token, count)"):BODY.index("        }\n\n        self.document_store.add_doc")]
HEAD = BODY[BODY.index("        for (i, value)"):BODY.index("            if field == ")]
LENS = "            self.document_store\n                .add_field_length(doc_ref, field, tokens.len());\n"
assert RAW and FREQ and ADDT and HEAD and LENS in BODY
# helpers extracted from add_doc
same("help_tokenize", [(L, RAW + "\n" + TOKS if RAW + "\n" + TOKS in BODY else RAW + TOKS, "            let tokens = self.tokens_of(i, value.as_ref());\n"),
    (L, GETF, GETF + "\n    fn tokens_of(&self, i: usize, text: &str) -> Vec<String> {\n        let raw_tokens = match &self.field_tokenizers[i] {\n            Some(tokenizer) => tokenizer(text),\n            None => self.lang.tokenize(text),\n        };\n        self.pipeline.run(raw_tokens)\n    }\n"),
    (L, "            let tokenizer = self.field_tokenizers[i].as_ref();\n", "")])
same("help_count", [(L, FREQ, "            let token_freq = count_tokens(tokens);\n"), (L, "\nimpl Index {\n", "\nfn count_tokens(tokens: Vec<String>) -> BTreeMap<String, u64> {\n    let mut counts = BTreeMap::new();\n    for token in tokens {\n        *counts.entry(token).or_insert(0) += 1;\n    }\n    counts\n}\n\nimpl Index {\n")])
same("help_index", [(L, FREQ + "\n" + ADDT if FREQ + "\n" + ADDT in BODY else FREQ + ADDT, "            self.index_tokens(doc_ref, i, tokens);\n"),
    (L, GETF, GETF + "\n    fn index_tokens(&mut self, doc_ref: &str, i: usize, tokens: Vec<String>) {\n        let field = &self.fields[i];\n        let mut token_freq = BTreeMap::new();\n        for token in tokens {\n            *token_freq.entry(token).or_insert(0u64) += 1;\n        }\n        for (token, count) in token_freq {\n            self.index\n                .get_mut(field)\n                .unwrap_or_else(|| panic!(\"InvertedIndex does not exist for field {}\", field))\n                .add_token(doc_ref, &token, (count as f64).sqrt());\n        }\n    }\n")])
same("free_index", [(L, ADDT, "            let inverted_index = self\n                .index\n                .get_mut(field)\n                .unwrap_or_else(|| panic!(\"InvertedIndex does not exist for field {}\", field));\n            add_tokens(inverted_index, doc_ref, &token_freq);\n"),
    (L, "\nimpl Index {\n", "\nfn add_tokens(index: &mut InvertedIndex, doc_ref: &str, token_freq: &BTreeMap<String, u64>) {\n    token_freq\n        .iter()\n        .for_each(|(token, &count)| index.add_token(doc_ref, token, (count as f64).sqrt()));\n}\n\nimpl Index {\n")])

same("collect_values", [(L, HEAD, "        let values: Vec<I::Item> = data.into_iter().collect();\n" + HEAD.replace("data.into_iter().enumerate()", "values.iter().enumerate()"))])
same("while_let", [(L, HEAD, HEAD.replace("        for (i, value) in data.into_iter().enumerate() {\n", "        let mut data = data.into_iter().enumerate();\n        while let Some((i, value)) = data.next() {\n"))])
same("two_passes", [(L, BODY[:BODY.index(RAW)], """        let values: Vec<String> = data.into_iter().map(|v| v.as_ref().to_string()).collect();
        let mut doc = BTreeMap::new();
        doc.insert(self.ref_field.clone(), doc_ref.to_string());
        for (i, value) in values.iter().enumerate() {
            doc.insert(self.fields[i].clone(), value.clone());
        }

        for (i, value) in values.iter().enumerate() {
            let field = &self.fields[i];
            let tokenizer = self.field_tokenizers[i].as_ref();
            if *field == self.ref_field {
                continue;
            }

"""),])
V[-1]["edits"] = [(L, BODY[:BODY.index(RAW)], V[-1]["edits"][0][2]), ]
same("text_var", [(L, "            doc.insert(field.clone(), value.as_ref().to_string());\n", "            let text = value.as_ref();\n            doc.insert(field.to_owned(), text.to_owned());\n"), (L, RAW, RAW.replace("value.as_ref()", "text"))])
same("map_or_else", [(L, RAW, "            let raw_tokens = tokenizer.map_or_else(\n                || self.lang.tokenize(value.as_ref()),\n                |tokenizer| tokenizer(value.as_ref()),\n            );\n")])
same("count_run_lengths", [(L, FREQ, "            let mut tokens = tokens;\n            tokens.sort();\n            let mut token_freq: BTreeMap<String, u64> = BTreeMap::new();\n            for token in tokens {\n                let n = token_freq.get(&token).copied().unwrap_or(0);\n                token_freq.insert(token, n + 1);\n            }\n")])
same("count_contains", [(L, FREQ, "            let mut token_freq: BTreeMap<String, u64> = BTreeMap::new();\n            for token in tokens {\n                if let Some(count) = token_freq.get_mut(&token) {\n                    *count += 1;\n                } else {\n                    token_freq.insert(token, 1);\n                }\n            }\n")])
same("count_f64", [(L, FREQ, FREQ.replace("0u64) += 1;", "0f64) += 1.;")), (L, "                let freq = (*count as f64).sqrt();\n", "                let freq = count.sqrt();\n")])
same("count_u32", [(L, FREQ, FREQ.replace("0u64) += 1;", "0usize) += 1;"))])
same("sqrt_map", [(L, ADDT, "            let freqs = token_freq\n                .iter()\n                .map(|(token, count)| (token, (*count as f64).sqrt()));\n            for (token, freq) in freqs {\n                self.index\n                    .get_mut(field)\n                    .expect(\"an inverted index for every field\")\n                    .add_token(doc_ref, token, freq);\n            }\n")])
same("index_mut", [(L, ADDT, "            if let Some(inverted_index) = self.index.get_mut(field) {\n                for (token, count) in &token_freq {\n                    inverted_index.add_token(doc_ref, token, (*count as f64).sqrt());\n                }\n            } else {\n                panic!(\"InvertedIndex does not exist for field {}\", field);\n            }\n")])
same("lens_before", [(L, LENS, ""), (L, FREQ, "            let field_length = tokens.len();\n" + FREQ), (L, ADDT, ADDT + "\n            self.document_store\n                .add_field_length(doc_ref, field, field_length);\n")])
same("is_ref_var", [(L, "            if field == &self.ref_field {\n                continue;\n            }\n", "            let is_ref = *field == self.ref_field;\n            if is_ref {\n                continue;\n            }\n")])
same("doc_iter", [(L, "        let mut doc = BTreeMap::new();\n        doc.insert(self.ref_field.clone(), doc_ref.into());\n", "        let mut doc: BTreeMap<String, String> =\n            std::iter::once((self.ref_field.clone(), doc_ref.to_string())).collect();\n")])
same("doc_entry", [(L, "            doc.insert(field.clone(), value.as_ref().to_string());\n", "            *doc.entry(field.clone()).or_default() = value.as_ref().to_string();\n")])
# builder
DUPF = "        if self.fields.contains(&field) {\n            panic!(\"Duplicate fields in index: {}\", field);\n        }\n        self.fields.push(field);\n        self.field_tokenizers.push(None);\n"
DUPT = DUPF.replace("push(None)", "push(Some(tokenizer))")
same("push_field", [(L, "        let field = field.into();\n" + DUPF + "        self\n", "        self.push_field(field, None);\n        self\n"), (L, "        let field = field.into();\n" + DUPT + "        self\n", "        self.push_field(field, Some(tokenizer));\n        self\n"),
    (L, "impl IndexBuilder {\n", "impl IndexBuilder {\n    fn push_field(&mut self, field: &str, tokenizer: Tokenizer) {\n        assert!(\n            !self.fields.iter().any(|f| f == field),\n            \"Duplicate fields in index: {}\",\n            field\n        );\n        self.fields.push(field.to_string());\n        self.field_tokenizers.push(tokenizer);\n    }\n\n")])
same("add_field_via", [(L, "        let field = field.into();\n" + DUPF + "        self\n", "        self.field(field, None)\n"), (L, "        let field = field.into();\n" + DUPT + "        self\n", "        self.field(field, Some(tokenizer))\n"),
    (L, "impl IndexBuilder {\n", "impl IndexBuilder {\n    fn field(mut self, field: &str, tokenizer: Tokenizer) -> Self {\n        let field: String = field.into();\n        if self.fields.contains(&field) {\n            panic!(\"Duplicate fields in index: {}\", field);\n        }\n        self.fields.push(field);\n        self.field_tokenizers.push(tokenizer);\n        self\n    }\n\n")])
same("build_extend", [(L, "        let index = fields\n            .iter()\n            .map(|f| (f.clone(), InvertedIndex::new()))\n            .collect();\n", "        let mut index = BTreeMap::new();\n        index.extend(fields.iter().cloned().map(|f| (f, InvertedIndex::default())));\n")])
same("build_direct", [(L, "        let index = fields\n            .iter()\n            .map(|f| (f.clone(), InvertedIndex::new()))\n            .collect();\n", "        let mut index = BTreeMap::new();\n        for field in &fields {\n            index.entry(field.clone()).or_insert_with(InvertedIndex::new);\n        }\n")])
same("new_builder", [(L, "        IndexBuilder::new().add_fields(fields).build()\n", "        let builder = IndexBuilder::new();\n        builder.add_fields(fields).build()\n")])
same("new_via_lang", [(L, "        IndexBuilder::new().add_fields(fields).build()\n", "        Self::with_language(Box::new(English::new()), fields)\n")])
same("withlang_full", [(L, "        Self {\n            language,\n            ..Default::default()\n        }\n", "        let mut builder = Self::new();\n        builder.language = language;\n        builder\n")])
same("default_new", [(L, "        IndexBuilder::new().add_fields(fields).build()\n", "        fields\n            .into_iter()\n            .fold(IndexBuilder::new(), |builder, field| builder.add_field(field.as_ref()))\n            .build()\n")])
same("to_json_writer", [(L, "        serde_json::to_string(&self).unwrap()\n", "        let mut out = Vec::with_capacity(128);\n        serde_json::to_writer(&mut out, self).unwrap();\n        String::from_utf8(out).unwrap()\n")])
same("to_json_expect", [(L, "        serde_json::to_string_pretty(&self).unwrap()\n", "        serde_json::to_string_pretty(self).expect(\"an index can always be serialized\")\n")])
# serializers
PSER = "        let mut seq = serializer.serialize_seq(Some(self.queue.len()))?;\n        for elem in &self.queue {\n            seq.serialize_element(&elem.name())?;\n        }\n        seq.end()\n"
same("ser_collect", [(P, PSER, "        serializer.collect_seq(self.queue.iter().map(|f| f.name()))\n"), (P, "use serde::ser::{Serialize, SerializeSeq, Serializer};", "use serde::ser::{Serialize, Serializer};")])
same("ser_tryfor", [(P, PSER, "        let mut seq = serializer.serialize_seq(Some(self.queue.len()))?;\n        self.queue\n            .iter()\n            .try_for_each(|f| seq.serialize_element(&f.name()))?;\n        seq.end()\n")])
same("ser_names", [(P, PSER, "        let names: Vec<String> = self.queue.iter().map(|f| f.name()).collect();\n        names.serialize(serializer)\n"), (P, "use serde::ser::{Serialize, SerializeSeq, Serializer};", "use serde::ser::{Serialize, Serializer};")])
same("ser_lang_helper", [(L, "            match crate::lang::from_name(v) {\n                Some(l) => Ok(l),\n                None => Err(E::custom(format!(\"Unknown language name: {}\", v))),\n            }\n", "            crate::lang::from_name(v)\n                .ok_or_else(|| E::custom(format_args!(\"Unknown language name: {}\", v)))\n")])
same("item_ser_string", [(II, "        let mut buf = [0u8; 4];\n        for (key, value) in map {\n            let key = key.encode_utf8(&mut buf);\n            ser_map.serialize_entry(key, value)?;\n        }\n", "        for (key, value) in map {\n            ser_map.serialize_entry(&key.to_string(), value)?;\n        }\n")])
same("item_ser_none", [(II, "ser.serialize_map(Some(map.len()))?", "ser.serialize_map(None)?")])
same("item_ser_keyval", [(II, "            ser_map.serialize_entry(key, value)?;\n", "            ser_map.serialize_key(key)?;\n            ser_map.serialize_value(value)?;\n")])
same("cfg_default_derive", [(CF, "impl Default for SearchBool {\n    fn default() -> Self {\n        SearchBool::Or\n    }\n}\n", "impl Default for SearchBool {\n    fn default() -> Self {\n        Self::Or\n    }\n}\n")])
same("cfg_rename", [(CF, "#[serde(rename_all = \"SCREAMING_SNAKE_CASE\")]\npub enum SearchBool {\n    Or,\n    And,\n", "pub enum SearchBool {\n    #[serde(rename = \"OR\")]\n    Or,\n    #[serde(rename = \"AND\")]\n    And,\n")])
same("item_rename_all", [(II, "    #[serde(rename = \"tf\")]\n    pub term_freq: f64,", "    #[serde(rename(serialize = \"tf\", deserialize = \"tf\"))]\n    pub term_freq: f64,")])
same("store_camel", [(DS, "#[serde(rename_all = \"camelCase\")]\npub struct DocumentStore {", "pub struct DocumentStore {"), (DS, "    pub doc_info: BTreeMap<String", "    #[serde(rename = \"docInfo\")]\n    pub doc_info: BTreeMap<String")])
# languages
same("tok_nohelper", [(LM, "        .map(|s| s.trim().to_lowercase())\n", "        .map(str::to_lowercase)\n")])
same("lang_queue_push", [("src/lang/hu.rs", "        Pipeline {\n            queue: vec![\n                Box::new(RegexTrimmer::new(\"trimmer-hu\", r\"\\p{Latin}\")),\n                Box::new(StopWordFilter::new(\"stopWordFilter-hu\", STOP_WORDS)),\n                Box::new(RustStemmer::new(\"stemmer-hu\", Algorithm::Hungarian)),\n            ],\n        }\n",
    "        let mut queue: Vec<Box<dyn crate::pipeline::PipelineFn>> = Vec::new();\n        queue.push(Box::new(RegexTrimmer::new(\"trimmer-hu\", r\"\\p{Latin}\")));\n        queue.push(Box::new(StopWordFilter::new(\"stopWordFilter-hu\", STOP_WORDS)));\n        queue.push(Box::new(RustStemmer::new(\"stemmer-hu\", Algorithm::Hungarian)));\n        Pipeline { queue }\n")])
same("lang_common_fn", [("src/lang/hu.rs", "        Pipeline {\n            queue: vec![\n                Box::new(RegexTrimmer::new(\"trimmer-hu\", r\"\\p{Latin}\")),\n                Box::new(StopWordFilter::new(\"stopWordFilter-hu\", STOP_WORDS)),\n                Box::new(RustStemmer::new(\"stemmer-hu\", Algorithm::Hungarian)),\n            ],\n        }\n",
    "        standard(\"hu\", r\"\\p{Latin}\", STOP_WORDS, Algorithm::Hungarian)\n"),
    ("src/lang/hu.rs", "const STOP_WORDS: &[&str] = &[\n", "fn standard(code: &str, chars: &str, words: &[&str], algorithm: Algorithm) -> Pipeline {\n    Pipeline {\n        queue: vec![\n            Box::new(RegexTrimmer::new(&format!(\"trimmer-{}\", code), chars)),\n            Box::new(StopWordFilter::new(&format!(\"stopWordFilter-{}\", code), words)),\n            Box::new(RustStemmer::new(&format!(\"stemmer-{}\", code), algorithm)),\n        ],\n    }\n}\n\nconst STOP_WORDS: &[&str] = &[\n")])
same("ko_stem_closure", [("src/lang/ko.rs", "FnWrapper(\"stemmer-ko\".into(), stemmer)", "FnWrapper(\"stemmer-ko\".to_string(), |token| Some(token))"), ("src/lang/ko.rs", "fn stemmer(token: String) -> Option<String> {\n    Some(token)\n}\n\n", "")])
same("en_trim_helper", [(EN, "            .trim_matches(|c: char| !c.is_digit(36) && c != '_')\n", "            .trim_matches(|c: char| !is_word_char(c))\n"), (EN, "fn trimmer(token: String)", "fn is_word_char(c: char) -> bool {\n    c == '_' || c.is_digit(36)\n}\n\nfn trimmer(token: String)")])
same("en_trim_alnum", [(EN, "!c.is_digit(36) && c != '_'", "!(c.is_ascii_alphanumeric() || c == '_')")])
same("en_trim_two", [(EN, "            .trim_matches(|c: char| !c.is_digit(36) && c != '_')\n", "            .trim_start_matches(|c: char| !c.is_digit(36) && c != '_')\n            .trim_end_matches(|c: char| !c.is_digit(36) && c != '_')\n")])
same("stop_retain", [(CM, "            stop_words: stop_words.iter().map(|s| s.to_string()).collect(),\n", "            stop_words: stop_words.iter().copied().map(String::from).collect(),\n")])
same("stop_loop", [(CM, "        Self {\n            name: name.into(),\n            stop_words: stop_words.iter().map(|s| s.to_string()).collect(),\n        }\n", "        let mut words = HashSet::with_capacity(stop_words.len());\n        for word in stop_words {\n            words.insert(word.to_string());\n        }\n        Self {\n            name: name.to_string(),\n            stop_words: words,\n        }\n")])
same("stop_cmp", [(CM, "        if self.stop_words.contains(&token) {\n            None\n        } else {\n            Some(token)\n        }\n", "        if !self.stop_words.contains(token.as_str()) {\n            return Some(token);\n        }\n        None\n")])
same("stemmer_into", [(CM, "        let result = self.stemmer.stem(&token);\n        if result.is_empty() {\n            None\n        } else if result == token {\n            Some(token)\n        } else {\n            Some(result.into())\n        }\n", "        let result = self.stemmer.stem(&token).into_owned();\n        if result.is_empty() {\n            None\n        } else {\n            Some(result)\n        }\n")])
same("stemmer_filter", [(CM, "        let result = self.stemmer.stem(&token);\n        if result.is_empty() {\n            None\n        } else if result == token {\n            Some(token)\n        } else {\n            Some(result.into())\n        }\n", "        Some(self.stemmer.stem(&token).to_string()).filter(|s| !s.is_empty())\n")])
same("fromcode_find", [(LM, "            match code.to_ascii_lowercase().as_str() {\n                $(\n                    $(#[$cfgs])?\n                    stringify!($code) => Some(Box::new($code::$name::new())),\n                )+\n                _ => None,\n            }\n", "            let code = code.to_ascii_lowercase();\n            $(\n                $(#[$cfgs])?\n                if code == stringify!($code) {\n                    return Some(Box::new($code::$name::new()));\n                }\n            )+\n            None\n")])
same("fromcode_eqic", [(LM, "            match code.to_ascii_lowercase().as_str() {\n                $(\n                    $(#[$cfgs])?\n                    stringify!($code) => Some(Box::new($code::$name::new())),\n                )+\n                _ => None,\n            }\n", "            $(\n                $(#[$cfgs])?\n                if code.eq_ignore_ascii_case(stringify!($code)) {\n                    return Some(Box::new($code::$name::new()));\n                }\n            )+\n            None\n")])
same("fromname_search", [(LM, "            match name {\n                $(\n                    $(#[$cfgs])?\n                    stringify!($name) => Some(Box::new($code::$name::new())),\n                )+\n                _ => None,\n            }\n", "            languages().into_iter().find(|lang| lang.name() == name)\n")])
# bugs
bug("freq_mut_all", ["C08"], L, "                let freq = (*count as f64).sqrt();\n", "                let freq = (*count as f32).sqrt() as f64;\n")
bug("ref_value", ["C10"], L, "            doc.insert(field.clone(), value.as_ref().to_string());\n", "            doc.entry(field.clone()).or_insert_with(|| value.as_ref().to_string());\n")
bug("crlf", ["C10"], L, "            doc.insert(field.clone(), value.as_ref().to_string());\n", "            doc.insert(field.clone(), value.as_ref().replace(\"\\r\\n\", \"\\n\"));\n")
bug("len_bytes", ["C09"], L, LENS, LENS.replace("tokens.len()", "tokens.iter().filter(|t| t.len() > 1).count()"))
bug("len_skip_zero", ["C09"], L, LENS, "            if !tokens.is_empty() {\n    " + LENS.replace("\n", "\n    ").rstrip() + "\n            }\n")
bug("tok_raw_ws", ["C12"], L, "                self.lang.tokenize(value.as_ref())\n", "                crate::lang::tokenize_whitespace(value.as_ref())\n")
bug("pipe_twice", ["C07", "C12"], L, TOKS, "            let tokens = self.pipeline.run(self.pipeline.run(raw_tokens));\n")
bug("pipe_lang", ["C12"], L, TOKS, "            let tokens = self.lang.make_pipeline().run(raw_tokens);\n")
bug("store_first", ["C10", "C29", "C02"], [(L, "        self.document_store.add_doc(doc_ref, doc);\n", "        if doc.len() > 1 {\n            self.document_store.add_doc(doc_ref, doc);\n        }\n")])
bug("build_savefirst", ["C12"], L, "            document_store: DocumentStore::new(save),\n", "            document_store: DocumentStore::new(save && !ref_field.is_empty()),\n") if False else None
bug("build_index_lower", ["C11"], L, "            .map(|f| (f.clone(), InvertedIndex::new()))\n", "            .map(|f| (f.trim().to_string(), InvertedIndex::new()))\n")
bug("withlang_pipe", ["C12"], L, "            language,\n            ..Default::default()\n", "            pipeline: Some(language.make_pipeline()),\n            language: Box::new(English::new()),\n            ..Default::default()\n")
bug("addfields_rev", ["C11"], L, "        for field in fields {\n            self = self.add_field(field.as_ref())\n        }\n", "        let fields: Vec<_> = fields.into_iter().collect();\n        for field in fields.iter().rev() {\n            self = self.add_field(field.as_ref())\n        }\n")
bug("addfields_trim", ["C11"], L, "            self = self.add_field(field.as_ref())\n", "            self = self.add_field(field.as_ref().trim())\n")
bug("ser_lang_code", ["C23"], L, "        serializer.serialize_str(&lang.name())\n", "        serializer.serialize_str(&lang.code())\n")
bug("ser_item_rev", [], II, "        for (key, value) in map {\n", "        for (key, value) in map.iter().rev() {\n")
V.pop()
bug("ser_item_ctrl", ["C23", "C24"], II, "        for (key, value) in map {\n", "        for (key, value) in map.iter().filter(|(c, _)| !c.is_control()) {\n")
bug("ser_item_empty", ["C23", "C24"], II, "        for (key, value) in map {\n", "        for (key, value) in map {\n            if value.docs.is_empty() && value.children.is_empty() {\n                continue;\n            }\n")
bug("ser_df_u8", ["C23", "C24"], II, "    #[serde(rename = \"df\")]\n    pub doc_freq: i64,", "    #[serde(rename = \"df\", skip_serializing_if = \"is_zero\")]\n    pub doc_freq: i64,") if False else None
bug("ser_docs_skip", ["C23", "C24"], II, "    pub docs: BTreeMap<String, TermFrequency>,", "    #[serde(skip_serializing_if = \"BTreeMap::is_empty\", default)]\n    pub docs: BTreeMap<String, TermFrequency>,")
bug("ser_pipe_dedup", ["C23"], P, "        for elem in &self.queue {\n            seq.serialize_element(&elem.name())?;\n        }\n", "        let mut last = String::new();\n        for elem in &self.queue {\n            let name = elem.name();\n            if name != last {\n                seq.serialize_element(&name)?;\n            }\n            last = name;\n        }\n")
bug("ser_info_skip", ["C23", "C24"], DS, "    pub doc_info: BTreeMap<String, BTreeMap<String, usize>>,", "    #[serde(skip_serializing_if = \"BTreeMap::is_empty\")]\n    pub doc_info: BTreeMap<String, BTreeMap<String, usize>>,")
bug("cfg_and", ["C25"], CF, "    fn default() -> Self {\n        SearchBool::Or\n", "    fn default() -> Self {\n        SearchBool::And\n") if False else None
bug("cfg_skip_fields", ["C25"], CF, "    pub fields: BTreeMap<String, SearchOptionsField>,", "    #[serde(skip_serializing_if = \"BTreeMap::is_empty\", default)]\n    pub fields: BTreeMap<String, SearchOptionsField>,")
bug("tok_ascii", ["C18"], LM, "        .map(|s| s.trim().to_lowercase())\n", "        .map(|s| s.trim().to_ascii_lowercase())\n")
bug("tok_nbsp", ["C18"], LM, "c.is_whitespace() || c == '-'", "c.is_whitespace() && c != '\\u{a0}' || c == '-'")
bug("tok_fold", ["C18"], LM, "        .map(|s| s.trim().to_lowercase())\n", "        .map(|s| s.trim().chars().flat_map(char::to_lowercase).collect())\n")
bug("tok_hyphen", ["C18"], LM, "c == '-'", "c == '-' || c == '\\u{2010}'")
bug("hu_trimchars", ["C15", "C19"], "src/lang/hu.rs", "r\"\\p{Latin}\"", "r\"a-zA-Z\"")
bug("ko_trimchars", ["C15", "C19"], "src/lang/ko.rs", "r\"\\p{Latin}\\p{Hangul}\"", "r\"\\p{Hangul}\"")
bug("stop_len", ["C19"], CM, "        if self.stop_words.contains(&token) {\n", "        if token.len() < 20 && self.stop_words.contains(&token) {\n") if False else None
bug("stop_first", ["C19"], CM, "        if self.stop_words.contains(&token) {\n", "        if self.stop_words.contains(token.trim_end_matches('\\'')) {\n")
bug("stemmer_short", ["C15", "C19"], CM, "        let result = self.stemmer.stem(&token);\n", "        if token.chars().count() > 60 {\n            return None;\n        }\n        let result = self.stemmer.stem(&token);\n")
bug("trim_lower", ["C19"], CM, "            Some(result.into())\n        }\n    }\n}\n\n#[cfg(feature = \"rust-stemmers\")]\npub struct", "            Some(result.to_lowercase())\n        }\n    }\n}\n\n#[cfg(feature = \"rust-stemmers\")]\npub struct")
bug("code_two", ["C14"], LM, "            match code.to_ascii_lowercase().as_str() {\n", "            match code.to_ascii_lowercase().split('-').next().unwrap_or(\"\") {\n")
bug("name_trim", ["C14"], LM, "            match name {\n", "            match name.trim() {\n")
bug("ar_order", ["C20"], "src/lang/ar.rs", "\\u{0671}\\u{0649}", "\\u{0671}")
bug("get_df_children", ["C06"], II, "map_or(0, |node| node.doc_freq)", "map_or(0, |node| node.doc_freq.max(1))")
bug("get_tf_default", ["C06"], II, "map_or(0., |docs| docs.term_freq)", "map_or(f64::NAN, |docs| docs.term_freq)")
bug("inv_prune", ["C04", "C05"], II, "                item.docs.remove(doc_ref);\n                item.doc_freq -= 1;\n", "                item.docs.remove(doc_ref);\n                item.doc_freq -= 1;\n                if item.doc_freq == 0 {\n                    item.children.clear();\n                }\n")
bug("inv_prune_item", ["C04", "C05"], II, "                item.docs.remove(doc_ref);\n                item.doc_freq -= 1;\n", "                item.docs.remove(doc_ref);\n                item.doc_freq -= 1;\n                if item.doc_freq == 0 {\n                    *item = Default::default();\n                }\n")
bug("store_remove_pref", ["C03"], DS, "        self.doc_info.remove(doc_ref);\n", "        self.doc_info.retain(|k, _| !k.starts_with(doc_ref));\n")
bug("store_emptyref", ["C01", "C02"], DS, "        if !self.has_doc(doc_ref) {\n            self.length += 1;\n        }\n", "        if doc_ref.is_empty() {\n            return;\n        }\n        if !self.has_doc(doc_ref) {\n            self.length += 1;\n        }\n")
VARIANTS = V = [v for v in V if v]
