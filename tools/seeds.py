# Planted bugs: id, property, edits (file, old, new), main.rs of the demonstration, features, needs, breaks.
SEEDS = []


def S(id, prop, edits, main, needs, breaks, features=(), outside=None):
    SEEDS.append(dict(outside=outside, id=id, property=prop, edits=edits, main=main, needs=needs, breaks=breaks, features=list(features)))


DS, INV, LIB, PIPE, MOD, COM, EN = ("src/document_store.rs", "src/inverted_index.rs", "src/lib.rs", "src/pipeline.rs", "src/lang/mod.rs", "src/lang/common.rs", "src/lang/en.rs")

S("store_len_saved", "C01", [(DS, "        if !self.has_doc(doc_ref) {\n            self.length += 1;\n        }\n\n        self.docs.insert(", "        if self.docs.get(doc_ref).map_or(true, |d| d.is_empty()) {\n            self.length += 1;\n        }\n\n        self.docs.insert(")],
'''use elasticlunr::document_store::DocumentStore;
use std::collections::BTreeMap;
fn main() {
    let mut s = DocumentStore::new(false);
    s.add_doc("1", BTreeMap::new());
    s.add_doc("2", BTreeMap::new());
    s.add_doc("1", BTreeMap::new());
    assert_eq!(s.length, s.docs.len());
    let mut s = DocumentStore::new(true);
    s.add_doc("1", BTreeMap::new());
    s.add_doc("1", BTreeMap::new());
    assert_eq!(s.length, 1);
}
''', "a document added a second time to a store that keeps no texts", "the recorded number of documents grows although no document was added")

S("store_first_length", "C03", [(DS, "            .entry(doc_ref.into())\n            .or_default()\n            .insert(field.into(), length);", "            .entry(doc_ref.into())\n            .or_default()\n            .entry(field.into())\n            .or_insert(length);")],
'''use elasticlunr::document_store::DocumentStore;
use std::collections::BTreeMap;
fn main() {
    let mut s = DocumentStore::new(true);
    s.add_doc("1", BTreeMap::new());
    s.add_field_length("1", "body", 4);
    s.add_field_length("1", "body", 9);
    assert_eq!(s.get_field_length("1", "body"), 9);
}
''', "a field length recorded twice for the same document and field", "the length of the first version of the document is reported for the second")

S("store_get_unsaved", "C02", [(DS, "            if self.save { doc } else { BTreeMap::new() },", "            if self.save || doc.contains_key(\"id\") && doc.len() == 1 { doc } else { BTreeMap::new() },")],
'''use elasticlunr::document_store::DocumentStore;
use std::collections::BTreeMap;
fn main() {
    let mut s = DocumentStore::new(false);
    let mut d = BTreeMap::new();
    d.insert("id".to_string(), "1".to_string());
    s.add_doc("1", d);
    assert_eq!(s.get_doc("1").unwrap(), BTreeMap::new());
}
''', "a document with exactly one entry in a store that is told not to keep texts", "the text of the document is kept")

S("inv_df_zero", "C04", [(INV, "            if !item.docs.contains_key(doc_ref) {\n                item.doc_freq += 1;\n            }", "            if !item.docs.contains_key(doc_ref) && item.doc_freq >= item.docs.len() as i64 {\n                item.doc_freq += 1;\n            } else if item.docs.get(doc_ref).map_or(false, |t| t.term_freq == 0.) {\n                item.doc_freq += 1;\n            }")],
'''use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("1", "foo", 0.);
    i.add_token("1", "foo", 0.);
    assert_eq!(i.get_doc_frequency("foo"), 1);
    assert_eq!(i.get_docs("foo").unwrap().len(), 1);
}
''', "a token added twice for the same document with frequency 0", "the document frequency counts the document twice")

S("inv_keep_higher", "C04", [(INV, "            item.docs\n                .insert(doc_ref.into(), TermFrequency { term_freq });", "            let old = item.docs.get(doc_ref).map_or(term_freq, |t| t.term_freq);\n            let term_freq = if term_freq < old { old } else { term_freq };\n            item.docs\n                .insert(doc_ref.into(), TermFrequency { term_freq });")],
'''use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("1", "foo", 3.);
    i.add_token("1", "foo", 1.);
    assert_eq!(i.get_term_frequency("1", "foo"), 1.);
}
''', "a document indexed again with a lower frequency for a token", "the old, higher frequency stays")

S("index_skip_blank", "C10", [(LIB, "            doc.insert(field.clone(), value.as_ref().to_string());\n", "            if !value.as_ref().trim().is_empty() {\n                doc.insert(field.clone(), value.as_ref().to_string());\n            }\n")],
'''fn main() {
    let mut i = elasticlunr::Index::new(&["title", "body"]);
    i.add_doc("1", &["  ", "apple"]);
    let v: serde_json::Value = serde_json::from_str(&i.to_json()).unwrap();
    assert_eq!(v["documentStore"]["docs"]["1"]["title"], "  ");
}
''', "a document with a field of blanks only", "the field is missing from the stored document")

S("builder_tokenizer_slot", "C11", [(LIB, "        self.fields.push(field);\n        self.field_tokenizers.push(Some(tokenizer));\n", "        self.fields.push(field);\n        let at = self.field_tokenizers.iter().rposition(|t| t.is_none()).map_or(self.field_tokenizers.len(), |p| p + 1);\n        self.field_tokenizers.insert(at, Some(tokenizer));\n")],
'''use elasticlunr::IndexBuilder;
fn up(s: &str) -> Vec<String> { vec![format!("xx{}", s.len())] }
fn down(s: &str) -> Vec<String> { vec![format!("yy{}", s.len())] }
fn main() {
    let mut i = IndexBuilder::new().add_field("x").add_field_with_tokenizer("a", Box::new(up)).add_field_with_tokenizer("b", Box::new(down)).build();
    i.add_doc("1", &["q", "q", "q"]);
    let v: serde_json::Value = serde_json::from_str(&i.to_json()).unwrap();
    assert!(v["index"]["a"]["root"]["x"].is_object(), "{}", v["index"]["a"]);
    assert!(v["index"]["b"]["root"]["y"].is_object());
}
''', "two fields with tokenizers of their own after one without", "each of the two fields is split by the tokenizer of the other")

S("ko_order", "C15", [("src/lang/ko.rs", '''                Box::new(StopWordFilter::new("stopWordFilter-ko", STOP_WORDS)),
                Box::new(FnWrapper("stemmer-ko".into(), stemmer)),''', '''                Box::new(FnWrapper("stemmer-ko".into(), stemmer)),
                Box::new(StopWordFilter::new("stopWordFilter-ko", STOP_WORDS)),''')],
'''use elasticlunr::lang::{Language, Korean};
fn main() {
    let p = Korean::new().make_pipeline();
    let n: Vec<String> = p.queue.iter().map(|f| f.name()).collect();
    assert_eq!(n, vec!["trimmer-ko", "stopWordFilter-ko", "stemmer-ko"]);
}
''', "a reader of the serialized pipeline (the Korean stemmer itself does nothing)", "the functions run, and are written, in another order", ["ko"])

S("trim_keep_single", "C16", [(COM, "        let result = self.trimmer.replace_all(&token, \"\");\n        if result.is_empty() {", "        let result = self.trimmer.replace_all(&token, \"\");\n        if result.is_empty() && token.len() > 1 {")],
'''use elasticlunr::lang::{Language, French};
fn main() {
    let p = French::new().make_pipeline();
    for t in &["!", "!!", "..."] {
        assert_eq!(p.queue[0].filter(t.to_string()), None);
    }
}
''', "a token of one byte that is no word character", "an empty token leaves the trimmer", ["fr"])

S("stop_quote", "C19", [(COM, "        if self.stop_words.contains(&token) {", "        if self.stop_words.contains(token.trim_end_matches('\\'')) {")],
'''use elasticlunr::lang::{Language, English};
fn main() {
    let p = English::new().make_pipeline();
    assert_eq!(p.queue[1].filter("the".into()), None);
    assert_eq!(p.queue[1].filter("the'".into()), Some("the'".into()));
}
''', "a token that is a stop word followed by an apostrophe, handed to the filter", "a token that is not in the list is dropped")

S("tok_cr", "C18", [(MOD, "    text.split(|c: char| c.is_whitespace() || c == '-')", "    text.split(|c: char| c.is_ascii_whitespace() || c == '-')")],
'''use elasticlunr::lang::tokenize_whitespace;
fn main() {
    assert_eq!(tokenize_whitespace("one\\u{3000}two\\u{a0}three"), vec!["one", "two", "three"]);
}
''', "words separated by white space outside ASCII (a no-break space, an ideographic space)", "the words stay glued together in one token")

S("sv_last_word", "C17", [("src/lang/sv.rs", '                Box::new(StopWordFilter::new("stopWordFilter-sv", STOP_WORDS)),', '                Box::new(StopWordFilter::new("stopWordFilter-sv", &STOP_WORDS[..STOP_WORDS.len() - 1])),')],
'''use elasticlunr::lang::{Language, Swedish};
fn main() {
    let p = Swedish::new().make_pipeline();
    for t in &["och", "oss", "över"] {
        assert_eq!(p.run(vec![t.to_string()]), Vec::<String>::new(), "{}", t);
    }
}
''', "the last word of the Swedish list", "a stop word of the language is indexed", ["sv"])

S("hu_wordchars", "C19", [("src/lang/hu.rs", '                Box::new(RegexTrimmer::new("trimmer-hu", r"\\p{Latin}")),', '                Box::new(RegexTrimmer::new("trimmer-hu", r"a-zA-ZÀ-öø-ɏ")),')],
'''use elasticlunr::lang::{Language, Hungarian};
fn main() {
    let p = Hungarian::new().make_pipeline();
    assert_eq!(p.queue[0].filter("\\u{1e9e}x".into()), Some("\\u{1e9e}x".into()));
    assert_eq!(p.queue[0].filter("(ház)".into()), Some("ház".into()));
}
''', "a word that begins or ends with a Latin letter above U+024F", "a letter of the script is trimmed away", ["hu"])
S("ser_skip_empty", "C23", [(INV, "        for (key, value) in map {\n", "        for (key, value) in map.iter().filter(|(_, v)| v.doc_freq > 0 || v.children.len() != 1 || !v.docs.is_empty() || v.children.values().any(|c| c.doc_freq >= 0)) {\n            if value.doc_freq == 0 && value.children.is_empty() {\n                continue;\n            }\n")],
'''use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("1", "foo", 1.);
    i.remove_token("1", "foo");
    let s = serde_json::to_string(&i).unwrap();
    assert!(i.has_token("foo"));
    assert_eq!(s, r#"{"root":{"docs":{},"df":0,"f":{"docs":{},"df":0,"o":{"docs":{},"df":0,"o":{"docs":{},"df":0}}}}}"#);
}
''', "a token whose last document was removed", "the node is left out of the written index although the index still has it")

S("ser_key_lossy", "C24", [(INV, "            let key = key.encode_utf8(&mut buf);\n            ser_map.serialize_entry(key, value)?;", "            let low = key.to_ascii_lowercase();\n            let key = if map.contains_key(&low) { key.encode_utf8(&mut buf) } else { low.encode_utf8(&mut buf) };\n            ser_map.serialize_entry(&*key, value)?;")],
'''use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("1", "Foo", 1.);
    let s = serde_json::to_string(&i).unwrap();
    let j: InvertedIndex = serde_json::from_str(&s).unwrap();
    assert!(i == j);
}
''', "a token with an upper case letter (from a tokenizer that keeps case)", "an index that is written and read back differs: the key of the node is another letter")

S("count_narrow", "C29", [(LIB, "                *token_freq.entry(token).or_insert(0u64) += 1;", "                *token_freq.entry(token).or_insert(0u8) += 1;")],
'''fn main() {
    let mut i = elasticlunr::Index::new(&["body"]);
    let text = "apple ".repeat(300);
    i.add_doc("1", &[text]);
    let v: serde_json::Value = serde_json::from_str(&i.to_json()).unwrap();
    let n = v["index"]["body"]["root"]["a"]["p"]["p"]["l"]["docs"]["1"]["tf"].as_f64().unwrap();
    assert!((n - 300f64.sqrt()).abs() < 1e-9);
}
''', "a token that occurs more than 255 times in one field", "adding the document panics (or the count wraps around)")

S("index_len_cap", "C09", [(LIB, ".add_field_length(doc_ref, field, tokens.len());", ".add_field_length(doc_ref, field, tokens.len() & 0xffff);")],
'''fn main() {
    let mut i = elasticlunr::Index::new(&["body"]);
    let text = "apple ".repeat(70000);
    i.add_doc("1", &[text]);
    let v: serde_json::Value = serde_json::from_str(&i.to_json()).unwrap();
    assert_eq!(v["documentStore"]["docInfo"]["1"]["body"], 70000);
}
''', "a field of more than 65535 tokens", "the recorded field length is cut off to 16 bits")

S("index_long_token", "C07", [(LIB, "            for (token, count) in &token_freq {\n", "            for (token, count) in token_freq.iter().filter(|(t, _)| t.len() <= 255) {\n")],
'''fn main() {
    let mut i = elasticlunr::Index::new(&["body"]);
    let text = "x".repeat(300);
    i.add_doc("1", &[text]);
    assert_eq!(i.to_json().matches(r#""x":{"#).count(), 300);
}
''', "a token of more than 255 bytes", "the token is counted in the field length but cannot be found in the index")

S("index_freq_wrap", "C08", [(LIB, "                let freq = (*count as f64).sqrt();", "                let freq = f64::from(*count as u16).sqrt();")],
'''fn main() {
    let mut i = elasticlunr::Index::new(&["body"]);
    let text = "apple ".repeat(65537);
    i.add_doc("1", &[text]);
    let v: serde_json::Value = serde_json::from_str(&i.to_json()).unwrap();
    let n = v["index"]["body"]["root"]["a"]["p"]["p"]["l"]["docs"]["1"]["tf"].as_f64().unwrap();
    assert!((n - 65537f64.sqrt()).abs() < 1e-6);
}
''', "a token that occurs more than 65535 times in one field", "the frequency is that of the count cut off to 16 bits")

S("builder_save_sticky", "C12", [(LIB, "        self.save = save;\n", "        self.save &= save;\n")],
'''use elasticlunr::IndexBuilder;
fn main() {
    let mut i = IndexBuilder::new().save_docs(false).save_docs(true).add_field("a").build();
    i.add_doc("1", &["q"]);
    let v: serde_json::Value = serde_json::from_str(&i.to_json()).unwrap();
    assert_eq!(v["documentStore"]["save"], true);
    assert_eq!(v["documentStore"]["docs"]["1"]["a"], "q");
}
''', "save_docs called twice, first with false and then with true", "the last setting is not the one used")

S("run_queue_cap", "C13", [(PIPE, "            for func in &self.queue {\n", "            for func in self.queue.iter().take(8) {\n")],
'''use elasticlunr::pipeline::{FnWrapper, Pipeline, PipelineFn};
fn add(t: String) -> Option<String> { Some(t + "x") }
fn main() {
    let queue: Vec<Box<dyn PipelineFn>> = (0..12).map(|_| Box::new(FnWrapper("add".into(), add)) as Box<dyn PipelineFn>).collect();
    let p = Pipeline { queue };
    assert_eq!(p.run(vec!["a".into()]), vec!["axxxxxxxxxxxx".to_string()]);
}
''', "a queue of more than eight functions", "the functions after the eighth are not run")

S("code_trim", "C14", [(MOD, "            match code.to_ascii_lowercase().as_str() {", "            match code.trim_end_matches('_').to_ascii_lowercase().as_str() {")],
'''use elasticlunr::lang::from_code;
fn main() {
    assert_eq!(from_code("FR").unwrap().code(), "fr");
    assert!(from_code("fr_").is_none());
}
''', "a code followed by underscores", "a text that is not a code of a language is accepted", ["fr"])

# the English stemmer
STEM = '''use elasticlunr::lang::{English, Language};
fn main() {
    let p = English::new().make_pipeline();
    let got = p.run(vec!["%s".to_string()]);
    assert_eq!(got, vec!["%s".to_string()]);
}
'''
S('stem_s2_abli', 'C22', [(EN, '                if self.ends("bli") {\n                    self.r("ble");\n                    return;\n                } /*', '                if self.ends("abli") {\n                    self.r("able");\n                    return;\n                } /*')], STEM % ('sensibli', 'sensibl'), 'a word in -bli that does not end in -abli', '-bli is left alone unless an a precedes it, so the adverb is not found under its adjective')
S('stem_s2_logi', 'C22', [(EN, '                if self.ends("logi") {\n                    self.r("log");\n                }\n', '                if self.ends("ogi") {\n                    self.r("og");\n                }\n')], STEM % ('babogi', 'babogi'), 'a word ending in -ogi without an l', 'a suffix that is not in the table is rewritten')
S('stem_s4_ion_z', 'C22', [(EN, "self.b[self.j - 1] == b's' || self.b[self.j - 1] == b't')", "self.b[self.j - 1] == b's' || self.b[self.j - 1] == b't' || self.b[self.j - 1] == b'x')")], STEM % ('bababxion', 'bababxion'), 'a word in -xion whose stem has measure above 1', '-ion is taken off after an x')
S('stem_s1_us', 'C34', [(EN, "            } else if self.b[self.k - 2] != b's' {\n                self.k -= 1;", "            } else if !matches!(self.b[self.k - 2], b's' | b'q') {\n                self.k -= 1;")], STEM % ('tariqs', 'tariq'), 'a plural whose singular ends in q', 'the plural s stays')
S('stem_s1_iz', 'C34', [(EN, '            } else if self.ends("iz") {\n                self.set_to("ize");\n', '')], STEM % ('ababizing', 'abab'), 'a word in -iz after -ing or -ed', 'no e is put back')
S('stem_s1_lszf', 'C34', [(EN, "                    b'l' | b's' | b'z' => self.k += 1,", "                    b'f' | b'l' | b's' | b'z' => self.k += 1,")], STEM % ('stuffing', 'stuf'), 'a doubled f before -ing or -ed', 'the doubled f is kept')
S('stem_s1_dc', 'C34', [(EN, ' && self.b[i].is_ascii() && self.is_consonant(i)', ' && self.b[i].is_ascii()')], STEM % ('wooed', 'woo'), 'a doubled vowel before -ed or -ing', 'one of two vowels is taken off')
S('stem_s1c_k1', 'C34', [(EN, '        if self.k > 2\n            && self.ends("y")', '        if self.k > 1\n            && self.ends("y")')], STEM % ('bys', 'by'), 'a word that is two letters long once its plural s is gone', 'a final y of a two-letter stem becomes i')
S('stem_s5_ss', 'C34', [(EN, "        if self.b[self.k - 1] == b'l' && self.double_consonant", "        if matches!(self.b[self.k - 1], b'l' | b'z') && self.double_consonant")], STEM % ('ababizz', 'ababizz'), 'a long word ending in zz', 'one z is taken off')
S('stem_chars_guard', 'C21', [(EN, '    if word.len() > 2 {\n', '    if word.chars().count() >= 1 {\n')], STEM % ('s', 's'), 'a token of one letter', 'stemming a token of one letter panics')
S('stem_k_lower', 'C21', [(EN, '        let b = word.to_ascii_lowercase().into_bytes();\n        let k = b.len();\n', '        let b = word.to_lowercase().into_bytes();\n        let k = word.len();\n')], STEM % ('aİİa', 'aİİa'), 'a letter whose lower-case form is longer', 'stemming cuts inside a character and panics')

# ---- inverted index, search options, serialization, determinism, stack, encapsulation
S("inv_remove_short", "C05", [(INV, """            for character in iter {
                item = match item.children.get_mut(&character) {
                    Some(child) => child,
                    None => return,
                };
            }
""", """            for character in iter {
                if !item.children.contains_key(&character) {
                    break;
                }
                item = item.children.get_mut(&character).unwrap();
            }
""")],
'''use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("1", "boat", 1.);
    i.remove_token("1", "boats");
    assert_eq!(i.get_doc_frequency("boat"), 1);
}
''', "a token is removed that was never added but continues one that was", "the document loses the shorter token")
S("inv_bom_lookup", "C05", [(INV, "        let mut root = self;\n        for ch in token.chars() {\n", "        let mut root = self;\n        for ch in token.trim_start_matches('\\u{feff}').chars() {\n")],
'''use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("1", "\\u{feff}boat", 1.);
    assert!(i.has_token("\\u{feff}boat"));
    assert_eq!(i.get_doc_frequency("\\u{feff}boat"), 1);
}
''', "a token beginning with a byte-order mark", "lookups follow other characters than additions")
S("inv_add_combining", "C05", [(INV, "            for character in iter {\n                let tmp = item;\n", "            for character in iter.filter(|c| !('\\u{300}'..='\\u{36f}').contains(c)) {\n                let tmp = item;\n")],
'''use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("1", "cafe\\u{301}", 1.);
    assert!(i.has_token("cafe\\u{301}"));
    assert_eq!(i.get_doc_frequency("cafe"), 0);
}
''', "a token holding a combining mark after its first character", "the token is recorded at the entry of another token")
S("inv_docs_positive", "C06", [(INV, "                .iter()\n                .map(|(k, &v)| (k.clone(), v.term_freq))\n", "                .iter()\n                .filter(|(_, v)| v.term_freq > 0.)\n                .map(|(k, &v)| (k.clone(), v.term_freq))\n")],
'''use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("1", "boat", 0.);
    i.add_token("2", "boat", 1.);
    assert_eq!(i.get_docs("boat").unwrap().len() as i64, i.get_doc_frequency("boat"));
}
''', "a token recorded with term frequency 0", "the document map leaves out a document that the document frequency counts")
S("cfg_expand_false", "C25", [("src/config.rs", "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub expand: Option<bool>,\n}\n", "    #[serde(skip_serializing_if = \"unset\")]\n    pub expand: Option<bool>,\n}\n\nfn unset(option: &Option<bool>) -> bool {\n    !option.unwrap_or_default()\n}\n")],
'''use elasticlunr::config::SearchOptionsField;
fn main() {
    let o = SearchOptionsField { expand: Some(false), ..Default::default() };
    assert_eq!(serde_json::to_string(&o).unwrap(), "{\\"expand\\":false}");
}
''', "a field whose expansion is switched off explicitly", "the option is left out, so the search falls back to the global setting")
S("cfg_boost_zero", "C25", [("src/config.rs", "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub boost: Option<u8>,", "    #[serde(skip_serializing_if = \"SearchOptionsField::no_boost\")]\n    pub boost: Option<u8>,"), ("src/config.rs", "/// Sets which boolean model is used", "impl SearchOptionsField {\n    fn no_boost(boost: &Option<u8>) -> bool {\n        matches!(boost, None | Some(0))\n    }\n}\n\n/// Sets which boolean model is used")],
'''use elasticlunr::config::SearchOptionsField;
fn main() {
    let o = SearchOptionsField { boost: Some(0), ..Default::default() };
    assert_eq!(serde_json::to_string(&o).unwrap(), "{\\"boost\\":0}");
}
''', "a field boosted by 0, which excludes it from the search", "the boost is left out, so the field counts as usual")
S("ser_lang_check", "C26", [(LIB, "        serializer.serialize_str(&lang.name())\n", "        let name = lang.name();\n        if crate::lang::from_name(&name).is_none() {\n            return Err(serde::ser::Error::custom(format!(\n                \"Unknown language name: {}\",\n                name\n            )));\n        }\n        serializer.serialize_str(&name)\n")],
'''use elasticlunr::{lang::English, pipeline::Pipeline, Index, Language};
struct Pirate;
impl Language for Pirate {
    fn name(&self) -> String { "Pirate".into() }
    fn code(&self) -> String { "pi".into() }
    fn tokenize(&self, text: &str) -> Vec<String> { English::new().tokenize(text) }
    fn make_pipeline(&self) -> Pipeline { English::new().make_pipeline() }
}
fn main() {
    let mut i = Index::with_language(Box::new(Pirate), &["body"]);
    i.add_doc("1", &["arr"]);
    assert!(i.to_json().contains("Pirate"));
}
''', "an index with a language of the user's own", "serializing the index fails, so to_json panics")
S("ser_pipe_unnamed", "C26", [(PIPE, "        for elem in &self.queue {\n            seq.serialize_element(&elem.name())?;\n", "        for elem in &self.queue {\n            let name = elem.name();\n            if name.is_empty() {\n                return Err(serde::ser::Error::custom(\"unnamed pipeline function\"));\n            }\n            seq.serialize_element(&name)?;\n")],
'''use elasticlunr::pipeline::{FnWrapper, Pipeline};
fn keep(t: String) -> Option<String> { Some(t) }
fn main() {
    let p = Pipeline { queue: vec![Box::new(FnWrapper("".into(), keep))] };
    assert_eq!(serde_json::to_string(&p).unwrap(), "[\\"\\"]");
}
''', "a pipeline with a function whose name is empty", "serializing it fails, and to_json of an index with it panics")
S("store_info_hash", "C27", [(DS, "use std::collections::BTreeMap;\n\n/// The document store", "use std::collections::{BTreeMap, HashMap};\n\n/// The document store")] if False else [(DS, "    pub doc_info: BTreeMap<String, BTreeMap<String, usize>>,", "    pub doc_info: std::collections::HashMap<String, BTreeMap<String, usize>>,"), (DS, "            doc_info: BTreeMap::new(),", "            doc_info: Default::default(),")],
'''use elasticlunr::Index;
fn make() -> String {
    let mut i = Index::new(&["body"]);
    for n in 0..40 { i.add_doc(&n.to_string(), &["some words"]); }
    i.to_json()
}
fn main() { assert_eq!(make(), make()); }
''', "an index of more than one document, serialized twice", "the order of the documents' lengths in the text is that of a randomly seeded hash table")
S("index_id_static", "C27", [(LIB, "        for (i, value) in data.into_iter().enumerate() {\n", "        static WARM: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        if WARM.fetch_add(1, std::sync::atomic::Ordering::Relaxed) == 4096 {\n            // give memory of long-running builds back\n            doc.clear();\n        }\n\n        for (i, value) in data.into_iter().enumerate() {\n")],
'''use elasticlunr::Index;
fn make() -> String {
    let mut i = Index::new(&["body"]);
    for n in 0..1500 { i.add_doc(&n.to_string(), &["some words"]); }
    i.to_json()
}
fn main() {
    let first = make();
    for _ in 0..4 { assert_eq!(first, make()); }
}
''', "the 4097th document added in the process, to whatever index", "that document loses its reference, depending on what other indices did before")
S("inv_add_rec", "C28", [(INV, """            let mut item = self.children.entry(character).or_default();

            for character in iter {
                let tmp = item;
                item = tmp.children.entry(character).or_default();
            }

            if !item""", """            let item = self.children.entry(character).or_default();
            if !iter.as_str().is_empty() {
                return item.add_token(doc_ref, iter.as_str(), term_freq);
            }

            if !item""")],
'''use elasticlunr::inverted_index::InvertedIndex;
fn main() {
    let mut i = InvertedIndex::new();
    i.add_token("1", &"x".repeat(1_000_000), 1.);
    std::mem::forget(i);
}
''', "a token of many thousand characters", "adding it exhausts the stack")
S("pub_root", "C30", [(INV, "pub struct InvertedIndex {\n    root: IndexItem,", "pub struct InvertedIndex {\n    pub root: IndexItem,"), (INV, "Default)]\nstruct IndexItem {", "Default)]\npub struct IndexItem {"), (INV, "struct TermFrequency {", "pub struct TermFrequency {")],
'''fn main() {
    let mut i = elasticlunr::inverted_index::InvertedIndex::new();
    i.add_token("1", "boat", 1.);
    assert_eq!(i.get_doc_frequency("boat"), 1);
}
''', "code outside the crate that uses the field", "the nodes and counters of an inverted index can be changed from outside", outside='''fn main() {
    let mut i = elasticlunr::inverted_index::InvertedIndex::new();
    i.add_token("1", "boat", 1.);
    i.root.doc_freq = 7;
}
''')
S("pub_store_mut", "C30", [(LIB, "    /// Returns the index, serialized to pretty-printed JSON.", "    /// The stored documents, for instance to remove one.\n    pub fn documents(&mut self) -> &mut DocumentStore {\n        &mut self.document_store\n    }\n\n    /// Returns the index, serialized to pretty-printed JSON.")],
'''fn main() {
    let mut i = elasticlunr::Index::new(&["body"]);
    i.add_doc("1", &["boat"]);
    assert!(i.to_json().contains("boat"));
}
''', "code outside the crate that uses the accessor", "the store of an index can be changed without its inverted indices", outside='''fn main() {
    let mut i = elasticlunr::Index::new(&["body"]);
    i.add_doc("1", &["boat"]);
    i.documents().remove_doc("1");
}
''')
CMN = "src/lang/common.rs"
S("words_stem_long", "C35", [(CMN, "        let result = self.stemmer.stem(&token);\n", "        if token.len() > 64 {\n            // no dictionary word is that long\n            return Some(token);\n        }\n        let result = self.stemmer.stem(&token);\n")],
'''use elasticlunr::lang::{French, Language};
fn main() {
    let stem = |w: &str| French::new().make_pipeline().run(vec![w.to_string()]);
    let word = format!("{}ement", "abcd".repeat(20));
    assert_ne!(stem(&word), vec![word.clone()]);
}
''', "a token of more than 64 bytes", "long words are indexed with their endings, so that only one of their forms is found", features=["fr"])
S("words_stem_digits", "C35", [(CMN, "        let result = self.stemmer.stem(&token);\n", "        if token.bytes().any(|b| b.is_ascii_digit()) {\n            return Some(token);\n        }\n        let result = self.stemmer.stem(&token);\n")],
'''use elasticlunr::lang::{German, Language};
fn main() {
    let stem = |w: &str| German::new().make_pipeline().run(vec![w.to_string()]);
    assert_ne!(stem("u2formungen"), vec!["u2formungen".to_string()]);
}
''', "a token with a digit and an ending", "words with a digit in them are not stemmed", features=["de"])
S("words_ko_long", "C35", [("src/lang/ko.rs", "fn stemmer(token: String) -> Option<String> {\n    Some(token)\n", "fn stemmer(token: String) -> Option<String> {\n    // joined words\n    Some(token).filter(|token| token.len() <= 90)\n")],
'''use elasticlunr::lang::{Korean, Language};
fn main() {
    let word = "\\u{d55c}\\u{ae00}".repeat(20);
    assert_eq!(Korean::new().make_pipeline().run(vec![word.clone()]), vec![word]);
}
''', "a Korean token of more than 30 syllables", "long tokens are dropped by a stemmer that has no algorithm", features=["ko"])
S("words_zh_long", "C36", [("src/lang/zh.rs", "            .iter()\n            .map(|s| s.to_string())", "            .iter()\n            .filter(|s| s.len() < 64)\n            .map(|s| s.to_string())")],
'''use elasticlunr::lang::{Chinese, Language};
fn main() {
    let word = "a".repeat(80);
    assert!(Chinese::new().tokenize(&word).contains(&word));
}
''', "a word of 64 bytes or more", "long words are not indexed", features=["zh"])
S("words_ja_filler", "C36", [("src/lang/ja.rs", "Some(\"UNK\") => None", "Some(\"UNK\") | Some(\"フィラー\") => None")],
'''use elasticlunr::lang::{Japanese, Language};
fn main() {
    let ja = Japanese::new();
    assert!(ja.tokenize("えーと").contains(&"えーと".to_string()), "{:?}", ja.tokenize("えーと"));
}
''', "a word that lindera calls a filler", "fillers are left out of the index", features=["ja"])
S("words_ja_dedup", "C36", [("src/lang/ja.rs", "        self.tokenizer\n            .tokenize(text)\n            .unwrap()", "        let mut tokens: Vec<String> = self\n            .tokenizer\n            .tokenize(text)\n            .unwrap()"), ("src/lang/ja.rs", "            .collect()\n    }\n\n    fn make_pipeline", "            .collect();\n        tokens.dedup();\n        tokens\n    }\n\n    fn make_pipeline")],
'''use elasticlunr::lang::{Japanese, Language};
fn main() {
    let t = Japanese::new().tokenize("東京、東京");
    assert_eq!(t.iter().filter(|t| *t == "東京").count(), 2, "{:?}", t);
}
''', "a word that is repeated right away", "the second of two equal neighbours is lost, so the term frequency is too small", features=["ja"])
