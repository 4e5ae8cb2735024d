"""Structural edits (C27, C28, C30), and edits of lib.rs and pipeline.rs around them."""
V = []
L, P, DS, II, CM, LM, EN = "src/lib.rs", "src/pipeline.rs", "src/document_store.rs", "src/inverted_index.rs", "src/lang/common.rs", "src/lang/mod.rs", "src/lang/en.rs"


def _e(f, old, new): return [(f, old, new)] if not isinstance(f, list) else f
def bug(name, f, old, new, expect): V.append(dict(name="str_" + name, kind="bug", edits=_e(f, old, new), expect=[expect] if isinstance(expect, str) else list(expect)))
def same(name, f, old=None, new=None): V.append(dict(name="str_" + name, kind="same", edits=_e(f, old, new)))


GETF = "    pub fn get_fields(&self) -> &[String] {\n        &self.fields\n    }\n"
IMPLI = "\nimpl Index {\n"
FREQ = "            let mut token_freq = BTreeMap::new();\n            for token in tokens {\n                *token_freq.entry(token).or_insert(0u64) += 1;\n            }\n"
STORE = "        self.document_store.add_doc(doc_ref, doc);\n"
# ---- the same
same("acc_store", L, GETF, GETF + "\n    /// The document store\n    pub fn store(&self) -> &DocumentStore {\n        &self.document_store\n    }\n")
same("acc_lang", L, GETF, GETF + "\n    /// The language\n    pub fn language(&self) -> &dyn Language {\n        self.lang.as_ref()\n    }\n")
same("acc_field_index", L, GETF, GETF + "\n    /// The index of a field\n    pub fn field_index(&self, field: &str) -> Option<&InvertedIndex> {\n        self.index.get(field)\n    }\n")
same("acc_len", L, GETF, GETF + "\n    /// Number of documents\n    pub fn len(&self) -> usize {\n        self.document_store.len()\n    }\n\n    /// No documents?\n    pub fn is_empty(&self) -> bool {\n        self.len() == 0\n    }\n")
same("crate_root", II, "pub struct InvertedIndex {\n    root: IndexItem,", "pub struct InvertedIndex {\n    pub(crate) root: IndexItem,")
same("crate_item", II, "#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Default)]\nstruct IndexItem {", "#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Default)]\npub(crate) struct IndexItem {")
same("debug_index", L, IMPLI, "impl std::fmt::Debug for Index {\n    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {\n        f.debug_struct(\"Index\").field(\"fields\", &self.fields).finish()\n    }\n}\n\n" + IMPLI)
same("helper_free", [(L, "            let mut token_freq = BTreeMap::new();\n            for token in tokens {\n                *token_freq.entry(token).or_insert(0u64) += 1;\n            }\n", "            let token_freq = count(tokens);\n"),
                    (L, IMPLI, "fn count(tokens: Vec<String>) -> BTreeMap<String, u64> {\n    let mut counts = BTreeMap::new();\n    for token in tokens {\n        *counts.entry(token).or_insert(0) += 1;\n    }\n    counts\n}\n\n" + IMPLI)])
same("contains_set", L, "    pub fn add_fields<I>(mut self, fields: I) -> Self\n    where\n        I: IntoIterator,\n        I::Item: AsRef<str>,\n    {\n        for field in fields {\n            self = self.add_field(field.as_ref())\n        }\n        self\n    }",
     "    pub fn add_fields<I>(self, fields: I) -> Self\n    where\n        I: IntoIterator,\n        I::Item: AsRef<str>,\n    {\n        fields\n            .into_iter()\n            .fold(self, |builder, field| builder.add_field(field.as_ref()))\n    }")
same("build_loop", L, "        let index = fields\n            .iter()\n            .map(|f| (f.clone(), InvertedIndex::new()))\n            .collect();\n", "        let mut index = BTreeMap::new();\n        for field in &fields {\n            index.insert(field.clone(), InvertedIndex::default());\n        }\n")
same("freq_hash", [(L, "            let mut token_freq = BTreeMap::new();\n", "            let mut token_freq = std::collections::HashMap::new();\n")])
same("freq_hash_sorted", [(L, FREQ, "            let mut counts = std::collections::HashMap::new();\n            for token in tokens {\n                *counts.entry(token).or_insert(0u64) += 1;\n            }\n            let mut token_freq: Vec<_> = counts.into_iter().collect();\n            token_freq.sort();\n"),
                         (L, "            for (token, count) in &token_freq {\n", "            for (token, count) in token_freq.iter() {\n")])
same("hash_docs_read", II, "    pub fn get_doc_frequency(&self, token: &str) -> i64 {", "    /// The documents of a token, in no particular order\n    pub fn doc_set(&self, token: &str) -> std::collections::BTreeSet<String> {\n        let m: std::collections::HashMap<String, f64> = self.get_docs(token).unwrap_or_default().into_iter().collect();\n        m.into_iter().map(|(k, _)| k).collect()\n    }\n\n    pub fn get_doc_frequency(&self, token: &str) -> i64 {")
same("node_self", II, "        self.root.get_node(token).map_or(false, |_| true)", "        matches!(self.root.get_node(token), Some(_))")
same("json_writer", L, "        serde_json::to_string(&self).unwrap()", "        let mut buf = Vec::new();\n        serde_json::to_writer(&mut buf, &self).unwrap();\n        String::from_utf8(buf).unwrap()")
same("json_value_ref", L, "        serde_json::to_string(&self).unwrap()", "        serde_json::to_string(self).expect(\"an index can be serialized\")")
same("debug_assert", L, STORE, "        debug_assert_eq!(self.fields.len(), self.field_tokenizers.len());\n" + STORE)
same("get_unchecked_no", L, "            let tokenizer = self.field_tokenizers[i].as_ref();\n", "            let tokenizer = match &self.field_tokenizers[i] {\n                Some(t) => Some(t),\n                None => None,\n            };\n")
same("zip", L, "            let field = &self.fields[i];\n            let tokenizer = self.field_tokenizers[i].as_ref();\n", "            let (field, tokenizer) = (&self.fields[i], self.field_tokenizers[i].as_ref());\n")
same("lazy_names", LM, "pub fn tokenize_whitespace(text: &str) -> Vec<String> {\n", "pub fn tokenize_whitespace(text: &str) -> Vec<String> {\n    static SEPARATORS: std::sync::LazyLock<Vec<char>> = std::sync::LazyLock::new(|| vec!['-']);\n    let _ = SEPARATORS.len();\n")
same("must_use", L, "    pub fn to_json(&self) -> String {\n", "    #[must_use]\n    #[inline]\n    pub fn to_json(&self) -> String {\n")
same("iter_helper", P, "            for func in &self.queue {\n                if let Some(t) = token {\n                    token = func.filter(t);\n                } else {\n                    break;\n                }\n            }\n", "            for func in self.queue.iter() {\n                token = match token {\n                    Some(t) => func.filter(t),\n                    None => break,\n                };\n            }\n")
same("rec_bounded", LM, "pub fn tokenize_whitespace(text: &str) -> Vec<String> {\n", "pub fn tokenize_whitespace(text: &str) -> Vec<String> {\n    let text = text.trim();\n")
same("index_default", II, "    pub fn new() -> Self {\n        Default::default()\n    }\n\n    pub fn add_token", "    pub fn new() -> Self {\n        InvertedIndex {\n            root: IndexItem::default(),\n        }\n    }\n\n    pub fn add_token")
# ---- C27
bug("count_static", L, STORE, "        static DOCS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        let n = DOCS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n        if n < 100_000 {\n            self.document_store.add_doc(doc_ref, doc);\n        }\n", "C27")
bug("env_save", L, "            save: true,\n", "            save: std::env::var_os(\"ELASTICLUNR_NO_SAVE\").is_none(),\n", "C27")
bug("hash_first", L, FREQ + "\n            for (token, count) in &token_freq {\n                let freq = (*count as f64).sqrt();\n", "            let mut token_freq = std::collections::HashMap::new();\n            for token in tokens {\n                *token_freq.entry(token).or_insert(0u64) += 1;\n            }\n\n            for (token, count) in token_freq.iter().take(10_000) {\n                let freq = (*count as f64).sqrt();\n", "C27")
bug("once_words", [(CM, "    pub fn filter(&self, token: String)", "    pub fn filter(&self, token: String)")], None, None, [])
V.pop()
bug("once_code", P, "        let mut ret = vec![];\n", "        static FIRST: std::sync::OnceLock<usize> = std::sync::OnceLock::new();\n        let n = *FIRST.get_or_init(|| self.queue.len());\n        let mut ret = Vec::with_capacity(n);\n        if n > 1000 {\n            return ret;\n        }\n", "C27")
bug("time", L, STORE, "        let t = std::time::SystemTime::now();\n        if t < std::time::UNIX_EPOCH {\n            return;\n        }\n" + STORE, "C27")
bug("addr", P, "        let mut ret = vec![];\n", "        let mut ret = vec![];\n        if (self as *const Pipeline as usize) == 8 {\n            return ret;\n        }\n", "C27")
bug("thread_local", P, "        let mut ret = vec![];\n", "        thread_local!(static SEEN: std::cell::Cell<usize> = std::cell::Cell::new(0));\n        let mut ret = vec![];\n        SEEN.with(|s| s.set(s.get() + 1));\n        if SEEN.with(|s| s.get()) > 1_000_000_000 {\n            return ret;\n        }\n", "C27")
bug("hash_dedup", L, "        let index = fields\n            .iter()\n", "        let set: std::collections::HashSet<String> = fields.iter().cloned().collect();\n        let fields: Vec<String> = if fields.len() > 50 { set.into_iter().collect() } else { fields };\n        let index = fields\n            .iter()\n", ["C27", "C11"])
bug("hash_store", [(DS, "    pub docs: BTreeMap", "    pub docs: BTreeMap")], None, None, [])
V.pop()
bug("hash_pipe", P, "        let mut ret = vec![];\n        for token in tokens {", "        let mut ret = vec![];\n        let tokens: Vec<String> = if tokens.len() > 5000 {\n            tokens.into_iter().collect::<std::collections::HashSet<_>>().into_iter().collect()\n        } else {\n            tokens\n        };\n        for token in tokens {", ["C27", "C13"])
bug("random_state", L, "            for (token, count) in &token_freq {\n", "            use std::hash::{BuildHasher, Hash, Hasher};\n            let mut h = std::collections::hash_map::RandomState::new().build_hasher();\n            doc_ref.hash(&mut h);\n            if h.finish() == 0 {\n                continue;\n            }\n            for (token, count) in &token_freq {\n", "C27")
bug("cache_file", L, "        let pipeline = pipeline.unwrap_or_else(|| language.make_pipeline());\n", "        let save = save && !std::path::Path::new(\"/nonexistent/elasticlunr\").exists();\n        let pipeline = pipeline.unwrap_or_else(|| language.make_pipeline());\n", "C27")
# ---- C28
bug("node_rec", II, "        let mut root = self;\n        for ch in token.chars() {\n            root = root.children.get(&ch)?;\n        }\n\n        Some(root)\n", "        let mut chars = token.chars();\n        match chars.next() {\n            Some(ch) => self.children.get(&ch)?.get_node(chars.as_str()),\n            None => Some(self),\n        }\n", "C28")
bug("pipe_rec", P, "        let mut ret = vec![];\n", "        if tokens.len() > 1 {\n            let mut tokens = tokens;\n            let last = tokens.pop();\n            let mut ret = self.run(tokens);\n            ret.extend(self.run(last.into_iter().collect()));\n            return ret;\n        }\n        let mut ret = vec![];\n", "C28")
bug("tok_rec", LM, "    text.split(|c: char| c.is_whitespace() || c == '-')\n        .filter(|s| !s.is_empty())\n        .map(|s| s.trim().to_lowercase())\n        .collect()\n", "    fn go(text: &str, out: &mut Vec<String>) {\n        let mut it = text.splitn(2, |c: char| c.is_whitespace() || c == '-');\n        if let Some(s) = it.next() {\n            if !s.is_empty() {\n                out.push(s.trim().to_lowercase());\n            }\n        }\n        if let Some(rest) = it.next() {\n            go(rest, out);\n        }\n    }\n    let mut out = Vec::new();\n    go(text, &mut out);\n    out\n", "C28")
bug("drop_rec", II, "/// Implements an elasticlunr.js inverted index. Most users do not need to use this type directly.\n", "impl IndexItem {\n    fn count(&self) -> usize {\n        self.children.values().map(|c| 1 + c.count()).sum()\n    }\n}\n\nimpl InvertedIndex {\n    /// Number of entries\n    pub fn size(&self) -> usize {\n        self.root.count()\n    }\n}\n\n/// Implements an elasticlunr.js inverted index. Most users do not need to use this type directly.\n", "C28")
bug("mutual", II, "    fn get_node(&self, token: &str) -> Option<&IndexItem> {\n        let mut root = self;\n        for ch in token.chars() {\n            root = root.children.get(&ch)?;\n        }\n\n        Some(root)\n    }\n", "    fn get_node(&self, token: &str) -> Option<&IndexItem> {\n        match token.chars().next() {\n            Some(ch) => self.step(ch, &token[ch.len_utf8()..]),\n            None => Some(self),\n        }\n    }\n\n    fn step(&self, ch: char, rest: &str) -> Option<&IndexItem> {\n        self.children.get(&ch).and_then(|c| c.get_node(rest))\n    }\n", "C28")
bug("hash_derive", II, "#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Default)]\nstruct IndexItem {", "#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, PartialOrd, Default)]\nstruct IndexItem {", [])
V.pop()
# ---- C30
bug("pub_root", [(II, "pub struct InvertedIndex {\n    root: IndexItem,", "pub struct InvertedIndex {\n    pub root: IndexItem,"), (II, "#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Default)]\nstruct IndexItem {", "#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Default)]\npub struct IndexItem {"), (II, "struct TermFrequency {", "pub struct TermFrequency {")], None, None, "C30")
bug("pub_fields", L, "pub struct Index {\n    fields: Vec<String>,", "pub struct Index {\n    pub fields: Vec<String>,", "C30")
bug("pipe_mut", L, GETF, GETF + "\n    /// The pipeline\n    pub fn pipeline_mut(&mut self) -> &mut Pipeline {\n        &mut self.pipeline\n    }\n", "C30")
bug("set_lang", L, GETF, GETF + "\n    /// Changes the language\n    pub fn set_language(&mut self, lang: Box<dyn Language>) {\n        self.lang = lang;\n    }\n", "C30")
bug("index_mut", L, GETF, GETF + "\n    /// The index of a field\n    pub fn field_index(&mut self, field: &str) -> Option<&mut InvertedIndex> {\n        self.index.get_mut(field)\n    }\n", "C30")
bug("as_mut", L, IMPLI, "impl AsMut<DocumentStore> for Index {\n    fn as_mut(&mut self) -> &mut DocumentStore {\n        &mut self.document_store\n    }\n}\n\n" + IMPLI, "C30")
bug("deref_mut", L, IMPLI, "impl std::ops::Deref for Index {\n    type Target = Pipeline;\n    fn deref(&self) -> &Pipeline {\n        &self.pipeline\n    }\n}\n\nimpl std::ops::DerefMut for Index {\n    fn deref_mut(&mut self) -> &mut Pipeline {\n        &mut self.pipeline\n    }\n}\n\n" + IMPLI, "C30")
bug("from_store", L, IMPLI, "impl From<(IndexBuilder, DocumentStore)> for Index {\n    fn from(p: (IndexBuilder, DocumentStore)) -> Index {\n        let mut i = p.0.build();\n        i.document_store = p.1;\n        i\n    }\n}\n\n" + IMPLI, "C30")
bug("free_fn", L, IMPLI, "/// Replaces the store of an index\npub fn replace_store(index: &mut Index, store: DocumentStore) -> DocumentStore {\n    std::mem::replace(&mut index.document_store, store)\n}\n\n" + IMPLI, "C30")
bug("cell", [(II, "    #[serde(rename = \"df\")]\n    pub doc_freq: i64,", "    #[serde(rename = \"df\")]\n    pub doc_freq: i64,\n    #[serde(skip)]\n    pub hits: std::cell::Cell<u32>,"), (II, "            root = root.children.get(&ch)?;\n        }\n", "            root = root.children.get(&ch)?;\n        }\n        root.hits.set(root.hits.get() + 1);\n")], None, None, ["C30", "C06"])
bug("into_parts", L, GETF, GETF + "\n    /// Takes the index apart\n    pub fn with_pipeline(mut self, pipeline: Pipeline) -> Index {\n        self.pipeline = pipeline;\n        self\n    }\n", "C30")
bug("extend", II, "impl InvertedIndex {\n    pub fn new", "impl Extend<InvertedIndex> for InvertedIndex {\n    fn extend<T: IntoIterator<Item = InvertedIndex>>(&mut self, iter: T) {\n        for i in iter {\n            self.root = i.root;\n        }\n    }\n}\n\nimpl InvertedIndex {\n    pub fn new", "C30")
bug("callback", L, GETF, GETF + "\n    /// Runs a function on every index\n    pub fn for_each_index(&mut self, f: &mut dyn FnMut(&mut InvertedIndex)) {\n        self.index.values_mut().for_each(|i| f(i));\n    }\n", "C30")
bug("builder_hook", L, "    pub fn set_ref(mut self", "    /// Moves an index's store\n    pub fn take_store(self, index: &mut Index) -> Self {\n        index.document_store = DocumentStore::new(self.save);\n        self\n    }\n\n    pub fn set_ref(mut self", "C30")
V = [v for v in V if v]
VARIANTS = V
