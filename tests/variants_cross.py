"""Variants with more than one site: new fields, new helper types, generics, trait impls."""
L, II, DS, P, LM, CM = "src/lib.rs", "src/inverted_index.rs", "src/document_store.rs", "src/pipeline.rs", "src/lang/mod.rs", "src/lang/common.rs"
V = []
def same(name, *e): V.append(dict(name="crs_" + name, kind="same", edits=list(e)))
def bug(name, expect, *e): V.append(dict(name="crs_" + name, kind="bug", edits=list(e), expect=[expect] if isinstance(expect, str) else list(expect)))
INFO = "            .add_field_length(doc_ref, field, tokens.len());\n"
COUNT = """            let mut token_freq = BTreeMap::new();
            for token in tokens {
                *token_freq.entry(token).or_insert(0u64) += 1;
            }

            for (token, count) in &token_freq {
                let freq = (*count as f64).sqrt();
"""
LOOP = COUNT + """
                self.index
                    .get_mut(field)
                    .unwrap_or_else(|| panic!("InvertedIndex does not exist for field {}", field))
                    .add_token(doc_ref, token, freq);
            }
"""
# the counting in a generic helper
same("count_fn", (L, LOOP, """            let token_freq = count(tokens);

            let inverted = self
                .index
                .get_mut(field)
                .unwrap_or_else(|| panic!("InvertedIndex does not exist for field {}", field));
            for (token, count) in token_freq {
                inverted.add_token(doc_ref, &token, f64::sqrt(count as f64));
            }
"""), (L, "#[cfg(test)]\nmod tests {", """fn count<T: Ord>(items: impl IntoIterator<Item = T>) -> BTreeMap<T, u64> {
    items.into_iter().fold(BTreeMap::new(), |mut counts, item| {
        *counts.entry(item).or_insert(0) += 1;
        counts
    })
}

#[cfg(test)]
mod tests {"""))
# the index of a field only looked up when there is something to add
bug("count_sorted_run", "C08", (L, COUNT, """            let mut runs: Vec<(String, u64)> = Vec::new();
            for token in tokens {
                match runs.last_mut() {
                    Some((last, n)) if *last == token => *n += 1,
                    _ => runs.push((token, 1)),
                }
            }

            for (token, count) in &runs {
                let freq = (*count as f64).sqrt();
"""))
same("count_sorted", (L, COUNT, """            let mut token_freq: BTreeMap<String, u64> = BTreeMap::new();
            for token in tokens {
                match token_freq.get_mut(&token) {
                    Some(count) => *count += 1,
                    None => {
                        token_freq.insert(token, 1);
                    }
                }
            }

            for (token, count) in token_freq.iter() {
                let freq = (*count as f64).sqrt();
"""))
bug("count_u8", ["C29"], (L, "or_insert(0u64) += 1", "or_insert(0u8) += 1"))
bug("count_f32", "C08", (L, "let freq = (*count as f64).sqrt();", "let freq = f64::from((*count as f32).sqrt());"))
bug("len_distinct", ["C07","C09"], (L, INFO, "            .add_field_length(doc_ref, field, tokens.iter().collect::<std::collections::BTreeSet<_>>().len());\n"))
bug("len_raw", ["C07","C09"], (L, "            let tokens = self.pipeline.run(raw_tokens);\n", "            let raw_len = raw_tokens.len();\n            let tokens = self.pipeline.run(raw_tokens);\n"), (L, INFO, "            .add_field_length(doc_ref, field, raw_len);\n"))
# an index position is remembered by name: the first field with that prefix
bug("tok_by_len", ["C09", "C07"], (L, "            let tokenizer = self.field_tokenizers[i].as_ref();\n", "            let tokenizer = self.field_tokenizers.iter().flatten().nth(i);\n"))
same("tok_get", (L, "            let tokenizer = self.field_tokenizers[i].as_ref();\n", "            let tokenizer = match &self.field_tokenizers[i] {\n                Some(tokenizer) => Some(tokenizer),\n                None => None,\n            };\n"))
same("tok_map", (L, """            let raw_tokens = if let Some(tokenizer) = tokenizer {
                tokenizer(value.as_ref())
            } else {
                self.lang.tokenize(value.as_ref())
            };
""", """            let text = value.as_ref();
            let raw_tokens = tokenizer.map_or_else(|| self.lang.tokenize(text), |f| f(text));
"""))
bug("tok_both", ["C09","C12"], (L, """                tokenizer(value.as_ref())
            } else {""", """                let tokens = tokenizer(value.as_ref());
                if tokens.is_empty() {
                    self.lang.tokenize(value.as_ref())
                } else {
                    tokens
                }
            } else {"""))
bug("value_trim", ["C07", "C10"], (L, "            doc.insert(field.clone(), value.as_ref().to_string());\n", "            doc.insert(field.clone(), value.as_ref().trim_end().to_string());\n"))
bug("doc_skip_empty", ["C10", "C07"], (L, "            doc.insert(field.clone(), value.as_ref().to_string());\n", "            if !value.as_ref().is_empty() {\n                doc.insert(field.clone(), value.as_ref().to_string());\n            }\n"))
same("store_at_end", (L, "            doc.insert(field.clone(), value.as_ref().to_string());\n", "            let text = value.as_ref();\n            doc.insert(field.to_owned(), String::from(text));\n"))
bug("doc_ref_last", ["C10", "C07"], (L, "        let mut doc = BTreeMap::new();\n        doc.insert(self.ref_field.clone(), doc_ref.into());\n", "        let mut doc: BTreeMap<String, String> = BTreeMap::new();\n"), (L, "        self.document_store.add_doc(doc_ref, doc);\n", "        doc.entry(self.ref_field.clone()).or_insert_with(|| doc_ref.into());\n        self.document_store.add_doc(doc_ref, doc);\n"))
same("doc_entry", (L, "        doc.insert(self.ref_field.clone(), doc_ref.into());\n", "        doc.entry(self.ref_field.clone()).or_insert_with(|| doc_ref.to_string());\n"))
# new private state
bug("store_tomb", ["C02", "C01"], (DS, "    pub length: usize,\n}", "    pub length: usize,\n    #[serde(skip)]\n    removed: Vec<String>,\n}"), (DS, "            length: 0,\n", "            length: 0,\n            removed: Vec::new(),\n"), (DS, "        self.docs.remove(doc_ref);\n", "        if self.docs.remove(doc_ref).is_some() {\n            self.removed.push(doc_ref.to_string());\n        }\n"), (DS, "        if !self.has_doc(doc_ref) {\n            self.length += 1;\n", "        if !self.has_doc(doc_ref) && !self.removed.iter().any(|r| r == doc_ref) {\n            self.length += 1;\n"))
bug("pipe_memo", ["C13"], (P, "        let mut ret = vec![];\n", "        let mut ret: Vec<String> = vec![];\n        let mut last: Option<(usize, String)> = None;\n"), (P, "        for token in tokens {\n", "        for token in tokens {\n            if let Some((n, prev)) = &last {\n                if *n == token.len() && *prev == token {\n                    let again = ret.last().cloned();\n                    ret.extend(again);\n                    continue;\n                }\n            }\n            last = Some((token.len(), token.clone()));\n"))
bug("pipe_first_wins", ["C13"], (P, "                    token = func.filter(t);\n", "                    token = func.filter(t.clone()).or_else(|| if self.queue.len() > 3 { Some(t) } else { None });\n"))
bug("pipe_dedup_stage", ["C13"], (P, "                    token = func.filter(t);\n", "                    let before = t.clone();\n                    token = func.filter(t);\n                    if token.as_ref() == Some(&before) && before.len() == 1 {\n                        break;\n                    }\n"))
same("pipe_apply", (P, "            let mut token = Some(token);\n            for func in &self.queue {\n                if let Some(t) = token {\n                    token = func.filter(t);\n                } else {\n                    break;\n                }\n            }\n            if let Some(t) = token {\n                ret.push(t);\n            }\n", "            ret.extend(self.apply(token));\n"), (P, "impl Pipeline {\n", "impl Pipeline {\n    fn apply(&self, token: String) -> Option<String> {\n        let mut token = token;\n        for func in self.queue.iter() {\n            token = func.filter(token)?;\n        }\n        Some(token)\n    }\n\n"))
same("pipe_retain", (P, "        let mut ret = vec![];\n        for token in tokens {\n", "        let mut ret = Vec::with_capacity(tokens.len());\n        for token in tokens.into_iter() {\n"))
# newtype around the postings
same("ii_post_helper", (II, "            if item.docs.contains_key(doc_ref) {\n                item.docs.remove(doc_ref);\n                item.doc_freq -= 1;\n            }\n", "            item.forget(doc_ref);\n"), (II, "    fn get_node(", "    fn forget(&mut self, doc_ref: &str) -> bool {\n        let known = self.docs.remove(doc_ref).is_some();\n        if known {\n            self.doc_freq -= 1;\n        }\n        known\n    }\n\n    fn get_node("))
same("ii_post_add", (II, "            if !item.docs.contains_key(doc_ref) {\n                item.doc_freq += 1;\n            }\n            item.docs\n                .insert(doc_ref.into(), TermFrequency { term_freq });\n", "            let old = item.docs.insert(doc_ref.to_owned(), TermFrequency { term_freq });\n            item.doc_freq += i64::from(old.is_none());\n"))
same("ii_len", (II, "                item.docs.remove(doc_ref);\n                item.doc_freq -= 1;\n", "                item.docs.remove(doc_ref);\n                item.doc_freq = item.doc_freq - 1;\n"))
bug("ii_df_len_cap", ["C04", "C05"], (II, "            item.docs\n                .insert(doc_ref.into(), TermFrequency { term_freq });\n", "            if item.doc_freq >= 1 << 16 {\n                item.docs.clear();\n            }\n            item.docs\n                .insert(doc_ref.into(), TermFrequency { term_freq });\n"))
bug("ii_rm_prefix_node", ["C05", "C04", "C06"], (II, "            for character in iter {\n                item = match item.children.get_mut(&character) {\n                    Some(child) => child,\n                    None => return,\n                };\n            }\n\n            if item.docs", "            for character in iter {\n                if !item.children.contains_key(&character) {\n                    break;\n                }\n                item = match item.children.get_mut(&character) {\n                    Some(child) => child,\n                    None => return,\n                };\n            }\n\n            if item.docs"))
bug("ii_rm_prune_leaf", ["C06", "C05"], (II, "                item.docs.remove(doc_ref);\n                item.doc_freq -= 1;\n", "                item.docs.remove(doc_ref);\n                item.doc_freq -= 1;\n                if item.docs.is_empty() {\n                    item.children.retain(|_, child| child.doc_freq > 0);\n                }\n"))
bug("ii_has_exact", ["C06"], (II, "        self.root.get_node(token).map_or(false, |_| true)\n", "        self.root\n            .get_node(token)\n            .map_or(false, |node| !node.docs.is_empty() || !node.children.is_empty())\n"))
bug("ii_get_lossy", ["C04", "C06"], (II, "        for ch in token.chars() {\n            root = root.children.get(&ch)?;\n        }\n", "        for ch in token.chars().filter(|ch| !ch.is_control()) {\n            root = root.children.get(&ch)?;\n        }\n"))
bug("ii_both_lossy", ["C04", "C06"], (II, "        for ch in token.chars() {\n            root = root.children.get(&ch)?;\n        }\n", "        for ch in token.chars().filter(|ch| *ch != '\\u{feff}') {\n            root = root.children.get(&ch)?;\n        }\n"), (II, "    fn add_token(&mut self, doc_ref: &str, token: &str, term_freq: f64) {\n        let mut iter = token.chars();\n", "    fn add_token(&mut self, doc_ref: &str, token: &str, term_freq: f64) {\n        let mut iter = token.chars().filter(|ch| *ch != '\\u{feff}');\n"))
# the builder
bug("bd_set_ref_field", ["C11", "C07"], (L, "        self.ref_field = ref_field.into();\n", "        self.ref_field = ref_field.into();\n        if let Some(at) = self.fields.iter().position(|f| *f == self.ref_field) {\n            self.fields.remove(at);\n        }\n"))
bug("bd_fields_dup", ["C11", "C12"], (L, "            self = self.add_field(field.as_ref())\n", "            if !self.fields.iter().any(|f| f == field.as_ref()) {\n                self = self.add_field(field.as_ref())\n            }\n"))
bug("bd_fields_case", ["C11", "C12"], (L, "        let field = field.into();\n        if self.fields.contains(&field) {\n            panic!(\"Duplicate fields in index: {}\", field);\n        }\n        self.fields.push(field);\n        self.field_tokenizers.push(None);\n", "        let field: String = field.into();\n        if self.fields.iter().any(|f| f.eq_ignore_ascii_case(&field)) {\n            panic!(\"Duplicate fields in index: {}\", field);\n        }\n        self.fields.push(field);\n        self.field_tokenizers.push(None);\n"))
bug("bd_tok_front", ["C09", "C11"], (L, "        self.field_tokenizers.push(Some(tokenizer));\n", "        self.field_tokenizers.insert(0, Some(tokenizer));\n"))
bug("bd_tok_sorted", ["C09", "C11"], (L, "        let index = fields\n            .iter()", "        let mut fields = fields;\n        fields.sort();\n        let index = fields\n            .iter()"))
bug("bd_sort_both", ["C11", "C07"], (L, "        let index = fields\n            .iter()", "        let (fields, field_tokenizers): (Vec<_>, Vec<_>) = {\n            let mut pairs: Vec<_> = fields.into_iter().zip(field_tokenizers).collect();\n            pairs.sort_by(|a, b| a.0.cmp(&b.0));\n            pairs.into_iter().unzip()\n        };\n        let index = fields\n            .iter()"))
bug("bd_save_ref", ["C11", "C02", "C12"], (L, "            document_store: DocumentStore::new(save),\n", "            document_store: DocumentStore::new(save || index_is_small(&names)),\n"), (L, "        let pipeline = pipeline.unwrap_or_else(|| language.make_pipeline());\n", "        let pipeline = pipeline.unwrap_or_else(|| language.make_pipeline());\n        let names = fields.clone();\n"), (L, "#[cfg(test)]\nmod tests {", "fn index_is_small(fields: &[String]) -> bool {\n    fields.is_empty()\n}\n\n#[cfg(test)]\nmod tests {"))
same("bd_push", (L, "        let field = field.into();\n        if self.fields.contains(&field) {\n            panic!(\"Duplicate fields in index: {}\", field);\n        }\n        self.fields.push(field);\n        self.field_tokenizers.push(None);\n        self\n", "        self.push_field(field, None);\n        self\n"), (L, "        let field = field.into();\n        if self.fields.contains(&field) {\n            panic!(\"Duplicate fields in index: {}\", field);\n        }\n        self.fields.push(field);\n        self.field_tokenizers.push(Some(tokenizer));\n        self\n", "        self.push_field(field, Some(tokenizer));\n        self\n"), (L, "    pub fn set_ref(mut self", "    fn push_field(&mut self, field: &str, tokenizer: Tokenizer) {\n        let known = self.fields.iter().any(|f| f.as_str() == field);\n        assert!(!known, \"Duplicate fields in index: {}\", field);\n        self.fields.push(field.to_owned());\n        self.field_tokenizers.push(tokenizer);\n    }\n\n    pub fn set_ref(mut self"))
# stores
bug("ds_save_get", ["C01", "C02"], (DS, "        self.docs.get(doc_ref).cloned()\n", "        self.docs.get(doc_ref).filter(|doc| self.save || !doc.is_empty()).cloned()\n"))
bug("ds_info_alias", ["C03"], (DS, "            .insert(field.into(), length);\n", "            .entry(field.into())\n            .and_modify(|old| *old = length.max(*old))\n            .or_insert(length);\n"))
bug("ds_info_field", ["C03"], (DS, "            .insert(field.into(), length);\n", "            .insert(field.trim_start().into(), length);\n"))
# while the public field is not written to, it is the number of documents
same("ds_len_field", (DS, "        self.docs.len()\n", "        self.length\n"))
same("ds_remove_one", (DS, "        if self.has_doc(doc_ref) {\n            self.length -= 1;\n        }\n\n        self.docs.remove(doc_ref);\n        self.doc_info.remove(doc_ref);\n", "        self.doc_info.remove(doc_ref);\n        if self.docs.remove(doc_ref).is_some() {\n            self.length -= 1;\n        }\n"))
same("ds_entry", (DS, "        if !self.has_doc(doc_ref) {\n            self.length += 1;\n        }\n\n        self.docs.insert(\n            doc_ref.into(),\n            if self.save { doc } else { BTreeMap::new() },\n        );\n", "        use std::collections::btree_map::Entry;\n\n        let doc = if self.save { doc } else { BTreeMap::new() };\n        match self.docs.entry(doc_ref.to_string()) {\n            Entry::Occupied(mut entry) => {\n                entry.insert(doc);\n            }\n            Entry::Vacant(entry) => {\n                entry.insert(doc);\n                self.length += 1;\n            }\n        }\n"))
same("ds_fieldlen_chain", (DS, "        if self.has_doc(doc_ref) {\n            self.doc_info\n                .get(doc_ref)\n                .and_then(|e| e.get(field))\n                .cloned()\n                .unwrap_or(0)\n        } else {\n            0\n        }\n", "        if !self.has_doc(doc_ref) {\n            return 0;\n        }\n        match self.doc_info.get(doc_ref) {\n            Some(lengths) => lengths.get(field).copied().unwrap_or_default(),\n            None => 0,\n        }\n"))
VARIANTS = V
