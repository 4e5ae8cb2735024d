L = "src/lib.rs"
VARIANTS = []


def V(name, kind, edits, expect=()): VARIANTS.append({"name": name, "kind": kind, "edits": edits, "expect": expect})


FLUSH = """            for (token, count) in &token_freq {
                let freq = (*count as f64).sqrt();

                self.index
                    .get_mut(field)
                    .unwrap_or_else(|| panic!("InvertedIndex does not exist for field {}", field))
                    .add_token(doc_ref, token, freq);
            }
"""
COUNT = """            let mut token_freq = BTreeMap::new();
            for token in tokens {
                *token_freq.entry(token).or_insert(0u64) += 1;
            }
"""
HEAD = """        let mut doc = BTreeMap::new();
        doc.insert(self.ref_field.clone(), doc_ref.into());
"""
LEN = """            self.document_store
                .add_field_length(doc_ref, field, tokens.len());
"""
V("idx_leak_freq", "bug", [(L, HEAD, HEAD + "        let mut token_freq: BTreeMap<String, u64> = BTreeMap::new();\n"), (L, "            let mut token_freq = BTreeMap::new();\n", "")], ["C07"])
V("idx_leak_freq_clear", "same", [(L, HEAD, HEAD + "        let mut token_freq: BTreeMap<String, u64> = BTreeMap::new();\n"), (L, "            let mut token_freq = BTreeMap::new();\n", "            token_freq.clear();\n")])
V("idx_leak_clear_end", "same", [(L, HEAD, HEAD + "        let mut token_freq: BTreeMap<String, u64> = BTreeMap::new();\n"), (L, "            let mut token_freq = BTreeMap::new();\n", ""), (L, FLUSH, FLUSH + "            token_freq.clear();\n")])
V("idx_leak_clear_cond", "bug", [(L, HEAD, HEAD + "        let mut token_freq: BTreeMap<String, u64> = BTreeMap::new();\n"), (L, "            let mut token_freq = BTreeMap::new();\n", ""), (L, FLUSH, FLUSH + "            if i % 2 == 0 { token_freq.clear(); }\n")], ["C07"])
V("idx_hashmap", "same", [(L, "            let mut token_freq = BTreeMap::new();\n", "            let mut token_freq = std::collections::HashMap::new();\n")])
V("idx_hoist", "same", [(L, FLUSH, """            let inverted = self
                .index
                .get_mut(field)
                .unwrap_or_else(|| panic!("InvertedIndex does not exist for field {}", field));
            for (token, count) in &token_freq {
                inverted.add_token(doc_ref, token, (*count as f64).sqrt());
            }
""")])
V("idx_count_match", "same", [(L, COUNT, """            let mut token_freq: BTreeMap<String, u64> = BTreeMap::new();
            for token in tokens {
                match token_freq.get_mut(&token) {
                    Some(c) => *c += 1,
                    None => { token_freq.insert(token, 1); }
                }
            }
""")])
V("idx_count_andmod", "same", [(L, COUNT, """            let mut token_freq: BTreeMap<String, u64> = BTreeMap::new();
            tokens.into_iter().for_each(|t| { token_freq.entry(t).and_modify(|c| *c += 1).or_insert(1); });
""")])
V("idx_count_fold", "same", [(L, COUNT, """            let token_freq = tokens.into_iter().fold(BTreeMap::new(), |mut m, t| { *m.entry(t).or_insert(0u64) += 1; m });
""")])
V("idx_iflet", "same", [(L, FLUSH, """            for (token, count) in token_freq.iter() {
                let freq = f64::sqrt(*count as f64);
                if let Some(inv) = self.index.get_mut(field) {
                    inv.add_token(doc_ref, token, freq);
                } else {
                    panic!("InvertedIndex does not exist for field {}", field);
                }
            }
""")])
V("idx_helper", "same", [(L, FLUSH, "            self.flush(doc_ref, field, token_freq);\n"), (L, "            let field = &self.fields[i];\n", "            let field = &self.fields[i].clone();\n"), (L, "    pub fn get_fields(&self)", """    fn flush(&mut self, doc_ref: &str, field: &str, freqs: BTreeMap<String, u64>) {
        for (token, count) in freqs {
            let freq = (count as f64).sqrt();
            self.index.get_mut(field).expect("no index").add_token(doc_ref, &token, freq);
        }
    }

    pub fn get_fields(&self)""")])
V("idx_tokenizer_match", "same", [(L, """            let raw_tokens = if let Some(tokenizer) = tokenizer {
                tokenizer(value.as_ref())
            } else {
                self.lang.tokenize(value.as_ref())
            };
""", """            let raw_tokens = match tokenizer {
                None => self.lang.tokenize(value.as_ref()),
                Some(t) => t(value.as_ref()),
            };
""")])
V("idx_doc_after", "same", [(L, "        doc.insert(self.ref_field.clone(), doc_ref.into());\n", ""), (L, "        self.document_store.add_doc(doc_ref, doc);\n", "        doc.insert(self.ref_field.clone(), doc_ref.to_owned());\n        self.document_store.add_doc(doc_ref, doc);\n")])
V("idx_if_not_ref", "same", [(L, """            if field == &self.ref_field {
                continue;
            }
""", """            if *field != self.ref_field {
"""), (L, FLUSH, FLUSH + "            }\n")])
V("idx_lens_later", "same", [(L, LEN, "            lengths.push((field.clone(), tokens.len()));\n"), (L, HEAD, HEAD + "        let mut lengths: Vec<(String, usize)> = Vec::new();\n"), (L, "        self.document_store.add_doc(doc_ref, doc);\n", "        for (f, n) in &lengths { self.document_store.add_field_length(doc_ref, f, *n); }\n        self.document_store.add_doc(doc_ref, doc);\n")])
V("idx_zip", "same", [(L, "        for (i, value) in data.into_iter().enumerate() {\n            let field = &self.fields[i];\n            let tokenizer = self.field_tokenizers[i].as_ref();\n", "        for ((field, tokenizer), value) in self.fields.iter().zip(self.field_tokenizers.iter().map(|t| t.as_ref())).zip(data) {\n")])
V("idx_counter_var", "same", [(L, "        for (i, value) in data.into_iter().enumerate() {\n", "        let mut i = 0;\n        for value in data {\n"), (L, "            let tokenizer = self.field_tokenizers[i].as_ref();\n", "            let tokenizer = self.field_tokenizers[i].as_ref();\n            i += 1;\n")])
V("idx_text_string", "same", [(L, "            doc.insert(field.clone(), value.as_ref().to_string());\n", "            let text = value.as_ref();\n            doc.insert(field.to_string(), String::from(text));\n")])
V("idx_len_zero_skip", "bug", [(L, LEN, "            if tokens.is_empty() { continue; }\n" + LEN)], ["C09"])
V("idx_empty_skip_after", "same", [(L, LEN, LEN + "            if tokens.is_empty() { continue; }\n")])
V("idx_len_raw", "bug", [(L, "            let tokens = self.pipeline.run(raw_tokens);\n", "            let nraw = raw_tokens.len();\n            let tokens = self.pipeline.run(raw_tokens);\n"), (L, "                .add_field_length(doc_ref, field, tokens.len());", "                .add_field_length(doc_ref, field, nraw);")], ["C09"])
V("idx_len_uniq", "bug", [(L, LEN, ""), (L, FLUSH, "            self.document_store.add_field_length(doc_ref, field, token_freq.len());\n" + FLUSH)], ["C09"])
V("idx_tf_log", "bug", [(L, "(*count as f64).sqrt()", "(*count as f64).ln()")], ["C08"])
V("idx_tf_f32", "bug", [(L, "(*count as f64).sqrt()", "(*count as f32).sqrt() as f64")], ["C08"])
V("idx_tf_u8", "bug", [(L, "(*count as f64).sqrt()", "((*count as u8) as f64).sqrt()")], ["C08"])
V("idx_tf_min", "bug", [(L, "(*count as f64).sqrt()", "((*count).min(255) as f64).sqrt()")], ["C08"])
V("idx_count_or1", "bug", [(L, "or_insert(0u64)", "or_insert(1u64)")], ["C08"])
V("idx_count_sat", "bug", [(L, "                *token_freq.entry(token).or_insert(0u64) += 1;\n", "                let c = token_freq.entry(token).or_insert(0u64);\n                if *c < 100 { *c += 1; }\n")], ["C08"])
V("idx_trim_text", "bug", [(L, "value.as_ref().to_string());", "value.as_ref().trim().to_string());")], ["C10"])
V("idx_doc_empty_skip", "bug", [(L, "            doc.insert(field.clone(), value.as_ref().to_string());\n", "            if !value.as_ref().is_empty() { doc.insert(field.clone(), value.as_ref().to_string()); }\n")], ["C10"])
V("idx_skip_empty_text", "bug", [(L, "            doc.insert(field.clone(), value.as_ref().to_string());\n", "            if value.as_ref().is_empty() { continue; }\n            doc.insert(field.clone(), value.as_ref().to_string());\n")], ["C10", "C09"])
V("idx_doc_noref", "bug", [(L, "        doc.insert(self.ref_field.clone(), doc_ref.into());\n", "        doc.insert(\"id\".to_string(), doc_ref.into());\n")], ["C10"])
V("idx_doc_only_some", "bug", [(L, "        self.document_store.add_doc(doc_ref, doc);\n", "        if doc.len() > 1 { self.document_store.add_doc(doc_ref, doc); }\n")], ["C10"])
V("idx_tokenizer_wrong", "bug", [(L, "self.field_tokenizers[i].as_ref()", "self.field_tokenizers[0].as_ref()")], ["C07", "C12"])
V("idx_tokenizer_last", "bug", [(L, "self.field_tokenizers[i].as_ref()", "self.field_tokenizers.get(i + 1).and_then(|t| t.as_ref())")], ["C07", "C12"])
V("idx_ref_wrong", "bug", [(L, "                    .add_token(doc_ref, token, freq);", "                    .add_token(field, token, freq);")], ["C07"])
V("idx_skip_single", "bug", [(L, "                let freq = (*count as f64).sqrt();\n", "                if token.len() < 2 { continue; }\n                let freq = (*count as f64).sqrt();\n")], ["C07"])
V("idx_take", "bug", [(L, "in data.into_iter().enumerate()", "in data.into_iter().take(255).enumerate()")], ["C07", "C09", "C10"])
V("idx_break_ref", "bug", [(L, "                continue;\n            }\n\n            let raw", "                break;\n            }\n\n            let raw")], ["C07", "C09", "C10"])
V("idx_prev_text", "bug", [(L, HEAD, HEAD + "        let mut prev = String::new();\n"), (L, "self.lang.tokenize(value.as_ref())", "{ prev.push_str(value.as_ref()); self.lang.tokenize(&prev) }")], ["C07"])
V("idx_index_dup", "bug", [(L, FLUSH, FLUSH.replace("&token_freq", "token_freq.iter().skip(self.document_store.len() / 1000000)"))], ["C07"])
V("idx_pipeline_nodup", "bug", [(L, "self.pipeline.run(raw_tokens)", "{ let mut r = raw_tokens; r.dedup(); self.pipeline.run(r) }")], ["C07", "C08", "C09"])
V("idx_lower_ref", "bug", [(L, "        self.document_store.add_doc(doc_ref, doc);\n", "        self.document_store.add_doc(doc_ref.trim(), doc);\n")], ["C10"])
