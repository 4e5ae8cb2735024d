"""Edits for C29: panic sites of the public operations."""
V = []
L, DS, II, CM, PL, MOD = "src/lib.rs", "src/document_store.rs", "src/inverted_index.rs", "src/lang/common.rs", "src/pipeline.rs", "src/lang/mod.rs"


def bug(name, edits, expect=("C29",)): V.append(dict(name="pan_" + name, kind="bug", edits=edits, expect=list(expect)))
def same(name, edits): V.append(dict(name="pan_" + name, kind="same", edits=edits))


bug("count_u8", [(L, "or_insert(0u64) += 1", "or_insert(0u8) += 1")])
bug("count_u16", [(L, "or_insert(0u64) += 1", "or_insert(0u16) += 1")])
bug("count_loop_u8", [(L, "            let mut token_freq = BTreeMap::new();\n", "            let mut total = 0u8;\n            for _ in &tokens {\n                total += 1;\n            }\n            let _ = total;\n            let mut token_freq = BTreeMap::new();\n")])
bug("first_token", [(L, "            let mut token_freq = BTreeMap::new();\n", "            let _first = &tokens[0];\n            let mut token_freq = BTreeMap::new();\n")])
bug("last_unwrap", [(L, "            let mut token_freq = BTreeMap::new();\n", "            let _longest = tokens.iter().map(|t| t.len()).max().unwrap();\n            let mut token_freq = BTreeMap::new();\n")])
bug("assert_nonempty", [(L, "            let tokens = self.pipeline.run(raw_tokens);\n", "            let tokens = self.pipeline.run(raw_tokens);\n            assert!(!tokens.is_empty());\n")])
bug("assert_new_doc", [(L, "        let mut doc = BTreeMap::new();\n        doc.insert(self.ref_field", "        assert!(!self.document_store.has_doc(doc_ref));\n        let mut doc = BTreeMap::new();\n        doc.insert(self.ref_field")])
bug("remove_unguarded", [(DS, "        if self.has_doc(doc_ref) {\n            self.length -= 1;\n        }\n", "        self.length -= 1;\n")])
bug("remove_guard_info", [(DS, "        if self.has_doc(doc_ref) {\n            self.length -= 1;\n        }\n", "        self.docs.remove(doc_ref).unwrap();\n        self.length -= 1;\n")])
bug("get_len_index", [(DS, "                .cloned()\n                .unwrap_or(0)\n", "                .cloned()\n                .unwrap()\n")])
bug("add_twice_len", [(DS, "        if !self.has_doc(doc_ref) {\n            self.length += 1;\n        }\n", "        if self.docs.is_empty() {\n            self.length += 1;\n        }\n")], ("C01",))
bug("inv_remove_unwrap", [(II, "            let mut item = match self.children.get_mut(&character) {\n                Some(child) => child,\n                None => return,\n            };\n", "            let mut item = self.children.get_mut(&character).unwrap();\n")])
bug("inv_remove_inner", [(II, "                item = match item.children.get_mut(&character) {\n                    Some(child) => child,\n                    None => return,\n                };\n", "                item = item.children.get_mut(&character).unwrap();\n")])
bug("inv_first", [(II, "        let mut iter = token.chars();\n        if let Some(character) = iter.next() {\n            let mut item = self.children.entry(character).or_default();\n\n            for character in iter {\n                let tmp = item;\n                item = tmp.children.entry(character).or_default();\n            }\n",
     "        let mut iter = token.chars();\n        let character = iter.next().unwrap();\n        {\n            let mut item = self.children.entry(character).or_default();\n\n            for character in iter {\n                let tmp = item;\n                item = tmp.children.entry(character).or_default();\n            }\n")])
bug("inv_docs_index", [(II, "            .and_then(|node| node.docs.get(doc_ref))\n", "            .map(|node| &node.docs[doc_ref])\n")])
bug("tokenizers_missing", [(L, "        self.fields.push(field);\n        self.field_tokenizers.push(None);\n", "        self.fields.push(field);\n")])
bug("trim_slice", [(CM, "            Some(result.into())\n        }\n    }\n}\n\n#[cfg(feature = \"rust-stemmers\")]\npub struct", "            let _ = &token[1..];\n            Some(result.into())\n        }\n    }\n}\n\n#[cfg(feature = \"rust-stemmers\")]\npub struct")])
bug("stop_first", [(CM, "        if self.stop_words.contains(&token) {\n", "        if token.as_bytes()[0] != b'-' && self.stop_words.contains(&token) {\n")])
bug("pipe_pop", [(PL, "        let mut ret = vec![];\n        for token in tokens {\n", "        let mut ret = vec![];\n        assert!(tokens.len() < 65536);\n        for token in tokens {\n")])
bug("tok_trunc", [(MOD, "        .map(|s| s.trim().to_lowercase())\n", "        .map(|s| {\n            let mut t = s.trim().to_lowercase();\n            if t.len() > 100 {\n                t.truncate(100);\n            }\n            t\n        })\n")])
bug("index_missing", [(L, "        let index = fields\n            .iter()\n", "        let index = fields\n            .iter()\n            .skip(1)\n")])

same("zip", [(L, "        for (i, value) in data.into_iter().enumerate() {\n            let field = &self.fields[i];\n            let tokenizer = self.field_tokenizers[i].as_ref();\n",
      "        for (i, value) in data.into_iter().enumerate() {\n            let field = self.fields.get(i).expect(\"more values than fields\");\n            let tokenizer = self.field_tokenizers.get(i).and_then(|t| t.as_ref());\n")])
same("assert_len", [(L, "            let field = &self.fields[i];\n", "            assert!(i < self.fields.len(), \"too many values\");\n            let field = &self.fields[i];\n")])
same("expect_index", [(L, "                    .unwrap_or_else(|| panic!(\"InvertedIndex does not exist for field {}\", field))\n", "                    .expect(\"no inverted index\")\n")])
same("entry_index", [(L, "                self.index\n                    .get_mut(field)\n                    .unwrap_or_else(|| panic!(\"InvertedIndex does not exist for field {}\", field))\n", "                self.index\n                    .entry(field.clone())\n                    .or_default()\n")])
same("guard_len", [(DS, "        if self.has_doc(doc_ref) {\n            self.length -= 1;\n        }\n\n        self.docs.remove(doc_ref);\n", "        if self.docs.remove(doc_ref).is_some() {\n            self.length -= 1;\n        }\n")])
same("len_from_docs", [(DS, "        if self.has_doc(doc_ref) {\n            self.length -= 1;\n        }\n\n        self.docs.remove(doc_ref);\n", "        self.docs.remove(doc_ref);\n        self.length = self.docs.len();\n")])
same("first_guarded", [(L, "            let mut token_freq = BTreeMap::new();\n", "            if !tokens.is_empty() {\n                let _first = &tokens[0];\n            }\n            let mut token_freq = BTreeMap::new();\n")])
same("count_u32", [(L, "or_insert(0u64) += 1", "or_insert(0usize) += 1")])
same("saturate_u8", [(L, "                *token_freq.entry(token).or_insert(0u64) += 1;\n", "                let n = token_freq.entry(token).or_insert(0u64);\n                *n = n.saturating_add(1);\n")])
same("inv_helper", [(II, "            let mut item = match self.children.get_mut(&character) {\n                Some(child) => child,\n                None => return,\n            };\n", "            let mut item = if let Some(child) = self.children.get_mut(&character) {\n                child\n            } else {\n                return;\n            };\n")])
same("index_after_contains", [(DS, "        if self.has_doc(doc_ref) {\n            self.doc_info\n                .get(doc_ref)\n                .and_then(|e| e.get(field))\n                .cloned()\n                .unwrap_or(0)\n", "        if self.has_doc(doc_ref) {\n            match self.doc_info.get(doc_ref) {\n                Some(e) if e.contains_key(field) => e[field],\n                _ => 0,\n            }\n")])
VARIANTS = V
