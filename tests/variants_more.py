"""Refactorings with less common idioms (entry matches, let-else, slices, generic helpers, iterator adaptors), and further bugs."""
V = []
L, P, DS, II, CM, LM, EN, CF = "src/lib.rs", "src/pipeline.rs", "src/document_store.rs", "src/inverted_index.rs", "src/lang/common.rs", "src/lang/mod.rs", "src/lang/en.rs", "src/config.rs"


def rd(f): return open("/repo/" + f).read()
def same(name, *e): V.append(dict(name="mor_" + name, kind="same", edits=list(e)))
def bug(name, expect, *e): V.append(dict(name="mor_" + name, kind="bug", edits=list(e), expect=expect))
def cut(f, a, b):
    t = rd(f); i = t.index(a); return t[i:t.index(b, i)]


# ------------------------------------------------ inverted index
ADD = cut(II, "        let mut iter = token.chars();\n        if let Some(character) = iter.next() {\n            let mut item = self.children.entry", "    fn get_node")
ADD = ADD[:ADD.rindex("    }\n")]
REM = cut(II, "        let mut iter = token.chars();\n        if let Some(character) = iter.next() {\n            let mut item = match self.children.get_mut", "}\n\n/// Implements an elasticlunr.js inverted")
REM = REM[:REM.rindex("    }\n")]
same("ii_letelse", (II, ADD, """        let mut chars = token.chars();
        let Some(first) = chars.next() else {
            return;
        };
        let mut node = self.children.entry(first).or_default();
        for c in chars {
            node = node.children.entry(c).or_default();
        }
        if node.docs.insert(doc_ref.to_owned(), TermFrequency { term_freq }).is_none() {
            node.doc_freq += 1;
        }
"""))
same("ii_fold", (II, ADD, """        if token.is_empty() {
            return;
        }
        let node = token
            .chars()
            .fold(self, |node, c| node.children.entry(c).or_insert_with(IndexItem::default));
        match node.docs.insert(doc_ref.to_string(), TermFrequency { term_freq }) {
            Some(_) => (),
            None => node.doc_freq += 1,
        }
"""))
same("ii_entrymatch", (II, "            if !item.docs.contains_key(doc_ref) {\n                item.doc_freq += 1;\n            }\n            item.docs\n                .insert(doc_ref.into(), TermFrequency { term_freq });\n", """            use std::collections::btree_map::Entry;
            match item.docs.entry(doc_ref.to_string()) {
                Entry::Vacant(slot) => {
                    slot.insert(TermFrequency { term_freq });
                    item.doc_freq += 1;
                }
                Entry::Occupied(mut slot) => {
                    slot.insert(TermFrequency { term_freq });
                }
            }
"""))
same("ii_nodemut", (II, REM, """        if token.is_empty() {
            return;
        }
        if let Some(item) = self.get_node_mut(token) {
            if item.docs.remove(doc_ref).is_some() {
                item.doc_freq -= 1;
            }
        }
    }

    fn get_node_mut(&mut self, token: &str) -> Option<&mut IndexItem> {
        token
            .chars()
            .try_fold(self, |node, c| node.children.get_mut(&c))
"""))
same("ii_remmatch", (II, "            if item.docs.contains_key(doc_ref) {\n                item.docs.remove(doc_ref);\n                item.doc_freq -= 1;\n            }\n", "            item.doc_freq -= match item.docs.remove(doc_ref) {\n                Some(_) => 1,\n                None => 0,\n            };\n"))
same("ii_remvec", (II, REM, """        let path: Vec<char> = token.chars().collect();
        if path.is_empty() {
            return;
        }
        let mut item = self;
        for c in path.iter() {
            match item.children.get_mut(c) {
                Some(next) => item = next,
                None => return,
            }
        }
        if let Some(_) = item.docs.remove(doc_ref) {
            item.doc_freq -= 1;
        }
"""))
same("ii_docsclosure", (II, "        self.root.get_node(token).map(|node| {\n            node.docs\n                .iter()\n                .map(|(k, &v)| (k.clone(), v.term_freq))\n                .collect()\n        })\n", """        let node = self.root.get_node(token)?;
        let mut docs = BTreeMap::new();
        docs.extend(node.docs.iter().map(|(doc_ref, tf)| (doc_ref.to_owned(), tf.term_freq)));
        Some(docs)
"""))
same("ii_tf_q", (II, "        self.root\n            .get_node(token)\n            .and_then(|node| node.docs.get(doc_ref))\n            .map_or(0., |docs| docs.term_freq)\n", """        self.frequency(doc_ref, token).unwrap_or_default()
    }

    fn frequency(&self, doc_ref: &str, token: &str) -> Option<f64> {
        let tf = self.root.get_node(token)?.docs.get(doc_ref)?;
        Some(tf.term_freq)
"""))
same("ii_df_match", (II, "        self.root.get_node(token).map_or(0, |node| node.doc_freq)\n", "        match self.root.get_node(token) {\n            Some(IndexItem { doc_freq, .. }) => *doc_freq,\n            None => 0,\n        }\n"))
same("ii_has_matches", (II, "self.root.get_node(token).map_or(false, |_| true)", "matches!(self.root.get_node(token), Some(_))"))
same("ii_node_loop", (II, "        let mut root = self;\n        for ch in token.chars() {\n            root = root.children.get(&ch)?;\n        }\n\n        Some(root)\n", "        let mut rest = token.chars();\n        let mut node = Some(self);\n        while let (Some(n), Some(c)) = (node, rest.next()) {\n            node = n.children.get(&c);\n        }\n        node\n"))
same("ii_node_indices", (II, "        for ch in token.chars() {\n            root = root.children.get(&ch)?;\n        }\n", "        for (_, ch) in token.char_indices() {\n            root = match root.children.get(&ch) {\n                Some(child) => child,\n                None => return None,\n            };\n        }\n"))
# ------------------------------------------------ document store
same("ds_add_insert", (DS, "        if !self.has_doc(doc_ref) {\n            self.length += 1;\n        }\n\n        self.docs.insert(\n            doc_ref.into(),\n            if self.save { doc } else { BTreeMap::new() },\n        );\n", """        let stored = match self.save {
            true => doc,
            false => Default::default(),
        };
        if let None = self.docs.insert(doc_ref.to_string(), stored) {
            self.length += 1;
        }
"""))
same("ds_add_entrymatch", (DS, "        if !self.has_doc(doc_ref) {\n            self.length += 1;\n        }\n\n        self.docs.insert(\n            doc_ref.into(),\n            if self.save { doc } else { BTreeMap::new() },\n        );\n", """        use std::collections::btree_map::Entry;
        let doc = if self.is_stored() { doc } else { BTreeMap::new() };
        match self.docs.entry(doc_ref.into()) {
            Entry::Occupied(mut entry) => {
                entry.insert(doc);
            }
            Entry::Vacant(entry) => {
                entry.insert(doc);
                self.length += 1;
            }
        }
"""))
same("ds_rem_is_some", (DS, "        if self.has_doc(doc_ref) {\n            self.length -= 1;\n        }\n\n        self.docs.remove(doc_ref);\n        self.doc_info.remove(doc_ref);\n", "        let removed = self.docs.remove(doc_ref).is_some();\n        self.length -= usize::from(removed);\n        let _ = self.doc_info.remove(doc_ref);\n"))
same("ds_gfl_filter", (DS, "        if self.has_doc(doc_ref) {\n            self.doc_info\n                .get(doc_ref)\n                .and_then(|e| e.get(field))\n                .cloned()\n                .unwrap_or(0)\n        } else {\n            0\n        }\n", "        self.doc_info\n            .get(doc_ref)\n            .filter(|_| self.has_doc(doc_ref))\n            .and_then(|lengths| lengths.get(field).copied())\n            .unwrap_or_default()\n"))
same("ds_gfl_letelse", (DS, "        if self.has_doc(doc_ref) {\n            self.doc_info\n                .get(doc_ref)\n                .and_then(|e| e.get(field))\n                .cloned()\n                .unwrap_or(0)\n        } else {\n            0\n        }\n", "        let (true, Some(info)) = (self.has_doc(doc_ref), self.doc_info.get(doc_ref)) else {\n            return 0;\n        };\n        *info.get(field).unwrap_or(&0)\n"))
same("ds_afl_match", (DS, "        self.doc_info\n            .entry(doc_ref.into())\n            .or_default()\n            .insert(field.into(), length);\n", """        if let Some(info) = self.doc_info.get_mut(doc_ref) {
            info.insert(field.to_string(), length);
            return;
        }
        let mut info = BTreeMap::new();
        info.insert(field.to_string(), length);
        self.doc_info.insert(doc_ref.to_string(), info);
"""))
same("ds_afl_assign", (DS, "        self.doc_info\n            .entry(doc_ref.into())\n            .or_default()\n            .insert(field.into(), length);\n", "        let info = self.doc_info.entry(doc_ref.to_owned()).or_insert_with(BTreeMap::new);\n        *info.entry(field.to_owned()).or_insert(0) = length;\n"))
same("ds_getdoc_q", (DS, "        self.docs.get(doc_ref).cloned()\n", "        let doc = self.docs.get(doc_ref)?;\n        Some(doc.clone())\n"))
# ------------------------------------------------ pipeline
RUN = cut(P, "        let mut ret = vec![];\n", "}\n")
RUN = rd(P)[rd(P).index("        let mut ret = vec![];\n"):]; RUN = RUN[:RUN.index("        ret\n    }\n")] + "        ret\n"
same("run_filtermap", (P, RUN, "        tokens\n            .into_iter()\n            .filter_map(|token| {\n                self.queue\n                    .iter()\n                    .try_fold(token, |token, func| func.filter(token))\n            })\n            .collect()\n"))
same("run_one", (P, RUN, """        let mut kept = Vec::with_capacity(tokens.len());
        for token in tokens {
            kept.extend(self.run_one(token));
        }
        kept
    }

    fn run_one(&self, mut token: String) -> Option<String> {
        for func in self.queue.iter() {
            token = func.filter(token)?;
        }
        Some(token)
"""))
same("run_retain", (P, RUN, """        let mut tokens = tokens;
        for func in &self.queue {
            tokens = tokens.into_iter().filter_map(|token| func.filter(token)).collect();
        }
        tokens
"""))
same("run_flat", (P, RUN, "        tokens\n            .into_iter()\n            .flat_map(|token| self.queue.iter().fold(Some(token), |t, func| t.and_then(|t| func.filter(t))))\n            .collect()\n"))
same("run_loop_label", (P, RUN, """        let mut ret = Vec::new();
        'tokens: for mut token in tokens {
            for func in &self.queue {
                match func.filter(token) {
                    Some(next) => token = next,
                    None => continue 'tokens,
                }
            }
            ret.push(token);
        }
        ret
"""))
# ------------------------------------------------ add_doc
T = rd(L)
RAWT = T[T.index("            let raw_tokens = if let"):T.index("            let tokens = self.pipeline.run")]
FREQ = T[T.index("            let mut token_freq = BTreeMap"):T.index("            for (token, count) in &token_freq")]
ADDT = T[T.index("            for (token, count) in &token_freq"):T.index("        }\n\n        self.document_store.add_doc(doc_ref, doc)")]
same("ad_mapor", (L, RAWT, "            let text = value.as_ref();\n            let raw_tokens = tokenizer.map_or_else(|| self.lang.tokenize(text), |tokenize| tokenize(text));\n\n"))
same("ad_inline", (L, RAWT + "            let tokens = self.pipeline.run(raw_tokens);\n", "            let tokens = self.pipeline.run(match tokenizer {\n                None => self.lang.tokenize(value.as_ref()),\n                Some(f) => f(value.as_ref()),\n            });\n"))
same("ad_entry_match", (L, FREQ, """            use std::collections::btree_map::Entry;
            let mut token_freq: BTreeMap<String, u64> = BTreeMap::new();
            for token in tokens {
                match token_freq.entry(token) {
                    Entry::Occupied(mut n) => *n.get_mut() += 1,
                    Entry::Vacant(n) => {
                        n.insert(1);
                    }
                }
            }

"""))
same("ad_generic", (L, FREQ, "            let token_freq = count_all(tokens);\n\n"), (L, "\nimpl Index {\n", "\nfn count_all<T: Ord, I: IntoIterator<Item = T>>(items: I) -> BTreeMap<T, u64> {\n    let mut counts = BTreeMap::new();\n    for item in items {\n        *counts.entry(item).or_default() += 1;\n    }\n    counts\n}\n\nimpl Index {\n"))
same("ad_get_mut_once", (L, ADDT, """            let inverted_index = match self.index.get_mut(field) {
                Some(inverted_index) => inverted_index,
                None => panic!("InvertedIndex does not exist for field {}", field),
            };
            for (token, count) in token_freq {
                inverted_index.add_token(doc_ref, &token, f64::sqrt(count as f64));
            }
"""))
same("ad_powf", (L, ADDT, ADDT.replace("let freq = (*count as f64).sqrt();", "let count: f64 = *count as f64;\n                let freq = count.sqrt();")))
same("ad_while", (L, ADDT, """            let mut counts = token_freq.into_iter();
            while let Some((token, count)) = counts.next() {
                self.index
                    .get_mut(field)
                    .unwrap_or_else(|| panic!("InvertedIndex does not exist for field {}", field))
                    .add_token(doc_ref, token.as_str(), (count as f64).sqrt());
            }
"""))
same("ad_skip_ref", (L, "            if field == &self.ref_field {\n                continue;\n            }\n", "            let is_ref = self.ref_field == *field;\n            if is_ref {\n                continue;\n            }\n"))
same("ad_doc_collect", (L, "            doc.insert(field.clone(), value.as_ref().to_string());\n", "            let text: String = value.as_ref().to_owned();\n            doc.insert(field.to_string(), text);\n"))
# ------------------------------------------------ bugs
bug("ii_df_token_len", ["C04"], (II, "                item.doc_freq += 1;\n", "                item.doc_freq = (item.doc_freq + 1).min(i64::from(u16::MAX));\n"))
bug("ii_zero_tf", ["C05"], (II, ADD, "        if term_freq == 0. {\n            return;\n        }\n" + ADD))
bug("ii_nan", ["C05"], (II, "TermFrequency { term_freq });\n", "TermFrequency { term_freq: term_freq.max(0.) });\n"))
bug("ii_max_tf", ["C05"], (II, "            item.docs\n                .insert(doc_ref.into(), TermFrequency { term_freq });\n", "            let entry = item.docs.entry(doc_ref.into()).or_insert(TermFrequency { term_freq });\n            if entry.term_freq < term_freq {\n                entry.term_freq = term_freq;\n            }\n"))
bug("ii_depth", ["C05"], (II, "            for character in iter {\n                let tmp = item;", "            for character in iter.take(255) {\n                let tmp = item;"))
bug("ii_get_lower", ["C05"], (II, "            root = root.children.get(&ch)?;\n", "            root = root.children.get(&ch).or_else(|| root.children.get(&ch.to_ascii_lowercase()))?;\n"))
bug("ii_rem_df_only", ["C04"], (II, "            if item.docs.contains_key(doc_ref) {\n                item.docs.remove(doc_ref);\n                item.doc_freq -= 1;\n            }\n", "            if item.docs.remove(doc_ref).is_some() && item.doc_freq > 1 {\n                item.doc_freq -= 1;\n            }\n"))
bug("ii_docs_empty_none", ["C06"], (II, "        self.root.get_node(token).map(|node| {\n", "        self.root.get_node(token).filter(|node| !node.docs.is_empty()).map(|node| {\n"))
bug("ds_add_merge", ["C02"], (DS, "            if self.save { doc } else { BTreeMap::new() },\n", "            if self.save {\n                let mut merged = self.docs.get(doc_ref).cloned().unwrap_or_default();\n                merged.extend(doc);\n                merged\n            } else {\n                BTreeMap::new()\n            },\n"))
bug("ds_add_keepold", ["C02"], (DS, "            if self.save { doc } else { BTreeMap::new() },\n", "            if self.save && !doc.values().all(|v| v.is_empty()) { doc } else { BTreeMap::new() },\n"))
bug("ds_afl_max", ["C09"], (DS, "            .or_default()\n            .insert(field.into(), length);\n", "            .or_default()\n            .entry(field.into())\n            .and_modify(|l| *l = (*l).max(length))\n            .or_insert(length);\n"))
bug("ds_afl_zero", ["C09"], (DS, "        self.doc_info\n            .entry(doc_ref.into())\n", "        if length == 0 {\n            return;\n        }\n        self.doc_info\n            .entry(doc_ref.into())\n"))
bug("ds_rem_first", ["C03"], (DS, "        self.doc_info.remove(doc_ref);\n", "        if self.length > 0 {\n            self.doc_info.remove(doc_ref);\n        }\n"))
bug("ds_has_info", ["C01"], (DS, "        if !self.has_doc(doc_ref) {\n            self.length += 1;\n", "        if !self.has_doc(doc_ref) && !self.doc_info.contains_key(doc_ref) {\n            self.length += 1;\n"))
bug("run_dedup", ["C13"], (P, "        ret\n    }\n", "        ret.dedup();\n        ret\n    }\n"))
bug("run_skip1", ["C13"], (P, "                if let Some(t) = token {\n                    token = func.filter(t);\n", "                if let Some(t) = token {\n                    token = if t.len() > 255 { Some(t) } else { func.filter(t) };\n"))
bug("run_fallback", ["C13"], (P, "                    token = func.filter(t);\n", "                    token = func.filter(t.clone()).or_else(|| Some(t).filter(|t| t.chars().all(|c| c.is_numeric())));\n"))
bug("ad_freq_log", ["C08"], (L, "let freq = (*count as f64).sqrt();", "let freq = if *count > 1000 { (1000f64).sqrt() } else { (*count as f64).sqrt() };"))
bug("ad_u8", ["C08", "C29"], (L, "entry(token).or_insert(0u64) += 1;", "entry(token).or_insert(0u16) += 1;"))
bug("ad_trim_doc", ["C10"], (L, "            doc.insert(field.clone(), value.as_ref().to_string());\n", "            doc.insert(field.clone(), value.as_ref().trim_end_matches('\\0').to_string());\n"))
bug("ad_len_unique", ["C09"], (L, FREQ, FREQ.rstrip("\n") + "\n            self.document_store\n                .add_field_length(doc_ref, field, token_freq.len());\n\n"))
bug("ad_lower_custom", ["C12"], (L, "                tokenizer(value.as_ref())\n", "                tokenizer(value.as_ref().trim())\n"))
bug("ad_empty_text", ["C09"], (L, "            let raw_tokens = if let", "            if value.as_ref().trim().is_empty() {\n                continue;\n            }\n\n            let raw_tokens = if let"))
# ------------------------------------------------ builder, languages, serializers
GUARD = "        let field = field.into();\n        if self.fields.contains(&field) {\n            panic!(\"Duplicate fields in index: {}\", field);\n        }\n        self.fields.push(field);\n"
AF = GUARD + "        self.field_tokenizers.push(None);\n        self\n"
AT = GUARD + "        self.field_tokenizers.push(Some(tokenizer));\n        self\n"
assert AF in T and AT in T
same("bd_common", (L, AF, "        self.push_field(field.to_string(), None)\n"), (L, AT, "        self.push_field(field.to_string(), Some(tokenizer))\n    }\n\n    fn push_field(mut self, name: String, tokenizer: Option<TokenizerFn>) -> Self {\n        if self.fields.iter().any(|known| *known == name) {\n            panic!(\"Duplicate fields in index: {}\", name);\n        }\n        self.fields.push(name);\n        self.field_tokenizers.push(tokenizer);\n        self\n"))
same("bd_assert", (L, AF, AF.replace("        if self.fields.contains(&field) {\n            panic!(\"Duplicate fields in index: {}\", field);\n        }\n", "        assert!(!self.fields.contains(&field), \"Duplicate fields in index: {}\", field);\n")))
same("bd_check_fn", (L, AF, "        self.check_new(field);\n        self.fields.push(field.to_owned());\n        self.field_tokenizers.push(None);\n        self\n    }\n\n    fn check_new(&self, field: &str) {\n        if self.fields.iter().any(|f| f == field) {\n            panic!(\"Duplicate fields in index: {}\", field);\n        }\n"))
same("bd_position", (L, AT, AT.replace("self.fields.contains(&field)", "self.fields.iter().position(|f| f == &field).is_some()")))
same("bd_fields_while", (L, "        for field in fields {\n            self = self.add_field(field.as_ref())\n        }\n        self\n", "        let mut names = fields.into_iter();\n        while let Some(name) = names.next() {\n            self = self.add_field(name.as_ref());\n        }\n        self\n"))
same("bd_fields_fold", (L, "    pub fn add_fields<I>(mut self,", "    pub fn add_fields<I>(self,"), (L, "        for field in fields {\n            self = self.add_field(field.as_ref())\n        }\n        self\n", "        fields\n            .into_iter()\n            .fold(self, |builder, field| builder.add_field(field.as_ref()))\n"))
same("bd_build_for", (L, "        let index = fields\n            .iter()\n            .map(|f| (f.clone(), InvertedIndex::new()))\n            .collect();\n", "        let mut index = BTreeMap::new();\n        for field in &fields {\n            index.insert(field.to_owned(), InvertedIndex::default());\n        }\n"))
same("bd_build_zip", (L, "        let index = fields\n            .iter()\n            .map(|f| (f.clone(), InvertedIndex::new()))\n            .collect();\n", "        let index = fields\n            .iter()\n            .cloned()\n            .zip(std::iter::repeat_with(InvertedIndex::new))\n            .collect();\n"))
same("bd_build_pipe", (L, "        let pipeline = pipeline.unwrap_or_else(|| language.make_pipeline());\n", "        let pipeline = if let Some(pipeline) = pipeline {\n            pipeline\n        } else {\n            language.make_pipeline()\n        };\n"))
same("ix_new_vec", (L, "        IndexBuilder::new().add_fields(fields).build()\n", "        let builder = IndexBuilder::default();\n        let builder = builder.add_fields(fields);\n        builder.build()\n"))
same("sp_collect_seq", (P, "        let mut seq = serializer.serialize_seq(Some(self.queue.len()))?;\n        for elem in &self.queue {\n            seq.serialize_element(&elem.name())?;\n        }\n        seq.end()\n", "        serializer.collect_seq(self.queue.iter().map(|func| func.name()))\n"))
same("sp_names", (P, "        let mut seq = serializer.serialize_seq(Some(self.queue.len()))?;\n        for elem in &self.queue {\n            seq.serialize_element(&elem.name())?;\n        }\n        seq.end()\n", "        let names: Vec<String> = self.queue.iter().map(|func| func.name()).collect();\n        names.serialize(serializer)\n"))
same("sl_ok_or", (L, "            match crate::lang::from_name(v) {\n                Some(l) => Ok(l),\n                None => Err(E::custom(format!(\"Unknown language name: {}\", v))),\n            }\n", "            crate::lang::from_name(v)\n                .ok_or_else(|| E::custom(format!(\"Unknown language name: {}\", v)))\n"))
same("sl_visit_str", (L, "        fn visit_borrowed_str<E>(self, v: &'de str)", "        fn visit_str<E>(self, v: &str)"))
same("tk_split_ws", (LM, "    text.split(|c: char| c.is_whitespace() || c == '-')\n        .filter(|s| !s.is_empty())\n        .map(|s| s.trim().to_lowercase())\n        .collect()\n", "    text.split_whitespace()\n        .flat_map(|word| word.split('-'))\n        .filter(|part| !part.is_empty())\n        .map(str::to_lowercase)\n        .collect()\n"))
same("tk_loop", (LM, "    text.split(|c: char| c.is_whitespace() || c == '-')\n        .filter(|s| !s.is_empty())\n        .map(|s| s.trim().to_lowercase())\n        .collect()\n", "    let mut tokens = Vec::new();\n    for part in text.split(is_separator) {\n        if part.is_empty() {\n            continue;\n        }\n        tokens.push(part.to_lowercase());\n    }\n    tokens\n}\n\nfn is_separator(c: char) -> bool {\n    matches!(c, '-') || c.is_whitespace()\n"))
same("fc_lower", (LM, "            match code.to_ascii_lowercase().as_str() {\n", "            let lower = code.to_ascii_lowercase();\n            match &lower[..] {\n"))
same("cm_stop_then", (CM, "        if self.stop_words.contains(&token) {\n            None\n        } else {\n            Some(token)\n        }\n", "        Some(token).filter(|word| !self.stop_words.contains(word))\n"))
same("cm_stop_not", (CM, "        if self.stop_words.contains(&token) {\n            None\n        } else {\n            Some(token)\n        }\n", "        (!self.stop_words.contains(token.as_str())).then(|| token)\n"))
TRIM = "        let result = self.trimmer.replace_all(&token, \"\");\n        if result.is_empty() {\n            None\n        } else if result == token {\n            Some(token)\n        } else {\n            Some(result.into())\n        }\n"
same("cm_trim_match", (CM, TRIM, "        match self.trimmer.replace_all(&token, \"\").into_owned() {\n            trimmed if trimmed.is_empty() => None,\n            trimmed => Some(trimmed),\n        }\n"))
same("cm_trim_helper", (CM, TRIM, "        let trimmed = self.trim(&token);\n        if trimmed.is_empty() {\n            return None;\n        }\n        Some(trimmed)\n    }\n}\n\nimpl RegexTrimmer {\n    fn trim(&self, token: &str) -> String {\n        self.trimmer.replace_all(token, \"\").to_string()\n"))
bug("bd_case_dup", ["C11"], (L, AF, AF.replace("self.fields.contains(&field)", "self.fields.iter().any(|f: &String| f.eq_ignore_ascii_case(&field))").replace("let field = field.into();", "let field: String = field.into();")))
bug("bd_adj_dup", ["C11"], (L, AT, AT.replace("self.fields.contains(&field)", "self.fields.last() == Some(&field)")))
bug("bd_fields_skip", ["C11"], (L, "            self = self.add_field(field.as_ref())\n", "            if !field.as_ref().is_empty() {\n                self = self.add_field(field.as_ref())\n            }\n"))
bug("bd_setref_trim", ["C12"], (L, "        self.ref_field = ref_field.into();\n", "        self.ref_field = ref_field.trim().into();\n"))
bug("bd_setref_empty", ["C12"], (L, "        self.ref_field = ref_field.into();\n", "        if !ref_field.is_empty() {\n            self.ref_field = ref_field.into();\n        }\n"))
bug("bd_save_or", ["C12"], (L, "        self.save = save;\n", "        self.save = save && self.save;\n"))
bug("sp_skip_empty", ["C15", "C23"], (P, "            seq.serialize_element(&elem.name())?;\n", "            let name = elem.name();\n            if !name.is_empty() {\n                seq.serialize_element(&name)?;\n            }\n"))
bug("sl_first_lang", ["C24", "C26"], (L, "        serializer.serialize_str(&lang.name())\n", "        serializer.serialize_str(&lang.name().to_lowercase())\n"))
bug("tk_ascii_lower", ["C18"], (LM, "s.trim().to_lowercase()", "s.trim().to_ascii_lowercase()"))
bug("tk_ascii_ws", ["C18"], (LM, "c.is_whitespace() ||", "c.is_ascii_whitespace() ||"))
bug("tk_control", ["C18"], (LM, "c.is_whitespace() ||", "c.is_whitespace() || c.is_control() ||"))
bug("tk_dashes", ["C18"], (LM, "c == '-')", "c == '-' || c == '\\u{2010}')"))
bug("tk_minlen", ["C18"], (LM, "!s.is_empty())", "!s.is_empty() && s.len() < 1000)"))
bug("cm_stop_lower", ["C19"], (CM, "self.stop_words.contains(&token)", "self.stop_words.contains(&token.to_lowercase())"))
bug("cm_stop_trim", ["C19"], (CM, "self.stop_words.contains(&token)", "self.stop_words.contains(token.trim_end_matches('\\''))"))
bug("cm_stop_single", ["C19"], (CM, "self.stop_words.contains(&token)", "self.stop_words.contains(&token) || token.len() == 1"))
bug("cm_trim_once", ["C19"], (CM, "self.trimmer.replace_all(&token, \"\")", "self.trimmer.replace(&token, \"\")"))
bug("cm_trim_short", ["C19"], (CM, TRIM, TRIM.replace("if result.is_empty() {\n            None", "if result.is_empty() {\n            None\n        } else if result.chars().count() == 1 {\n            Some(token)")))
VARIANTS = V
