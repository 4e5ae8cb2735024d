"""Edits of the document store and the inverted index (C01-C06), and structural ones (C27, C28, C30)."""
V = []
DS, II = "src/document_store.rs", "src/inverted_index.rs"


def _e(f, old, new): return [(f, o, n) for o, n in zip(old, new)] if isinstance(old, list) else [(f, old, new)]
def bug(name, f, old, new, expect): V.append(dict(name="sto_" + name, kind="bug", edits=_e(f, old, new), expect=[expect] if isinstance(expect, str) else list(expect)))
def same(name, f, old, new): V.append(dict(name="sto_" + name, kind="same", edits=_e(f, old, new)))


HAS = "        if !self.has_doc(doc_ref) {\n            self.length += 1;\n        }\n\n        self.docs.insert(\n            doc_ref.into(),\n            if self.save { doc } else { BTreeMap::new() },\n        );\n"
REM = "        if self.has_doc(doc_ref) {\n            self.length -= 1;\n        }\n\n        self.docs.remove(doc_ref);\n        self.doc_info.remove(doc_ref);\n"
AFL = "        self.doc_info\n            .entry(doc_ref.into())\n            .or_default()\n            .insert(field.into(), length);\n"
GFL = "        if self.has_doc(doc_ref) {\n            self.doc_info\n                .get(doc_ref)\n                .and_then(|e| e.get(field))\n                .cloned()\n                .unwrap_or(0)\n        } else {\n            0\n        }\n"
# ---- store: the same
same("add_early", DS, HAS, "        let text = if self.save { doc } else { BTreeMap::new() };\n        if self.docs.insert(doc_ref.to_string(), text).is_none() {\n            self.length += 1;\n        }\n")
same("add_len", DS, HAS, "        let text = if self.save { doc } else { Default::default() };\n        self.docs.insert(doc_ref.to_owned(), text);\n        self.length = self.docs.len();\n")
same("add_match", DS, HAS, "        let known = self.docs.get(doc_ref).is_some();\n        match (known, self.save) {\n            (false, true) => {\n                self.length += 1;\n                self.docs.insert(doc_ref.into(), doc);\n            }\n            (false, false) => {\n                self.length += 1;\n                self.docs.insert(doc_ref.into(), BTreeMap::new());\n            }\n            (true, true) => {\n                self.docs.insert(doc_ref.into(), doc);\n            }\n            (true, false) => {\n                self.docs.insert(doc_ref.into(), BTreeMap::new());\n            }\n        }\n")
same("add_entry", DS, HAS, "        use std::collections::btree_map::Entry;\n        let text = if self.save { doc } else { BTreeMap::new() };\n        match self.docs.entry(doc_ref.into()) {\n            Entry::Vacant(e) => {\n                self.length += 1;\n                e.insert(text);\n            }\n            Entry::Occupied(mut e) => {\n                e.insert(text);\n            }\n        }\n")
same("add_clear", DS, HAS, "        let mut doc = doc;\n        if !self.save {\n            doc.clear();\n        }\n        if !self.has_doc(doc_ref) {\n            self.length += 1;\n        }\n        self.docs.insert(doc_ref.into(), doc);\n")
same("add_helper", DS, HAS, "        self.count(doc_ref);\n        let kept = self.kept(doc);\n        self.docs.insert(doc_ref.into(), kept);\n    }\n\n    fn count(&mut self, doc_ref: &str) {\n        self.length += usize::from(!self.has_doc(doc_ref));\n    }\n\n    fn kept(&self, doc: BTreeMap<String, String>) -> BTreeMap<String, String> {\n        match self.save {\n            true => doc,\n            false => BTreeMap::new(),\n        }\n")
same("add_then", DS, HAS, "        if !self.has_doc(doc_ref) {\n            self.length += 1;\n        }\n        let text = self.save.then(|| doc).unwrap_or_default();\n        self.docs.insert(doc_ref.into(), text);\n")
same("rem_opt", DS, REM, "        if self.docs.remove(doc_ref).is_some() {\n            self.length -= 1;\n        }\n        self.doc_info.remove(doc_ref);\n")
same("rem_iflet", DS, REM, "        self.doc_info.remove(doc_ref);\n        if let Some(_) = self.docs.remove(doc_ref) {\n            self.length = self.docs.len();\n        }\n")
same("rem_retain", DS, "        self.doc_info.remove(doc_ref);\n", "        self.doc_info.retain(|k, _| k != doc_ref);\n")
same("rem_order", DS, REM, "        self.doc_info.remove(doc_ref);\n        self.docs.remove(doc_ref);\n        self.length = self.docs.len();\n")
same("rem_info_if", DS, "        self.doc_info.remove(doc_ref);\n", "        if self.doc_info.contains_key(doc_ref) {\n            self.doc_info.remove(doc_ref);\n        }\n")
same("afl_with", DS, AFL, "        self.doc_info\n            .entry(doc_ref.to_string())\n            .or_insert_with(BTreeMap::new)\n            .insert(field.to_string(), length);\n")
same("afl_entry", DS, AFL, "        let info = self.doc_info.entry(doc_ref.into()).or_default();\n        *info.entry(field.into()).or_insert(0) = length;\n")
same("afl_getmut", DS, AFL, "        if let Some(info) = self.doc_info.get_mut(doc_ref) {\n            info.insert(field.into(), length);\n            return;\n        }\n        let mut info = BTreeMap::new();\n        info.insert(field.into(), length);\n        self.doc_info.insert(doc_ref.into(), info);\n")
same("gfl_early", DS, GFL, "        if !self.has_doc(doc_ref) {\n            return 0;\n        }\n        match self.doc_info.get(doc_ref) {\n            Some(info) => info.get(field).copied().unwrap_or_default(),\n            None => 0,\n        }\n")
same("gfl_q", DS, GFL, "        self.docs\n            .get(doc_ref)\n            .and_then(|_| self.doc_info.get(doc_ref))\n            .and_then(|e| e.get(field))\n            .map_or(0, |n| *n)\n")
same("has_any", DS, "        self.docs.contains_key(doc_ref)\n", "        self.docs.get(doc_ref).is_some()\n")
same("get_map", DS, "        self.docs.get(doc_ref).cloned()\n", "        self.docs.get(doc_ref).map(|d| d.clone())\n")
same("get_match", DS, "        self.docs.get(doc_ref).cloned()\n", "        match self.docs.get(doc_ref) {\n            Some(doc) => Some(doc.clone()),\n            None => None,\n        }\n")
same("len_field", DS, "    pub fn is_empty(&self) -> bool {\n        self.len() == 0\n", "    pub fn is_empty(&self) -> bool {\n        self.docs.is_empty()\n")
# ---- store: bugs
bug("add_always", DS, HAS, "        self.length += 1;\n        self.docs.insert(doc_ref.into(), if self.save { doc } else { BTreeMap::new() });\n", "C01")
bug("add_info", DS, "        if !self.has_doc(doc_ref) {\n            self.length += 1;", "        if !self.has_doc(doc_ref) && !self.doc_info.contains_key(doc_ref) {\n            self.length += 1;", "C01")
bug("add_empty_len", DS, "        if !self.has_doc(doc_ref) {\n            self.length += 1;", "        if !self.has_doc(doc_ref) && !doc.is_empty() {\n            self.length += 1;", "C01")
bug("add_after", DS, HAS, "        self.docs.insert(\n            doc_ref.into(),\n            if self.save { doc } else { BTreeMap::new() },\n        );\n        if self.length != self.docs.len() {\n            self.length += 1;\n        }\n", [])
bug("add_keep_old", DS, HAS, "        if !self.has_doc(doc_ref) {\n            self.length += 1;\n            self.docs.insert(doc_ref.into(), if self.save { doc } else { BTreeMap::new() });\n        }\n", "C02")
bug("add_merge", DS, HAS, "        if !self.has_doc(doc_ref) {\n            self.length += 1;\n        }\n        let text = if self.save { doc } else { BTreeMap::new() };\n        self.docs.entry(doc_ref.into()).or_default().extend(text);\n", "C02")
bug("add_unsaved_second", DS, HAS, "        if !self.has_doc(doc_ref) {\n            self.length += 1;\n            let text = if self.save { doc } else { BTreeMap::new() };\n            self.docs.insert(doc_ref.into(), text);\n        } else {\n            self.docs.insert(doc_ref.into(), doc);\n        }\n", "C02")
bug("add_trim", DS, "if self.save { doc } else { BTreeMap::new() },", "if self.save { doc.into_iter().filter(|(_, t)| !t.is_empty()).collect() } else { BTreeMap::new() },", "C02")
bug("add_lower", DS, "if self.save { doc } else { BTreeMap::new() },", "if self.save { doc.into_iter().map(|(k, t)| (k, t.trim().to_string())).collect() } else { BTreeMap::new() },", "C02")
bug("add_keys", DS, "if self.save { doc } else { BTreeMap::new() },", "if self.save { doc } else { doc.into_iter().map(|(k, _)| (k, String::new())).collect() },", "C02")
bug("add_ref_trim", DS, "        self.docs.insert(\n            doc_ref.into(),", "        self.docs.insert(\n            doc_ref.trim().into(),", ["C01", "C02"])
bug("rem_len_min", DS, "        if self.has_doc(doc_ref) {\n            self.length -= 1;\n        }\n\n", "        self.length = self.length.saturating_sub(1);\n", "C01")
bug("rem_len_saved", DS, "        if self.has_doc(doc_ref) {\n            self.length -= 1;", "        if self.save && self.has_doc(doc_ref) {\n            self.length -= 1;", "C01")
bug("rem_no_info", DS, "        self.doc_info.remove(doc_ref);\n", "", "C03")
bug("rem_info_saved", DS, "        self.doc_info.remove(doc_ref);\n", "        if self.save {\n            self.doc_info.remove(doc_ref);\n        }\n", "C03")
bug("rem_info_clear", DS, "        self.doc_info.remove(doc_ref);\n", "        self.doc_info.remove(doc_ref);\n        if self.docs.is_empty() {\n            self.doc_info.clear();\n        }\n", "C03")
bug("rem_prefix", DS, "        self.doc_info.remove(doc_ref);\n", "        self.doc_info.retain(|k, _| !k.starts_with(doc_ref));\n", "C03")
bug("rem_blank", DS, "        self.docs.remove(doc_ref);\n", "        if let Some(d) = self.docs.get_mut(doc_ref) {\n            d.clear();\n        }\n", ["C01", "C03"])
bug("afl_once", DS, AFL, "        let mut info = BTreeMap::new();\n        info.insert(field.into(), length);\n        self.doc_info.insert(doc_ref.into(), info);\n", "C03")
bug("afl_max", DS, AFL, "        let n = self.doc_info.entry(doc_ref.into()).or_default().entry(field.into()).or_insert(0);\n        *n = length.max(*n);\n", "C03")
bug("gfl_nodoc", DS, GFL, "        self.doc_info.get(doc_ref).and_then(|e| e.get(field)).cloned().unwrap_or(0)\n", [])
bug("get_empty", DS, "        self.docs.get(doc_ref).cloned()\n", "        self.docs.get(doc_ref).filter(|d| !d.is_empty()).cloned()\n", "C02")
bug("has_text", DS, "        self.docs.contains_key(doc_ref)\n", "        self.docs.get(doc_ref).map_or(false, |d| !self.save || !d.is_empty())\n", ["C01", "C02"])
bug("new_len", DS, "            save,\n            docs: BTreeMap::new(),", "            save: true,\n            docs: BTreeMap::new(),", "C02")
bug("len_info", DS, "        self.docs.len()\n", "        self.doc_info.len()\n", "C01")
# ---- inverted index: the same
ADD = "            if !item.docs.contains_key(doc_ref) {\n                item.doc_freq += 1;\n            }\n            item.docs\n                .insert(doc_ref.into(), TermFrequency { term_freq });\n"
DEL = "            if item.docs.contains_key(doc_ref) {\n                item.docs.remove(doc_ref);\n                item.doc_freq -= 1;\n            }\n"
WALK = "        let mut iter = token.chars();\n        if let Some(character) = iter.next() {\n            let mut item = self.children.entry(character).or_default();\n\n            for character in iter {\n                let tmp = item;\n                item = tmp.children.entry(character).or_default();\n            }\n\n"
NODE = "        let mut root = self;\n        for ch in token.chars() {\n            root = root.children.get(&ch)?;\n        }\n\n        Some(root)\n"
same("inv_add_is_none", II, ADD, "            if item.docs.insert(doc_ref.into(), TermFrequency { term_freq }).is_none() {\n                item.doc_freq += 1;\n            }\n")
same("inv_add_len", II, ADD, "            item.docs.insert(doc_ref.to_string(), TermFrequency { term_freq });\n            item.doc_freq = item.docs.len() as i64;\n")
same("inv_add_entry", II, ADD, "            let mut fresh = false;\n            let tf = item.docs.entry(doc_ref.into()).or_insert_with(|| {\n                fresh = true;\n                TermFrequency { term_freq }\n            });\n            tf.term_freq = term_freq;\n            if fresh {\n                item.doc_freq += 1;\n            }\n")
same("inv_add_match", II, ADD, "            match item.docs.get_mut(doc_ref) {\n                Some(tf) => tf.term_freq = term_freq,\n                None => {\n                    item.doc_freq += 1;\n                    item.docs.insert(doc_ref.into(), TermFrequency { term_freq });\n                }\n            }\n")
same("inv_add_self", II, WALK + ADD + "        }\n", "        if token.is_empty() {\n            return;\n        }\n        let mut item = self;\n        for character in token.chars() {\n            item = item.children.entry(character).or_default();\n        }\n        if !item.docs.contains_key(doc_ref) {\n            item.doc_freq += 1;\n        }\n        item.docs.insert(doc_ref.into(), TermFrequency { term_freq });\n")
same("inv_add_helper", II, ["            if !item.docs.contains_key(doc_ref) {\n                item.doc_freq += 1;\n            }\n            item.docs\n                .insert(doc_ref.into(), TermFrequency { term_freq });\n        }\n    }\n"], ["            item.record(doc_ref, term_freq);\n        }\n    }\n\n    fn record(&mut self, doc_ref: &str, term_freq: f64) {\n        if !self.docs.contains_key(doc_ref) {\n            self.doc_freq += 1;\n        }\n        self.docs.insert(doc_ref.into(), TermFrequency { term_freq });\n    }\n"])
same("inv_del_some", II, DEL, "            if item.docs.remove(doc_ref).is_some() {\n                item.doc_freq -= 1;\n            }\n")
same("inv_del_len", II, DEL, "            item.docs.remove(doc_ref);\n            item.doc_freq = item.docs.len() as i64;\n")
same("inv_del_let", II, DEL, "            if let Some(_old) = item.docs.remove(doc_ref) {\n                item.doc_freq -= 1;\n            }\n")
same("inv_node_fold", II, NODE, "        token\n            .chars()\n            .try_fold(self, |node, ch| node.children.get(&ch))\n")
same("inv_node_while", II, NODE, "        let mut node = self;\n        let mut chars = token.chars();\n        while let Some(ch) = chars.next() {\n            match node.children.get(&ch) {\n                Some(child) => node = child,\n                None => return None,\n            }\n        }\n        Some(node)\n")
same("inv_node_rec", II, NODE, "        let mut root = Some(self);\n        for ch in token.chars() {\n            root = root.and_then(|r| r.children.get(&ch));\n        }\n        root\n")
same("inv_has_some", II, "self.root.get_node(token).map_or(false, |_| true)", "self.root.get_node(token).is_some()")
same("inv_docs_loop", II, "        self.root.get_node(token).map(|node| {\n            node.docs\n                .iter()\n                .map(|(k, &v)| (k.clone(), v.term_freq))\n                .collect()\n        })\n", "        let node = self.root.get_node(token)?;\n        let mut docs = BTreeMap::new();\n        for (doc_ref, tf) in &node.docs {\n            docs.insert(doc_ref.clone(), tf.term_freq);\n        }\n        Some(docs)\n")
same("inv_tf_match", II, "        self.root\n            .get_node(token)\n            .and_then(|node| node.docs.get(doc_ref))\n            .map_or(0., |docs| docs.term_freq)\n", "        match self.root.get_node(token) {\n            Some(node) => match node.docs.get(doc_ref) {\n                Some(tf) => tf.term_freq,\n                None => 0.0,\n            },\n            None => 0.0,\n        }\n")
same("inv_tf_via_docs", II, "        self.root\n            .get_node(token)\n            .and_then(|node| node.docs.get(doc_ref))\n            .map_or(0., |docs| docs.term_freq)\n", "        self.get_docs(token)\n            .and_then(|docs| docs.get(doc_ref).copied())\n            .unwrap_or(0.)\n")
same("inv_df_len", II, "self.root.get_node(token).map_or(0, |node| node.doc_freq)", "if let Some(node) = self.root.get_node(token) {\n            node.doc_freq\n        } else {\n            0\n        }")
same("inv_del_getnode", II, "            let mut item = match self.children.get_mut(&character) {\n                Some(child) => child,\n                None => return,\n            };\n\n            // Not recursive, since a token may be longer than the stack is deep\n            for character in iter {\n                item = match item.children.get_mut(&character) {\n                    Some(child) => child,\n                    None => return,\n                };\n            }\n", "            let mut item = match self.children.get_mut(&character) {\n                Some(child) => child,\n                None => return,\n            };\n            for c in token.chars().skip(1) {\n                match item.children.get_mut(&c) {\n                    Some(child) => item = child,\n                    None => return,\n                }\n            }\n            drop(iter);\n")
same("inv_del_self", II, "        let mut iter = token.chars();\n        if let Some(character) = iter.next() {\n            let mut item = match self.children.get_mut(&character) {\n                Some(child) => child,\n                None => return,\n            };\n\n            // Not recursive, since a token may be longer than the stack is deep\n            for character in iter {\n                item = match item.children.get_mut(&character) {\n                    Some(child) => child,\n                    None => return,\n                };\n            }\n\n" + DEL + "        }\n", "        if token.is_empty() {\n            return;\n        }\n        let mut item = self;\n        for character in token.chars() {\n            item = match item.children.get_mut(&character) {\n                Some(child) => child,\n                None => return,\n            };\n        }\n        if item.docs.remove(doc_ref).is_some() {\n            item.doc_freq -= 1;\n        }\n")
# ---- inverted index: bugs
bug("inv_df_always", II, "            if !item.docs.contains_key(doc_ref) {\n                item.doc_freq += 1;\n            }\n            item.docs", "            item.doc_freq += 1;\n            item.docs", "C04")
bug("inv_df_tf", II, "            if !item.docs.contains_key(doc_ref) {\n                item.doc_freq += 1;", "            if !item.docs.contains_key(doc_ref) && term_freq > 0. {\n                item.doc_freq += 1;", "C04")
bug("inv_df_cap", II, "                item.doc_freq += 1;", "                item.doc_freq = (item.doc_freq + 1).min(i64::from(u16::MAX));", "C04")
bug("inv_df_path", II, "                let tmp = item;\n                item = tmp.children", "                let tmp = item;\n                tmp.doc_freq = tmp.docs.len() as i64;\n                item = tmp.children", [])
bug("inv_df_path1", II, "                let tmp = item;\n                item = tmp.children", "                let tmp = item;\n                tmp.doc_freq += 1;\n                item = tmp.children", "C04")
bug("inv_del_nodf", II, "                item.docs.remove(doc_ref);\n                item.doc_freq -= 1;\n", "                item.docs.remove(doc_ref);\n                if item.docs.is_empty() {\n                    item.doc_freq = 0;\n                }\n", "C04")
bug("inv_del_zero", II, "                item.doc_freq -= 1;\n", "                item.doc_freq = (item.doc_freq - 1).max(1);\n", "C04")
bug("inv_del_unknown", II, DEL, "            item.docs.remove(doc_ref);\n            item.doc_freq -= 1;\n", "C04")
bug("inv_del_drop", II, DEL, "            if item.docs.contains_key(doc_ref) {\n                item.docs.remove(doc_ref);\n                item.doc_freq -= 1;\n                if item.docs.is_empty() {\n                    item.children.clear();\n                }\n            }\n", "C05")
bug("inv_del_all", II, "                item.docs.remove(doc_ref);\n                item.doc_freq -= 1;\n", "                item.docs.retain(|k, _| !k.starts_with(doc_ref));\n                item.doc_freq = item.docs.len() as i64;\n", "C05")
bug("inv_add_skip", II, "            for character in iter {\n                let tmp = item;", "            for character in iter.filter(|c| !c.is_control()) {\n                let tmp = item;", "C05")
bug("inv_add_lower", II, "item = tmp.children.entry(character).or_default();", "item = tmp.children.entry(character.to_ascii_lowercase()).or_default();", "C05")
bug("inv_add_take", II, "            for character in iter {\n                let tmp = item;", "            for character in iter.take(63) {\n                let tmp = item;", "C05")
bug("inv_add_keep", II, "            item.docs\n                .insert(doc_ref.into(), TermFrequency { term_freq });\n", "            item.docs\n                .entry(doc_ref.into())\n                .or_insert(TermFrequency { term_freq });\n", "C05")
bug("inv_add_tf_sum", II, "            item.docs\n                .insert(doc_ref.into(), TermFrequency { term_freq });\n", "            item.docs\n                .entry(doc_ref.into())\n                .or_insert(TermFrequency { term_freq: 0. })\n                .term_freq += term_freq;\n", "C05")
bug("inv_get_stop", II, NODE, "        let mut root = self;\n        for ch in token.chars() {\n            match root.children.get(&ch) {\n                Some(c) => root = c,\n                None if !root.docs.is_empty() => break,\n                None => return None,\n            }\n        }\n        Some(root)\n", "C05")
bug("inv_get_trim", II, "        for ch in token.chars() {\n            root =", "        for ch in token.trim_end().chars() {\n            root =", "C05")
bug("inv_has_df", II, "self.root.get_node(token).map_or(false, |_| true)", "self.root.get_node(token).map_or(false, |n| n.doc_freq > 1 || n.docs.len() == n.doc_freq as usize)", [])
bug("inv_has_docs", II, "self.root.get_node(token).map_or(false, |_| true)", "token.chars().count() < 4 && self.root.get_node(token).is_some() || self.root.get_node(token).map_or(false, |n| !n.docs.is_empty())", ["C06"])
bug("inv_docs_zero", II, "                .map(|(k, &v)| (k.clone(), v.term_freq))\n", "                .filter(|(_, v)| v.term_freq > 0.)\n                .map(|(k, &v)| (k.clone(), v.term_freq))\n", "C06")
bug("inv_tf_abs", II, ".map_or(0., |docs| docs.term_freq)", ".map_or(0., |docs| docs.term_freq.max(1.))", "C06")
bug("inv_tf_one", II, "            .and_then(|node| node.docs.get(doc_ref))\n", "            .and_then(|node| node.docs.get(doc_ref).or_else(|| node.docs.get(doc_ref.trim())))\n", "C06")
bug("inv_df_docs", II, "self.root.get_node(token).map_or(0, |node| node.doc_freq)", "self.root.get_node(token).map_or(0, |node| node.doc_freq + node.children.values().map(|c| c.doc_freq * 0).sum::<i64>())", [])
bug("inv_df_children", II, "self.root.get_node(token).map_or(0, |node| node.doc_freq)", "self.root.get_node(token).map_or(0, |node| if node.docs.is_empty() { node.children.values().map(|c| c.doc_freq).max().unwrap_or(0) } else { node.doc_freq })", ["C04", "C06"])
VARIANTS = V
