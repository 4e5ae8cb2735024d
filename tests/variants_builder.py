L = "src/lib.rs"
VARIANTS = []


def V(name, kind, edits, expect=()): VARIANTS.append({"name": name, "kind": kind, "edits": edits, "expect": expect})


ADDF = """        for field in fields {
            self = self.add_field(field.as_ref())
        }
        self
"""
SETREF = "        self.ref_field = ref_field.into();\n"
SAVE = "        self.save = save;\n"
PN = "        self.field_tokenizers.push(None);\n"
PS = "        self.field_tokenizers.push(Some(tokenizer));\n"
DUP = """        let field = field.into();
        if self.fields.contains(&field) {
            panic!("Duplicate fields in index: {}", field);
        }
        self.fields.push(field);
        self.field_tokenizers.push(None);
"""
V("bld_addfields_extend", "same", [(L, ADDF, """        for field in fields {
            let field: String = field.as_ref().to_string();
            assert!(!self.fields.contains(&field), "Duplicate fields in index: {}", field);
            self.fields.push(field);
            self.field_tokenizers.push(None);
        }
        self
""")])
V("bld_addfields_fold", "same", [(L, ADDF, "        fields.into_iter().fold(self, |b, f| b.add_field(f.as_ref()))\n")])
V("bld_addfields_nodup", "bug", [(L, ADDF, """        for field in fields {
            self.fields.push(field.as_ref().to_string());
            self.field_tokenizers.push(None);
        }
        self
""")], ["C11"])
V("bld_addfields_dup_prev", "bug", [(L, ADDF, """        let n = self.fields.len();
        for field in fields {
            let field: String = field.as_ref().to_string();
            if self.fields[..n].contains(&field) { panic!("Duplicate fields in index: {}", field); }
            self.fields.push(field);
            self.field_tokenizers.push(None);
        }
        self
""")], ["C11"])
V("bld_addfields_last", "bug", [(L, ADDF, """        for field in fields {
            let field: String = field.as_ref().to_string();
            if self.fields.last() == Some(&field) { panic!("Duplicate fields in index: {}", field); }
            self.fields.push(field);
            self.field_tokenizers.push(None);
        }
        self
""")], ["C11"])
V("bld_dup_any", "same", [(L, DUP, """        let field: String = field.into();
        if self.fields.iter().any(|f| *f == field) {
            panic!("Duplicate fields in index: {}", field);
        }
        self.field_tokenizers.push(None);
        self.fields.push(field);
""")])
V("bld_dup_loop", "same", [(L, DUP, """        for f in &self.fields {
            if f == field { panic!("Duplicate fields in index: {}", field); }
        }
        self.fields.push(field.to_string());
        self.field_tokenizers.push(None);
""")])
V("bld_dup_helper", "same", [(L, DUP, """        self.push_field(field.to_string(), None);
"""), (L, "    pub fn add_fields<I>", """    fn push_field(&mut self, field: String, tokenizer: Tokenizer) {
        if self.fields.contains(&field) {
            panic!("Duplicate fields in index: {}", field);
        }
        self.fields.push(field);
        self.field_tokenizers.push(tokenizer);
    }

    pub fn add_fields<I>""")])
V("bld_dup_ci", "bug", [(L, DUP, """        let field: String = field.into();
        if self.fields.iter().any(|f| f.eq_ignore_ascii_case(&field) && f.len() > 3) {
            panic!("Duplicate fields in index: {}", field);
        }
        self.fields.push(field);
        self.field_tokenizers.push(None);
""")], ["C11"])
V("bld_dup_skip", "bug", [(L, DUP, """        let field = field.into();
        if self.fields.contains(&field) {
            return self;
        }
        self.fields.push(field);
        self.field_tokenizers.push(None);
""")], ["C11"])
V("bld_tok_front", "bug", [(L, PS, "        self.field_tokenizers.insert(0, Some(tokenizer));\n")], ["C11"])
V("bld_tok_nopush", "bug", [(L, PN, "        if self.field_tokenizers.len() + 1 < self.fields.len() || self.field_tokenizers.is_empty() { self.field_tokenizers.push(None); }\n")], ["C11"])
V("bld_tok_insert_end", "same", [(L, PS, "        let at = self.field_tokenizers.len();\n        self.field_tokenizers.insert(at, Some(tokenizer));\n")])
V("bld_fields_sort", "bug", [(L, "        let index = fields\n", "        let mut fields = fields;\n        fields.sort();\n        let index = fields\n")], ["C11"])
V("bld_setref_lower", "bug", [(L, SETREF, "        self.ref_field = ref_field.to_lowercase();\n")], ["C12"])
V("bld_setref_first", "bug", [(L, SETREF, "        if self.ref_field == \"id\" { self.ref_field = ref_field.into(); }\n")], ["C12"])
V("bld_setref_empty", "bug", [(L, SETREF, "        if !ref_field.is_empty() { self.ref_field = ref_field.into(); }\n")], ["C12"])
V("bld_setref_owned", "same", [(L, SETREF, "        self.ref_field.clear();\n        self.ref_field.push_str(ref_field);\n")])
V("bld_setref_struct", "same", [(L, SETREF + "        self\n", "        Self { ref_field: ref_field.to_string(), ..self }\n"), (L, "pub fn set_ref(mut self", "pub fn set_ref(self")])
V("bld_save_or", "bug", [(L, SAVE, "        self.save |= save;\n")], ["C12"])
V("bld_save_and", "bug", [(L, SAVE, "        self.save = self.save && save;\n")], ["C12"])
V("bld_save_default", "bug", [(L, "            save: true,\n", "            save: false,\n")], ["C12"])
V("bld_setref_resets", "bug", [(L, SETREF, SETREF + "        self.save = true;\n")], ["C12"])
V("bld_build_save", "bug", [(L, "            document_store: DocumentStore::new(save),\n", "            document_store: DocumentStore::new(save || fields_empty),\n"), (L, "        let index = fields\n", "        let fields_empty = fields.len() > 3;\n        let index = fields\n")], ["C12"])
V("bld_build_loop", "same", [(L, """        let index = fields
            .iter()
            .map(|f| (f.clone(), InvertedIndex::new()))
            .collect();
""", """        let mut index = BTreeMap::new();
        for f in &fields {
            index.insert(f.clone(), InvertedIndex::new());
        }
""")])
V("bld_build_noindex", "bug", [(L, "            .map(|f| (f.clone(), InvertedIndex::new()))\n", "            .filter(|f| !f.is_empty())\n            .map(|f| (f.clone(), InvertedIndex::new()))\n")], ["C11"])
V("bld_build_pipeline_match", "same", [(L, "pipeline.unwrap_or_else(|| language.make_pipeline())", "match pipeline { Some(p) => p, None => language.make_pipeline() }")])
V("bld_lang_ignored", "bug", [(L, """        Self {
            language,
            ..Default::default()
        }
""", """        let mut b = Self::default();
        if language.code() != "xx" { b.language = language; }
        b
""")], ["C12"])
