P = "src/pipeline.rs"
C = "src/lang/common.rs"
M = "src/lang/mod.rs"
EN = "src/lang/en.rs"
AR = "src/lang/ar.rs"
VARIANTS = []


def V(name, kind, edits, expect=()): VARIANTS.append({"name": name, "kind": kind, "edits": edits, "expect": expect})


RUN = """        let mut ret = vec![];
        for token in tokens {
            let mut token = Some(token);
            for func in &self.queue {
                if let Some(t) = token {
                    token = func.filter(t);
                } else {
                    break;
                }
            }
            if let Some(t) = token {
                ret.push(t);
            }
        }
        ret
"""


def R(name, kind, body): V(name, kind, [(P, RUN, body)], ["C13"])


R("run_tryfold", "same", "        tokens.into_iter().filter_map(|t| self.queue.iter().try_fold(t, |t, f| f.filter(t))).collect()\n")
R("run_andthen", "same", """        let mut ret = Vec::with_capacity(tokens.len());
        for token in tokens {
            let mut cur = Some(token);
            for f in self.queue.iter() {
                cur = cur.and_then(|t| f.filter(t));
            }
            ret.extend(cur);
        }
        ret
""")
R("run_label", "same", """        let mut ret = vec![];
        'tokens: for mut token in tokens {
            for func in &self.queue {
                token = match func.filter(token) { Some(t) => t, None => continue 'tokens };
            }
            ret.push(token);
        }
        ret
""")
R("run_index", "same", """        let mut ret = vec![];
        for token in tokens {
            let mut token = Some(token);
            let mut i = 0;
            while i < self.queue.len() {
                match token.take() {
                    Some(t) => token = self.queue[i].filter(t),
                    None => break,
                }
                i += 1;
            }
            if let Some(t) = token { ret.push(t); }
        }
        ret
""")
R("run_stagewise", "same", """        let mut toks = tokens;
        for func in &self.queue {
            toks = toks.into_iter().filter_map(|t| func.filter(t)).collect();
        }
        toks
""")
R("run_helper", "same", """        tokens.into_iter().filter_map(|t| self.run_one(t)).collect()
    }

    fn run_one(&self, token: String) -> Option<String> {
        let mut token = Some(token);
        for func in &self.queue {
            token = func.filter(token?);
        }
        token
""")
R("run_rev", "bug", RUN.replace("in &self.queue {", "in self.queue.iter().rev() {"))
R("run_skip_first", "bug", RUN.replace("in &self.queue {", "in self.queue.iter().skip(1) {"))
R("run_dedup", "bug", RUN.replace("        ret\n", "        ret.dedup();\n        ret\n"))
R("run_keep_on_none", "bug", """        let mut ret = vec![];
        for token in tokens {
            let mut token = token;
            for func in &self.queue {
                if let Some(t) = func.filter(token.clone()) {
                    token = t;
                } else {
                    break;
                }
            }
            ret.push(token);
        }
        ret
""")
R("run_abort", "bug", RUN.replace("                    break;", "                    return ret;"))
R("run_nonempty", "bug", RUN.replace("                ret.push(t);", "                if !t.is_empty() { ret.push(t); }"))
R("run_front", "bug", RUN.replace("ret.push(t);", "ret.insert(0, t);"))
R("run_short", "bug", RUN.replace("            let mut token = Some(token);", "            if token.len() > 64 { continue; }\n            let mut token = Some(token);"))
R("run_memo_prev", "bug", """        let mut ret: Vec<String> = vec![];
        let mut last: Option<(String, Option<String>)> = None;
        for token in tokens {
            let mut cur = Some(token.clone());
            if let Some((k, v)) = &last { if k.len() == token.len() { if let Some(x) = v { ret.push(x.clone()); } continue; } }
            for func in &self.queue {
                if let Some(t) = cur { cur = func.filter(t); } else { break; }
            }
            last = Some((token, cur.clone()));
            if let Some(t) = cur { ret.push(t); }
        }
        ret
""")
R("run_last_two", "bug", RUN.replace("            for func in &self.queue {", "            for func in self.queue.iter().take(3) {"))
V("wrap_empty", "bug", [(P, "        (self.1)(token)\n", "        (self.1)(token).filter(|t| !t.is_empty())\n")], ["C13", "C19"])
V("wrap_keep", "bug", [(P, "        (self.1)(token)\n", "        (self.1)(token.clone()).or(Some(token))\n")], ["C13"])
V("wrap_let", "same", [(P, "        (self.1)(token)\n", "        let f = self.1;\n        f(token)\n")])
V("wrap_match", "same", [(P, "        (self.1)(token)\n", "        match (self.1)(token) {\n            Some(t) => Some(t),\n            None => None,\n        }\n")])

# tokenizer
TK = """    text.split(|c: char| c.is_whitespace() || c == '-')
        .filter(|s| !s.is_empty())
        .map(|s| s.trim().to_lowercase())
        .collect()
"""


def T(name, kind, body): V(name, kind, [(M, TK, body)], ["C18"])


T("tok_ascii_ws", "bug", TK.replace("is_whitespace()", "is_ascii_whitespace()"))
T("tok_ascii_lower", "bug", TK.replace("to_lowercase()", "to_ascii_lowercase()"))
T("tok_nohyphen_cond", "bug", TK.replace("c == '-'", "c == '\\u{2010}' || c == '-'"))
T("tok_underscore", "bug", TK.replace("c == '-'", "c == '-' || c == '_'"))
T("tok_nbsp", "bug", TK.replace("c.is_whitespace()", "(c.is_whitespace() && c != '\\u{a0}')"))
T("tok_trimdot", "bug", TK.replace("s.trim()", "s.trim_end_matches('.')"))
T("tok_len", "bug", TK.replace("!s.is_empty()", "s.len() > 0 && s.len() < 256"))
T("tok_rev", "bug", TK.replace("        .filter", "        .rev()\n        .filter"))
T("tok_dedup", "bug", "    let mut v: Vec<String> = " + TK.strip() + ";\n    v.dedup();\n    v\n")
T("tok_lower_first", "same", "    text.to_lowercase()\n        .split(|c: char| c.is_whitespace() || c == '-')\n        .filter(|s| !s.is_empty())\n        .map(String::from)\n        .collect()\n")
T("tok_splitws", "same", "    text.split_whitespace()\n        .flat_map(|w| w.split('-'))\n        .filter(|s| !s.is_empty())\n        .map(|s| s.to_lowercase())\n        .collect()\n")
T("tok_loop", "same", """    let mut out = Vec::new();
    for s in text.split(|c: char| c.is_whitespace() || c == '-') {
        if s.is_empty() {
            continue;
        }
        out.push(s.to_lowercase());
    }
    out
""")
T("tok_fnsep", "same", "    fn sep(c: char) -> bool { matches!(c, '-') || c.is_whitespace() }\n    text.split(sep).filter(|s| !s.is_empty()).map(str::to_lowercase).collect()\n")
T("tok_filter_after", "same", "    text.split(|c: char| c.is_whitespace() || c == '-')\n        .map(|s| s.to_lowercase())\n        .filter(|s| !s.is_empty())\n        .collect()\n")
T("tok_filtermap", "same", "    text.split(|c: char| c == '-' || c.is_whitespace())\n        .filter_map(|s| if s.is_empty() { None } else { Some(s.to_lowercase()) })\n        .collect()\n")
T("tok_manual", "same", """    let mut out = Vec::new();
    let mut cur = String::new();
    for c in text.chars() {
        if c.is_whitespace() || c == '-' {
            if !cur.is_empty() {
                out.push(cur.to_lowercase());
                cur.clear();
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        out.push(cur.to_lowercase());
    }
    out
""")
T("tok_manual_lost", "bug", """    let mut out = Vec::new();
    let mut cur = String::new();
    for c in text.chars() {
        if c.is_whitespace() || c == '-' {
            if !cur.is_empty() {
                out.push(cur.to_lowercase());
                cur.clear();
            }
        } else {
            cur.push(c);
        }
    }
    if cur.len() > 1 {
        out.push(cur.to_lowercase());
    }
    out
""")
T("tok_charlower", "bug", """    let mut out = Vec::new();
    let mut cur = String::new();
    for c in text.chars() {
        if c.is_whitespace() || c == '-' {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
        } else {
            cur.extend(c.to_lowercase());
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
""")
V("tok_fr_own", "bug", [("src/lang/fr.rs", "        super::tokenize_whitespace(text)\n", "        text.split_whitespace().map(|s| s.to_lowercase()).collect()\n")], ["C18"])
V("tok_tr_own", "bug", [("src/lang/tr.rs", "        super::tokenize_whitespace(text)\n", "        super::tokenize_whitespace(&text.replace('I', \"ı\"))\n")], ["C18"])
V("tok_de_inline", "same", [("src/lang/de.rs", "        super::tokenize_whitespace(text)\n", "        let text = text.trim();\n        super::tokenize_whitespace(text)\n")])

# filters
SW = """        if self.stop_words.contains(&token) {
            None
        } else {
            Some(token)
        }
"""
V("stop_lower", "bug", [(C, SW, SW.replace("&token", "&token.to_lowercase()"))], ["C19"])
V("stop_prefix", "bug", [(C, SW, "        if self.stop_words.iter().any(|w| token.starts_with(w.as_str())) {\n            None\n        } else {\n            Some(token)\n        }\n")], ["C19"])
V("stop_trim", "bug", [(C, "stop_words.iter().map(|s| s.to_string())", "stop_words.iter().map(|s| s.trim_end_matches('.').to_string())")], ["C19"])
V("stop_skipempty", "bug", [(C, "stop_words.iter().map(|s| s.to_string())", "stop_words.iter().filter(|s| !s.is_empty()).map(|s| s.to_string())")], ["C19", "C16"])
V("stop_binsearch", "bug", [(C, "    stop_words: HashSet<String>,\n", "    stop_words: Vec<String>,\n"), (C, SW, SW.replace("contains(&token)", "binary_search(&token).is_ok()")), (C, "use std::collections::HashSet;\n", "")], ["C19"])
V("stop_vec", "same", [(C, "    stop_words: HashSet<String>,\n", "    stop_words: Vec<String>,\n"), (C, "use std::collections::HashSet;\n", "")])
V("stop_btree", "same", [(C, "    stop_words: HashSet<String>,\n", "    stop_words: std::collections::BTreeSet<String>,\n"), (C, "use std::collections::HashSet;\n", "")])
V("stop_match", "same", [(C, SW, "        match self.stop_words.get(&token) {\n            Some(_) => None,\n            None => Some(token),\n        }\n")])
V("stop_then", "same", [(C, SW, "        Some(token).filter(|t| !self.stop_words.contains(t))\n")])
TR = """        let result = self.trimmer.replace_all(&token, "");
        if result.is_empty() {
            None
        } else if result == token {
            Some(token)
        } else {
            Some(result.into())
        }
"""
V("trim_replace_one", "bug", [(C, TR, TR.replace("replace_all", "replace"))], ["C19"])
V("trim_nodrop", "bug", [(C, TR, TR.replace("        if result.is_empty() {\n            None\n        } else if", "        if"))], ["C16", "C19"])
V("trim_inner", "bug", [(C, '"^[^{0}]+|[^{0}]+$"', '"[^{0}]+"')], ["C19"])
V("trim_star", "same", [(C, '"^[^{0}]+|[^{0}]+$"', '"^[^{0}]*|[^{0}]*$"')])
V("trim_single", "bug", [(C, '"^[^{0}]+|[^{0}]+$"', '"^[^{0}]|[^{0}]$"')], ["C19"])
V("trim_word", "bug", [(C, '"^[^{0}]+|[^{0}]+$"', '"^[^{0}0-9]+|[^{0}0-9]+$"')], ["C19"])
V("trim_simple", "same", [(C, TR, "        let result = self.trimmer.replace_all(&token, \"\").into_owned();\n        if result.is_empty() { None } else { Some(result) }\n")])
V("trim_two", "same", [(C, TR, TR.replace('        let result', '        let token: String = token;\n        let result'))])
V("trim_restore", "bug", [(C, TR, TR.replace("        if result.is_empty() {\n            None\n", "        if result.is_empty() {\n            Some(token)\n"))], ["C16", "C19"])
V("stem_nodrop", "bug", [(C, """        let result = self.stemmer.stem(&token);
        if result.is_empty() {
            None
        } else if result == token {""", """        let result = self.stemmer.stem(&token);
        if result == token {""")], ["C16"])
V("en_trim_under", "bug", [(EN, "|c: char| ", "|c: char| c == '_' || ")], ["C19"])
V("en_noempty", "bug", [(EN, '    "", "a", "able"', '    "a", "able"')], ["C16"])
V("ru_trim_narrow", "bug", [("src/lang/ru.rs", r'r"\p{Cyrillic}"', 'r"а-яА-Я"')], ["C19"])
V("ru_trim_latin", "bug", [("src/lang/ru.rs", r'r"\p{Cyrillic}"', r'r"\p{Cyrillic}\p{Latin}"')], ["C19"])
V("fr_trim_ascii", "bug", [("src/lang/fr.rs", r'r"\p{Latin}"', r'r"A-Za-zÀ-ÿ"')], ["C19"])

# languages
V("ar_noempty", "bug", [(AR, "        if result.is_empty() {\n            None\n        } else if", "        if")], ["C16"])
V("ar_set", "bug", [(AR, "\\u{0640}\\u{064b}-\\u{065b}", "\\u{0640}\\u{064b}-\\u{0652}")], ["C20"])
V("ar_alef", "bug", [(AR, "\\u{0625}\\u{0671}", "\\u{0625}")], ["C20"])
V("ar_plain", "bug", [(AR, '(&result, "\\u{0627}")', '(&result, "\\u{0649}")')], ["C20"])
V("ar_all", "same", [(AR, "diacritics.replace(", "diacritics.replace_all("), (AR, "alefs.replace(", "alefs.replace_all(")])
V("ar_order", "bug", [(AR, "        let result = self.diacritics.replace(&token, \"\");", "        if token.chars().count() < 3 { return Some(token); }\n        let result = self.diacritics.replace(&token, \"\");")], ["C20"])
V("sv_wrong_alg", "bug", [("src/lang/sv.rs", "Algorithm::Swedish", "Algorithm::Norwegian")], ["C15"])
V("du_alg", "bug", [("src/lang/du.rs", "Algorithm::Dutch", "Algorithm::German")], ["C15"])
V("pt_name", "bug", [("src/lang/pt.rs", '"stemmer-pt"', '"stemmer-es"')], ["C15"])
V("fi_order", "bug", [("src/lang/fi.rs", """                Box::new(StopWordFilter::new("stopWordFilter-fi", STOP_WORDS)),
                Box::new(RustStemmer::new("stemmer-fi", Algorithm::Finnish)),
""", """                Box::new(RustStemmer::new("stemmer-fi", Algorithm::Finnish)),
                Box::new(StopWordFilter::new("stopWordFilter-fi", STOP_WORDS)),
""")], ["C15"])
V("it_swapped_names", "bug", [("src/lang/it.rs", '"trimmer-it"', '"stopWordFilter-it"'), ("src/lang/it.rs", 'StopWordFilter::new("stopWordFilter-it"', 'StopWordFilter::new("trimmer-it"')], ["C15"])
V("du_code_nl", "bug", [("src/lang/du.rs", '"du".into()', '"nl".into()')], ["C14", "C15"])
V("no_name", "bug", [("src/lang/no.rs", '"Norwegian".into()', '"Norwegian Bokmal".into()')], ["C14"])
V("code_nolower", "bug", [(M, "match code.to_ascii_lowercase().as_str()", "match code")], ["C14"])
V("code_lower", "same", [(M, "match code.to_ascii_lowercase().as_str()", "match code.to_lowercase().as_str()")])
V("code_prefix", "bug", [(M, "match code.to_ascii_lowercase().as_str()", "match code.to_ascii_lowercase().split('-').next().unwrap_or(\"\")")], ["C14"])
V("lang_cfg_swap", "bug", [(M, '(Danish, da, #[cfg(feature = "da")])', '(Danish, da, #[cfg(feature = "de")])')], ["C14"])
V("lang_missing", "bug", [(M, '    (Finnish, fi, #[cfg(feature = "fi")]),\n', '')], ["C14"])
V("name_lower", "bug", [(M, "            match name {\n", "            match name.trim() {\n")], ["C14"])
V("lang_reorder", "same", [(M, '    (Finnish, fi, #[cfg(feature = "fi")]),\n', ''), (M, '    (Turkish, tr, #[cfg(feature = "tr")]),\n', '    (Turkish, tr, #[cfg(feature = "tr")]),\n    (Finnish, fi, #[cfg(feature = "fi")]),\n')])
V("sv_upper_word", "bug", [("src/lang/sv.rs", '"", "alla"', '"", "Alla"')], ["C17"])
V("es_space_word", "bug", [("src/lang/es.rs", '    "",\n    "a",\n', '    "",\n    "a ",\n')], ["C17"])
V("de_quote_word", "bug", [("src/lang/de.rs", '    "aber",\n', '    "aber\'",\n')], ["C17"])
V("sv_list_shared", "bug", [("src/lang/sv.rs", "use rust_stemmers::Algorithm;\n", "use rust_stemmers::Algorithm;\n"), ("src/lang/sv.rs", '("stopWordFilter-sv", STOP_WORDS)', '("stopWordFilter-sv", &["", "aber", "als", "am"])')], [])
V("sv_const_helper", "same", [("src/lang/sv.rs", """            queue: vec![
                Box::new(RegexTrimmer::new("trimmer-sv", r"\\p{Latin}")),
                Box::new(StopWordFilter::new("stopWordFilter-sv", STOP_WORDS)),
                Box::new(RustStemmer::new("stemmer-sv", Algorithm::Swedish)),
            ],
""", """            queue: functions(self.code().as_str()),
""") , ("src/lang/sv.rs", "const STOP_WORDS:", """fn functions(code: &str) -> Vec<Box<dyn crate::pipeline::PipelineFn>> {
    let mut queue: Vec<Box<dyn crate::pipeline::PipelineFn>> = Vec::with_capacity(3);
    queue.push(Box::new(RegexTrimmer::new(&format!("trimmer-{}", code), r"\\p{Latin}")));
    queue.push(Box::new(StopWordFilter::new(&format!("stopWordFilter-{}", code), STOP_WORDS)));
    queue.push(Box::new(RustStemmer::new(&format!("stemmer-{}", code), Algorithm::Swedish)));
    queue
}

const STOP_WORDS:""")])
