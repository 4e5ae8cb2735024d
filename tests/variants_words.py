"""Variants for the stemmers of the library and the segmenting tokenizers."""
V = []
CM, JA, ZH, KO = "src/lang/common.rs", "src/lang/ja.rs", "src/lang/zh.rs", "src/lang/ko.rs"


def bug(name, expect, f, old, new): V.append(dict(name="wd_" + name, kind="bug", edits=[(f, old, new)], expect=[expect]))
def same(name, f, old, new): V.append(dict(name="wd_" + name, kind="same", edits=[(f, old, new)]))


ST = """        let result = self.stemmer.stem(&token);
        if result.is_empty() {
            None
        } else if result == token {
            Some(token)
        } else {
            Some(result.into())
        }
"""
assert ST in open("/repo/" + CM).read()
same("st_into", CM, ST, "        let result = self.stemmer.stem(&token);\n        if result.is_empty() {\n            return None;\n        }\n        Some(result.into_owned())\n")
same("st_filter", CM, ST, "        Some(self.stemmer.stem(&token).into_owned()).filter(|stem| !stem.is_empty())\n")
same("st_match", CM, ST, "        match self.stemmer.stem(&token) {\n            stem if stem.is_empty() => None,\n            stem => Some(stem.to_string()),\n        }\n")
same("st_cow", CM, ST, "        use std::borrow::Cow;\n        let stem = match self.stemmer.stem(&token) {\n            Cow::Borrowed(s) => s.to_owned(),\n            Cow::Owned(s) => s,\n        };\n        if stem.is_empty() {\n            None\n        } else {\n            Some(stem)\n        }\n")
same("st_len", CM, ST, ST.replace("result.is_empty()", "result.len() == 0"))
same("st_helper", CM, ST, "        let result = self.stemmer.stem(&token);\n        non_empty(result.as_ref())\n    }\n}\n\nfn non_empty(text: &str) -> Option<String> {\n    if text.is_empty() {\n        None\n    } else {\n        Some(text.to_string())\n")
bug("st_long", "C35", CM, ST, "        if token.len() > 64 {\n            return Some(token);\n        }\n" + ST)
bug("st_long_drop", "C35", CM, ST, "        if token.chars().count() > 60 {\n            return None;\n        }\n" + ST)
bug("st_digits", "C35", CM, ST, "        if token.chars().any(|c| c.is_ascii_digit()) {\n            return Some(token);\n        }\n" + ST)
bug("st_min", "C35", CM, ST, ST.replace("result.is_empty()", "result.len() < 2"))
bug("st_lower", "C35", CM, ST, ST.replace("stem(&token)", "stem(&lower)").replace("        let result", "        let lower = token.to_lowercase();\n        let result"))
bug("st_out_trim", "C35", CM, ST, ST.replace("Some(result.into())", "Some(result.trim_end_matches('\\'').to_string())"))
bug("st_twice", "C35", CM, ST, ST.replace("stem(&token);\n", "stem(&token);\n        let result = self.stemmer.stem(&result);\n"))
bug("st_keep_hyph", "C35", CM, ST, "        if token.contains('-') {\n            return Some(token);\n        }\n" + ST)
bug("st_shorter", "C35", CM, ST, ST.replace("result == token", "result.len() == token.len()"))
bug("st_ko_long", "C35", KO, "fn stemmer(token: String) -> Option<String> {\n    Some(token)\n", "fn stemmer(token: String) -> Option<String> {\n    if token.len() > 90 {\n        return None;\n    }\n    Some(token)\n")
bug("st_ja_vowel", "C35", JA, "fn stemmer(token: String) -> Option<String> {\n    Some(token)\n", "fn stemmer(mut token: String) -> Option<String> {\n    if token.ends_with('ー') && token.chars().count() > 3 {\n        token.pop();\n    }\n    Some(token)\n")
same("st_zh_match", ZH, "fn stemmer(token: String) -> Option<String> {\n    Some(token)\n", "fn stemmer(token: String) -> Option<String> {\n    let stem = token;\n    Option::Some(stem)\n")
# segmenters
ZT = """        self.jieba
            .cut_for_search(text, false)
            .iter()
            .map(|s| s.to_string())
            .collect()
"""
same("zh_into", ZH, ZT, "        self.jieba\n            .cut_for_search(text, false)\n            .into_iter()\n            .map(String::from)\n            .collect()\n")
same("zh_loop", ZH, ZT, "        let words = self.jieba.cut_for_search(text, false);\n        let mut tokens = Vec::with_capacity(words.len());\n        for word in words {\n            tokens.push(word.to_owned());\n        }\n        tokens\n")
same("zh_extend", ZH, ZT, "        let mut tokens = Vec::new();\n        tokens.extend(self.jieba.cut_for_search(text, false).iter().map(|w| (*w).to_string()));\n        tokens\n")
bug("zh_cut", "C36", ZH, ZT, ZT.replace("cut_for_search(text, false)", "cut(text, false)"))
bug("zh_hmm", "C36", ZH, ZT, ZT.replace("text, false", "text, true"))
bug("zh_lower", "C36", ZH, ZT, ZT.replace("s.to_string()", "s.to_lowercase()"))
bug("zh_ws", "C36", ZH, ZT, ZT.replace(".iter()\n", ".iter()\n            .filter(|s| s.chars().all(char::is_alphanumeric))\n"))
bug("zh_trim", "C36", ZH, ZT, ZT.replace("(text,", "(text.trim(),"))
bug("zh_dedup", "C36", ZH, ZT, "        let mut tokens: Vec<String> = self\n            .jieba\n            .cut_for_search(text, false)\n            .iter()\n            .map(|s| s.to_string())\n            .collect();\n        tokens.dedup();\n        tokens\n")
bug("zh_long", "C36", ZH, ZT, ZT.replace(".iter()\n", ".iter()\n            .filter(|s| s.len() < 64)\n"))
JT = open("/repo/" + JA).read()
JT = JT[JT.index("        self.tokenizer\n"):JT.index("    fn make_pipeline")]
JT = JT[:JT.rindex("    }\n")]
same("ja_if", JA, JT, """        let words = self.tokenizer.tokenize(text).unwrap();
        let mut tokens = Vec::new();
        for word in words {
            if let Some(kind) = word.detail.first() {
                if matches!(kind.as_str(), "助詞" | "助動詞" | "記号" | "UNK") {
                    continue;
                }
            }
            tokens.push(word.text.to_string());
        }
        tokens
""")
same("ja_const", JA, JT, """        const SKIPPED: [&str; 4] = ["助詞", "助動詞", "記号", "UNK"];
        self.tokenizer
            .tokenize(text)
            .unwrap()
            .into_iter()
            .filter(|tok| tok.detail.get(0).map_or(true, |d| !SKIPPED.contains(&d.as_str())))
            .map(|tok| String::from(tok.text))
            .collect()
""")
bug("ja_last", "C36", JA, JT, JT.replace("detail.first()", "detail.last()"))
bug("ja_any", "C36", JA, JT, JT.replace("match tok.detail.first().map(|d| d.as_str()) {", "match tok.detail.iter().map(|d| d.as_str()).find(|d| *d != \"名詞\") {"))
bug("ja_nodetail", "C36", JA, JT, JT.replace("""Some("UNK") => None""", """Some("UNK") | None => None"""))
bug("ja_unk", "C36", JA, JT, JT.replace(""" | Some("UNK") => None""", " => None"))
bug("ja_one", "C36", JA, JT, JT.replace("_ => Some(tok.text.to_string())", "_ if tok.text.chars().count() > 40 => None,\n                _ => Some(tok.text.to_string())"))
bug("ja_filler", "C36", JA, JT, JT.replace("""Some("UNK") => None""", """Some("UNK") | Some("フィラー") => None"""))
bug("ja_text", "C36", JA, JT, JT.replace("tokenize(text)", "tokenize(text.trim_start())"))
bug("ja_base", "C36", JA, JT, JT.replace("Some(tok.text.to_string())", "Some(tok.detail.get(6).cloned().unwrap_or_else(|| tok.text.to_string()))"))
VARIANTS = V
