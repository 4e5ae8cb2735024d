"""Edits of the English stemmer (C21, C22)."""
V = []
EN = "src/lang/en.rs"


def bug(name, old, new, expect): V.append(dict(name="stm_" + name, kind="bug", edits=[(EN, o, n) for o, n in zip(old, new)] if isinstance(old, list) else [(EN, old, new)], expect=[expect] if isinstance(expect, str) else list(expect)))
def same(name, old, new): V.append(dict(name="stm_" + name, kind="same", edits=[(EN, o, n) for o, n in zip(old, new)] if isinstance(old, list) else [(EN, old, new)]))


bug("dc_nonascii", " && self.b[i].is_ascii() && self.is_consonant(i)", " && self.is_consonant(i)", "C21")
bug("vowel_prec", "(self.ends(\"ed\") || self.ends(\"ing\")) && self.has_vowel()", "self.ends(\"ed\") || self.ends(\"ing\") && self.has_vowel()", "C21")
bug("len_one", "    if word.len() > 2 {\n", "    if word.len() > 1 {\n", "C34")
bug("chars_guard", "    if word.len() > 2 {\n", "    if word.chars().count() >= 1 {\n", "C21")
bug("ion_guard", "                    && self.j > 0\n", "", "C21")
bug("step2_guard", "    fn step2(&mut self) {\n        if self.k < 2 {\n            return;\n        }\n", "    fn step2(&mut self) {\n", "C21")
bug("step4_guard", "    fn step4(&mut self) {\n        if self.k < 2 {\n            return;\n        }\n", "    fn step4(&mut self) {\n", "C21")
bug("cvc_guard", "if i < 2 || !self.is_consonant(i)", "if i < 1 || !self.is_consonant(i)", "C21")
bug("dc_guard", "        i >= 1 && self.b[i] == self.b[i - 1]", "        self.b[i] == self.b[i - 1]", "C21")
bug("y_guard", "        if self.k > 2\n            && self.ends(\"y\")", "        if self.k > 0\n            && self.ends(\"y\")", [])
bug("ends_guard", "        if len > self.k {\n            false", "        if len > self.b.len() {\n            false", "C21")
bug("k_chars", "        let k = b.len();\n", "        let k = word.chars().count();\n", "C21")
bug("k_lower", "        let b = word.to_ascii_lowercase().into_bytes();\n        let k = b.len();\n", "        let b = word.to_lowercase().into_bytes();\n        let k = word.len();\n", "C21")
bug("step5_twice", "            if a > 1 || a == 1 && !self.cvc(self.k - 2) {\n                self.k -= 1\n            }\n", "            if a > 1 || !self.cvc(self.k - 2) {\n                self.k -= 1\n            }\n", "C21")
bug("y_byte", "&& !matches!(self.b[self.k - 2], b'a' | b'e' | b'i' | b'o' | b'u')\n        {\n            self.b[self.k - 1] = b'i';", "&& !matches!(self.b[self.k - 2], b'a' | b'e' | b'i' | b'o' | b'u')\n        {\n            self.b[self.k - 2] = b'i';", "C21")
bug("s_cut", "            } else if self.b[self.k - 2] != b's' {\n                self.k -= 1;\n", "            } else if self.b[self.k - 2] != b's' {\n                self.k -= 2;\n", "C21")
bug("sub_at", "                match self.b[self.k - 1] {\n                    b'l' | b's' | b'z' => self.k += 1,", "                match self.b[self.k] {\n                    b'l' | b's' | b'z' => self.k += 2,", [])
bug("ten_e", "            } else if self.measure() == 1 && self.cvc(self.k - 1) {\n                self.set_to(\"e\");", "            } else if self.measure() == 1 && self.cvc(self.k - 1) {\n                self.set_to(\"ingly\");", "C21")
# tables
bug("s2_order", "                if self.ends(\"ational\") {\n                    self.r(\"ate\");\n                    return;\n                }\n                if self.ends(\"tional\") {\n                    self.r(\"tion\");\n                }\n", "                if self.ends(\"tional\") {\n                    self.r(\"tion\");\n                    return;\n                }\n                if self.ends(\"ational\") {\n                    self.r(\"ate\");\n                }\n", "C22")
bug("s2_fall", "                if self.ends(\"ization\") {\n                    self.r(\"ize\");\n                    return;\n                }\n", "                if self.ends(\"ization\") {\n                    self.r(\"ize\");\n                }\n", [])
bug("s2_abli", "                if self.ends(\"bli\") {\n                    self.r(\"ble\");\n                    return;\n                } /*", "                if self.ends(\"abli\") {\n                    self.r(\"able\");\n                    return;\n                } /*", "C22")
bug("s2_logi", "                if self.ends(\"logi\") {\n                    self.r(\"log\");\n                }\n", "                if self.ends(\"ogi\") {\n                    self.r(\"og\");\n                }\n", "C22")
bug("s2_ousness", "                if self.ends(\"ousness\") {\n                    self.r(\"ous\");\n                }\n", "                if self.ends(\"ousness\") {\n                    self.set_to(\"ous\");\n                }\n", [])
bug("s2_biliti", "self.ends(\"biliti\") {\n                    self.r(\"ble\");", "self.ends(\"biliti\") {\n                    self.r(\"bl\");", "C22")
bug("s2_dispatch", "            b'g' => {\n                if self.ends(\"logi\")", "            b'o' if false => {\n                if self.ends(\"logi\")", "C22")
bug("s2_short", "    fn step2(&mut self) {\n        if self.k < 2 {\n", "    fn step2(&mut self) {\n        if self.k < 7 {\n", "C22")
bug("s3_ative", "                if self.ends(\"ative\") {\n                    self.r(\"\");", "                if self.ends(\"ative\") {\n                    self.r(\"ate\");", "C22")
bug("s3_ical", "                if self.ends(\"ical\") {\n                    self.r(\"ic\");\n                    return;\n                }\n", "                if self.ends(\"ical\") {\n                    self.r(\"ic\");\n                }\n                if self.ends(\"cal\") {\n                    self.r(\"c\");\n                    return;\n                }\n", "C22")
bug("s3_ness_m", "                if self.ends(\"ness\") {\n                    self.r(\"\");", "                if self.ends(\"ness\") {\n                    self.set_to(\"\");", "C22")
bug("s4_m", "        if self.measure() > 1 {\n            self.k = self.j\n", "        if self.measure() >= 1 {\n            self.k = self.j\n", "C22")
bug("s4_m3", "        if self.measure() > 1 {\n            self.k = self.j\n", "        if self.measure() > 2 {\n            self.k = self.j\n", "C22")
bug("s4_ent_order", "self.ends(\"ant\") || self.ends(\"ement\") || self.ends(\"ment\") || self.ends(\"ent\")", "self.ends(\"ant\") || self.ends(\"ent\") || self.ends(\"ement\") || self.ends(\"ment\")", "C22")
bug("s4_ion_z", "self.b[self.j - 1] == b's' || self.b[self.j - 1] == b't')", "self.b[self.j - 1] == b's' || self.b[self.j - 1] == b't' || self.b[self.j - 1] == b'x')", "C22")
bug("s4_ion_stale", "                (self.ends(\"ion\")\n                    && self.j > 0\n                    && (self.b[self.j - 1] == b's' || self.b[self.j - 1] == b't'))\n                    || self.ends(\"ou\")", "                self.ends(\"ion\") || self.ends(\"ou\")", "C22")
bug("s4_iti", "self.ends(\"ate\") || self.ends(\"iti\")", "self.ends(\"ate\") || self.ends(\"ity\")", "C22")
bug("s4_ible", "self.ends(\"able\") || self.ends(\"ible\")", "self.ends(\"able\")", "C22")
bug("order_23", "                mw.step2();\n                mw.step3();\n", "                mw.step3();\n                mw.step2();\n", "C22")
bug("drop_step3", "                mw.step2();\n                mw.step3();\n", "                mw.step2();\n", "C22")
bug("measure_off", "            i += 1;\n            n += 1;\n            loop {\n                if i >= j {", "            i += 1;\n            n += 1;\n            loop {\n                if i > j {", "C22")
bug("measure_k", "        let j = self.j;\n        loop {\n            if i >= j {\n                return n;\n            }\n            if !self.is_consonant(i) {\n                break;", "        let j = self.k;\n        loop {\n            if i >= j {\n                return n;\n            }\n            if !self.is_consonant(i) {\n                break;", "C21")
bug("cons_y", "b'y' if i > 0 => {\n                    negate = !negate;\n                    i -= 1;\n                    continue;\n                }", "b'y' if i > 0 => return !negate,", "C22")
bug("cons_y0", "b'y' if i > 0 =>", "b'y' if i > 1 =>", "C22")
bug("cons_w", "b'a' | b'e' | b'i' | b'o' | b'u' => false,\n                b'y'", "b'a' | b'e' | b'i' | b'o' | b'u' | b'w' => false,\n                b'y'", "C22")
# steps 1 and 5
bug("s1_ies", "            } else if self.ends(\"ies\") {\n                self.set_to(\"i\");", "            } else if self.ends(\"ies\") {\n                self.set_to(\"ie\");", "C34")
bug("s1_sses", "            if self.ends(\"sses\") {\n                self.k -= 2;\n            } else if", "            if", "C34")
bug("s1_ss", "            } else if self.b[self.k - 2] != b's' {\n                self.k -= 1;", "            } else {\n                self.k -= 1;", "C34")
bug("s1_us", "            } else if self.b[self.k - 2] != b's' {\n                self.k -= 1;", "            } else if !matches!(self.b[self.k - 2], b's' | b'q') {\n                self.k -= 1;", "C34")
bug("s1_eed", "            if self.measure() > 0 {\n                self.k -= 1\n            }\n        } else if", "            if self.measure() > 1 {\n                self.k -= 1\n            }\n        } else if", "C34")
bug("s1_iz", "            } else if self.ends(\"iz\") {\n                self.set_to(\"ize\");\n", "", "C34")
bug("s1_bl", "            } else if self.ends(\"bl\") {\n                self.set_to(\"ble\");\n", "            } else if self.ends(\"abl\") {\n                self.set_to(\"able\");\n", "C34")
bug("s1_lsz", "                    b'l' | b's' | b'z' => self.k += 1,", "                    b'l' | b's' => self.k += 1,", "C34")
bug("s1_lszf", "                    b'l' | b's' | b'z' => self.k += 1,", "                    b'f' | b'l' | b's' | b'z' => self.k += 1,", "C34")
bug("s1_m1", "            } else if self.measure() == 1 && self.cvc(self.k - 1) {", "            } else if self.measure() <= 1 && self.cvc(self.k - 1) {", [])
bug("s1_m12", "            } else if self.measure() == 1 && self.cvc(self.k - 1) {", "            } else if matches!(self.measure(), 1 | 2) && self.cvc(self.k - 1) {", [])
bug("s1_mge", "            } else if self.measure() == 1 && self.cvc(self.k - 1) {", "            } else if self.measure() >= 1 && self.cvc(self.k - 1) {", "C34")
bug("s1_cvc_x", "            !matches!(self.b[i], b'w' | b'x' | b'y')", "            !matches!(self.b[i], b'w' | b'y')", "C34")
bug("s1_cvc_first", " || !self.is_consonant(i - 2) {", " {", "C34")
bug("s1_vowel_j", "        for i in 0..self.j {\n            if !self.is_consonant(i) {", "        for i in 1..self.j {\n            if !self.is_consonant(i) {", "C34")
bug("s1_dc", " && self.b[i].is_ascii() && self.is_consonant(i)", " && self.b[i].is_ascii()", "C34")
bug("s1c_k", "        if self.k > 2\n            && self.ends(\"y\")", "        if self.k > 3\n            && self.ends(\"y\")", "C34")
bug("s1c_k1", "        if self.k > 2\n            && self.ends(\"y\")", "        if self.k > 1\n            && self.ends(\"y\")", "C34")
bug("s1c_cons", "            && !matches!(self.b[self.k - 2], b'a' | b'e' | b'i' | b'o' | b'u')", "            && self.is_consonant(self.k - 2)", "C34")
bug("s1c_u", "            && !matches!(self.b[self.k - 2], b'a' | b'e' | b'i' | b'o' | b'u')", "            && !matches!(self.b[self.k - 2], b'a' | b'e' | b'i' | b'o')", "C34")
bug("s5_cvc", "            if a > 1 || a == 1 && !self.cvc(self.k - 2) {", "            if a > 1 || a == 1 && !self.cvc(self.k - 1) {", "C34")
bug("s5_m", "            if a > 1 || a == 1 && !self.cvc(self.k - 2) {", "            if a > 1 {", "C34")
bug("s5_ll", "self.double_consonant(self.k - 1) && self.measure() > 1 {", "self.double_consonant(self.k - 1) && self.measure() > 0 {", "C34")
bug("s5_ss", "        if self.b[self.k - 1] == b'l' && self.double_consonant", "        if matches!(self.b[self.k - 1], b'l' | b'z') && self.double_consonant", "C34")
bug("s5_j", "        self.j = self.k;\n        if self.b[self.k - 1] == b'e' {", "        if self.b[self.k - 1] == b'e' {\n            self.j = self.k;", "C34")
bug("order_1c", "                mw.step1ab();\n                mw.step1c();\n", "                mw.step1c();\n                mw.step1ab();\n", "C34")
bug("order_54", "                mw.step4();\n                mw.step5();\n", "                mw.step5();\n                mw.step4();\n", "C34")
bug("twice_1c", "                mw.step4();\n                mw.step5();\n", "                mw.step4();\n                mw.step5();\n                mw.step1c();\n", "C34")
# the same behaviour
same("ends_with", "            if &self.b[self.k - len..self.k] == s {\n", "            if self.b[..self.k].ends_with(s) {\n")
same("ends_early", "        if len > self.k {\n            false\n        } else {\n            if &self.b[self.k - len..self.k] == s {\n                self.j = self.k - len;\n                true\n            } else {\n                false\n            }\n        }", "        if len > self.k || &self.b[self.k - len..self.k] != s {\n            return false;\n        }\n        self.j = self.k - len;\n        true")
same("set_to_loop", "        self.b[self.j..self.j + len].copy_from_slice(s);\n", "        for (i, c) in s.iter().enumerate() {\n            self.b[self.j + i] = *c;\n        }\n")
same("r_early", "        if self.measure() > 0 {\n            self.set_to(s);\n        }", "        if self.measure() == 0 {\n            return;\n        }\n        self.set_to(s);")
same("s4_min", "        if self.k < 2 {\n            return;\n        }\n        // NB", "        if self.k <= 1 {\n            return;\n        }\n        // NB")
same("has_vowel_any", "        for i in 0..self.j {\n            if !self.is_consonant(i) {\n                return true;\n            }\n        }\n        false", "        (0..self.j).any(|i| !self.is_consonant(i))")
same("s3_ifs", "            b's' => {\n                if self.ends(\"ness\") {\n                    self.r(\"\");\n                }\n            }\n            _ => (),\n        }\n    }\n\n    /// stem.step4", "            b's' if self.b[self.k - 1] == b's' => {\n                let matched = self.ends(\"ness\");\n                if matched {\n                    self.r(\"\");\n                }\n            }\n            _ => (),\n        }\n    }\n\n    /// stem.step4")
same("s3_table", "        match self.b[self.k - 1] {\n            b'e' => {\n                if self.ends(\"icate\") {\n                    self.r(\"ic\");\n                    return;\n                }\n                if self.ends(\"ative\") {\n                    self.r(\"\");\n                    return;\n                }\n                if self.ends(\"alize\") {\n                    self.r(\"al\");\n                }\n            }\n            b'i' => {", "        if self.b[self.k - 1] == b'e' {\n            for (from, to) in [(\"icate\", \"ic\"), (\"ative\", \"\"), (\"alize\", \"al\")] {\n                if self.ends(from) {\n                    self.r(to);\n                    return;\n                }\n            }\n            return;\n        }\n        match self.b[self.k - 1] {\n            b'i' => {")
same("get_slice", "        String::from_utf8(self.b[..self.k].to_vec()).unwrap()", "        let mut bytes = self.b.clone();\n        bytes.truncate(self.k);\n        String::from_utf8(bytes).expect(\"the stem is text\")")
same("get_inline", "                Ok(mw.get())\n", "                let stem = mw.get();\n                Ok(stem)\n")
same("get_early", "    if word.len() > 2 {\n        match", "    if word.len() <= 2 {\n        return Ok(word.to_owned());\n    }\n    if true {\n        match")
same("cons_rec", "                b'a' | b'e' | b'i' | b'o' | b'u' => false,\n                b'y' if i > 0 => {", "                b'a' | b'e' | b'i' | b'o' | b'u' => false,\n                b'y' if i != 0 => {")
same("measure_iter", "        let mut n = 0;\n        let mut i = 0;\n        let j = self.j;\n        loop {\n            if i >= j {\n                return n;\n            }\n            if !self.is_consonant(i) {\n                break;\n            }\n            i += 1;\n        }\n        i += 1;\n        loop {\n            loop {\n                if i >= j {\n                    return n;\n                }\n                if self.is_consonant(i) {\n                    break;\n                }\n                i += 1;\n            }\n            i += 1;\n            n += 1;\n            loop {\n                if i >= j {\n                    return n;\n                }\n                if !self.is_consonant(i) {\n                    break;\n                }\n                i += 1;\n            }\n            i += 1;\n        }", "        let mut n = 0;\n        let mut in_vowels = false;\n        for i in 0..self.j {\n            let consonant = self.is_consonant(i);\n            if consonant && in_vowels {\n                n += 1;\n            }\n            in_vowels = !consonant;\n        }\n        n")
same("s1_split", "    fn step1ab(&mut self) {\n        if self.b[self.k - 1] == b's' {\n            if self.ends(\"sses\") {\n                self.k -= 2;\n            } else if self.ends(\"ies\") {\n                self.set_to(\"i\");\n            } else if self.b[self.k - 2] != b's' {\n                self.k -= 1;\n            }\n        }\n", "    fn step1a(&mut self) {\n        if self.b[self.k - 1] == b's' {\n            if self.ends(\"sses\") {\n                self.k -= 2;\n            } else if self.ends(\"ies\") {\n                self.set_to(\"i\");\n            } else if self.b[self.k - 2] != b's' {\n                self.k -= 1;\n            }\n        }\n    }\n\n    fn step1ab(&mut self) {\n        self.step1a();\n")
same("run_all", ["                mw.step1ab();\n                mw.step1c();\n                mw.step2();\n                mw.step3();\n                mw.step4();\n                mw.step5();\n", "    #[inline]\n    fn get(&self) -> String {"], ["                mw.run();\n", "    fn run(&mut self) {\n        self.step1ab();\n        self.step1c();\n        self.step2();\n        self.step3();\n        self.step4();\n        self.step5();\n    }\n\n    #[inline]\n    fn get(&self) -> String {"])
same("free_fn", ["        match PorterStemmer::new(word) {\n            Ok(w) => {\n                let mut mw = w;\n                mw.step1ab();"], ["        match PorterStemmer::new(word) {\n            Ok(mut mw) => {\n                mw.step1ab();"])
same("s5_jk", "        if self.b[self.k - 1] == b'l' && self.double_consonant(self.k - 1) && self.measure() > 1 {", "        if self.ends(\"ll\") {\n            self.j = self.k;\n        }\n        if self.b[self.k - 1] == b'l' && self.double_consonant(self.k - 1) && self.measure() > 1 {")
same("s1_ab_else", "            } else if self.ends(\"ies\") {\n                self.set_to(\"i\");\n            } else if", "            } else if self.ends(\"ies\") {\n                self.k -= 2;\n            } else if")
same("s1_dc_cut", "                self.k -= 1;\n                match self.b[self.k - 1] {\n                    b'l' | b's' | b'z' => self.k += 1,\n                    _ => (),\n                }", "                if !matches!(self.b[self.k - 1], b'l' | b's' | b'z') {\n                    self.k -= 1;\n                }")
same("s5_nested", "            let a = self.measure();\n            if a > 1 || a == 1 && !self.cvc(self.k - 2) {\n                self.k -= 1\n            }", "            match self.measure() {\n                0 => {}\n                1 if self.cvc(self.k - 2) => {}\n                _ => self.k -= 1,\n            }")
VARIANTS = V
