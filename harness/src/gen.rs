//! Input generators: seeded random documents built from the grammar rules
//! (token by token), random separators, token mutations, and exhaustive
//! enumeration of short texts over small alphabets in chosen contexts.
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, X>(&mut self, v: &'a [X]) -> &'a X {
        &v[self.below(v.len())]
    }
}

const NAMES: &[&str] = &[
    "a", "b", "c", "A", "B", "_", "__typename", "a1", "Z9_z", "on", "true", "false", "null", "query", "mutation",
    "subscription", "fragment", "type", "input", "enum", "union", "schema", "extend", "implements", "interface",
    "scalar", "directive", "repeatable", "name", "e1", "E", "x", "description",
    "aVeryLongNameThatGoesOnAndOn_0123456789_abcdefghijklmnopqrstuvwxyz",
];
const NUMS: &[&str] = &[
    "0", "-0", "1", "-1", "9", "10", "42", "9223372036854775807", "-9223372036854775808", "9223372036854775808",
    "-9223372036854775809", "99999999999999999999999", "0.5", "-0.5", "1.25", "1.0", "0.0", "-0.0", "1e1", "1E+2",
    "1e-2", "9e9", "1.5e9", "1.25e10", "123.456e-7", "1e300", "1e308", "1e309", "-1e400", "1.7976931348623157e308", "5e-324",
    "4.9e-324", "1e-400", "0.1", "0.30000000000000004", "2.2250738585072014e-308", "1e17", "1e18", "1e19", "1.5e18", "123456789012345678.5", "1e21",
    "3.141592653589793", "9007199254740993.0", "1e22", "-12.5e-3", "1e-7", "0.000001", "1e16",
];
const SCHARS: &[char] = &[
    'a', ' ', ' ', '\n', '\n', '\t', '"', '"', '\\', '\r', '/', 'u', 'n', '{', '}', '#', ',', '\u{0}', '\u{8}', '\u{c}',
    '\u{1b}', '\u{1f}', '\u{7f}', '\u{80}', '\u{a0}', 'é', '\u{2003}', '\u{2028}', '\u{feff}', '\u{fffd}', '\u{ffff}',
    '\u{10000}', '😀', '\u{10ffff}', '\'', '0', '\u{b}', '\u{85}', '\u{d7ff}', '\u{e000}',
];

/// What the source of the crate under test mentions: candidates for where it behaves specially.
pub struct Dict {
    pub words: Vec<String>,
    pub strs: Vec<String>,
    pub chars: Vec<char>,
    pub nums: Vec<u64>,
}
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict { words: vec!["a".into()], strs: vec!["a".into()], chars: vec!['a'], nums: vec![1] };
        let src = std::env::var("GP_SRC").unwrap_or("/repo/src".into());
        for f in ["tokenizer.rs", "helpers.rs", "common.rs", "format.rs", "query/grammar.rs", "query/format.rs", "query/minify.rs", "query/ast.rs", "schema/grammar.rs", "schema/format.rs", "schema/ast.rs", "position.rs", "lib.rs"] {
            let text = std::fs::read_to_string(format!("{}/{}", src, f)).unwrap_or_default();
            let text = text.split("#[cfg(test)]").next().unwrap_or("");
            scan(text, &mut d);
        }
        for l in [&mut d.words, &mut d.strs] {
            l.sort();
            l.dedup();
        }
        d.chars.sort();
        d.chars.dedup();
        d.nums.sort();
        d.nums.dedup();
        d
    })
}
fn unescape(x: &str) -> String {
    let mut o = String::new();
    let mut it = x.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some('0') => o.push('\0'),
            Some('u') => {
                let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                o.extend(u32::from_str_radix(&h.replace('_', ""), 16).ok().and_then(char::from_u32));
            }
            Some('x') => {
                let h: String = it.by_ref().take(2).collect();
                o.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}
fn scan(text: &str, d: &mut Dict) {
    let cs: Vec<char> = text.chars().collect();
    let word = |c: char| c == '_' || c.is_ascii_alphanumeric();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        let rest = |k: usize| cs.get(i + k).copied().unwrap_or(' ');
        if c == '/' && rest(1) == '/' {
            while i < cs.len() && cs[i] != '\n' {
                i += 1;
            }
        } else if c == 'r' && (rest(1) == '"' || rest(1) == '#') && (i == 0 || !word(cs[i - 1])) {
            let mut h = 0;
            while rest(1 + h) == '#' {
                h += 1;
            }
            if rest(1 + h) != '"' {
                i += 1;
                continue;
            }
            let start = i + 2 + h;
            let mut j = start;
            while j < cs.len() && !(cs[j] == '"' && (1..=h).all(|k| cs.get(j + k) == Some(&'#'))) {
                j += 1;
            }
            note(cs[start..j.min(cs.len())].iter().collect(), d);
            i = j + 1 + h;
        } else if c == '"' {
            let mut j = i + 1;
            while j < cs.len() && cs[j] != '"' {
                j += if cs[j] == '\\' { 2 } else { 1 };
            }
            let j = j.min(cs.len());
            note(unescape(&cs[i + 1..j].iter().collect::<String>()), d);
            i = j + 1;
        } else if c == '\'' {
            // a character literal, not a lifetime
            let mut j = i + 1;
            if rest(1) == '\\' {
                j += 2;
                while j < cs.len() && cs[j] != '\'' {
                    j += 1;
                }
            } else {
                j += 1;
            }
            if cs.get(j) == Some(&'\'') {
                d.chars.extend(unescape(&cs[i + 1..j].iter().collect::<String>()).chars());
                i = j + 1;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() && (i == 0 || !word(cs[i - 1])) {
            let mut j = i;
            while j < cs.len() && word(cs[j]) {
                j += 1;
            }
            let x: String = cs[i..j].iter().filter(|c| **c != '_').collect();
            let x = x.split(['u', 'i']).next().unwrap_or("").to_string();
            let v = if let Some(h) = x.strip_prefix("0x") { u64::from_str_radix(h, 16).ok() } else { x.parse().ok() };
            d.nums.extend(v);
            d.chars.extend(v.filter(|v| *v > 31).and_then(|v| char::from_u32(v as u32)));
            i = j;
        } else {
            i += 1;
        }
    }
}
fn note(x: String, d: &mut Dict) {
    if x.is_empty() || x.chars().count() > 60 {
        return;
    }
    if x.chars().all(|c| c == '_' || c.is_ascii_alphanumeric()) && !x.starts_with(|c: char| c.is_ascii_digit()) {
        d.words.push(x.clone());
    }
    d.strs.push(x);
}
/// A number that the source mentions, or one next to it, of at most `max`.
pub fn dict_num(r: &mut Rng, max: u64) -> u64 {
    let d = dict();
    let few: Vec<u64> = d.nums.iter().copied().filter(|n| *n <= max).collect();
    let n = if few.is_empty() { 1 } else { *r.pick(&few) };
    [n, n.saturating_add(1), n.saturating_sub(1)][r.below(3)].min(max)
}

pub fn content(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    let few = r.chance(1, 2);
    let mut pal: Vec<char> = (0..4).map(|_| *r.pick(SCHARS)).collect();
    if r.chance(1, 3) {
        pal[0] = *r.pick(&dict().chars);
    }
    let mut o: Vec<char> = (0..n).map(|_| if few { *r.pick(&pal) } else { *r.pick(SCHARS) }).collect();
    if max > 0 && r.chance(1, 5) {
        let x: Vec<char> = r.pick(&dict().strs).chars().collect();
        let i = r.below(o.len() + 1);
        o.splice(i..i, x);
    }
    if max > 0 && !o.is_empty() && r.chance(1, 20) {
        let i = r.below(o.len());
        let k = dict_num(r, 120) as usize;
        o.splice(i..i, vec![o[i]; k]);
    }
    o.into_iter().collect()
}
fn quote(r: &mut Rng, x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' if r.chance(1, 2) => o.push_str("\\t"),
            '\u{8}' if r.chance(1, 2) => o.push_str("\\b"),
            '\u{c}' if r.chance(1, 2) => o.push_str("\\f"),
            '/' if r.chance(1, 2) => o.push_str("\\/"),
            c if (c as u32) < 0x10000 && r.chance(1, 4) => o.push_str(&if r.chance(1, 2) {
                format!("\\u{:04x}", c as u32)
            } else {
                format!("\\u{:04X}", c as u32)
            }),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn string_lit(r: &mut Rng) -> String {
    if r.chance(2, 3) {
        let c = content(r, 8);
        quote(r, &c)
    } else {
        let mut x = content(r, 14).replace("\"\"\"", "\\\"\"\"");
        if r.chance(1, 2) {
            let ind = *r.pick(&["  ", "    ", "\t", " ", ""]);
            x = format!("\n{}{}\n{}", ind, x.replace('\n', &format!("\n{}", ind)), ind);
        }
        if r.chance(1, 6) {
            x = x.replace('\n', "\r\n");
        }
        while x.ends_with('"') || x.ends_with('\\') {
            x.push('.');
        }
        format!("\"\"\"{}\"\"\"", x)
    }
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub out: Vec<String>,
    budget: i32,
    vars: bool,
}
impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, budget: i32) -> Gen<'r> {
        Gen { r, out: vec![], budget, vars: true }
    }
    fn t(&mut self, x: &str) {
        self.budget -= 1;
        self.out.push(x.to_string());
    }
    fn many(&mut self, max: usize) -> usize {
        if self.budget <= 0 {
            0
        } else {
            self.r.below(max + 1)
        }
    }
    fn yes(&mut self) -> bool {
        self.budget > 0 && self.r.chance(1, 3)
    }
    fn name(&mut self) {
        if self.r.chance(1, 10) {
            let mut w = self.r.pick(&dict().words).clone();
            if self.r.chance(1, 6) {
                w = format!("{}{}", w, self.r.pick(&dict().words));
            }
            return self.t(&w);
        }
        let n = *self.r.pick(NAMES);
        self.t(n);
    }
    fn plain_name(&mut self) {
        let n = *self.r.pick(&NAMES[..9]);
        self.t(n);
    }
    pub fn value(&mut self, vars: bool) {
        let k = if self.budget <= 0 { self.r.below(7) } else { self.r.below(11) };
        match k {
            0 => {
                let n = *self.r.pick(NUMS);
                // keep most numbers in range
                self.t(n)
            }
            1 => {
                let n = if self.r.chance(1, 8) {
                    format!("{}{}{}", if self.r.chance(1, 3) { "-" } else { "" }, dict_num(self.r, u64::MAX), if self.r.chance(1, 3) { ".5" } else { "" })
                } else if self.r.chance(1, 2) {
                    format!("{}", self.r.next() as i64 >> self.r.below(63))
                } else {
                    let m = self.r.next() as i64 >> self.r.below(63);
                    let e = self.r.below(40) as i64 - 20;
                    if self.r.chance(1, 2) {
                        format!("{}.{}", m, self.r.below(100000))
                    } else {
                        format!("{}{}{}", m, if self.r.chance(1, 2) { "e" } else { "E" }, if e < 0 { format!("{}", e) } else { format!("+{}", e) })
                    }
                };
                self.t(&n)
            }
            2 | 3 => {
                let x = string_lit(self.r);
                self.t(&x)
            }
            4 => {
                let n = *self.r.pick(&["true", "false", "null"]);
                self.t(n)
            }
            5 => self.name(),
            6 => {
                if vars {
                    self.t("$");
                    self.name()
                } else {
                    self.name()
                }
            }
            7 | 8 => {
                self.t("[");
                if self.r.chance(1, 300) {
                    for _ in 0..dict_num(self.r, 300) {
                        self.t("a");
                    }
                }
                for _ in 0..self.many(3) {
                    self.value(vars)
                }
                self.t("]")
            }
            _ => {
                self.t("{");
                for _ in 0..self.many(3) {
                    self.name();
                    self.t(":");
                    self.value(vars)
                }
                self.t("}")
            }
        }
    }
    fn args(&mut self) {
        let n = self.many(3);
        if n > 0 && self.r.chance(1, 2) {
            self.t("(");
            for _ in 0..n {
                self.name();
                self.t(":");
                let vars = self.vars || self.r.chance(1, 60);
                self.value(vars);
            }
            self.t(")");
        }
    }
    fn dirs(&mut self) {
        if self.yes() {
            for _ in 0..1 + self.many(2) {
                self.t("@");
                self.name();
                self.args();
            }
        }
    }
    fn ty(&mut self) {
        if self.yes() {
            self.t("[");
            self.ty();
            self.t("]");
        } else {
            self.name();
        }
        if self.r.chance(1, 3) {
            self.t("!");
        }
    }
    fn selset(&mut self) {
        self.t("{");
        for _ in 0..1 + self.many(3) {
            self.selection();
        }
        self.t("}");
    }
    fn selection(&mut self) {
        match self.r.below(8) {
            0 => {
                self.t("...");
                self.plain_name();
                self.dirs();
            }
            1 | 2 => {
                self.t("...");
                if self.r.chance(1, 2) {
                    self.t("on");
                    self.name();
                }
                self.dirs();
                self.selset();
            }
            _ => {
                self.name();
                if self.yes() {
                    self.t(":");
                    self.name();
                }
                self.args();
                self.dirs();
                if self.budget > 0 && self.r.chance(1, 3) {
                    self.selset();
                }
            }
        }
    }
    pub fn qdef(&mut self) {
        match self.r.below(6) {
            0 => self.selset(),
            1 => {
                self.t("fragment");
                if self.r.chance(1, 20) {
                    self.name();
                } else {
                    self.plain_name();
                }
                self.t("on");
                self.name();
                self.dirs();
                self.selset();
            }
            _ => {
                let k = *self.r.pick(&["query", "mutation", "subscription"]);
                self.t(k);
                if self.r.chance(1, 2) {
                    self.name();
                }
                if self.r.chance(1, 2) {
                    self.t("(");
                    for _ in 0..1 + self.many(2) {
                        self.t("$");
                        self.name();
                        self.t(":");
                        self.ty();
                        if self.yes() {
                            self.t("=");
                            self.value(false);
                        }
                    }
                    self.t(")");
                }
                self.dirs();
                self.selset();
            }
        }
    }
    pub fn qdoc(&mut self) {
        for _ in 0..1 + self.r.below(3) {
            self.qdef();
        }
    }
    fn desc(&mut self) {
        if self.r.chance(1, 4) {
            let x = string_lit(self.r);
            self.t(&x);
        }
    }
    fn input(&mut self) {
        self.desc();
        self.name();
        self.t(":");
        self.ty();
        if self.yes() {
            self.t("=");
            self.value(false);
        }
        self.dirs();
    }
    fn fields(&mut self) -> bool {
        if self.r.chance(1, 4) {
            return false;
        }
        self.t("{");
        for _ in 0..1 + self.many(2) {
            self.desc();
            self.name();
            if self.yes() {
                self.t("(");
                for _ in 0..1 + self.many(2) {
                    self.input();
                }
                self.t(")");
            }
            self.t(":");
            self.ty();
            self.dirs();
        }
        self.t("}");
        true
    }
    fn sep(&mut self, p: &str) {
        if self.r.chance(1, 4) {
            self.t(p);
        }
        self.name();
        for _ in 0..self.many(2) {
            self.t(p);
            self.name();
        }
    }
    fn implements(&mut self) {
        if self.yes() {
            self.t("implements");
            self.sep("&");
        }
    }
    pub fn sdef(&mut self) {
        self.vars = false;
        match self.r.below(10) {
            0 => {
                self.t("schema");
                self.dirs();
                self.t("{");
                let mut ks = vec!["query", "mutation", "subscription"];
                if self.r.chance(1, 2) {
                    ks.reverse();
                }
                let all = self.r.below(3);
                for (i, k) in ks.into_iter().enumerate() {
                    if i == all || self.r.chance(2, 3) {
                        self.t(k);
                        self.t(":");
                        self.name();
                    }
                }
                self.t("}");
            }
            1 | 2 => {
                self.desc();
                self.t("directive");
                self.t("@");
                self.name();
                if self.yes() {
                    self.t("(");
                    for _ in 0..1 + self.many(2) {
                        self.input();
                    }
                    self.t(")");
                }
                if self.r.chance(1, 3) {
                    self.t("repeatable");
                }
                self.t("on");
                if self.r.chance(1, 4) {
                    self.t("|");
                }
                for i in 0..1 + self.r.below(4) {
                    if i > 0 {
                        self.t("|");
                    }
                    let l = self.r.pick(&crate::refimpl::LOCATIONS).0;
                    self.t(l);
                }
            }
            k => {
                if k < 6 {
                    self.t("extend");
                } else {
                    self.desc();
                }
                let kw = *self.r.pick(&["scalar", "type", "interface", "union", "enum", "input"]);
                self.t(kw);
                self.name();
                if kw == "type" || kw == "interface" {
                    self.implements();
                }
                self.dirs();
                match kw {
                    "type" | "interface" => {
                        self.fields();
                    }
                    "union" => {
                        if self.r.chance(2, 3) {
                            self.t("=");
                            self.sep("|");
                        }
                    }
                    "enum" => {
                        if self.r.chance(2, 3) {
                            self.t("{");
                            for _ in 0..1 + self.many(3) {
                                self.desc();
                                if self.r.chance(1, 20) {
                                    self.name();
                                } else {
                                    self.plain_name();
                                }
                                self.dirs();
                            }
                            self.t("}");
                        }
                    }
                    "input" => {
                        if self.r.chance(2, 3) {
                            self.t("{");
                            for _ in 0..1 + self.many(3) {
                                self.input();
                            }
                            self.t("}");
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    pub fn sdoc(&mut self) {
        for _ in 0..1 + self.r.below(3) {
            self.sdef();
        }
    }
}

/// One run of ignored characters; `sep` demands at least one.
pub fn ignorable(r: &mut Rng, sep: bool) -> String {
    let mut o = String::new();
    let n = if sep { 1 } else { 0 } + if r.chance(1, 3) { r.below(4) } else { 0 };
    for _ in 0..n {
        match r.below(12) {
            0 => o.push_str("\r\n"),
            1 => o.push('\t'),
            2 => o.push(','),
            3 => o.push('\u{feff}'),
            4 => o.push_str(*r.pick(&["#\n", "# x\n", "#\"{\r\n", "#\u{e9}\u{1f600} \"\"\"\n", "##\r\n", "# \\ \n"])),
            5 | 6 if r.chance(1, 60) => match r.below(4) {
                0 => o.push_str(&" ".repeat(dict_num(r, 5000).max(1) as usize)),
                1 => o.push_str(&"\n".repeat(dict_num(r, 5000).max(1) as usize)),
                2 => o.push_str(&format!("#{}\r", content(r, 6).replace(['\n', '\r'], " "))),
                _ => o.push_str(&format!("#{}\n", content(r, 6).replace(['\n', '\r'], " "))),
            },
            5 | 6 => o.push('\n'),
            _ => o.push(' '),
        }
    }
    o
}

/// Whether two adjacent lexemes need something between them.
pub fn needs_sep(a: &str, b: &str) -> bool {
    let al = a.chars().last().unwrap();
    let bf = b.chars().next().unwrap();
    let word = |c: char| c == '_' || c == '-' || c == '+' || c.is_ascii_alphanumeric();
    let num = |x: &str| x.starts_with(|c: char| c == '-' || c.is_ascii_digit());
    (word(al) && word(bf)) || (num(a) && bf == '.') || (al == '"' && bf == '"')
}
pub fn join(r: &mut Rng, toks: &[String]) -> String {
    join_with(r, toks, "\n")
}
pub fn join_with(r: &mut Rng, toks: &[String], eol: &str) -> String {
    let ignorable = |r: &mut Rng, sep: bool| ignorable(r, sep).replace('\n', eol);
    let mut o = ignorable(r, false);
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let sep = needs_sep(&toks[i - 1], t);
            o.push_str(&ignorable(r, sep));
        }
        o.push_str(t);
    }
    o.push_str(&ignorable(r, false));
    o
}
pub fn mutate(r: &mut Rng, toks: &mut Vec<String>) {
    const X: &[&str] = &[
        "{", "}", "(", ")", "[", "]", ":", "=", "@", "$", "!", "|", "&", "...", "a", "on", "1", "1.5", "\"s\"",
        "\"\"\"b\"\"\"", "query", "type", "extend", "implements", "repeatable", "QUERY", "schema", "fragment", "null", "..",
        "?", "\"", "-", "\"\\q\"", "1.", "01", "1e",
    ];
    for _ in 0..1 + r.below(2) {
        if toks.is_empty() {
            toks.push(r.pick(X).to_string());
            continue;
        }
        let i = r.below(toks.len());
        if r.chance(1, 10) {
            toks[i] = r.pick(&dict().words).clone();
            continue;
        }
        match r.below(5) {
            0 => {
                toks.remove(i);
            }
            1 => {
                let t = toks[i].clone();
                toks.insert(i, t);
            }
            2 => toks.insert(i, r.pick(X).to_string()),
            3 => toks[i] = r.pick(X).to_string(),
            _ => {
                let j = r.below(toks.len());
                toks.swap(i, j);
            }
        }
    }
}
/// Random edits of the text itself.
pub fn mangle(r: &mut Rng, x: &str) -> String {
    let mut cs: Vec<char> = x.chars().collect();
    for _ in 0..1 + r.below(3) {
        let c = match r.below(4) {
            0 => *r.pick(SCHARS),
            3 => *r.pick(&dict().chars),
            1 => *r.pick(&['"', '\\', '{', '}', '(', ')', '.', '-', '+', 'e', '0', '9', ':', '$', '#', '\n']),
            _ => char::from_u32(r.below(0x250) as u32).unwrap_or('x'),
        };
        let i = r.below(cs.len() + 1);
        match r.below(3) {
            0 if i < cs.len() => {
                cs.remove(i);
            }
            1 if i < cs.len() => cs[i] = c,
            _ => cs.insert(i, c),
        }
    }
    cs.into_iter().collect()
}

/// Calls `f` with every text of at most `n` pieces of `alpha`; stops when `f`
/// returns false.
pub fn exhaustive(alpha: &[&str], n: usize, f: &mut dyn FnMut(&str) -> bool) -> bool {
    fn go(alpha: &[&str], n: usize, cur: &mut String, f: &mut dyn FnMut(&str) -> bool) -> bool {
        if !f(cur) {
            return false;
        }
        if n == 0 {
            return true;
        }
        for a in alpha {
            let l = cur.len();
            cur.push_str(a);
            let ok = go(alpha, n - 1, cur, f);
            cur.truncate(l);
            if !ok {
                return false;
            }
        }
        true
    }
    go(alpha, n, &mut String::new(), f)
}

/// A query document whose nesting reaches exactly `target`, with siblings at every level.
pub fn deepdoc(r: &mut Rng, target: usize) -> String {
    fn sep(r: &mut Rng) -> &'static str {
        *r.pick(&["", "", " ", ",", "\n", " #\n"])
    }
    fn val(r: &mut Rng, d: usize, target: usize, o: &mut String) {
        // d brackets are open
        if d >= target {
            o.push_str(*r.pick(&["1 ", "a ", "\"\"", "$x ", "true "]));
            return;
        }
        let list = r.chance(1, 2);
        o.push(if list { '[' } else { '{' });
        let n = 1 + r.below(3);
        let main = r.below(n);
        for i in 0..n {
            if !list {
                o.push_str(&format!("k{}:", i));
            }
            let t = if i == main { target } else { target.min(d + 1 + r.below(2)) };
            let t = if i != main && target >= d + 4 && target < d + 8 && r.chance(1, 2) { target } else { t };
            val(r, d + 1, t, o);
            o.push_str(sep(r));
        }
        o.push(if list { ']' } else { '}' });
    }
    fn sel(r: &mut Rng, d: usize, target: usize, o: &mut String) {
        o.push('{');
        let n = 1 + r.below(3);
        let main = r.below(n);
        for i in 0..n {
            o.push_str(*r.pick(&["a ", "b", "...on T ", "... "]));
            let spread = o.ends_with("T ") || o.ends_with("... ");
            if i == main && d + 1 < target {
                let left = target - d - 1;
                if left >= 2 && r.chance(1, 4) {
                    o.push_str(if spread || r.chance(1, 2) { "@d(x:" } else { "(x:" });
                    val(r, d + 2, target, o);
                    o.push(')');
                    if r.chance(1, 2) || spread {
                        sel(r, d + 1, target, o);
                    }
                } else {
                    sel(r, d + 1, target, o);
                }
            } else if spread {
                if d + 2 <= target { o.push_str("{a}") } else { o.truncate(o.rfind("...").unwrap()); o.push_str("c ") }
            } else {
                o.push(' ');
            }
            o.push_str(sep(r));
        }
        o.push('}');
    }
    let mut o = String::new();
    match r.below(4) {
        0 => {
            o.push_str("query(");
            let n = 1 + r.below(4);
            for i in 0..n {
                let k = if r.chance(1, 2) { target - 1 } else { r.below(target) };
                o.push_str(&format!("$v{}:", i));
                (0..k).for_each(|_| o.push('['));
                o.push('T');
                (0..k).for_each(|_| { if r.chance(1, 4) { o.push('!') }; o.push(']') });
                if r.chance(1, 2) { o.push('!') }
                if r.chance(1, 2) {
                    o.push('=');
                    let mut v = String::new();
                    val(r, 1, target, &mut v);
                    o.push_str(&v.replace("$x", "y"));
                }
                o.push_str(sep(r));
            }
            o.push(')');
            let t = 1 + r.below(target);
            sel(r, 0, t, &mut o);
        }
        _ => sel(r, 0, target, &mut o),
    }
    o
}
/// Documents with as many of one thing as a number that the source mentions.
pub fn repeats(schema: bool) -> Vec<String> {
    let list = |k: usize, f: &dyn Fn(usize) -> String| (0..k).map(f).collect::<Vec<_>>().join(" ");
    let mut ks: Vec<usize> = dict().nums.iter().filter(|n| **n <= 400).flat_map(|n| n.saturating_sub(1)..=n + 2).map(|n| n as usize).chain(1..20).collect();
    ks.sort();
    ks.dedup();
    let mut v = vec![];
    for k in ks.into_iter().filter(|k| *k > 0) {
        let args = list(k, &|i| format!("a{}: {}", i, i));
        let dirs = list(k, &|i| format!("@d{}", i));
        let names = list(k, &|i| format!("N{}", i));
        if schema {
            let inputs = list(k, &|i| format!("\"i{}\" a{}: T = {} @d", i, i, i));
            let fields = list(k, &|i| format!("\"f{}\" f{}(a: T): T! @d", i, i));
            let amp = names.replace(' ', " & ");
            let pipe = names.replace(' ', " | ");
            let locs = list(k, &|i| ["FIELD", "QUERY", "ENUM", "INPUT_OBJECT"][i % 4].to_string()).replace(' ', " | ");
            for e in ["", "extend "] {
                v.push(format!("{e}type T implements {amp} {{ f: T }}"));
                v.push(format!("{e}type T {{ {fields} }}"));
                v.push(format!("{e}type T {dirs} {{ f: T }}"));
                v.push(format!("{e}interface T implements {amp} {dirs} {{ {fields} }}"));
                v.push(format!("{e}union T {dirs} = {pipe}"));
                v.push(format!("{e}enum T {dirs} {{ {names} }}"));
                v.push(format!("{e}input T {dirs} {{ {inputs} }}"));
                v.push(format!("{e}scalar T {dirs}"));
            }
            v.push(format!("type T {{ f({inputs}): T {dirs} }}"));
            v.push(format!("directive @d({inputs}) repeatable on {locs}"));
            v.push(format!("schema {dirs} {{ query: Q }}"));
            v.push(list(k, &|i| format!("\"s{}\" scalar S{}", i, i)));
            v.push(list(k, &|i| format!("extend union U{} = A", i)));
        } else {
            let vars = list(k, &|i| format!("$v{}: [T{}!] = {}", i, i, i));
            let sels = list(k, &|i| format!("x{}: f{}", i, i));
            let vals = list(k, &|i| format!("{}.5", i));
            for o in ["query", "mutation", "subscription"] {
                v.push(format!("{o} Q({vars}) {dirs} {{ {sels} }}"));
                v.push(format!("{o}({vars}) {{a}}"));
            }
            v.push(format!("{{ {sels} }}"));
            v.push(format!("{{ a({args}) {dirs} {{ {sels} }} }}"));
            v.push(format!("{{ a(x: [{vals}], y: {{{args}}}, z: [{{{args}}}]) @d({args}) }}"));
            v.push(format!("{{ ...f {dirs} ... on T {dirs} {{ {sels} }} ... {dirs} {{ {sels} }} }}"));
            v.push(format!("fragment f on T {dirs} {{ {sels} }}"));
            v.push(list(k, &|i| format!("query Q{} {{a}}", i)));
            v.push(list(k, &|i| format!("fragment F{} on T {{a}}", i)));
            v.push(list(k, &|_| "{a}".to_string()));
            v.push(format!("{{ {} }}", list(k, &|i| format!("...F{}", i))));
        }
    }
    v
}
