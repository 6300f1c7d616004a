//! An independent reading of the GraphQL rules the properties state: lexer,
//! literal decoding and an LL(1) parser producing neutral trees. It shares no
//! code with /repo and is written from the rules, not from the code.
use crate::tree::{opt, s, P, T};
use std::collections::BTreeMap;

pub const LIMIT: usize = 50;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Punct,
    Name,
    Int,
    Float,
    Str,
    Block,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok<'a> {
    pub kind: K,
    pub start: usize,
    pub end: usize,
    pub pos: P,
    pub val: &'a str,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Eof,
    Bad,
    TooDeep,
}

pub struct Lexed<'a> {
    pub toks: Vec<Tok<'a>>,
    pub end: End,
    /// offset and position reached (start of the offending token, or the end)
    pub off: usize,
    pub pos: P,
}

fn is_name_start(c: char) -> bool {
    c == '_' || c.is_ascii_alphabetic()
}
fn is_name(c: char) -> bool {
    is_name_start(c) || c.is_ascii_digit()
}
fn is_ignored(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r' | ',' | '\u{feff}')
}
fn is_single_punct(c: char) -> bool {
    matches!(c, '!' | '$' | '&' | '(' | ')' | ':' | '=' | '@' | '[' | ']' | '{' | '}' | '|')
}

/// `None`: not a number; `Some(true)`: a float. `lax` admits an unsigned
/// exponent starting with 0 (which GraphQL does, the code does not).
fn classify_number(x: &str, lax: bool) -> Option<bool> {
    let b = x.as_bytes();
    let mut i = 0;
    if i < b.len() && b[i] == b'-' {
        i += 1;
    }
    let d0 = i;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    if i == d0 || (b[d0] == b'0' && i - d0 > 1) {
        return None;
    }
    let mut float = false;
    if i < b.len() && b[i] == b'.' {
        float = true;
        i += 1;
        let d = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i == d {
            return None;
        }
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        float = true;
        i += 1;
        let mut signed = false;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
            signed = true;
        }
        let d = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i == d {
            return None;
        }
        if !lax && !signed && b[d] == b'0' {
            return None;
        }
    }
    if i == b.len() {
        Some(float)
    } else {
        None
    }
}

/// Skips ignored characters; returns the new offset and position.
fn skip(src: &str, mut off: usize, mut p: P) -> (usize, P) {
    let b = src.as_bytes();
    while off < src.len() {
        let c = src[off..].chars().next().unwrap();
        match c {
            ' ' | ',' => p.1 += 1,
            '\t' => p.1 += 8,
            '\n' => p = P(p.0 + 1, 1),
            '\r' | '\u{feff}' => {}
            '#' => {
                while off < src.len() && b[off] != b'\n' && b[off] != b'\r' {
                    off += 1;
                }
                if off < src.len() && b[off] == b'\r' {
                    // LF of a CRLF is counted by the next round
                    if b.get(off + 1) != Some(&b'\n') {
                        p = P(p.0 + 1, 1);
                    }
                    off += 1;
                } else if off < src.len() {
                    p = P(p.0 + 1, 1);
                    off += 1;
                }
                continue;
            }
            _ => break,
        }
        off += c.len_utf8();
    }
    (off, p)
}

pub fn lex(src: &str, lax: bool) -> Lexed<'_> {
    let mut toks = Vec::new();
    let (mut off, mut pos) = skip(src, 0, P(1, 1));
    let mut depth: i64 = 0;
    loop {
        if off == src.len() {
            return Lexed { toks, end: End::Eof, off, pos };
        }
        let rest = &src[off..];
        let c = rest.chars().next().unwrap();
        let r: Option<(K, usize)> = if is_single_punct(c) {
            if matches!(c, '(' | '[' | '{') {
                if depth >= LIMIT as i64 {
                    return Lexed { toks, end: End::TooDeep, off, pos };
                }
                depth += 1;
            } else if matches!(c, ')' | ']' | '}') {
                depth -= 1;
            }
            Some((K::Punct, 1))
        } else if rest.starts_with("...") {
            Some((K::Punct, 3))
        } else if is_name_start(c) {
            Some((K::Name, rest.find(|x| !is_name(x)).unwrap_or(rest.len())))
        } else if c == '-' || c.is_ascii_digit() {
            let n = rest
                .char_indices()
                .skip(1)
                .find(|(_, x)| is_ignored(*x) || is_single_punct(*x) || matches!(x, '#' | '"'))
                .map(|p| p.0)
                .unwrap_or(rest.len());
            classify_number(&rest[..n], lax).map(|f| (if f { K::Float } else { K::Int }, n))
        } else if rest.starts_with("\"\"\"") {
            block_end(rest).map(|n| (K::Block, n))
        } else if c == '"' {
            string_end(rest).map(|n| (K::Str, n))
        } else {
            None
        };
        let (kind, n) = match r {
            None => return Lexed { toks, end: End::Bad, off, pos },
            Some(x) => x,
        };
        let val = &rest[..n];
        toks.push(Tok { kind, start: off, end: off + n, pos, val });
        for x in val.chars() {
            if x == '\n' {
                pos = P(pos.0 + 1, 1)
            } else {
                pos.1 += 1
            }
        }
        let (o, p) = skip(src, off + n, pos);
        off = o;
        pos = p;
    }
}

fn string_end(x: &str) -> Option<usize> {
    let b = x.as_bytes();
    let mut i = 1;
    while i < b.len() {
        match b[i] {
            b'"' => return Some(i + 1),
            b'\n' | b'\r' => return None,
            b'\\' => {
                // an escaped line break is no escape
                if matches!(b.get(i + 1), Some(b'\n' | b'\r')) {
                    return None;
                }
                i += 2
            }
            _ => i += 1,
        }
    }
    None
}
fn block_end(x: &str) -> Option<usize> {
    let mut i = 3;
    while i < x.len() {
        if x[i..].starts_with("\\\"\"\"") {
            i += 4;
        } else if x[i..].starts_with("\"\"\"") {
            return Some(i + 3);
        } else {
            i += x[i..].chars().next().unwrap().len_utf8();
        }
    }
    None
}

/// The value of a `"…"` literal.
pub fn decode_string(x: &str) -> Option<String> {
    let cs: Vec<char> = x[1..x.len() - 1].chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] != '\\' {
            out.push(cs[i]);
            i += 1;
            continue;
        }
        let e = *cs.get(i + 1)?;
        i += 2;
        out.push(match e {
            '"' => '"',
            '\\' => '\\',
            '/' => '/',
            'b' => '\u{8}',
            'f' => '\u{c}',
            'n' => '\u{a}',
            'r' => '\u{d}',
            't' => '\u{9}',
            'u' => {
                let mut v = 0u32;
                for k in 0..4 {
                    v = v * 16 + cs.get(i + k)?.to_digit(16)?;
                }
                i += 4;
                char::from_u32(v)?
            }
            _ => return None,
        });
    }
    Some(out)
}

/// The value of a block string literal (GraphQL's BlockStringValue; lines end
/// in LF or CRLF).
pub fn decode_block(x: &str) -> String {
    let raw = &x[3..x.len() - 3];
    let mut lines: Vec<String> =
        raw.split('\n').map(|l| l.to_string()).collect();
    let n = lines.len();
    for (i, l) in lines.iter_mut().enumerate() {
        if i + 1 < n && l.ends_with('\r') {
            l.pop();
        }
    }
    let ws = |c: char| c == ' ' || c == '\t';
    let mut common: Option<usize> = None;
    for l in lines.iter().skip(1) {
        let ind = l.chars().take_while(|c| ws(*c)).count();
        if ind < l.chars().count() && common.map_or(true, |c| ind < c) {
            common = Some(ind);
        }
    }
    if let Some(c) = common {
        for l in lines.iter_mut().skip(1) {
            *l = l.chars().skip(c).collect();
        }
    }
    let blank = |l: &String| l.chars().all(ws);
    while lines.first().map_or(false, blank) {
        lines.remove(0);
    }
    while lines.last().map_or(false, blank) {
        lines.pop();
    }
    lines.join("\n").replace("\\\"\"\"", "\"\"\"")
}

pub struct Parser<'a> {
    toks: Vec<Tok<'a>>,
    end: End,
    end_off: usize,
    end_pos: P,
    i: usize,
    /// directive arguments may hold variables
    vars: bool,
}
type R<X> = Result<X, ()>;

pub const LOCATIONS: [(&str, &str, bool); 19] = [
    ("QUERY", "Query", true),
    ("MUTATION", "Mutation", true),
    ("SUBSCRIPTION", "Subscription", true),
    ("FIELD", "Field", true),
    ("FRAGMENT_DEFINITION", "FragmentDefinition", true),
    ("FRAGMENT_SPREAD", "FragmentSpread", true),
    ("INLINE_FRAGMENT", "InlineFragment", true),
    ("SCHEMA", "Schema", false),
    ("SCALAR", "Scalar", false),
    ("OBJECT", "Object", false),
    ("FIELD_DEFINITION", "FieldDefinition", false),
    ("ARGUMENT_DEFINITION", "ArgumentDefinition", false),
    ("INTERFACE", "Interface", false),
    ("UNION", "Union", false),
    ("ENUM", "Enum", false),
    ("ENUM_VALUE", "EnumValue", false),
    ("INPUT_OBJECT", "InputObject", false),
    ("INPUT_FIELD_DEFINITION", "InputFieldDefinition", false),
    ("VARIABLE_DEFINITION", "VariableDefinition", true),
];

impl<'a> Parser<'a> {
    pub fn new(src: &'a str, lax: bool) -> Parser<'a> {
        let l = lex(src, lax);
        Parser { toks: l.toks, end: l.end, end_off: l.off, end_pos: l.pos, i: 0, vars: true }
    }
    fn peek(&self) -> Option<&Tok<'a>> {
        self.toks.get(self.i)
    }
    fn at_p(&self, p: &str) -> bool {
        self.peek().map_or(false, |t| t.kind == K::Punct && t.val == p)
    }
    fn at_kw(&self, p: &str) -> bool {
        self.peek().map_or(false, |t| t.kind == K::Name && t.val == p)
    }
    fn at_name(&self) -> bool {
        self.peek().map_or(false, |t| t.kind == K::Name)
    }
    fn at_str(&self) -> bool {
        self.peek().map_or(false, |t| matches!(t.kind, K::Str | K::Block))
    }
    fn eat_p(&mut self, p: &str) -> bool {
        let r = self.at_p(p);
        self.i += r as usize;
        r
    }
    fn p(&mut self, p: &str) -> R<()> {
        if self.eat_p(p) {
            Ok(())
        } else {
            Err(())
        }
    }
    fn eat_kw(&mut self, p: &str) -> bool {
        let r = self.at_kw(p);
        self.i += r as usize;
        r
    }
    fn kw(&mut self, p: &str) -> R<()> {
        if self.eat_kw(p) {
            Ok(())
        } else {
            Err(())
        }
    }
    fn name(&mut self) -> R<String> {
        if self.at_name() {
            self.i += 1;
            Ok(self.toks[self.i - 1].val.to_string())
        } else {
            Err(())
        }
    }
    fn pos(&self) -> T {
        T::Pos(self.peek().map_or(self.end_pos, |t| t.pos))
    }
    pub fn offset(&self) -> usize {
        self.peek().map_or(self.end_off, |t| t.start)
    }
    pub fn at_eof(&self) -> bool {
        self.i == self.toks.len() && self.end == End::Eof
    }
    fn string(&mut self) -> R<String> {
        let t = self.peek().ok_or(())?;
        let r = match t.kind {
            K::Str => decode_string(t.val).ok_or(())?,
            K::Block => decode_block(t.val),
            _ => return Err(()),
        };
        self.i += 1;
        Ok(r)
    }

    fn value(&mut self, vars: bool) -> R<T> {
        let t = self.peek().ok_or(())?.clone();
        match t.kind {
            K::Name => {
                self.i += 1;
                Ok(match t.val {
                    "true" => T::B(true),
                    "false" => T::B(false),
                    "null" => T::N("Null", vec![]),
                    x => T::N("Enum", vec![("name", s(x))]),
                })
            }
            K::Int => {
                self.i += 1;
                Ok(T::I(int_value(t.val).ok_or(())?))
            }
            K::Float => {
                self.i += 1;
                let f: f64 = t.val.parse().map_err(|_| ())?;
                if f.is_infinite() {
                    return Err(());
                }
                Ok(T::F(f.to_bits()))
            }
            K::Str | K::Block => Ok(T::S(self.string()?)),
            K::Punct => match t.val {
                "$" if vars => {
                    self.i += 1;
                    Ok(T::N("Variable", vec![("name", T::S(self.name()?))]))
                }
                "[" => {
                    self.i += 1;
                    let mut v = vec![];
                    while !self.eat_p("]") {
                        v.push(self.value(vars)?);
                    }
                    Ok(T::L(v))
                }
                "{" => {
                    self.i += 1;
                    let mut m = BTreeMap::new();
                    while !self.eat_p("}") {
                        let k = self.name()?;
                        self.p(":")?;
                        let v = self.value(vars)?;
                        m.insert(k, v);
                    }
                    Ok(T::N(
                        "Object",
                        vec![("fields", T::L(m.into_iter().map(|(k, v)| T::L(vec![T::S(k), v])).collect()))],
                    ))
                }
                _ => Err(()),
            },
        }
    }
    fn arguments(&mut self) -> R<T> {
        let mut v = vec![];
        if self.eat_p("(") {
            loop {
                let k = self.name()?;
                self.p(":")?;
                v.push(T::L(vec![T::S(k), self.value(self.vars)?]));
                if self.eat_p(")") {
                    break;
                }
            }
        }
        Ok(T::L(v))
    }
    fn dirs(&mut self) -> R<T> {
        let mut v = vec![];
        while self.at_p("@") {
            let pos = self.pos();
            self.i += 1;
            let name = self.name()?;
            v.push(T::N("Directive", vec![("pos", pos), ("name", T::S(name)), ("args", self.arguments()?)]));
        }
        Ok(T::L(v))
    }
    fn ty(&mut self) -> R<T> {
        let t = if self.eat_p("[") {
            let t = self.ty()?;
            self.p("]")?;
            T::N("List", vec![("of", t)])
        } else {
            T::S(self.name()?)
        };
        Ok(if self.eat_p("!") { T::N("NonNull", vec![("of", t)]) } else { t })
    }
    fn selset(&mut self) -> R<T> {
        let start = self.pos();
        self.p("{")?;
        let mut v = vec![];
        loop {
            v.push(self.selection()?);
            if self.at_p("}") {
                break;
            }
        }
        let end = self.pos();
        self.i += 1;
        Ok(T::N("SelectionSet", vec![("start", start), ("end", end), ("items", T::L(v))]))
    }
    fn selection(&mut self) -> R<T> {
        if self.eat_p("...") {
            let pos = self.pos();
            if self.at_name() && !self.at_kw("on") {
                let n = self.name()?;
                return Ok(T::N("Spread", vec![("pos", pos), ("name", T::S(n)), ("dirs", self.dirs()?)]));
            }
            let cond = if self.eat_kw("on") { Some(T::S(self.name()?)) } else { None };
            let d = self.dirs()?;
            let sel = self.selset()?;
            return Ok(T::N("Inline", vec![("pos", pos), ("cond", opt(cond)), ("dirs", d), ("sel", sel)]));
        }
        let pos = self.pos();
        let n1 = self.name()?;
        let (alias, name) = if self.eat_p(":") { (Some(n1), self.name()?) } else { (None, n1) };
        let args = self.arguments()?;
        let dirs = self.dirs()?;
        let sel = if self.at_p("{") {
            self.selset()?
        } else {
            T::N("SelectionSet", vec![("start", pos.clone()), ("end", pos.clone()), ("items", T::L(vec![]))])
        };
        Ok(T::N(
            "Field",
            vec![
                ("pos", pos),
                ("alias", opt(alias.map(T::S))),
                ("name", T::S(name)),
                ("args", args),
                ("dirs", dirs),
                ("sel", sel),
            ],
        ))
    }
    pub fn qdef(&mut self) -> R<T> {
        if self.at_p("{") {
            return self.selset();
        }
        let pos = self.pos();
        if self.eat_kw("fragment") {
            if self.at_kw("on") {
                return Err(());
            }
            let name = T::S(self.name()?);
            self.kw("on")?;
            let cond = T::S(self.name()?);
            let dirs = self.dirs()?;
            let sel = self.selset()?;
            return Ok(T::N(
                "Fragment",
                vec![("pos", pos), ("name", name), ("cond", cond), ("dirs", dirs), ("sel", sel)],
            ));
        }
        let k = if self.eat_kw("query") {
            "Query"
        } else if self.eat_kw("mutation") {
            "Mutation"
        } else if self.eat_kw("subscription") {
            "Subscription"
        } else {
            return Err(());
        };
        let name = if self.at_name() { Some(T::S(self.name()?)) } else { None };
        let mut vars = vec![];
        if self.eat_p("(") {
            loop {
                let pos = self.pos();
                self.p("$")?;
                let name = T::S(self.name()?);
                self.p(":")?;
                let t = self.ty()?;
                let d = if self.eat_p("=") { Some(self.value(false)?) } else { None };
                vars.push(T::N("Var", vec![("pos", pos), ("name", name), ("type", t), ("default", opt(d))]));
                if self.eat_p(")") {
                    break;
                }
            }
        }
        let dirs = self.dirs()?;
        let sel = self.selset()?;
        Ok(T::N(
            k,
            vec![("pos", pos), ("name", opt(name)), ("vars", T::L(vars)), ("dirs", dirs), ("sel", sel)],
        ))
    }
    fn doc(&mut self, f: fn(&mut Self) -> R<T>) -> R<T> {
        let mut v = vec![];
        loop {
            v.push(f(self)?);
            if self.at_eof() {
                return Ok(T::L(v));
            }
        }
    }
    pub fn qdoc(&mut self) -> R<T> {
        self.doc(Self::qdef)
    }
    pub fn sdoc(&mut self) -> R<T> {
        self.vars = false;
        self.doc(Self::sdef)
    }

    fn odesc(&mut self) -> R<T> {
        Ok(opt(if self.at_str() { Some(T::S(self.string()?)) } else { None }))
    }
    fn input(&mut self) -> R<T> {
        let pos = self.pos();
        let desc = self.odesc()?;
        let name = T::S(self.name()?);
        self.p(":")?;
        let t = self.ty()?;
        let d = if self.eat_p("=") { Some(self.value(false)?) } else { None };
        let dirs = self.dirs()?;
        Ok(T::N(
            "Input",
            vec![("pos", pos), ("desc", desc), ("name", name), ("type", t), ("default", opt(d)), ("dirs", dirs)],
        ))
    }
    fn some(&mut self, open: &str, close: &str, f: fn(&mut Self) -> R<T>) -> R<T> {
        let mut v = vec![];
        if self.eat_p(open) {
            loop {
                v.push(f(self)?);
                if self.eat_p(close) {
                    break;
                }
            }
        }
        Ok(T::L(v))
    }
    fn fielddef(&mut self) -> R<T> {
        let pos = self.pos();
        let desc = self.odesc()?;
        let name = T::S(self.name()?);
        let args = self.some("(", ")", Self::input)?;
        self.p(":")?;
        let t = self.ty()?;
        let dirs = self.dirs()?;
        Ok(T::N(
            "FieldDef",
            vec![("pos", pos), ("desc", desc), ("name", name), ("args", args), ("type", t), ("dirs", dirs)],
        ))
    }
    fn enumvalue(&mut self) -> R<T> {
        let pos = self.pos();
        let desc = self.odesc()?;
        if self.at_kw("true") || self.at_kw("false") || self.at_kw("null") {
            return Err(());
        }
        let name = T::S(self.name()?);
        let dirs = self.dirs()?;
        Ok(T::N("EnumValue", vec![("pos", pos), ("desc", desc), ("name", name), ("dirs", dirs)]))
    }
    fn sep(&mut self, p: &str) -> R<Vec<String>> {
        self.eat_p(p);
        let mut v = vec![self.name()?];
        while self.eat_p(p) {
            v.push(self.name()?);
        }
        Ok(v)
    }
    fn names(v: Vec<String>) -> T {
        T::L(v.into_iter().map(T::S).collect())
    }
    fn implements(&mut self) -> R<T> {
        Ok(Self::names(if self.eat_kw("implements") { self.sep("&")? } else { vec![] }))
    }
    fn union_types(&mut self) -> R<T> {
        Ok(Self::names(if self.eat_p("=") { self.sep("|")? } else { vec![] }))
    }
    fn empty(x: &T) -> bool {
        matches!(x, T::L(v) if v.is_empty())
    }
    fn typedef(&mut self, desc: Option<T>) -> R<T> {
        // desc None: an extension
        let ext = desc.is_none();
        let pos = self.pos();
        let kw = self.name()?;
        let mut v = vec![("pos", pos)];
        if kw == "directive" && !ext {
            self.p("@")?;
            let name = T::S(self.name()?);
            let args = self.some("(", ")", Self::input)?;
            let rep = self.eat_kw("repeatable");
            self.kw("on")?;
            let mut locs = vec![];
            for l in self.sep("|")? {
                locs.push(s(LOCATIONS.iter().find(|x| x.0 == l).ok_or(())?.1));
            }
            v.extend(vec![
                ("desc", desc.unwrap()),
                ("name", name),
                ("args", args),
                ("repeatable", T::B(rep)),
                ("locations", T::L(locs)),
            ]);
            return Ok(T::N("DirectiveDef", v));
        }
        let k = match (kw.as_str(), ext) {
            ("scalar", false) => "Scalar",
            ("type", false) => "Object",
            ("interface", false) => "Interface",
            ("union", false) => "Union",
            ("enum", false) => "EnumDef",
            ("input", false) => "InputObject",
            ("scalar", true) => "ExtScalar",
            ("type", true) => "ExtObject",
            ("interface", true) => "ExtInterface",
            ("union", true) => "ExtUnion",
            ("enum", true) => "ExtEnum",
            ("input", true) => "ExtInputObject",
            _ => return Err(()),
        };
        if let Some(d) = desc {
            v.push(("desc", d));
        }
        let name = T::S(self.name()?);
        let mut parts = vec![];
        if kw == "type" || kw == "interface" {
            parts.push(("impl", self.implements()?));
        }
        let dirs = self.dirs()?;
        match kw.as_str() {
            "type" | "interface" => parts.push(("fields", self.some("{", "}", Self::fielddef)?)),
            "union" => parts.push(("types", self.union_types()?)),
            "enum" => parts.push(("values", self.some("{", "}", Self::enumvalue)?)),
            "input" => parts.push(("fields", self.some("{", "}", Self::input)?)),
            _ => {}
        }
        if ext && Self::empty(&dirs) && parts.iter().all(|(_, x)| Self::empty(x)) {
            return Err(());
        }
        v.push(("name", name));
        v.push(("dirs", dirs));
        v.extend(parts);
        Ok(T::N(k, v))
    }
    pub fn sdef(&mut self) -> R<T> {
        if self.at_kw("schema") {
            let pos = self.pos();
            self.i += 1;
            let dirs = self.dirs()?;
            self.p("{")?;
            let mut ops: [Option<T>; 3] = [None, None, None];
            loop {
                let k = self.name()?;
                self.p(":")?;
                let n = self.name()?;
                let i = ["query", "mutation", "subscription"].iter().position(|x| *x == k).ok_or(())?;
                if ops[i].is_some() {
                    return Err(());
                }
                ops[i] = Some(T::S(n));
                if self.eat_p("}") {
                    break;
                }
            }
            let [a, b, c] = ops;
            return Ok(T::N(
                "Schema",
                vec![("pos", pos), ("dirs", dirs), ("query", opt(a)), ("mutation", opt(b)), ("subscription", opt(c))],
            ));
        }
        if self.eat_kw("extend") {
            return self.typedef(None);
        }
        let d = self.odesc()?;
        self.typedef(Some(d))
    }
}

fn int_value(x: &str) -> Option<i64> {
    let neg = x.starts_with('-');
    let mut v: i128 = 0;
    for d in x.trim_start_matches('-').bytes() {
        v = v * 10 + (d - b'0') as i128;
        if v > 1 << 64 {
            return None;
        }
    }
    if neg {
        v = -v;
    }
    i64::try_from(v).ok()
}

pub fn parse_query(src: &str, lax: bool) -> R<T> {
    Parser::new(src, lax).qdoc()
}
pub fn parse_schema(src: &str, lax: bool) -> R<T> {
    Parser::new(src, lax).sdoc()
}
/// A single definition from the front; the tree and where the rest starts.
pub fn consume(src: &str, lax: bool) -> R<(T, usize)> {
    let mut p = Parser::new(src, lax);
    let t = p.qdef()?;
    Ok((t, p.offset()))
}
