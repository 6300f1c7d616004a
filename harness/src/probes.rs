//! Probes: decidable statements about one concrete case, on the real code.
use crate::conv;
use crate::gen::{self, Rng};
use crate::refimpl as rf;
use crate::tree::T;
use graphql_parser::{query as q, schema as sc, Style};

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub probe: String,
    pub text: String,
    /// indentation, or a seed, or a size
    pub n: u64,
    pub multi: bool,
}
impl Case {
    pub fn new(probe: &str, text: &str) -> Case {
        Case { probe: probe.to_string(), text: text.to_string(), n: 2, multi: false }
    }
    pub fn style(probe: &str, text: &str, n: u64, multi: bool) -> Case {
        Case { probe: probe.to_string(), text: text.to_string(), n, multi }
    }
}

/// Ok(true): checked and non-trivial; Ok(false): trivially fine.
pub type Res = Result<bool, String>;

fn style(c: &Case) -> Style {
    let mut s = Style::default();
    s.indent(c.n as u32).multiline_arguments(c.multi);
    s
}
fn clip(x: &str) -> String {
    if x.chars().count() > 600 {
        x.chars().take(600).collect::<String>() + "…"
    } else {
        x.to_string()
    }
}

/// What the code is expected to give for floats that print as integers (known
/// finding whole-float).
fn whole(t: &T) -> T {
    match t {
        T::F(b) => {
            let f = f64::from_bits(*b);
            if f.is_finite() && f.fract() == 0.0 && f.abs() < 1e18 {
                T::I(format!("{}", f).parse().unwrap_or(0))
            } else {
                t.clone()
            }
        }
        T::N(n, v) => T::N(n, v.iter().map(|(k, x)| (*k, whole(x))).collect()),
        T::L(v) => T::L(v.iter().map(whole).collect()),
        T::O(o) => T::O(o.as_ref().map(|x| Box::new(whole(x)))),
        x => x.clone(),
    }
}

fn rq(x: &str) -> Result<T, String> {
    q::parse_query::<&str>(x).map(|d| conv::qdoc(&d)).map_err(|e| e.to_string())
}
fn rs(x: &str) -> Result<T, String> {
    sc::parse_schema::<&str>(x).map(|d| conv::sdoc(&d)).map_err(|e| e.to_string())
}

fn compare(real: Result<T, String>, want: &dyn Fn(bool) -> Result<T, ()>, pos: bool) -> Res {
    let f = |t: T| if pos { t } else { t.strip() };
    let real = real.map(f);
    let mut last = String::new();
    for lax in [false, true] {
        match (&real, want(lax).map(f)) {
            (Ok(a), Ok(b)) if *a == b => return Ok(true),
            (Err(_), Err(())) => return Ok(false),
            (Ok(_), Err(())) if pos => return Ok(false),
            (Err(_), Ok(_)) if pos => return Ok(false),
            (_, w) => {
                if !lax {
                    last = format!("the code gives {}, the rules give {}", show(&real), match w {
                        Ok(t) => clip(&format!("{:?}", t)),
                        Err(()) => "a rejection".to_string(),
                    })
                }
            }
        }
    }
    Err(last)
}
fn show(r: &Result<T, String>) -> String {
    match r {
        Ok(t) => clip(&format!("{:?}", t)),
        Err(e) => format!("a rejection ({})", clip(&e.replace('\n', " / "))),
    }
}
/// Lone carriage returns outside tokens are outside the position rules.
fn lone_cr(x: &str) -> bool {
    let b = x.as_bytes();
    (0..b.len()).any(|i| b[i] == b'\r' && b.get(i + 1) != Some(&b'\n'))
}

fn roundtrip(
    text: &str,
    parse: &dyn Fn(&str) -> Result<(T, String), String>,
    reread: &dyn Fn(&str) -> Result<T, ()>,
) -> Res {
    let (t, out) = match parse(text) {
        Err(_) => return Ok(false),
        Ok(x) => x,
    };
    let want = t.strip();
    let back = match parse(&out) {
        Err(e) => return Err(format!("printed as {:?}, which is rejected: {}", clip(&out), clip(&e))),
        Ok(x) => x.0.strip(),
    };
    let w = whole(&want);
    if back != want && back != w {
        return Err(format!("printed as {:?}, read back as {} instead of {}", clip(&out), clip(&format!("{:?}", back)), clip(&format!("{:?}", want))));
    }
    match reread(&out).map(|t| t.strip()) {
        Ok(r) if r == want || r == w => Ok(true),
        r => Err(format!("printed as {:?}, which by the rules reads {} instead of {}", clip(&out), clip(&format!("{:?}", r)), clip(&format!("{:?}", want)))),
    }
}

/// Meaning of a token sequence: kind and value, strings decoded.
pub fn meaning(x: &str) -> Result<Vec<(u8, String)>, String> {
    let l = rf::lex(x, true);
    if l.end != rf::End::Eof {
        return Err(format!("{:?} at byte {}", l.end, l.off));
    }
    Ok(l.toks
        .iter()
        .map(|t| match t.kind {
            rf::K::Str => (9, rf::decode_string(t.val).unwrap_or_else(|| "?".into())),
            rf::K::Block => (9, rf::decode_block(t.val)),
            k => (k as u8, t.val.to_string()),
        })
        .collect())
}

#[cfg(gp_verif)]
mod hook {
    use super::*;
    use combine::{Positioned, StreamOnce};
    use graphql_parser::verif::{Kind, TokenStream};

    pub struct RT<'a> {
        pub kind: rf::K,
        pub val: &'a str,
        pub pos: (usize, usize),
    }
    pub fn toks(x: &str) -> (Vec<RT<'_>>, Result<(), String>, (usize, usize)) {
        let mut s = TokenStream::new(x);
        let mut v = vec![];
        loop {
            let p = s.position();
            match s.uncons() {
                Ok(t) => v.push(RT {
                    kind: match t.kind {
                        Kind::Punctuator => rf::K::Punct,
                        Kind::Name => rf::K::Name,
                        Kind::IntValue => rf::K::Int,
                        Kind::FloatValue => rf::K::Float,
                        Kind::StringValue => rf::K::Str,
                        Kind::BlockString => rf::K::Block,
                    },
                    val: t.value,
                    pos: (p.line, p.column),
                }),
                Err(e) => {
                    let eof = e == combine::easy::Error::end_of_input();
                    return (v, if eof { Ok(()) } else { Err(e.to_string()) }, (p.line, p.column));
                }
            }
            if v.len() > x.len() + 1 {
                return (v, Err("more tokens than bytes".into()), (0, 0));
            }
        }
    }
    pub fn tile(x: &str) -> Res {
        let (v, end, _) = toks(x);
        let base = x.as_ptr() as usize;
        let mut at = 0usize;
        for t in &v {
            let st = (t.val.as_ptr() as usize).wrapping_sub(base);
            if st < at || st + t.val.len() > x.len() || t.val.is_empty() {
                return Err(format!("token {:?} is not the next piece of the source (byte {})", t.val, at));
            }
            ignored_only(&x[at..st])?;
            at = st + t.val.len();
        }
        if v.len() > x.len() {
            return Err("more tokens than bytes".into());
        }
        if end.is_ok() {
            ignored_only(&x[at..])?;
        }
        Ok(!v.is_empty())
    }
    fn ignored_only(g: &str) -> Result<(), String> {
        let mut it = g.chars();
        while let Some(c) = it.next() {
            match c {
                ' ' | '\t' | '\n' | '\r' | ',' | '\u{feff}' => {}
                '#' => {
                    for c in it.by_ref() {
                        if c == '\n' || c == '\r' {
                            break;
                        }
                    }
                }
                _ => return Err(format!("text dropped between tokens: {:?}", g)),
            }
        }
        Ok(())
    }
    pub fn lex(x: &str) -> Res {
        let (v, end, _) = toks(x);
        let mut last = String::new();
        for lax in [false, true] {
            let l = rf::lex(x, lax);
            let same = v.len() == l.toks.len()
                && v.iter().zip(&l.toks).all(|(a, b)| a.kind == b.kind && a.val == b.val)
                && end.is_ok() == (l.end == rf::End::Eof);
            if same {
                return Ok(!v.is_empty());
            }
            if !lax {
                last = format!(
                    "the code gives {:?} then {:?}, the rules give {:?} then {:?}",
                    v.iter().map(|t| (t.kind, t.val)).collect::<Vec<_>>(),
                    end,
                    l.toks.iter().map(|t| (t.kind, t.val)).collect::<Vec<_>>(),
                    l.end
                );
            }
        }
        Err(last)
    }
    pub fn pos(x: &str) -> Res {
        if lone_cr(x) {
            return Ok(false);
        }
        let (v, _, last) = toks(x);
        for lax in [false, true] {
            let l = rf::lex(x, lax);
            if l.toks.len() != v.len() {
                continue;
            }
            for (a, b) in v.iter().zip(&l.toks) {
                if a.val == b.val && a.pos != (b.pos.0, b.pos.1) {
                    return Err(format!("token {:?} is at {:?}, reported at {:?}", a.val, (b.pos.0, b.pos.1), a.pos));
                }
            }
            if last != (l.pos.0, l.pos.1) {
                return Err(format!("the end is at {:?}, reported at {:?}", (l.pos.0, l.pos.1), last));
            }
            return Ok(v.len() > 1);
        }
        Ok(false)
    }
    /// Peeking one token back and again must not change anything.
    pub fn reset(x: &str, seed: u64) -> Res {
        use combine::stream::ResetStream;
        let mut r = Rng::new(seed);
        let (v, end, _) = toks(x);
        let mut s = TokenStream::new(x);
        let mut i = 0;
        loop {
            let cp = s.checkpoint();
            let p = s.position();
            let a = s.uncons().ok();
            if r.chance(1, 2) {
                s.reset(cp).map_err(|_| "reset failed".to_string())?;
                if s.position() != p {
                    return Err("the position changes after a reset".into());
                }
                continue;
            }
            match (a, v.get(i)) {
                (Some(t), Some(w)) if t.value == w.val && (p.line, p.column) == w.pos => i += 1,
                (None, None) => break,
                (a, _) => return Err(format!("after resets token {} is {:?}", i, a.map(|t| t.value))),
            }
        }
        let _ = end;
        Ok(v.len() > 1)
    }
}
#[cfg(not(gp_verif))]
mod hook {
    use super::*;
    pub fn tile(_: &str) -> Res {
        Ok(false)
    }
    pub fn lex(_: &str) -> Res {
        Ok(false)
    }
    pub fn pos(_: &str) -> Res {
        Ok(false)
    }
    pub fn reset(_: &str, _: u64) -> Res {
        Ok(false)
    }
}

fn qfmt(x: &str, st: &Style) -> Result<(T, String), String> {
    let d = q::parse_query::<&str>(x).map_err(|e| e.to_string())?;
    Ok((conv::qdoc(&d), d.format(st)))
}
fn sfmt(x: &str, st: &Style) -> Result<(T, String), String> {
    let d = sc::parse_schema::<&str>(x).map_err(|e| e.to_string())?;
    Ok((conv::sdoc(&d), d.format(st)))
}
fn reread_q(x: &str) -> Result<T, ()> {
    rf::parse_query(x, true)
}
fn reread_s(x: &str) -> Result<T, ()> {
    rf::parse_schema(x, true)
}

/// A document built directly that carries `s` in every place a string can be.
fn string_query(s: &str) -> q::Document<'static, String> {
    let v = || q::Value::<String>::String(s.to_string());
    let base = "query Q($v: T = 1) @d(p: 1) { a(x: 1, y: [1, 1], z: {k: 1}) @e(q: 1) { b(x: 1) { c(x: [1, {k: 1}]) } ... @e(q: 1) { d(x: 1) } } }";
    let doc = q::parse_query::<String>(base).expect("base document").into_static();
    let mut doc = doc;
    fn sub(v: &mut q::Value<'static, String>, w: &dyn Fn() -> q::Value<'static, String>) {
        match v {
            q::Value::Int(_) => *v = w(),
            q::Value::List(l) => l.iter_mut().for_each(|x| sub(x, w)),
            q::Value::Object(o) => o.values_mut().for_each(|x| sub(x, w)),
            _ => {}
        }
    }
    fn sel(x: &mut q::SelectionSet<'static, String>, w: &dyn Fn() -> q::Value<'static, String>) {
        for i in &mut x.items {
            match i {
                q::Selection::Field(f) => {
                    f.arguments.iter_mut().for_each(|a| sub(&mut a.1, w));
                    for d in &mut f.directives {
                        d.arguments.iter_mut().for_each(|a| sub(&mut a.1, w));
                    }
                    sel(&mut f.selection_set, w);
                }
                q::Selection::InlineFragment(f) => {
                    for d in &mut f.directives {
                        d.arguments.iter_mut().for_each(|a| sub(&mut a.1, w));
                    }
                    sel(&mut f.selection_set, w);
                }
                _ => {}
            }
        }
    }
    for d in &mut doc.definitions {
        if let q::Definition::Operation(q::OperationDefinition::Query(x)) = d {
            for d in &mut x.directives {
                d.arguments.iter_mut().for_each(|a| sub(&mut a.1, &v));
            }
            for d in &mut x.variable_definitions {
                d.default_value.iter_mut().for_each(|a| sub(a, &v));
            }
            sel(&mut x.selection_set, &v);
        }
    }
    doc
}
fn string_schema(s: &str) -> sc::Document<'static, String> {
    let base = "\"K\" type A { \"K\" f(\"K\" x: T = \"K\"): T @d(p: \"K\") } \"K\" scalar B \"K\" interface C { \"K\" f: T } \"K\" union D = A \"K\" enum E { \"K\" V } \"K\" input F { \"K\" x: [T] = [\"K\"] } \"K\" directive @g(\"K\" y: T) on QUERY";
    let mut doc = sc::parse_schema::<String>(base).expect("base schema").into_static();
    let o = || Some(s.to_string());
    fn input(i: &mut sc::InputValue<'static, String>, s: &str) {
        i.description = Some(s.to_string());
        match &mut i.default_value {
            Some(q::Value::List(l)) => l[0] = q::Value::String(s.to_string()),
            Some(v) => *v = q::Value::String(s.to_string()),
            None => {}
        }
    }
    fn field(f: &mut sc::Field<'static, String>, s: &str) {
        f.description = Some(s.to_string());
        f.arguments.iter_mut().for_each(|i| input(i, s));
        for d in &mut f.directives {
            d.arguments.iter_mut().for_each(|a| a.1 = q::Value::String(s.to_string()));
        }
    }
    for d in &mut doc.definitions {
        use sc::TypeDefinition as D;
        match d {
            sc::Definition::TypeDefinition(t) => match t {
                D::Scalar(x) => x.description = o(),
                D::Object(x) => {
                    x.description = o();
                    x.fields.iter_mut().for_each(|f| field(f, s));
                }
                D::Interface(x) => {
                    x.description = o();
                    x.fields.iter_mut().for_each(|f| field(f, s));
                }
                D::Union(x) => x.description = o(),
                D::Enum(x) => {
                    x.description = o();
                    x.values.iter_mut().for_each(|v| v.description = o());
                }
                D::InputObject(x) => {
                    x.description = o();
                    x.fields.iter_mut().for_each(|i| input(i, s));
                }
            },
            sc::Definition::DirectiveDefinition(x) => {
                x.description = o();
                x.arguments.iter_mut().for_each(|i| input(i, s));
            }
            _ => {}
        }
    }
    doc
}

pub fn run(c: &Case) -> Res {
    let x = c.text.as_str();
    match c.probe.as_str() {
        "lex" => hook::lex(x),
        "tile" => hook::tile(x),
        "reset" => hook::reset(x, c.n),
        "pos" => hook::pos(x),
        "qparse" => compare(rq(x), &|l| rf::parse_query(x, l), false),
        "sparse" => compare(rs(x), &|l| rf::parse_schema(x, l), false),
        "qpos" if lone_cr(x) => Ok(false),
        "spos" if lone_cr(x) => Ok(false),
        "qpos" => compare(rq(x), &|l| rf::parse_query(x, l), true),
        "spos" => compare(rs(x), &|l| rf::parse_schema(x, l), true),
        "qprint" => roundtrip(x, &|t| qfmt(t, &style(c)), &reread_q),
        "sprint" => roundtrip(x, &|t| sfmt(t, &style(c)), &reread_s),
        "qstrings" => {
            let d = string_query(x);
            let out = d.format(&style(c));
            let want = conv::qdoc(&d).strip();
            let back = rq(&out).map(|t| t.strip());
            if back.as_ref() != Ok(&want) {
                return Err(format!("printed as {:?}, read back as {}", clip(&out), show(&back)));
            }
            Ok(!x.is_empty())
        }
        "sstrings" => {
            let d = string_schema(x);
            let out = d.format(&style(c));
            let want = conv::sdoc(&d).strip();
            let back = rs(&out).map(|t| t.strip());
            if back.as_ref() != Ok(&want) {
                return Err(format!("printed as {:?}, read back as {}", clip(&out), show(&back)));
            }
            Ok(!x.is_empty())
        }
        "strlit" => {
            // the literal in every place where one can be
            let src = format!("query($v: T = {} ) {{ a(x: {} , y: [ {} ]) }}", x, x, x);
            let a = compare(rq(&src), &|l| rf::parse_query(&src, l), false)?;
            let ssrc = format!("{} type A {{ {} f( {} x: T): T }} {} directive @a( {} x: T = {} ) on QUERY", x, x, x, x, x, x);
            let b = compare(rs(&ssrc), &|l| rf::parse_schema(&ssrc, l), false)?;
            Ok(a || b || x.contains('"'))
        }
        "number" => {
            // a number as the only value
            let src = format!("{{a(x: {} )}}", x);
            compare(rq(&src), &|l| rf::parse_query(&src, l), false)
        }
        "intval" => {
            let v: i64 = match x.parse() {
                Ok(v) => v,
                Err(_) => return Ok(false),
            };
            let src = format!("{{a(x: {})}}", v);
            let t = rq(&src);
            let mut want = rf::parse_query("{a(x: 1)}", false).unwrap().strip();
            fn set(t: &mut T, v: i64) {
                match t {
                    T::I(i) => *i = v,
                    T::L(l) => l.iter_mut().for_each(|x| set(x, v)),
                    T::N(_, l) => l.iter_mut().for_each(|x| set(&mut x.1, v)),
                    T::O(Some(x)) => set(x, v),
                    _ => {}
                }
            }
            set(&mut want, v);
            if t.clone().map(|t| t.strip()) != Ok(want) {
                return Err(format!("{} is read as {}", v, show(&t)));
            }
            Ok(true)
        }
        "floatval" => {
            // n: bits of a double; its shortest scientific form must be read
            // as exactly that double, and print back to it
            let f = f64::from_bits(c.n);
            if !f.is_finite() {
                return Ok(false);
            }
            let mut lit = format!("{:e}", f);
            if let Some(i) = lit.find('e') {
                if !lit[i + 1..].starts_with('-') {
                    lit.insert(i + 1, '+');
                }
            }
            let src = format!("{{a(x: {})}}", lit);
            let d = q::parse_query::<&str>(&src).map_err(|e| format!("{} rejected: {}", src, e))?;
            let got = match &d.definitions[0] {
                q::Definition::Operation(q::OperationDefinition::SelectionSet(s)) => match &s.items[0] {
                    q::Selection::Field(fl) => match &fl.arguments[0].1 {
                        q::Value::Float(g) => *g,
                        v => return Err(format!("{} is read as {:?}", src, v)),
                    },
                    _ => return Err("no field".into()),
                },
                _ => return Err("no selection set".into()),
            };
            if got.to_bits() != f.to_bits() {
                return Err(format!("{} is read as {:e}", src, got));
            }
            Ok(true)
        }
        "style" => {
            // n: indentation
            let base = Style::default();
            let st = style(c);
            let (a, b) = if let Ok((_, a)) = qfmt(x, &base) {
                let d = q::parse_query::<String>(x).map_err(|e| e.to_string())?;
                if d.to_string() != a {
                    return Err(format!("Display gives {:?}, the default style {:?}", clip(&d.to_string()), clip(&a)));
                }
                (a, qfmt(x, &st)?.1)
            } else if let Ok((_, a)) = sfmt(x, &base) {
                let d = sc::parse_schema::<String>(x).map_err(|e| e.to_string())?;
                if d.to_string() != a {
                    return Err(format!("Display gives {:?}, the default style {:?}", clip(&d.to_string()), clip(&a)));
                }
                (a, sfmt(x, &st)?.1)
            } else {
                return Ok(false);
            };
            let (ma, mb) = (meaning(&a), meaning(&b));
            match (&ma, &mb) {
                (Ok(p), Ok(q)) if p == q => {
                    stepped(&a, 2)?;
                    stepped(&b, c.n)?;
                    let nodes = match q::parse_query::<&str>(x) {
                        Ok(d) => crate::shown::query(&d),
                        Err(_) => crate::shown::schema(&sc::parse_schema::<&str>(x).map_err(|e| e.to_string())?),
                    };
                    let whole = lines(&a);
                    for (k, t) in nodes {
                        stepped(&t, 2)?;
                        if !whole.contains(lines(&t).trim_end_matches('\n')) {
                            return Err(format!("{} displays as {:?}, but the document as {:?}", k, clip(&t), clip(&a)));
                        }
                    }
                    Ok(true)
                }
                _ => Err(format!("style changes more than white space: {:?} against {:?}", clip(&a), clip(&b))),
            }
        }
        "minify" => {
            let l = rf::lex(x, true);
            let strict = rf::lex(x, false);
            let real = graphql_parser::minify_query(x.to_string());
            let out = match real {
                Err(e) => {
                    if strict.end == rf::End::Eof {
                        return Err(format!("rejected ({}), but every token is valid", e));
                    }
                    return Ok(false);
                }
                Ok(o) => o,
            };
            if l.end != rf::End::Eof {
                return Err(format!("accepted as {:?}, but by the rules it stops at byte {}", clip(&out), l.off));
            }
            let m = rf::lex(&out, true);
            let same = m.end == rf::End::Eof
                && m.toks.len() == l.toks.len()
                && m.toks.iter().zip(&l.toks).all(|(a, b)| a.kind == b.kind && a.val == b.val);
            if !same {
                return Err(format!("minified to {:?}, whose tokens are others", clip(&out)));
            }
            match graphql_parser::minify_query(out.clone()) {
                Ok(o2) if o2 == out => {}
                r => return Err(format!("minified to {:?}, and again to {:?}", clip(&out), r.map_err(|e| e.to_string()))),
            }
            let a = rq(x).map(|t| t.strip()).ok();
            let b = rq(&out).map(|t| t.strip()).ok();
            if a != b {
                return Err(format!("minified to {:?}, which is read differently", clip(&out)));
            }
            // at most one character between two tokens, none at the ends
            let mut at = 0;
            for t in &m.toks {
                if t.start - at > 1 || (at == 0 && t.start > 0) {
                    return Err(format!("minified to {:?}, which keeps superfluous characters", clip(&out)));
                }
                at = t.end;
            }
            if at != out.len() {
                return Err(format!("minified to {:?}, which keeps superfluous characters", clip(&out)));
            }
            Ok(l.toks.len() > 1)
        }
        "consume" => {
            let real = q::consume_definition::<&str>(x);
            let mut last = String::new();
            for lax in [false, true] {
                match (&real, rf::consume(x, lax)) {
                    (Err(_), Err(())) => return Ok(false),
                    (Ok((d, rest)), Ok((t, off))) => {
                        if conv::qdef(d).strip() == t.strip() && *rest == &x[off..] && rest.as_ptr() == x[off..].as_ptr() {
                            // the remainder goes on as if alone
                            let all = rq(x).map(|t| t.strip()).ok();
                            if let (Some(T::L(v)), false) = (&all, rest.is_empty()) {
                                let tail = rq(rest).map(|t| t.strip()).ok();
                                if v[0] != t.strip() || tail.as_ref() != Some(&T::L(v[1..].to_vec())) {
                                    return Err(format!("the remainder {:?} does not give the other definitions", clip(rest)));
                                }
                            }
                            return Ok(true);
                        }
                        if !lax {
                            last = format!("the code leaves {:?}, the rules leave {:?}; trees {} and {}", clip(rest), clip(&x[off..]), clip(&format!("{:?}", conv::qdef(d).strip())), clip(&format!("{:?}", t.strip())))
                        }
                    }
                    (r, w) => {
                        if !lax {
                            last = format!("the code gives {}, the rules {}", if r.is_ok() { "a definition" } else { "a rejection" }, if w.is_ok() { "a definition" } else { "a rejection" })
                        }
                    }
                }
            }
            Err(last)
        }
        "ignored" => {
            // the same tokens with other ignored characters between them
            let l = rf::lex(x, false);
            if l.end != rf::End::Eof || l.toks.is_empty() {
                return Ok(false);
            }
            let toks: Vec<String> = l.toks.iter().map(|t| t.val.to_string()).collect();
            let mut r = Rng::new(c.n);
            let y = gen::join_with(&mut r, &toks, ["\n", "\n", "\r", "\r\n"][(c.n % 4) as usize]);
            let a = (rq(x).map(|t| t.strip()).ok(), rs(x).map(|t| t.strip()).ok());
            let b = (rq(&y).map(|t| t.strip()).ok(), rs(&y).map(|t| t.strip()).ok());
            if a != b {
                return Err(format!("with other ignored characters, {:?}, it is read differently: {:?} against {:?}", clip(&y), clip(&format!("{:?}", a)), clip(&format!("{:?}", b))));
            }
            Ok(a.0.is_some() || a.1.is_some())
        }
        "text" => {
            type C<'a> = std::borrow::Cow<'a, str>;
            let a = q::parse_query::<&str>(x);
            let b = q::parse_query::<String>(x);
            let d = q::parse_query::<C>(x);
            let (ta, tb, td) = (
                a.as_ref().map(|d| (conv::qdoc(d), d.to_string())).map_err(|e| e.to_string()),
                b.as_ref().map(|d| (conv::qdoc(d), d.to_string())).map_err(|e| e.to_string()),
                d.as_ref().map(|d| (conv::qdoc(d), d.to_string())).map_err(|e| e.to_string()),
            );
            if ta != tb || ta != td {
                return Err(format!("the query is read differently per text type: {:?} {:?} {:?}", ta, tb, td));
            }
            let mut nt = ta.is_ok();
            if let Ok(b) = b {
                let w = tb.clone().unwrap();
                let s = b.into_static();
                if (conv::qdoc(&s), s.to_string()) != w {
                    return Err("into_static changes the query document".into());
                }
            }
            // every value, through into_static
            if let Ok(a) = &a {
                let mut bad = None;
                values(a, &mut |v| {
                    let s = v.into_static();
                    if conv::value(v) != conv::value(&s) || v.to_string() != s.to_string() {
                        bad = Some(format!("into_static changes {:?} to {:?}", conv::value(v), conv::value(&s)));
                    }
                });
                if let Some(b) = bad {
                    return Err(b);
                }
            }
            let a = sc::parse_schema::<&str>(x);
            let b = sc::parse_schema::<String>(x);
            let d = sc::parse_schema::<C>(x);
            let (ta, tb, td) = (
                a.as_ref().map(|d| (conv::sdoc(d), d.to_string())).map_err(|e| e.to_string()),
                b.as_ref().map(|d| (conv::sdoc(d), d.to_string())).map_err(|e| e.to_string()),
                d.as_ref().map(|d| (conv::sdoc(d), d.to_string())).map_err(|e| e.to_string()),
            );
            if ta != tb || ta != td {
                return Err(format!("the schema is read differently per text type: {:?} {:?} {:?}", ta, tb, td));
            }
            nt |= ta.is_ok();
            if let Ok(b) = b {
                let w = tb.clone().unwrap();
                let s = b.into_static();
                if (conv::sdoc(&s), s.to_string()) != w {
                    return Err("into_static changes the schema document".into());
                }
            }
            Ok(nt)
        }
        "dirloc" => {
            use std::str::FromStr;
            let r = sc::DirectiveLocation::from_str(x);
            match (rf::LOCATIONS.iter().find(|l| l.0 == x), r) {
                (None, Err(_)) => Ok(false),
                (Some(l), Ok(d)) => {
                    if format!("{:?}", d) != l.1 || d.as_str() != l.0 || d.is_query() != l.2 || d.is_schema() == l.2 {
                        return Err(format!("{:?} is read as {:?} with as_str {:?}, is_query {}, is_schema {}", x, d, d.as_str(), d.is_query(), d.is_schema()));
                    }
                    let t = rs(&format!("directive @a on {}", x)).map(|t| t.strip());
                    if t != rf::parse_schema(&format!("directive @a on {}", x), false).map(|t| t.strip()).map_err(|_| String::new()) {
                        return Err(format!("directive @a on {} is read as {}", x, show(&t)));
                    }
                    Ok(true)
                }
                (w, r) => Err(format!("{:?} is read as {:?}, expected {:?}", x, r.ok(), w)),
            }
        }
        "depth" => {
            // text: a bracket kind or a document with one @ where n levels go
            let src = deep(x, c.n as usize);
            let (real, r2) = (rq(&src).map(|t| t.strip()), rs(&src).map(|t| t.strip()));
            let (w, w2) = (rf::parse_query(&src, true).map(|t| t.strip()), rf::parse_schema(&src, true).map(|t| t.strip()));
            if real.is_ok() != w.is_ok() || r2.is_ok() != w2.is_ok() {
                return Err(format!("nested {} deep: the code {}, the limit of {} says {}", rf_depth(&src), ["rejects", "accepts"][(real.is_ok() || r2.is_ok()) as usize], rf::LIMIT, ["reject", "accept"][(w.is_ok() || w2.is_ok()) as usize]));
            }
            if real.ok() != w.ok() || r2.ok() != w2.ok() {
                return Err("read differently".into());
            }
            if graphql_parser::minify_query(src.clone()).is_ok() != (rf::lex(&src, true).end == rf::End::Eof) {
                return Err(format!("minify: the limit of {} is not kept", rf::LIMIT));
            }
            Ok(true)
        }
        "total" => {
            // no panic, whatever the text
            let st = style(c);
            if let Ok(d) = q::parse_query::<&str>(x) {
                let _ = (d.format(&st), d.to_string(), format!("{:?}", d), d.clone() == d);
                for x in &d.definitions {
                    let _ = x.to_string();
                }
            }
            if let Ok(d) = sc::parse_schema::<&str>(x) {
                let _ = (d.format(&st), d.to_string(), format!("{:?}", d), d.clone() == d);
                for x in &d.definitions {
                    let _ = x.to_string();
                }
            }
            if let Err(e) = q::parse_query::<&str>(x) {
                let _ = e.to_string();
            }
            if let Err(e) = sc::parse_schema::<&str>(x) {
                let _ = e.to_string();
            }
            let _ = q::consume_definition::<&str>(x).map(|r| r.1.len());
            let _ = graphql_parser::minify_query(x.to_string()).map_err(|e| e.to_string());
            Ok(!x.is_empty())
        }
        p => Err(format!("unknown probe {}", p)),
    }
}

fn rf_depth(x: &str) -> usize {
    let (mut d, mut m) = (0usize, 0);
    for c in x.chars() {
        if "([{".contains(c) {
            d += 1;
            m = m.max(d);
        } else if ")]}".contains(c) {
            d = d.saturating_sub(1);
        }
    }
    m
}
/// Documents with `n` levels of nesting of one kind.
pub const DEEP: [&str; 9] = ["sel", "list", "obj", "type", "mix", "dirarg", "sdef", "wide", "unclosed"];
/// The lines without their indentation.
fn lines(t: &str) -> String {
    t.split('\n').map(|l| l.trim_start_matches(' ')).collect::<Vec<_>>().join("\n")
}
/// Every line outside string literals is indented by a multiple of n.
fn stepped(t: &str, n: u64) -> Result<(), String> {
    let l = rf::lex(t, true);
    let mut at = 0;
    for (k, line) in t.split('\n').enumerate() {
        let i = line.len() - line.trim_start_matches(' ').len();
        // the line begins within a literal
        let inside = l.toks.iter().any(|t| t.start < at && at < t.end);
        if !inside && (if n == 0 { i != 0 } else { i as u64 % n != 0 }) {
            return Err(format!("with an indentation of {}, line {} of {:?} is indented by {}", n, k + 1, clip(t), i));
        }
        at += line.len() + 1;
    }
    Ok(())
}
pub fn deep(kind: &str, n: usize) -> String {
    match kind {
        "sel" => format!("{}b{}", "{a ".repeat(n), "}".repeat(n)),
        "list" => {
            let k = n.saturating_sub(2);
            format!("{{a(x: {}{})}}", "[".repeat(k), "]".repeat(k))
        }
        "obj" => {
            let k = n.saturating_sub(2);
            format!("{{a(x: {}1{})}}", "{k: ".repeat(k), "}".repeat(k))
        }
        "type" => {
            let k = n.saturating_sub(1);
            format!("query($v: {}T{}) {{a}}", "[".repeat(k), "]".repeat(k))
        }
        "mix" => {
            let k = n.saturating_sub(4) / 2;
            let e = n.saturating_sub(4) % 2;
            format!("{{a{{b(x: {{k: {}{}{}{}}})}}}}", "[{k: ".repeat(k), "[".repeat(e), "]".repeat(e), "}]".repeat(k))
        }
        "dirarg" => {
            let k = n.saturating_sub(2);
            format!("{{a @d(x: {}{})}}", "[".repeat(k), "]".repeat(k))
        }
        "sdef" => {
            let k = n.saturating_sub(2);
            format!("type A {{ f(x: T = {}{}): T }}", "[".repeat(k), "]".repeat(k))
        }
        k if !DEEP.contains(&k) => k.to_string(),
        // many siblings, little depth
        "wide" => format!("{{{}}}", "a(x: [1]) {b(y: {k: [1]})} ".repeat(n)),
        _ => "{a ".repeat(n),
    }
}

fn values<'a, 'b>(d: &'b q::Document<'a, &'a str>, f: &mut dyn FnMut(&'b q::Value<'a, &'a str>)) {
    fn val<'a, 'b>(v: &'b q::Value<'a, &'a str>, f: &mut dyn FnMut(&'b q::Value<'a, &'a str>)) {
        f(v);
    }
    fn dirs<'a, 'b>(v: &'b [q::Directive<'a, &'a str>], f: &mut dyn FnMut(&'b q::Value<'a, &'a str>)) {
        v.iter().for_each(|d| d.arguments.iter().for_each(|a| val(&a.1, f)))
    }
    fn sel<'a, 'b>(s: &'b q::SelectionSet<'a, &'a str>, f: &mut dyn FnMut(&'b q::Value<'a, &'a str>)) {
        for i in &s.items {
            match i {
                q::Selection::Field(x) => {
                    x.arguments.iter().for_each(|a| val(&a.1, f));
                    dirs(&x.directives, f);
                    sel(&x.selection_set, f);
                }
                q::Selection::FragmentSpread(x) => dirs(&x.directives, f),
                q::Selection::InlineFragment(x) => {
                    dirs(&x.directives, f);
                    sel(&x.selection_set, f);
                }
            }
        }
    }
    use q::OperationDefinition as O;
    for d in &d.definitions {
        match d {
            q::Definition::Operation(O::SelectionSet(s)) => sel(s, f),
            q::Definition::Operation(O::Query(o)) => {
                o.variable_definitions.iter().for_each(|v| v.default_value.iter().for_each(|v| val(v, f)));
                dirs(&o.directives, f);
                sel(&o.selection_set, f)
            }
            q::Definition::Operation(O::Mutation(o)) => {
                dirs(&o.directives, f);
                sel(&o.selection_set, f)
            }
            q::Definition::Operation(O::Subscription(o)) => {
                dirs(&o.directives, f);
                sel(&o.selection_set, f)
            }
            q::Definition::Fragment(o) => {
                dirs(&o.directives, f);
                sel(&o.selection_set, f)
            }
        }
    }
}
