//! gpharness PROPERTY --tier T --seed N --replay-dir D [--trace FILE]
//! gpharness --replay FILE
//! Looks for a concrete input on which the real code breaks a property.
mod conv;
mod gen;
mod probes;
mod refimpl;
mod shown;
mod tree;
use gen::{Gen, Rng};
use probes::Case;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct Run {
    prop: String,
    thorough: bool,
    seed: u64,
    dir: String,
    trace: Option<std::fs::File>,
    current: Arc<Mutex<(Option<Case>, Instant)>>,
    evals: u64,
    nontrivial: HashSet<u64>,
    per: BTreeMap<String, u64>,
    samples: Vec<Case>,
    deadline: Instant,
    capped: bool,
}

fn jstr(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(x: &str) -> String {
    x.bytes().map(|b| format!("{:02x}", b)).collect()
}
fn replay_json(prop: &str, c: &Case, why: &str) -> String {
    format!(
        "{{\n\"property\": {},\n\"probe\": {},\n\"text\": {},\n\"text_hex\": \"{}\",\n\"n\": {},\n\"multi\": {},\n\"observed\": {}\n}}\n",
        jstr(prop), jstr(&c.probe), jstr(&c.text), hex(&c.text), c.n, c.multi, jstr(why)
    )
}
fn eval(c: &Case) -> probes::Res {
    match catch_unwind(AssertUnwindSafe(|| probes::run(c))) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(format!("panic: {}", m))
        }
    }
}
fn finish_violation(dir: &str, prop: &str, c: &Case, why: &str) -> ! {
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{}/{}.json", dir, prop);
    let _ = std::fs::write(&path, replay_json(prop, c, why));
    println!("FAIL {}", path);
    println!("  probe {}: {:?}", c.probe, c.text);
    println!("  {}", why);
    let _ = std::io::stdout().flush();
    std::process::exit(1);
}

impl Run {
    /// Returns false when the time is up.
    fn case(&mut self, c: Case) -> bool {
        if self.evals & 0x3f == 0 && Instant::now() > self.deadline {
            self.capped = true;
            return false;
        }
        if let Some(f) = &mut self.trace {
            use std::io::{Seek, SeekFrom};
            let s = replay_json(&self.prop, &c, "the process died");
            let _ = f.set_len(0);
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.write_all(s.as_bytes());
        }
        *self.current.lock().unwrap() = (Some(c.clone()), Instant::now());
        self.evals += 1;
        match eval(&c) {
            Ok(nt) => {
                if nt {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    (&c.probe, &c.text, c.n, c.multi).hash(&mut h);
                    if self.nontrivial.insert(h.finish()) {
                        *self.per.entry(c.probe.clone()).or_insert(0) += 1;
                        let k = self.nontrivial.len();
                        if k == 3 || k == 300 || k == 3000 {
                            self.samples.push(c);
                        }
                    }
                }
                true
            }
            Err(_) => {
                let c = shrink(c);
                let why = eval(&c).err().unwrap_or_default();
                finish_violation(&self.dir, &self.prop, &c, &why)
            }
        }
    }
    fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick * match self.prop.as_str() {
                "C01" | "C02" | "C05" | "C06" | "C07" | "C12" | "C14" | "C16" => 5,
                "C13" => 10,
                "C08" | "C10" | "C11" | "C15" => 3,
                _ => 1,
            }
        }
    }
    fn exhaust(&mut self, probe: &str, pre: &str, post: &str, alpha: &[&str], n: usize) {
        gen::exhaustive(alpha, n, &mut |x| self.case(Case::new(probe, &format!("{}{}{}", pre, x, post))));
    }
    /// Random documents of one language; `f` makes the cases.
    fn docs(&mut self, schema: bool, count: usize, mutants: usize, f: &dyn Fn(&mut Rng, &str) -> Vec<Case>) {
        let mut r = Rng::new(self.seed ^ if schema { 0x5c4e } else { 0x9e4 });
        for t in gen::repeats(schema) {
            for c in f(&mut r, &t) {
                if !self.case(c) {
                    return;
                }
            }
        }
        for i in 0..count {
            let budget = [6, 12, 25, 50][i % 4] + r.below(8) as i32;
            let mut g = Gen::new(&mut r, budget);
            if schema {
                g.sdoc()
            } else {
                g.qdoc()
            }
            let toks = g.out;
            let text = gen::join(&mut r, &toks);
            for c in f(&mut r, &text) {
                if !self.case(c) {
                    return;
                }
            }
            for k in 0..mutants {
                let t = if k % 2 == 0 {
                    let mut m = toks.clone();
                    gen::mutate(&mut r, &mut m);
                    gen::join(&mut r, &m)
                } else {
                    gen::mangle(&mut r, &text)
                };
                for c in f(&mut r, &t) {
                    if !self.case(c) {
                        return;
                    }
                }
            }
        }
    }
}

/// Greedy removal of pieces of the text while the probe still fails.
fn shrink(c: Case) -> Case {
    let start = Instant::now();
    let mut best = c;
    let mut chunk = (best.text.chars().count() / 2).max(1);
    loop {
        let mut progress = false;
        let mut i = 0;
        loop {
            let cs: Vec<char> = best.text.chars().collect();
            if i >= cs.len() || start.elapsed() > Duration::from_secs(5) {
                break;
            }
            let mut t: String = cs[..i].iter().collect();
            t.extend(cs[(i + chunk).min(cs.len())..].iter());
            let mut d = best.clone();
            d.text = t;
            if best.probe != "depth" && eval(&d).is_err() {
                best = d;
                progress = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !progress || start.elapsed() > Duration::from_secs(5) {
            return best;
        }
        chunk = (chunk / 2).max(1);
    }
}

const STYLES: [(u64, bool); 7] = [(2, false), (2, true), (0, false), (0, true), (4, false), (7, true), (1, false)];

fn style(r: &mut Rng) -> (u64, bool) {
    if r.chance(1, 8) {
        return (gen::dict_num(r, 400), r.chance(1, 2));
    }
    *r.pick(&STYLES)
}

fn lexical(run: &mut Run, probe: &str) {
    let d = run.thorough as usize;
    run.exhaust(probe, "", "", &["0", "1", "9", "-", "+", ".", "e", "E", "a", "\"", " ", "{"], 5 + d);
    run.exhaust(probe, "", "", &["\"", "\\", "u", "a", "\n", "\r", "é", "#", " "], 6 + d);
    run.exhaust(probe, "", "", &["a", "#", "\n", "\r", "\t", " ", ",", "\u{feff}", "{", "..."], 5 + d);
    run.exhaust(probe, "", "", &["a", "_", "1", "Z", "-", ".", "$", "@", "|", "&", "!", ":", "=", "(", "]", "?", "é", "😀"], 4);
    run.exhaust(probe, "\"\"\"", "\"\"\" a", &["\"", "\\", "a", "\n", "\r\n", "é"], 6 + d);
    for c in 0..0x3000u32 {
        if let Some(c) = char::from_u32(c) {
            for p in ["", "a", "1", "# ", "\"", "1.5", "1e"] {
                let s = format!("{}{}", p, c);
                run.case(Case::new(probe, &s));
                run.case(Case::new(probe, &(s + " b")));
                if p == "\"" {
                    run.case(Case::new(probe, &format!("\"{}\" b", c)));
                    run.case(Case::new(probe, &format!("\"\\{}\" b", c)));
                }
            }
        }
    }
    let n = run.n(3000, 60000);
    let f = |r: &mut Rng, t: &str| {
        let mut c = Case::new(probe, t);
        c.n = r.next() & 0xffff;
        vec![c]
    };
    run.docs(false, n, 2, &f);
    run.docs(true, n, 2, &f);
}

/// Texts as long as a number that the source mentions: one piece again and again, between two others.
fn long_texts(most: u64) -> Vec<String> {
    let mut v = vec![];
    for n in gen::dict().nums.iter().filter(|n| **n > 5 && **n <= most) {
        for k in [n - 1, *n, n + 1, n + 2] {
            let k = k as usize;
            for x in ["a", "\n", " ", "a\n", "\n  b", "\"", "\\", "\u{e9}", "\n\t", "\u{1}"] {
                let x = x.repeat(k);
                v.extend([x.clone(), format!("{}\nb", x), format!("a\n{}\n", x), format!("a{}", x), format!("{}b", x), format!("\n  a{}\n    b\n ", x), format!("  a\n{}\n  b", x)]);
            }
        }
    }
    v
}

fn string_literals(run: &mut Run, probe: &str) {
    for x in long_texts(1100) {
        run.case(Case::new(probe, &format!("\"\"\"{}\"\"\"", x.replace('"', "\\\"\"\""))));
        if !x.contains(['\n', '"', '\u{1}']) {
            run.case(Case::new(probe, &format!("\"{}\"", x.replace('\\', "\\u00e9"))));
            run.case(Case::new(probe, &format!("\"{}\"", x.replace('\\', "\\\\"))));
        }
    }
    let d = run.thorough as usize;
    run.exhaust(probe, "\"", "\"", &["\\", "\"", "u", "0", "n", "a", "é"], 6 + d);
    run.exhaust(probe, "\"\\u", "\"", &["0", "9", "a", "F", "g", "+", "-", "D", "8"], 5);
    run.exhaust(probe, "\"\"\"", "\"\"\"", &["\n", " ", "\t", "a", "\"", "\\", "\r\n"], 6 + d);
    run.exhaust(probe, "\"\"\"a\n", "\"\"\"", &["\n", " ", "  ", "\t", "b", "\u{a0}", "\u{2003}", "é"], 5);
    run.exhaust(probe, "\"\"\"", "\"\"\"", &["\n", "    a", "  b", "c", " ", "\n\n", "\\\"\"\""], 5 + d);
    for c in 0..0x11000u32 {
        if c < 0x10000 {
            let up = format!("\"\\u{:04X}\"", c & 0xffff);
            run.case(Case::new(probe, &up));
            run.case(Case::new(probe, &up.to_lowercase()));
        }
        if let Some(ch) = char::from_u32(c) {
            if c < 0x300 {
                run.case(Case::new(probe, &format!("\"\\{}\"", ch)));
                run.case(Case::new(probe, &format!("\"\\{}{}\"", ch, ch)));
                run.case(Case::new(probe, &format!("\"\"\"a\n{} b\n  c\"\"\"", ch)));
                run.case(Case::new(probe, &format!("\"\"\" \n{}{} b\n  c\n{}\"\"\"", ch, ch, ch)));
            }
            if c < 0x300 || c % 0x35 == 0 {
                run.case(Case::new(probe, &format!("\"{}\"", ch)));
                run.case(Case::new(probe, &format!("\"\"\"{}\"\"\"", ch)));
            }
        }
    }
    let mut r = Rng::new(run.seed);
    for _ in 0..run.n(30000, 800000) {
        let l = gen::string_lit(&mut r);
        if !run.case(Case::new(probe, &l)) {
            return;
        }
        let m = gen::mangle(&mut r, &l);
        if !run.case(Case::new(probe, &m)) {
            return;
        }
    }
}

fn grammar(run: &mut Run, schema: bool, probe: &str) {
    let d = run.thorough as usize;
    let base = vec!["{ ", "} ", "( ", ") ", "[ ", "] ", ": ", "= ", "@ ", "$ ", "! ", "... ", "a ", "on ", "1 ", "\"s\" "];
    if !schema {
        run.exhaust(probe, "", "", &["{ ", "} ", "( ", ") ", ": ", "... ", "a ", "on ", "@ ", "$ ", "query ", "fragment ", "mutation ", "subscription "], 4 + d);
        run.exhaust(probe, "{ ", "}", &base, 4);
        run.exhaust(probe, "{ a( ", ")}", &base, 4);
        run.exhaust(probe, "{ a(x: ", ")}", &["[ ", "] ", "{ ", "} ", "a ", ": ", "$ ", "1 ", "2.5 ", "\"\"\"b\"\"\" ", "true ", "null "], 4 + d);
        run.exhaust(probe, "query( ", "){a}", &["$ ", "v ", ": ", "[ ", "] ", "! ", "= ", "1 ", "{ ", "} "], 5 + d);
        run.exhaust(probe, "query($v: T = ", "){a}", &["[ ", "] ", "{ ", "} ", "a ", ": ", "$ ", "1 "], 5);
        run.exhaust(probe, "{ ... ", "}", &["on ", "A ", "@ ", "{ ", "} ", "( ", ") ", ": "], 5 + d);
        run.exhaust(probe, "fragment ", "", &["a ", "on ", "@ ", "{ ", "} ", "( "], 6 + d);
        run.exhaust(probe, "query ", "", &["a ", "$ ", "@ ", "{ ", "} ", "( ", ") ", ": "], 6);
        run.exhaust(probe, "{ a ", "}", &["b ", ": ", "@ ", "{ ", "} ", "( ", ") ", "1 ", "... "], 5);
    } else {
        run.exhaust(probe, "", "", &["{ ", "} ", ": ", "a ", "@ ", "schema ", "extend ", "type ", "scalar ", "union ", "enum ", "input ", "interface ", "directive ", "\"s\" "], 4);
        run.exhaust(probe, "schema ", "", &["{ ", "} ", ": ", "a ", "@ ", "query ", "mutation ", "subscription "], 5 + d);
        run.exhaust(probe, "schema { query: a ", "}", &["a ", ": ", "query ", "mutation ", "subscription "], 6);
        for ext in ["", "extend "] {
            run.exhaust(probe, &format!("{}type A ", ext), "", &["implements ", "& ", "B ", "@ ", "{ ", "} ", ": ", "( ", ") "], 5);
            run.exhaust(probe, &format!("{}interface A ", ext), "", &["implements ", "& ", "B ", "@ ", "{ ", "} ", ": "], 5);
            run.exhaust(probe, &format!("{}union A ", ext), "", &["= ", "| ", "B ", "@ ", "{ "], 6);
            run.exhaust(probe, &format!("{}enum A ", ext), "", &["{ ", "} ", "B ", "@ ", "\"s\" ", "true "], 6);
            run.exhaust(probe, &format!("{}input A ", ext), "", &["{ ", "} ", "B ", "@ ", "\"s\" ", ": ", "= ", "1 "], 5);
            run.exhaust(probe, &format!("{}scalar A ", ext), "", &["{ ", "} ", "B ", "@ ", "( "], 5);
        }
        run.exhaust(probe, "type A { ", "}", &["\"s\" ", "f ", "( ", ") ", ": ", "T ", "@ ", "! ", "= ", "1 "], 5);
        run.exhaust(probe, "type A { f( ", "): T }", &["\"\"\"s\"\"\" ", "f ", ": ", "= ", "1 ", "@ ", "[ ", "] ", "! ", "$ "], 5);
        run.exhaust(probe, "input A { f: T ", "}", &["\"s\" ", "f ", ": ", "= ", "1 ", "@ ", "[ ", "] ", "! ", "$ "], 5);
        run.exhaust(probe, "directive ", "", &["@ ", "a ", "on ", "| ", "QUERY ", "repeatable ", "( ", ") "], 6);
        run.exhaust(probe, "directive @a on ", "", &["| ", "QUERY ", "ENUM_VALUE ", "FOO ", "scalar ", "query "], 6);
    }
    let n = run.n(12000, 400000);
    run.docs(schema, n, 3, &|_, t| vec![Case::new(probe, t)]);
}

fn printing(run: &mut Run, schema: bool, probe: &str) {
    let n = run.n(12000, 400000);
    run.docs(schema, n, 1, &|r, t| {
        let (i, m) = style(r);
        vec![Case::style(probe, t, 2, false), Case::style(probe, t, i, m)]
    });
    let mut r = Rng::new(run.seed ^ 77);
    // every kind of definition, densely
    for i in 0..run.n(4000, 100000) {
        let mut g = Gen::new(&mut r, 3 + (i % 20) as i32);
        if schema {
            g.sdef()
        } else {
            g.qdef()
        }
        let t = g.out;
        let t = gen::join(&mut r, &t);
        let (i, m) = style(&mut r);
        if !run.case(Case::style(probe, &t, i, m)) {
            return;
        }
    }
    // nesting up to the limit
    for k in probes::DEEP {
        for n in [1usize, 2, 5, 20, 48, 49, 50] {
            for (i, m) in STYLES {
                run.case(Case::style(probe, &probes::deep(k, n), i, m));
            }
        }
    }
}

fn numbers(run: &mut Run) {
    let d = run.thorough as usize;
    run.exhaust("number", "", "", &["0", "1", "9", "-", ".", "e", "E", "+"], 6 + d);
    for a in ["9223372036854775807", "9223372036854775808", "9223372036854775806", "18446744073709551616", "1e308", "1.8e308", "1.7976931348623157e308", "1.7976931348623159e308", "179769313486231580793e289", "2.4703282292062327e-324", "2.4703282292062328e-324"] {
        run.case(Case::new("number", a));
        run.case(Case::new("number", &format!("-{}", a)));
    }
    for k in [1usize, 5, 17, 18, 19, 20, 21, 40, 308, 309, 310, 400] {
        for dgt in ["1", "5", "9"] {
            for suffix in ["", ".0", ".5", "e+1", "e-400", "e400"] {
                run.case(Case::new("number", &format!("{}{}", dgt.repeat(k), suffix)));
                run.case(Case::new("number", &format!("-{}{}{}", dgt, "0".repeat(k), suffix)));
                run.case(Case::new("number", &format!("0.{}{}{}", "0".repeat(k), dgt, if suffix.starts_with('e') { suffix } else { "" })));
            }
        }
    }
    let mut r = Rng::new(run.seed);
    for i in 0..64 {
        for k in -2i64..=2 {
            run.case(Case::new("intval", &format!("{}", (1i64.wrapping_shl(i)).wrapping_add(k))));
            run.case(Case::new("intval", &format!("{}", (1i64.wrapping_shl(i)).wrapping_neg().wrapping_add(k))));
        }
    }
    for _ in 0..run.n(100000, 3000000) {
        let v = r.next() as i64 >> r.below(64);
        if !run.case(Case::new("intval", &v.to_string())) {
            return;
        }
        let mut c = Case::new("floatval", "");
        c.n = r.next();
        if r.chance(1, 3) {
            c.n = ((r.below(1 << 20) as f64) / 64.0).to_bits();
        }
        run.case(c);
        let t = format!("{}{}.{}", if r.chance(1, 2) { "-" } else { "" }, r.next() >> (1 + r.below(63)), r.next() >> (1 + r.below(63)));
        run.case(Case::new("number", &t));
        let t2 = format!("{}e{}{}", t, ["+", "-", ""][r.below(3)], 1 + r.below(330));
        run.case(Case::new("number", &t2));
    }
}

fn explore(run: &mut Run) {
    let p = run.prop.clone();
    let styled = |probe: &'static str| {
        move |r: &mut Rng, t: &str| {
            let (i, m) = style(r);
            vec![Case::style(probe, t, i, m)]
        }
    };
    let seeded = |probe: &'static str| {
        move |r: &mut Rng, t: &str| {
            let mut c = Case::new(probe, t);
            c.n = r.next() & 0xffffff;
            vec![c]
        }
    };
    match p.as_str() {
        "C01" => printing(run, false, "qprint"),
        "C02" => printing(run, true, "sprint"),
        "C03" => {
            for probe in ["qstrings", "sstrings"] {
                for x in long_texts(600) {
                    run.case(Case::style(probe, &x, 2, false));
                }
                for (i, m) in [(2u64, false), (2, true), (0, false), (5, true)] {
                    let d = run.thorough as usize;
                    let n = if probe == "qstrings" { 4 } else { 3 } + d;
                    let alpha: &[&str] = &["\n", " ", "\t", "a", "\"", "\\", "\r", "\"\"\"", "\u{1}", "é", "#"];
                    gen::exhaustive(alpha, n, &mut |x| run.case(Case::style(probe, x, i, m)));
                    gen::exhaustive(&["\n", " ", "a", "\"\"\"", "\\"], n + 2, &mut |x| run.case(Case::style(probe, x, i, m)));
                }
                for c in (0..0x3000u32).chain(0xd700..0xe100).chain(0xfe00..0x10100).chain(0x10ff00..0x110000) {
                    if let Some(ch) = char::from_u32(c) {
                        run.case(Case::style(probe, &ch.to_string(), 2, false));
                        run.case(Case::style(probe, &format!("a\n {}b", ch), 2, false));
                        run.case(Case::style(probe, &format!("{} x\n{}y\n{}", ch, ch, ch), 3, true));
                    }
                }
                let mut r = Rng::new(run.seed);
                for _ in 0..run.n(20000, 600000) {
                    let c = gen::content(&mut r, 16);
                    let (i, m) = style(&mut r);
                    if !run.case(Case::style(probe, &c, i, m)) {
                        return;
                    }
                }
            }
        }
        "C04" => string_literals(run, "strlit"),
        "C05" => {
            lexical(run, "tile");
            let n = run.n(4000, 100000);
            run.docs(false, n, 1, &seeded("reset"));
            run.docs(true, n, 1, &seeded("reset"));
            run.docs(false, n, 2, &|_, t| vec![Case::new("lex", t)]);
        }
        "C06" => {
            lexical(run, "lex");
            // tokens as long as a number that the source mentions
            for n in gen::dict().nums.iter().filter(|n| **n <= 70000) {
                for k in n.saturating_sub(3)..=n + 3 {
                    let k = k as usize;
                    for (a, x, b) in [("", "a", ""), ("a", "1", ""), ("_", "Z_", ""), ("", "1", ""), ("-", "7", ".5"), ("1.", "0", ""), ("1e", "1", "e"), ("1e+", "0", ""), ("0", "0", ""), ("\"", "a", "\""),
                        ("\"", "\\\"", "\""), ("\"", "\\", "\""), ("\"\"\"", "a", "\"\"\""), ("\"\"\"", "\n", "\"\"\""), ("\"\"\"", "\\\"\"\"", "\"\"\""), ("#", "a", "\n"), ("", ".", ""), ("", "a ", ""), ("\"", "é", "\"")] {
                        let t = format!("{}{}{}", a, x.repeat(k), b);
                        for t in [format!("{} b", t), format!("{{{}", t), t] {
                            run.case(Case::new("lex", &t));
                        }
                    }
                }
            }
            run.exhaust("number", "", "", &["0", "1", "9", "-", ".", "e", "E", "+"], 5);
        }
        "C07" => {
            lexical(run, "pos");
            // far columns and lines, where the source mentions a number
            for n in gen::dict().nums.iter().filter(|n| **n <= 70000) {
                for k in n.saturating_sub(3)..=n + 3 {
                    for pad in [" ", "\n", ","] {
                        let pad = pad.repeat(k as usize);
                        for t in ["{a}", "{a(x: [1]) @d b {c}}", "fragment f on T {a ...f}", "query q($v: T = 1) {a}", "?"] {
                            for probe in ["pos", "qpos"] {
                                run.case(Case::new(probe, &format!("{}{}", pad, t)));
                                run.case(Case::new(probe, &t.replacen(' ', &format!(" {}", pad), 2)));
                            }
                        }
                        for t in ["type T {f(a: I = 1): T}", "enum E {A}", "schema {query: Q}", "directive @d on FIELD", "\"x\" scalar S"] {
                            run.case(Case::new("spos", &format!("{}{}", pad, t)));
                            run.case(Case::new("spos", &t.replacen(' ', &format!(" {}", pad), 2)));
                        }
                    }
                }
            }
            let n = run.n(10000, 300000);
            run.docs(false, n, 0, &|_, t| vec![Case::new("qpos", t)]);
            run.docs(true, n, 0, &|_, t| vec![Case::new("spos", t)]);
            let n = run.n(4000, 100000);
            run.docs(false, n, 1, &seeded("reset"));
        }
        "C08" => {
            for k in probes::DEEP {
                for n in (1..=70).chain([80, 100, 101, 150, 255, 256, 257, 300, 1000]) {
                    let mut c = Case::new("depth", k);
                    c.n = n;
                    run.case(c);
                }
            }
            let n = run.n(3000, 100000);
            let mut r = Rng::new(run.seed ^ 0xdeeb);
            for i in 0..n {
                let mut t = gen::deepdoc(&mut r, [50, 49, 51, 50, 48, 52, 30][i % 7]);
                if i % 3 == 0 {
                    t = format!("{}{}", t, gen::deepdoc(&mut r, 50));
                }
                let mut c = Case::new("depth", "text");
                c.text = t;
                if !run.case(c) {
                    break;
                }
            }
            for (pre, k, post) in [("{a ", 48, "}"), ("{a ", 49, "}")] {
                let (a, b) = (pre.repeat(k), post.repeat(k));
                run.exhaust("qparse", &a, &b, &["(x:", ")", "[", "]", "{a:", "}", "{a", " a"], 4 + run.thorough as usize);
            }
            for k in [46, 47] {
                let (a, b) = (format!("{{a(x:{}", "[".repeat(k)), format!("{})}}", "]".repeat(k)));
                run.exhaust("qparse", &a, &b, &["[", "]", "{a:", "}", " 1", ")", "(x:"], 4 + run.thorough as usize);
            }
            // groups that are closed at the limit, and others that go beyond it
            let kinds: [(&str, &str); 5] = [("{a ", "}"), ("{a(x:1) ", "}"), ("{a(x:[1]) ", "}"), ("{a(x:{k:1}) ", "}"), ("{...@d(x:1)", "}")];
            for d in 44..=50 {
                for (o, c) in kinds {
                    for (o2, c2) in kinds {
                        for e in 0..=8 {
                            let t = format!("{}{}{}{}{}", "{a ".repeat(d - 2), format!("{}{}b{}{} ", o, o, c, c), o2.repeat(e), if e > 0 { "b" } else { "" }, c2.repeat(e) + &"}".repeat(d - 2));
                            run.case(Case::new("qparse", &t));
                        }
                    }
                }
                for n in [1, 2, 3, 60] {
                    for (o, c) in [("[", "]"), ("{k:", "}"), ("[{k:", "}]")] {
                        let w = d - 2 - o.len() / 4 * 2;
                        let deepest = format!("{}1{} ", o, c);
                        let t = format!("{{a(x:{}{}{}{})}}", "[".repeat(w), deepest.repeat(n), "[[[[]]]]", "]".repeat(w));
                        run.case(Case::new("qparse", &t));
                    }
                }
            }
            // many balanced groups
            let n = run.n(1500, 50000);
            run.docs(false, n, 0, &|r, t| vec![Case::new("depth", &vec![t; 20 + r.below(60)].join("\n"))]);
            run.docs(true, n, 0, &|r, t| vec![Case::new("depth", &vec![t; 20 + r.below(60)].join("\n"))]);
            let n = run.n(6000, 200000);
            run.docs(false, n, 1, &|_, t| vec![Case::new("qparse", t)]);
            run.docs(true, n, 1, &|_, t| vec![Case::new("sparse", t)]);
        }
        "C09" => {
            lexical(run, "minify");
            grammar(run, false, "minify");
        }
        "C10" => {
            run.exhaust("consume", "", "", &["{a}", "{ ", "} ", "query ", "fragment a on B {c}", "a ", "\n", "# x\n", "?", "\u{feff}"], 5);
            run.exhaust("consume", "{a}", "", &["{", "}", " ", "\n", "#", "é", "\"", "1", ".", ",", "b"], 4);
            let n = run.n(15000, 400000);
            run.docs(false, n, 3, &|_, t| vec![Case::new("consume", t)]);
        }
        "C11" => {
            run.exhaust("ignored", "{ a ", "}", &["\"x\"", "# c\n", "( ", ") ", "x:", "1 ", "@d ", "{b}", "\u{feff}", ",", "..."], 4);
            let n = run.n(15000, 400000);
            run.docs(false, n, 1, &seeded("ignored"));
            run.docs(true, n, 1, &seeded("ignored"));
        }
        "C12" => {
            let n = run.n(10000, 300000);
            run.docs(false, n, 1, &|_, t| vec![Case::new("text", t)]);
            run.docs(true, n, 1, &|_, t| vec![Case::new("text", t)]);
        }
        "C13" => {
            for (a, b, _) in refimpl::LOCATIONS {
                for t in [a.to_string(), b.to_string(), a.to_lowercase(), a.replace('_', ""), format!("{} ", a), format!(" {}", a), format!("{}S", a), a[1..].to_string(), a[..a.len() - 1].to_string()] {
                    run.case(Case::new("dirloc", &t));
                }
                for i in 1..a.len() {
                    for j in i..=a.len() {
                        run.case(Case::new("dirloc", &a[i - 1..j]));
                    }
                    run.case(Case::new("dirloc", &format!("{}{}", &a[..i], &a[i + 1..])));
                    run.case(Case::new("dirloc", &format!("{}{}{}", &a[..i], &a[i - 1..i], &a[i..])));
                }
                for (c, _, _) in refimpl::LOCATIONS {
                    run.case(Case::new("dirloc", &format!("{}_{}", a, c)));
                    run.case(Case::new("dirloc", &format!("{}{}", a, c)));
                }
                let b = a.as_bytes();
                for i in 0..b.len() {
                    for ch in "ABCDEFGHIJKLMNOPQRSTUVWXYZ_".chars() {
                        let mut v: Vec<char> = a.chars().collect();
                        v[i] = ch;
                        run.case(Case::new("dirloc", &v.iter().collect::<String>()));
                    }
                }
            }
            // every literal of the source is a candidate
            for f in ["schema/ast.rs", "schema/grammar.rs", "common.rs", "helpers.rs"] {
                let src = std::fs::read_to_string(format!("/repo/src/{}", f)).unwrap_or_default();
                for w in src.split('"') {
                    if w.len() < 60 && !w.contains('\n') {
                        run.case(Case::new("dirloc", w));
                    }
                }
            }
            run.exhaust("dirloc", "", "", &["Q", "U", "E", "R", "Y", "_", "q", "FIELD", "_DEFINITION", "ENUM", "VALUE", "INPUT", "OBJECT", "FRAGMENT", "INLINE"], 4);
            let n = run.n(3000, 30000);
            run.docs(true, n, 0, &styled("sprint"));
        }
        "C14" => grammar(run, false, "qparse"),
        "C15" => grammar(run, true, "sparse"),
        "C16" => {
            let n = run.n(12000, 300000);
            run.docs(false, n, 0, &styled("style"));
            run.docs(true, n, 0, &styled("style"));
            for k in probes::DEEP {
                for n in [1usize, 3, 10, 50] {
                    for (i, m) in STYLES.iter().chain(&[(8u64, true), (8, false), (16, false), (33, true), (100, false), (129, true)]) {
                        run.case(Case::style("style", &probes::deep(k, n), *i, *m));
                    }
                }
            }
        }
        "C17" => numbers(run),
        "C18" => {
            lexical(run, "total");
            string_literals(run, "total");
            let n = run.n(10000, 300000);
            run.docs(false, n, 4, &styled("total"));
            run.docs(true, n, 4, &styled("total"));
            let mut r = Rng::new(run.seed ^ 5);
            for _ in 0..run.n(40000, 1000000) {
                let c = gen::content(&mut r, 24);
                if !run.case(Case::new("total", &c)) {
                    return;
                }
            }
            for k in probes::DEEP {
                for n in (45..55).chain([100, 1000, 5000]) {
                    run.case(Case::new("total", &probes::deep(k, n)));
                }
            }
        }
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(3);
        }
    }
}

/// Probes that fail on the tree as it is: (id, property, case, exact test).
fn known() -> Vec<(&'static str, &'static str, bool)> {
    let mut v = vec![];
    let whole = {
        let t = "{a(x: 1.0)}";
        let d = graphql_parser::parse_query::<&str>(t).ok();
        let out = d.as_ref().map(|d| d.to_string()).unwrap_or_default();
        let back = graphql_parser::parse_query::<&str>(&out).ok().map(|d| conv::qdoc(&d).strip());
        d.map(|d| conv::qdoc(&d).strip()) != back
    };
    v.push(("whole-float", "C01", whole));
    let wholes = {
        let t = "input A {a: B = 1.0}";
        let d = graphql_parser::parse_schema::<&str>(t).ok();
        let out = d.as_ref().map(|d| d.to_string()).unwrap_or_default();
        let back = graphql_parser::parse_schema::<&str>(&out).ok().map(|d| conv::sdoc(&d).strip());
        d.map(|d| conv::sdoc(&d).strip()) != back
    };
    v.push(("whole-float", "C02", wholes));
    let e0 = graphql_parser::parse_query::<&str>("{a(x: 0e0)}").is_err();
    v.push(("exponent-zero", "C06", e0));
    v.push(("exponent-zero", "C17", e0));
    v
}

fn field(src: &str, k: &str) -> Option<String> {
    let i = src.find(&format!("\"{}\": ", k))? + k.len() + 4;
    let l = src[i..].lines().next()?.trim_end_matches(',');
    Some(l.trim_matches('"').to_string())
}

fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    std::panic::set_hook(Box::new(|_| {}));
    if let Some(f) = get("--replay") {
        let s = std::fs::read_to_string(&f).expect("replay file");
        let h = field(&s, "text_hex").expect("text_hex");
        let bytes: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        let c = Case {
            probe: field(&s, "probe").unwrap(),
            text: String::from_utf8(bytes).unwrap(),
            n: field(&s, "n").unwrap().parse().unwrap(),
            multi: field(&s, "multi").unwrap() == "true",
        };
        match eval(&c) {
            Ok(_) => println!("holds on this input"),
            Err(e) => {
                println!("{:?}\n{}", c, e);
                std::process::exit(1)
            }
        }
        return;
    }
    let thorough = get("--tier").as_deref() == Some("thorough");
    let current = Arc::new(Mutex::new((None, Instant::now())));
    let secs: u64 = get("--seconds").and_then(|x| x.parse().ok()).unwrap_or(if thorough { 500 } else { 120 });
    let t0 = Instant::now();
    let mut run = Run {
        prop: a[1].clone(),
        thorough,
        seed: get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1),
        dir: get("--replay-dir").unwrap_or("replay".into()),
        trace: get("--trace").map(|f| std::fs::File::create(f).unwrap()),
        current: current.clone(),
        evals: 0,
        nontrivial: HashSet::new(),
        per: BTreeMap::new(),
        samples: vec![],
        deadline: t0 + Duration::from_secs(secs),
        capped: false,
    };
    {
        // a case that does not end is a failure too
        let (dir, prop) = (run.dir.clone(), run.prop.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let g = current.lock().unwrap();
            if let (Some(c), t) = &*g {
                if t.elapsed() > Duration::from_secs(25) {
                    finish_violation(&dir, &prop, c, "no answer within 25 s");
                }
            }
        });
    }
    explore(&mut run);
    *run.current.lock().unwrap() = (None, Instant::now());
    println!("{{");
    println!("\"evaluations\": {},", run.evals);
    println!("\"distinct_nontrivial\": {},", run.nontrivial.len());
    println!("\"per_probe\": {{{}}},", run.per.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    println!("\"capped\": {},", run.capped);
    println!("\"hook\": {},", cfg!(gp_verif));
    println!("\"known\": [{}],", known().iter().filter(|k| k.2 && k.1 == run.prop).map(|k| jstr(k.0)).collect::<Vec<_>>().join(", "));
    println!("\"seconds\": {:.2},", t0.elapsed().as_secs_f64());
    println!("\"samples\": [{}]", run.samples.iter().map(|c| format!("{{\"probe\": {}, \"text\": {}, \"n\": {}, \"multi\": {}}}", jstr(&c.probe), jstr(&c.text), c.n, c.multi)).collect::<Vec<_>>().join(", "));
    println!("}}");
}

fn main() {
    let r = std::thread::Builder::new().stack_size(1 << 29).spawn(real_main).unwrap().join();
    if r.is_err() {
        eprintln!("harness failure");
        std::process::exit(3);
    }
}
