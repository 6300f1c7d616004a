//! vx TEMPLATE REPO OUT: fills a proof template with functions taken from the
//! crate's current source. Lines of the template are copied; the blocks
//!   //@file src/x.rs                       file of the functions that follow
//!   //@method name[:kind] => replacement   (also //@call, //@macro, //@path)
//!   //@known f g h                         functions with a contract here
//!   //@fn PATH … //@end                    one function: //@sig, then sections
//!                                          //@spec //@pre //@loop k //@loopstart k
//!                                          //@loopend k //@afterloop k //@closure k
//!   //@consts PATH                         a constant's value
//!   //@transparent NAME…                      rules that stay unfolded (mutually recursive ones)
//!   //@grammar, //@parsers, //@gfn           parser expressions: see gram.rs
//!   //@ast FILE NAME [as NEW]              a type of the document
//! are replaced. Exit 2: the source no longer has what the template names, or
//! uses a construct the extraction does not take (nothing is said about it then).
mod mac;
mod exec;
mod gram;
mod source;
use exec::*;
use source::Source;
use std::collections::BTreeMap;

const FILES: &[&str] = &[
    "src/common.rs",
    "src/format.rs",
    "src/helpers.rs",
    "src/position.rs",
    "src/tokenizer.rs",
    "src/query/ast.rs",
    "src/query/format.rs",
    "src/query/grammar.rs",
    "src/query/minify.rs",
    "src/schema/ast.rs",
    "src/schema/format.rs",
    "src/schema/grammar.rs",
];

struct FnMap {
    name: String,
    from: Option<String>,
    first: usize,
    last: usize,
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn include(path: &str, out: &mut Vec<String>) -> R<()> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
    for l in text.lines() {
        if let Some(r) = l.trim().strip_prefix("//@include ") {
            let dir = std::path::Path::new(path).parent().unwrap();
            include(dir.join(r.trim()).to_str().unwrap(), out)?;
        } else {
            out.push(l.to_string());
        }
    }
    Ok(())
}

/// `//@def NAME TEXT`: in what follows, @{NAME} is TEXT.
fn defs(tl: Vec<String>) -> R<Vec<String>> {
    let mut d: Vec<(String, String)> = vec![];
    let mut out = vec![];
    for l in tl {
        if let Some(r) = l.trim().strip_prefix("//@def ") {
            let (n, t) = r.trim().split_once(' ').unwrap_or((r.trim(), ""));
            let n = format!("@{{{}}}", n);
            d.retain(|x| x.0 != n);
            d.push((n, t.trim().to_string()));
            continue;
        }
        let mut l = l;
        for (n, t) in &d {
            l = l.replace(n.as_str(), t);
        }
        if l.contains("@{") {
            return Err(format!("template: {}", l));
        }
        out.push(l);
    }
    Ok(out)
}

/// Sugar in specifications: `take x, k1 = E @ k0;` goes on with x and k1 if E is Out::Ok(x, k1); else the block has
/// no result (where nothing was read since k) or a bad one.
fn takes(tl: Vec<String>) -> R<Vec<String>> {
    let mut out = vec![];
    let mut depth = 0i32;
    let mut open: Vec<(i32, usize)> = vec![];
    for l in tl {
        let t = l.trim().to_string();
        if let Some(r) = t.strip_prefix("take ") {
            let bad = || format!("template: {}", l);
            let r = r.strip_suffix(';').ok_or_else(bad)?;
            let (pat, e) = r.split_once(" = ").ok_or_else(bad)?;
            let (e, k0) = e.rsplit_once(" @ ").ok_or_else(bad)?;
            let (x, k1) = pat.rsplit_once(',').ok_or_else(bad)?;
            let (x, k1, k0) = (x.trim(), k1.trim(), k0.trim());
            out.push(format!("match {e} {{ Out::No => miss({k0} == k), Out::Bad => Out::Bad, Out::Ok({x}, {k1}) => if !({k0} <= {k1} <= s.t.len()) {{ Out::Bad }} else {{"));
            match open.last_mut() {
                Some((d, n)) if *d == depth => *n += 1,
                _ => open.push((depth, 1)),
            }
            continue;
        }
        if t.starts_with("//") || open.is_empty() {
            for c in l.chars() {
                match c {
                    '{' => depth += 1,
                    '}' => depth -= 1,
                    _ => {}
                }
            }
            out.push(l);
            continue;
        }
        let mut o = String::new();
        for c in l.chars() {
            match c {
                '{' => depth += 1,
                '}' => {
                    if let Some((d, n)) = open.last().cloned() {
                        if d == depth {
                            o.push_str(&"}}".repeat(n));
                            open.pop();
                        }
                    }
                    depth -= 1;
                }
                _ => {}
            }
            o.push(c);
        }
        out.push(o);
    }
    Ok(out)
}

/// The rules that functions answer to are opaque; a function's contract reveals its own.
fn rule_of(e: &str) -> String {
    e.trim().chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
}
fn opaque_rules(tl: Vec<String>) -> Vec<String> {
    let mut rules = std::collections::BTreeSet::new();
    for l in &tl {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//@gfn ") {
            if let Some((_, e)) = r.split_once(" = ") {
                rules.insert(rule_of(e));
            }
        }
        if let Some(r) = t.strip_prefix("//@many ") {
            if let Some((_, e)) = r.split_once(" : ") {
                rules.insert(rule_of(e));
            }
        }
    }
    for l in &tl {
        if let Some(r) = l.strip_prefix("//@transparent ") {
            for n in r.split_whitespace() {
                rules.remove(n);
            }
        }
    }
    let mut out = vec![];
    for l in tl {
        if l.starts_with("//@transparent ") {
            continue;
        }
        if let Some(r) = l.strip_prefix("spec fn ") {
            if rules.contains(&rule_of(r)) {
                out.push("#[verifier::opaque]".to_string());
            }
        }
        out.push(l);
    }
    out
}

/// A string literal of the code as a function: its characters and, where it has only whole tokens, which they are.
fn literal(k: usize, l: &str, only_plain: bool) -> String {
    let q = |c: char| format!("{:?}", c).replace("'\"'", "'\\\"'");
    let chars: Vec<char> = l.chars().collect();
    let text = format!("{:?}", l).replace("\\'", "'");
    let seq = |v: &[char]| if v.is_empty() { "Seq::<char>::empty()".to_string() } else { format!("seq![{}]", v.iter().map(|c| q(*c)).collect::<Vec<_>>().join(", ")) };
    // (first, last, lemma, symbol)
    let mut pieces: Vec<(usize, usize, String, String, bool)> = vec![];
    let mut plain = false;
    let mut i = 0;
    while i < chars.len() {
        let c = chars[i];
        let n;
        if " \n\t\r,".contains(c) {
            n = 1;
            pieces.push((i, i + 1, format!("lemma_blank({});", q(c)), String::new(), true));
        } else if "!$&():=@[]{|}".contains(c) {
            n = 1;
            pieces.push((i, i + 1, format!("lemma_punct({});", q(c)), format!("p({})", q(c)), true));
        } else if l[..].chars().skip(i).take(3).collect::<String>() == "..." {
            n = 3;
            plain |= pieces.last().map_or(false, |p| !p.4);
            pieces.push((i, i + 3, "lemma_spread(); reveal_strlit(\"...\"); assert(\"...\"@ =~= seq!['.', '.', '.']);".into(), "Sym::Punct(\"...\"@)".into(), true));
        } else if c.is_ascii_alphabetic() || c == '_' {
            let mut j = i;
            while j < chars.len() && (chars[j].is_ascii_alphanumeric() || chars[j] == '_') {
                j += 1;
            }
            n = j - i;
            let w: String = chars[i..j].iter().collect();
            let mut t = format!("reveal_strlit(\"{w}\"); let v = \"{w}\"@; assert(v =~= {}); ", seq(&chars[i..j]));
            for x in 0..n {
                t.push_str(&format!("assert(name_char(v[{x}])); "));
            }
            t.push_str("lemma_name(v);");
            pieces.push((i, j, t, format!("w(\"{w}\"@)"), false));
        } else {
            plain = true;
            break;
        }
        i += n;
    }
    if only_plain {
        // whether it has no quotes, comments and line breaks
        let good = !chars.is_empty() && chars.iter().all(|c| !"\"\n#\t\r\u{feff}".contains(*c));
        let (e, f) = if good { ("        plain(r@),\n", format!("reveal(plain); {}", (0..chars.len()).map(|x| format!("assert(plain_char({text}@[{x}])); ")).collect::<String>())) } else { ("", String::new()) };
        return format!("/// A literal of the code.\nfn lit_{k}() -> (r: &'static str)\n    ensures r@ == {text}@, r@ == {},\n{e}{{\n    proof {{ reveal_strlit({text}); assert({text}@ =~= {}); {f} }}\n    {text}\n}}\n", seq(&chars), seq(&chars));
    }
    let mut o = format!("/// A literal of the code.\nfn lit_{k}() -> (r: &'static str)\n    ensures r@ == {text}@, r@ == {},\n", seq(&chars));
    let mut pf = format!("reveal_strlit({text}); assert({text}@ =~= {});\n", seq(&chars));
    if !plain {
        let mut y = "Seq::<Sym>::empty()".to_string();
        let mut open = true;
        pf.push_str("        lemma_nothing();\n");
        for (n, (a, b, lm, s, op)) in pieces.iter().enumerate() {
            pf.push_str(&format!("        {lm}\n"));
            if n > 0 {
                pf.push_str(&format!("        lemma_append({}, {}); assert({} + {} =~= {});\n", seq(&chars[..*a]), seq(&chars[*a..*b]), seq(&chars[..*a]), seq(&chars[*a..*b]), seq(&chars[..*b])));
            }
            if !s.is_empty() {
                y = format!("{y}.push({s})");
            }
            pf.push_str(&format!("        assert(toks({}) =~= {y});\n", seq(&chars[..*b])));
            open = *op;
        }
        o.push_str(&format!("        good(r@), toks(r@) == {y}, {}{}\n", if open { "open(r@), " } else { "" }, if pieces.first().map_or(true, |p| p.3 != "Sym::Punct(\"...\"@)" && p.4) { "fits(r@)," } else { "" }));
    }
    o.push_str(&format!("{{\n    proof {{ {pf}    }}\n    {text}\n}}\n"));
    o
}

fn run(template: &str, repo: &str, outp: &str) -> R<()> {
    let src = Source::load(repo, FILES)?;
    let mut tl = vec![];
    include(template, &mut tl)?;
    let tl = defs(tl)?;
    let tl = opaque_rules(takes(tl)?);
    let mut cfg = Config::default();
    let mut file = String::new();
    let mut out: Vec<String> = vec![];
    let mut maps: Vec<FnMap> = vec![];
    let mut dropped: Vec<String> = vec![];
    let mut inlined: Vec<String> = vec![];
    let mut lits_plain = false;
    let mut lits_at: Option<usize> = None;
    let mut i = 0;
    let bad = |l: &str| format!("template: {}", l);
    let rule = |r: &str| -> R<(String, String)> {
        let k = r.find("=>").ok_or_else(|| bad(r))?;
        Ok((r[..k].trim().to_string(), r[k + 2..].trim().to_string()))
    };
    while i < tl.len() {
        let l = tl[i].clone();
        let t = l.trim();
        i += 1;
        let d = match t.strip_prefix("//@") {
            Some(d) => d,
            None => {
                out.push(l);
                continue;
            }
        };
        let (cmd, rest) = match d.find(' ') {
            Some(k) => (&d[..k], d[k + 1..].trim()),
            None => (d, ""),
        };
        match cmd {
            "file" => file = rest.into(),
            "method" => {
                let (k, v) = rule(rest)?;
                cfg.methods.insert(k, v);
            }
            "call" => {
                let (k, v) = rule(rest)?;
                cfg.calls.insert(k, v);
            }
            "path" => {
                let (k, v) = rule(rest)?;
                cfg.paths.insert(k, v);
            }
            "closurerule" => {
                let (k, v) = rule(rest)?;
                cfg.closures.insert(k, v);
            }
            "macro" => {
                let (k, v) = rule(rest)?;
                cfg.macros.insert(k.replace("\\n", "\n"), v);
            }
            "known" => {
                for k in rest.split_whitespace() {
                    cfg.known.insert(k.into());
                }
            }
            "seqs" => cfg.seqs = rest != "off",
            "drop_use" => cfg.drop_use = rest != "off",
            "fn" => {
                let (file, path) = match rest.split_once(' ') {
                    Some((f, p)) => (f.to_string(), p.trim().to_string()),
                    None => (file.clone(), rest.to_string()),
                };
                let mut sp = FnSpec::default();
                let mut cur = String::new();
                loop {
                    let l = tl.get(i).ok_or_else(|| bad("unterminated //@fn"))?.clone();
                    i += 1;
                    let t = l.trim();
                    if let Some(d) = t.strip_prefix("//@") {
                        if d == "end" {
                            break;
                        }
                        if let Some(s) = d.strip_prefix("sig ") {
                            sp.sig = s.to_string();
                            cur.clear();
                        } else if let Some(m) = d.strip_prefix("many ") {
                            let (n, t) = m.trim().split_once(' ').ok_or_else(|| bad(&l))?;
                            let (t, f) = t.split_once(" : ").ok_or_else(|| bad(&l))?;
                            sp.manys.insert(n.parse().map_err(|_| bad(&l))?, (t.trim().into(), f.trim().into()));
                        } else {
                            cur = d.to_string();
                        }
                        continue;
                    }
                    let (h, n) = match cur.split_once(' ') {
                        Some((h, n)) => (h.to_string(), n.trim().to_string()),
                        None => (cur.clone(), String::new()),
                    };
                    let num = || n.parse::<usize>().map_err(|_| bad(&cur));
                    let slot = match h.as_str() {
                        "spec" => &mut sp.spec,
                        "pre" => &mut sp.pre,
                        "attrs" => &mut sp.attrs,
                        "loop" => sp.loops.entry(num()?).or_default(),
                        "loopstart" => sp.loopstart.entry(num()?).or_default(),
                        "loopend" => sp.loopend.entry(num()?).or_default(),
                        "afterloop" => sp.afterloop.entry(num()?).or_default(),
                        "closure" => sp.closures.entry(num()?).or_default(),
                        "aftercall" => sp.aftercall.entry(n.clone()).or_default(),
                        _ => return Err(bad(&format!("section {:?} at {}", cur, l))),
                    };
                    slot.push_str(&l);
                    slot.push('\n');
                }
                let f = src.get(&file, &path)?;
                let mut e = Emit::new(&cfg, &src, &sp, &file);
                let text = e.func(f).map_err(|x| format!("{} {}: {}", file, path, x))?;
                dropped.extend(e.dropped.iter().map(|d| format!("{}: {}", path, d)));
                inlined.extend(e.inlined.iter().map(|d| format!("{} into {}", d, path)));
                let first = out.len() + 1;
                out.extend(text.lines().map(|l| l.to_string()));
                maps.push(FnMap { name: path.clone(), from: Some(format!("{} {}", file, path)), first, last: out.len() });
            }
            "type" => {
                // a type definition without attributes and comments
                let (file, name) = match rest.split_once(' ') {
                    Some((f, p)) => (f.to_string(), p.trim().to_string()),
                    None => (file.clone(), rest.to_string()),
                };
                let it = src.types.get(&(file.clone(), name.clone())).ok_or_else(|| format!("lost anchor: no type {} in {}", name, file))?;
                out.push(source::plain_type(it)?);
            }
            "literals" => {
                cfg.literals = true;
                lits_plain = rest.trim() == "plain";
                lits_at = Some(out.len());
            }
            "grammar" => cfg.grammar = rest != "off",
            "gcontract" => cfg.height = rest == "height",
            "parsers" => {
                for k in rest.split_whitespace() {
                    cfg.parsers.insert(k.into());
                }
            }
            "ast" => {
                // a type of the document, for one text type: names and strings are Str, collections ghost
                let w: Vec<&str> = rest.split_whitespace().collect();
                let (file, name, new) = match w.as_slice() {
                    [f, n] => (*f, *n, *n),
                    [f, n, "as", m] => (*f, *n, *m),
                    _ => return Err(bad(&l)),
                };
                let it = src.types.get(&(file.to_string(), name.to_string())).ok_or_else(|| format!("lost anchor: no type {} in {}", name, file))?;
                out.push(source::mono_type(it, new)?);
            }
            "gfn" => {
                // FILE FN -> TYPE = SPEC @ RANK
                let (head, ty) = rest.split_once("->").ok_or_else(|| bad(&l))?;
                let (ty, sp_) = ty.split_once(" = ").ok_or_else(|| bad(&l))?;
                let (sp_, rank) = sp_.split_once(" @ ").ok_or_else(|| bad(&l))?;
                let (file, path) = head.trim().split_once(' ').ok_or_else(|| bad(&l))?;
                let (path, ty) = (path.trim().to_string(), ty.trim());
                let mut sp = FnSpec::default();
                sp.sig = format!("fn {}(input: &mut TokenStream) -> (r: R<{}>)", path, ty);
                sp.attrs = "#[verifier::loop_isolation(false)]\n".into();
                sp.pre = "    let ghost whole = input.src(); let ghost s = whole.g; let ghost k = input.k();\n".into();
                let mut extra = String::new();
                let mut hidden = vec![];
                let mut shown = std::collections::BTreeSet::new();
                shown.insert(rule_of(sp_));
                loop {
                    let l = tl.get(i).ok_or_else(|| bad("unterminated //@gfn"))?.clone();
                    i += 1;
                    match l.trim().strip_prefix("//@") {
                        Some("end") => break,
                        Some(d) if d.starts_with("many ") => {
                            let (n, t) = d[5..].trim().split_once(' ').ok_or_else(|| bad(&l))?;
                            let (t, f) = t.split_once(" : ").ok_or_else(|| bad(&l))?;
                            shown.insert(rule_of(f));
                            sp.manys.insert(n.parse().map_err(|_| bad(&l))?, (t.trim().into(), f.trim().into()));
                        }
                        Some(d) if d.starts_with("loop ") => {
                            let n: usize = d[5..].trim().parse().map_err(|_| bad(&l))?;
                            let mut t = String::new();
                            while !tl[i].trim().starts_with("//@") {
                                t.push_str(&tl[i]);
                                t.push('\n');
                                i += 1;
                            }
                            sp.loops.insert(n, t);
                        }
                        Some("pre") => {
                            while !tl[i].trim().starts_with("//@") {
                                sp.pre.push_str(&tl[i]);
                                sp.pre.push('\n');
                                i += 1;
                            }
                        }
                        Some("attrs") => {
                            while !tl[i].trim().starts_with("//@") {
                                sp.attrs.push_str(&tl[i]);
                                sp.attrs.push('\n');
                                i += 1;
                            }
                        }
                        Some(d) if d.starts_with("reveal ") => shown.extend(d[7..].split_whitespace().map(|x| x.to_string())),
                        Some(d) if d.starts_with("hide ") => hidden.extend(d[5..].split_whitespace().map(|x| x.to_string())),
                        Some("eats") => extra.push_str("        r is Ok ==> old(input).k() < final(input).k(),\n"),
                        _ => return Err(bad(&l)),
                    }
                }
                if cfg.height {
                    // the calls of parsers by parsers: how deep they go
                    shown.clear();
                    hidden.clear();
                    sp.pre = format!("    broadcast use levels::group_levels;\n{}", sp.pre);
                }
                for r in &shown {
                    sp.pre = format!("    reveal({});\n{}", r, sp.pre);
                }
                for r in &hidden {
                    sp.hides.push_str(&format!("    hide({});\n", r));
                }
                sp.spec = format!(
                    "    requires old(input).ok(),\n    ensures\n        ({{ let s = old(input).src().g; let k = old(input).k(); answers(r, *old(input), *final(input), {}) }}),\n{}    decreases old(input).left(), {}int,\n",
                    sp_.trim(), extra, rank.trim()
                );
                if cfg.height {
                    sp.spec = format!(
                        "    requires old(input).ok(), bounded_at(*old(input)),\n    ensures\n        balanced(r, *old(input), *final(input)),\n{}    decreases room(*old(input)) * 40 + {}int,\n",
                        extra, rank.trim()
                    );
                }
                let f = src.get(file, &path)?;
                let mut e = Emit::new(&cfg, &src, &sp, file);
                let text = e.func(f).map_err(|x| format!("{} {}: {}", file, path, x))?;
                dropped.extend(e.dropped.iter().map(|d| format!("{}: {}", path, d)));
                inlined.extend(e.inlined.iter().map(|d| format!("{} into {}", d, path)));
                let first = out.len() + 1;
                out.extend(text.lines().map(|l| l.to_string()));
                maps.push(FnMap { name: path.clone(), from: Some(format!("{} {}", file, path)), first, last: out.len() });
            }
            _ => return Err(bad(&l)),
        }
    }
    if let Some(at) = lits_at {
        let mut v = vec![];
        for (k, l) in cfg.lits.borrow().iter().enumerate() {
            v.extend(literal(k, l, lits_plain).lines().map(|x| x.to_string()));
        }
        for m in maps.iter_mut() {
            if m.first > at {
                m.first += v.len();
                m.last += v.len();
            }
        }
        let tail = out.split_off(at);
        out.extend(v);
        out.extend(tail);
    }
    // the template's own functions, for the line map
    let mut k = 0;
    let re = |l: &str| -> Option<String> {
        let t = l.trim_start();
        let j = t.find("fn ")?;
        if !t[..j].split_whitespace().all(|w| ["pub", "proof", "spec", "exec", "open", "closed", "broadcast", "axiom", "uninterp", "open(crate)"].contains(&w)) {
            return None;
        }
        Some(t[j + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect())
    };
    while k < out.len() {
        if let Some(n) = re(&out[k]) {
            let first = k + 1;
            let mut m = k + 1;
            while m < out.len() && re(&out[m]).is_none() {
                m += 1;
            }
            if !maps.iter().any(|x| x.from.is_some() && x.first <= first && first <= x.last) {
                maps.push(FnMap { name: n, from: None, first, last: m });
            }
            k = m;
        } else {
            k += 1;
        }
    }
    let mut j = String::from("{\"functions\": [");
    for (q, m) in maps.iter().enumerate() {
        j.push_str(&format!(
            "{}\n{{\"name\": {}, \"from\": {}, \"first\": {}, \"last\": {}}}",
            if q > 0 { "," } else { "" },
            jstr(&m.name),
            m.from.as_ref().map_or("null".to_string(), |x| jstr(x)),
            m.first,
            m.last
        ));
    }
    dropped.extend(inlined.iter().map(|x| format!("inlined: {}", x)));
    dropped.sort();
    dropped.dedup();
    j.push_str(&format!("],\n\"dropped\": [{}]}}\n", dropped.iter().map(|d| jstr(d)).collect::<Vec<_>>().join(", ")));
    std::fs::write(outp, out.join("\n") + "\n").map_err(|e| e.to_string())?;
    std::fs::write(format!("{}.map.json", outp), j).map_err(|e| e.to_string())?;
    let _: BTreeMap<(), ()> = BTreeMap::new();
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 4 {
        eprintln!("vx TEMPLATE REPO OUT");
        std::process::exit(3);
    }
    if let Err(e) = run(&a[1], &a[2], &a[3]) {
        eprintln!("{}", e);
        std::process::exit(2);
    }
}
