//! Expansion of the crate's own macro_rules (idents, token trees, literals, lifetimes and simple types; repetitions).
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::BTreeMap;

enum M {
    Tok(String),
    Var(String, String),
    Rep(Vec<M>, Option<String>, char),
    Group(Delimiter, Vec<M>),
}
#[derive(Clone)]
enum B {
    One(TokenStream),
    Many(Vec<BTreeMap<String, B>>),
}
type Binds = BTreeMap<String, B>;
pub struct Rules(Vec<(Vec<M>, TokenStream)>);

fn punct(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}
/// After `$( … )`: the separator, the operator and where it ends.
fn tail(v: &[TokenTree], mut i: usize) -> Option<(Option<String>, char, usize)> {
    let op = |t: &TokenTree| match t {
        TokenTree::Punct(p) if "*+?".contains(p.as_char()) => Some(p.as_char()),
        _ => None,
    };
    let mut sep = None;
    if op(v.get(i)?).is_none() {
        sep = Some(v[i].to_string());
        i += 1;
    }
    Some((sep, op(v.get(i)?)?, i + 1))
}
fn matcher(s: TokenStream) -> Option<Vec<M>> {
    let v: Vec<TokenTree> = s.into_iter().collect();
    let mut o = vec![];
    let mut i = 0;
    while i < v.len() {
        if punct(v.get(i), '$') {
            match v.get(i + 1)? {
                TokenTree::Group(g) => {
                    let (sep, op, j) = tail(&v, i + 2)?;
                    o.push(M::Rep(matcher(g.stream())?, sep, op));
                    i = j;
                }
                TokenTree::Ident(n) => {
                    if !punct(v.get(i + 2), ':') {
                        return None;
                    }
                    o.push(M::Var(n.to_string(), v.get(i + 3)?.to_string()));
                    i += 4;
                }
                _ => return None,
            }
        } else {
            match &v[i] {
                TokenTree::Group(g) => o.push(M::Group(g.delimiter(), matcher(g.stream())?)),
                t => o.push(M::Tok(t.to_string())),
            }
            i += 1;
        }
    }
    Some(o)
}
fn fragment(kind: &str, v: &[TokenTree], i: usize) -> Option<usize> {
    match (kind, v.get(i)?) {
        ("ident", TokenTree::Ident(_)) | ("tt", _) | ("literal", TokenTree::Literal(_)) => Some(i + 1),
        ("lifetime", t) if punct(Some(t), '\'') => Some(i + 2),
        ("ty", TokenTree::Ident(_)) | ("path", TokenTree::Ident(_)) => {
            let mut j = i + 1;
            loop {
                if punct(v.get(j), ':') && punct(v.get(j + 1), ':') && matches!(v.get(j + 2), Some(TokenTree::Ident(_))) {
                    j += 3;
                } else if punct(v.get(j), '<') {
                    let mut depth = 0;
                    loop {
                        if punct(v.get(j), '<') {
                            depth += 1;
                        } else if punct(v.get(j), '>') {
                            depth -= 1;
                        }
                        v.get(j)?;
                        j += 1;
                        if depth == 0 {
                            break;
                        }
                    }
                } else {
                    return Some(j);
                }
            }
        }
        _ => None,
    }
}
fn matched(ms: &[M], v: &[TokenTree], mut i: usize, b: &mut Binds) -> Option<usize> {
    for m in ms {
        match m {
            M::Tok(s) => {
                if v.get(i)?.to_string() != *s {
                    return None;
                }
                i += 1;
            }
            M::Var(n, k) => {
                let j = fragment(k, v, i)?;
                b.insert(n.clone(), B::One(v[i..j].iter().cloned().collect()));
                i = j;
            }
            M::Group(d, inner) => match v.get(i)? {
                TokenTree::Group(g) if g.delimiter() == *d => {
                    let w: Vec<TokenTree> = g.stream().into_iter().collect();
                    if matched(inner, &w, 0, b)? != w.len() {
                        return None;
                    }
                    i += 1;
                }
                _ => return None,
            },
            M::Rep(inner, sep, op) => {
                let mut all = vec![];
                loop {
                    if *op == '?' && all.len() == 1 {
                        break;
                    }
                    let mut j = i;
                    if let (Some(s), false) = (sep, all.is_empty()) {
                        if v.get(j).map(|t| t.to_string()) != Some(s.clone()) {
                            break;
                        }
                        j += 1;
                    }
                    let mut one = Binds::new();
                    match matched(inner, v, j, &mut one) {
                        Some(k) if k > i => {
                            i = k;
                            all.push(one);
                        }
                        _ => break,
                    }
                }
                if *op == '+' && all.is_empty() {
                    return None;
                }
                let mut names = vec![];
                vars(inner, &mut names);
                for n in names {
                    b.insert(n, B::Many(all.clone()));
                }
            }
        }
    }
    Some(i)
}
fn vars(ms: &[M], o: &mut Vec<String>) {
    for m in ms {
        match m {
            M::Var(n, _) => o.push(n.clone()),
            M::Rep(i, _, _) | M::Group(_, i) => vars(i, o),
            M::Tok(_) => {}
        }
    }
}
fn used(s: &TokenStream, b: &Binds) -> Option<String> {
    let v: Vec<TokenTree> = s.clone().into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => {
                if let Some(n) = used(&g.stream(), b) {
                    return Some(n);
                }
            }
            TokenTree::Ident(n) if i > 0 && punct(v.get(i - 1), '$') => {
                if let Some(B::Many(_)) = b.get(&n.to_string()) {
                    return Some(n.to_string());
                }
            }
            _ => {}
        }
    }
    None
}
fn written(s: TokenStream, b: &Binds) -> Option<TokenStream> {
    let v: Vec<TokenTree> = s.into_iter().collect();
    let mut o: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match (&v[i], v.get(i + 1)) {
            (TokenTree::Punct(p), Some(TokenTree::Ident(n))) if p.as_char() == '$' => {
                match b.get(&n.to_string()) {
                    Some(B::One(t)) => o.extend(t.clone()),
                    _ => return None,
                }
                i += 2;
            }
            (TokenTree::Punct(p), Some(TokenTree::Group(g))) if p.as_char() == '$' => {
                let (sep, _, j) = tail(&v, i + 2)?;
                let n = used(&g.stream(), b)?;
                if let Some(B::Many(all)) = b.get(&n) {
                    for (k, one) in all.iter().enumerate() {
                        if let (Some(s), true) = (&sep, k > 0) {
                            o.extend(s.parse::<TokenStream>().ok()?);
                        }
                        let mut c = b.clone();
                        c.extend(one.clone());
                        o.extend(written(g.stream(), &c)?);
                    }
                }
                i = j;
            }
            (TokenTree::Group(g), _) => {
                let mut h = Group::new(g.delimiter(), written(g.stream(), b)?);
                h.set_span(g.span());
                o.push(TokenTree::Group(h));
                i += 1;
            }
            (t, _) => {
                o.push(t.clone());
                i += 1;
            }
        }
    }
    Some(o.into_iter().collect())
}
impl Rules {
    pub fn parse(s: TokenStream) -> Option<Rules> {
        let v: Vec<TokenTree> = s.into_iter().collect();
        let mut o = vec![];
        let mut i = 0;
        while i < v.len() {
            match (&v[i], v.get(i + 3)) {
                (TokenTree::Group(m), Some(TokenTree::Group(t))) if punct(v.get(i + 1), '=') && punct(v.get(i + 2), '>') => {
                    o.push((matcher(m.stream())?, t.stream()));
                    i += 4;
                    if punct(v.get(i), ';') {
                        i += 1;
                    }
                }
                _ => return None,
            }
        }
        Some(Rules(o))
    }
    pub fn expand(&self, s: TokenStream) -> Option<TokenStream> {
        let v: Vec<TokenTree> = s.into_iter().collect();
        for (m, t) in &self.0 {
            let mut b = Binds::new();
            if matched(m, &v, 0, &mut b) == Some(v.len()) {
                return written(t.clone(), &b);
            }
        }
        None
    }
}
