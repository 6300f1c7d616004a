//! Executable functions, printed as Verus. Constructs that the verifier does
//! not take are rewritten by the fixed rules below; anything else is refused.
use crate::source::{Func, Source};
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

pub type R<T> = std::result::Result<T, String>;

#[derive(Default, Clone)]
pub struct Config {
    /// method name, optionally `:char`/`:str`/`:closure` by first argument
    pub methods: BTreeMap<String, String>,
    pub calls: BTreeMap<String, String>,
    pub macros: BTreeMap<String, String>,
    pub paths: BTreeMap<String, String>,
    /// body of a closure over `x` => its head with a contract
    pub closures: BTreeMap<String, String>,
    /// functions under contract in this file: called, never inlined
    pub known: BTreeSet<String>,
    /// `for x in <path>` walks a sequence (else an iterator)
    pub seqs: bool,
    pub drop_use: bool,
    /// parser expressions are replaced by their meaning
    pub grammar: bool,
    /// contracts about how deep parsers call parsers, in place of what they parse
    pub height: bool,
    /// functions that give a parser under contract
    pub parsers: BTreeSet<String>,
    /// string literals become functions whose contract says which tokens they are
    pub literals: bool,
    pub lits: std::cell::RefCell<Vec<String>>,
}

#[derive(Default, Clone)]
pub struct FnSpec {
    pub sig: String,
    pub spec: String,
    pub pre: String,
    pub hides: String,
    pub loops: BTreeMap<usize, String>,
    pub loopstart: BTreeMap<usize, String>,
    pub loopend: BTreeMap<usize, String>,
    pub afterloop: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub post: String,
    pub attrs: String,
    /// proof text after every call of the named method or function
    pub aftercall: BTreeMap<String, String>,
    /// repetition k: type of the collection, and what the repetition gives from $k with $acc
    pub manys: BTreeMap<usize, (String, String)>,
}

pub struct Emit<'a> {
    pub cfg: &'a Config,
    pub src: &'a Source,
    pub spec: &'a FnSpec,
    flag: Option<String>,
    pub file: String,
    nloop: usize,
    nclosure: usize,
    depth: usize,
    pub inline_stack: Vec<String>,
    pub renames: Vec<(String, String)>,
    /// the stream: as a variable, as an argument
    pub pin: (String, String),
    pub psubsts: Vec<(String, Expr)>,
    pub aliases: Vec<(String, String, bool)>,
    pub nmany: usize,
    loops: Vec<Option<String>>,
    pub strlits: BTreeSet<String>,
    pub inlined: BTreeSet<String>,
    pub dropped: BTreeSet<String>,
    pending_after: Option<String>,
    fresh: usize,
}

fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}
fn toks<T: quote::ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn is_noop_expr(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Path(_) => true,
        Expr::Tuple(t) => t.elems.iter().all(is_noop_expr),
        Expr::Paren(p) => is_noop_expr(&p.expr),
        Expr::Reference(p) => is_noop_expr(&p.expr),
        Expr::Field(f) => is_noop_expr(&f.base),
        Expr::Block(b) => b.block.stmts.is_empty(),
        Expr::If(i) => is_noop_expr(&i.cond) && i.then_branch.stmts.is_empty() && i.else_branch.as_ref().map_or(true, |e| is_noop_expr(&e.1)),
        _ => false,
    }
}
pub fn is_noop_stmt(s: &Stmt) -> bool {
    match s {
        Stmt::Expr(e, Some(_)) => is_noop_expr(e),
        Stmt::Expr(Expr::Block(b), None) => b.block.stmts.is_empty(),
        Stmt::Local(l) => {
            let wild = match &l.pat {
                Pat::Wild(_) => true,
                Pat::Ident(i) => i.ident.to_string().starts_with('_'),
                Pat::Type(t) => matches!(&*t.pat, Pat::Wild(_)) || matches!(&*t.pat, Pat::Ident(i) if i.ident.to_string().starts_with('_')),
                _ => false,
            };
            wild && l.init.as_ref().map_or(true, |i| i.diverge.is_none() && is_noop_expr(&i.expr))
        }
        Stmt::Macro(m) => {
            let n = path_str(&m.mac.path);
            n == "debug_assert" || n == "debug_assert_eq" || n == "debug_assert_ne"
        }
        Stmt::Item(Item::Const(_)) => false,
        _ => false,
    }
}
/// Whether a `break` of this very loop carries a value.
fn breaks_with_value(b: &Block) -> bool {
    struct V(bool);
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_expr_break(&mut self, b: &'ast ExprBreak) {
            if b.expr.is_some() {
                self.0 = true;
            }
        }
        fn visit_expr_loop(&mut self, _: &'ast ExprLoop) {}
        fn visit_expr_while(&mut self, _: &'ast ExprWhile) {}
        fn visit_expr_for_loop(&mut self, _: &'ast ExprForLoop) {}
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}
pub fn has_return(b: &Block) -> bool {
    struct V(bool);
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'ast ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

impl<'a> Emit<'a> {
    pub fn new(cfg: &'a Config, src: &'a Source, spec: &'a FnSpec, file: &str) -> Emit<'a> {
        Emit {
            cfg,
            src,
            spec,
            file: file.into(),
            nloop: 0,
            nclosure: 0,
            depth: 1,
            inline_stack: vec![],
            renames: vec![],
            pin: Default::default(),
            psubsts: vec![],
            aliases: vec![],
            nmany: 0,
            loops: vec![],
            strlits: BTreeSet::new(),
            inlined: BTreeSet::new(),
            dropped: BTreeSet::new(),
            pending_after: None,
            flag: None,
            fresh: 0,
        }
    }
    pub fn ind(&self) -> String {
        "    ".repeat(self.depth)
    }
    pub fn fresh(&mut self, p: &str) -> String {
        self.fresh += 1;
        format!("{}_{}", p, self.fresh)
    }

    /// The whole function, with its contract.
    pub fn func(&mut self, f: &Func) -> R<String> {
        // parameter names of the contract, by position
        let spec_sig: Signature = parse_sig(&self.spec.sig)?;
        let names = |s: &Signature| -> Vec<String> {
            s.inputs
                .iter()
                .map(|i| match i {
                    FnArg::Receiver(_) => "self".to_string(),
                    FnArg::Typed(t) => match &*t.pat {
                        Pat::Ident(i) => i.ident.to_string(),
                        _ => "_".into(),
                    },
                })
                .collect()
        };
        let (a, b) = (names(&f.sig), names(&spec_sig));
        if a.len() != b.len() {
            return Err(format!("{}: the signature changed ({} parameters, the contract has {})", f.path, a.len(), b.len()));
        }
        for (x, y) in a.iter().zip(&b) {
            if x != y {
                self.renames.push((x.clone(), y.clone()));
            }
        }
        let text = quote::ToTokens::to_token_stream(&f.block).to_string();
        self.flag = text.split("let mut ").skip(1).filter_map(|t| t.split_once(" = true ;")).map(|t| t.0).find(|n| n.chars().all(|c| c.is_alphanumeric() || c == '_')).map(|n| n.to_string());
        let body = self.block_body(&f.block, true)?;
        for k in self.spec.loops.keys() {
            if *k >= self.nloop {
                return Err(format!("{}: the contract has an invariant for loop {}, the code has {} loops", f.path, k, self.nloop));
            }
        }
        if self.spec.manys.len() != self.nmany {
            return Err(format!("{}: the code has {} repetitions, the contract {}", f.path, self.nmany, self.spec.manys.len()));
        }
        if self.nloop > 0 && self.spec.loops.len() < self.nloop {
            return Err(format!("{}: the code has {} loops, the contract has invariants for {}", f.path, self.nloop, self.spec.loops.len()));
        }
        let mut o = String::new();
        o.push_str(&self.spec.attrs);
        o.push_str(&format!("{}\n{}{{\n", self.spec.sig.trim_end(), self.spec.spec));
        o.push_str(&self.spec.hides);
        for l in &self.strlits {
            o.push_str(&format!("    proof {{ reveal_strlit({}); }}\n", l));
        }
        o.push_str(&self.spec.pre);
        o.push_str(&body);
        o.push_str("}\n");
        Ok(o)
    }

    pub fn block(&mut self, b: &Block, tail: bool) -> R<String> {
        self.depth += 1;
        let s = self.block_body(b, tail);
        self.depth -= 1;
        Ok(format!("{{\n{}{}}}", s?, self.ind()))
    }
    /// What a `use` in a function brings into scope: the crate's enums and their variants, by name.
    fn use_tree(&mut self, t: &UseTree, at: &mut Vec<String>) -> R<()> {
        let full = |at: &[String], n: &str| {
            let owner = at.last().filter(|o| o.chars().next().map_or(false, |c| c.is_uppercase()));
            match owner {
                Some(o) => format!("{}::{}", o, n),
                None => n.to_string(),
            }
        };
        match t {
            UseTree::Path(p) => {
                at.push(p.ident.to_string());
                self.use_tree(&p.tree, at)?;
                at.pop();
            }
            UseTree::Name(n) => {
                let n = n.ident.to_string();
                let f = full(at, &n);
                self.aliases.push((n, f, false));
            }
            UseTree::Rename(n) => {
                let f = full(at, &n.ident.to_string());
                self.aliases.push((n.rename.to_string(), f, false));
            }
            UseTree::Group(g) => {
                for x in &g.items {
                    self.use_tree(x, at)?;
                }
            }
            UseTree::Glob(_) => {
                let e = at.last().cloned().unwrap_or_default();
                if e.chars().next().map_or(false, |c| c.is_uppercase()) {
                    let dir = self.file.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default();
                    let vs: Vec<String> = self
                        .src
                        .types
                        .iter()
                        .filter(|((f, n), _)| *n == e && (f.starts_with(&dir) || f == "src/common.rs"))
                        .flat_map(|(_, it)| match it {
                            Item::Enum(x) => x.variants.iter().map(|v| v.ident.to_string()).collect(),
                            _ => vec![],
                        })
                        .collect();
                    if vs.is_empty() {
                        return Err(format!("use of {}::*", e));
                    }
                    for v in vs {
                        self.aliases.push((v.clone(), format!("{}::{}", e, v), true));
                    }
                }
            }
        }
        Ok(())
    }
    fn block_body(&mut self, b: &Block, tail: bool) -> R<String> {
        let (n, m) = (self.aliases.len(), self.psubsts.len());
        let r = self.block_stmts(b, tail);
        self.aliases.truncate(n);
        self.psubsts.truncate(m);
        r
    }
    fn block_stmts(&mut self, b: &Block, tail: bool) -> R<String> {
        let mut o = String::new();
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            if is_noop_stmt(s) {
                self.dropped.insert("statements without effect (incl. debug_assert!)".into());
                continue;
            }
            match s {
                Stmt::Local(l) if self.cfg.grammar && l.init.as_ref().map_or(false, |i| self.is_parser(&i.expr)) => match &l.pat {
                    Pat::Ident(n) => {
                        let e = (*l.init.as_ref().unwrap().expr).clone();
                        self.psubsts.push((n.ident.to_string(), e));
                    }
                    _ => return Err("a parser bound to a pattern".into()),
                },
                Stmt::Local(l) => {
                    let t = self.local(l)?;
                    o.push_str(&t);
                }
                Stmt::Item(Item::Use(u)) => {
                    if self.cfg.grammar {
                        let mut v = vec![];
                        self.use_tree(&u.tree, &mut v)?;
                    } else if !self.cfg.drop_use {
                        o.push_str(&format!("{}{}\n", self.ind(), toks(u).replace("self ::", "")));
                    }
                }
                Stmt::Item(Item::Const(c)) => {
                    let e = self.expr(&c.expr)?;
                    o.push_str(&format!("{}let {} = {};\n", self.ind(), c.ident, e));
                }
                Stmt::Item(_) => return Err("item inside a function".into()),
                Stmt::Macro(m) => {
                    let e = self.macro_(&m.mac)?;
                    let semi = if i + 1 == n && tail && m.semi_token.is_none() { "" } else { ";" };
                    o.push_str(&format!("{}{}{}\n", self.ind(), e, semi));
                }
                Stmt::Expr(e, semi) => {
                    let last = i + 1 == n && semi.is_none();
                    let t = self.expr(e)?;
                    o.push_str(&format!("{}{}{}\n", self.ind(), t, if last { "" } else { ";" }));
                }
            }
            if let Some(p) = self.pending_after.take() {
                o.push_str(&p);
            }
        }
        Ok(o)
    }

    fn local(&mut self, l: &Local) -> R<String> {
        let (pat, ty) = match &l.pat {
            Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
            p => (p.clone(), None),
        };
        let p = self.pat(&pat)?;
        let tys = match ty {
            Some(t) => format!(": {}", toks(&t)),
            None => String::new(),
        };
        let init = match &l.init {
            None => return Ok(format!("{}let {}{};\n", self.ind(), p, tys)),
            Some(i) => {
                if i.diverge.is_some() {
                    return Err("let-else".into());
                }
                (*i.expr).clone()
            }
        };
        if let Expr::Loop(lp) = &init {
            if breaks_with_value(&lp.body) {
                let v = self.fresh("val");
                let lp = self.loop_(lp, Some(v.clone()))?;
                return Ok(format!("{0}let {4}{2};\n{0}{3};\n{0}let {1} = {4};\n", self.ind(), p, tys, lp, v));
            }
        }
        let e = self.expr(&init)?;
        Ok(format!("{}let {}{} = {};\n", self.ind(), p, tys, e))
    }

    fn loop_head(&mut self) -> usize {
        let k = self.nloop;
        self.nloop += 1;
        k
    }
    fn sub(&self, t: &str, it: &str, s: &str, i: &str) -> String {
        let t = t.replace("$it", it).replace("$s", s).replace("$i", i);
        // `?flag{ .. $b .. }`: only if the function has a flag that starts as true
        let mut o = String::new();
        let mut rest = &t[..];
        while let Some(k) = rest.find("?flag{") {
            o.push_str(&rest[..k]);
            let end = rest[k..].find('}').map(|e| k + e).unwrap_or(rest.len() - 1);
            if let Some(f) = &self.flag {
                o.push_str(&rest[k + 6..end].replace("$b", f));
            }
            rest = &rest[end + 1..];
        }
        o.push_str(rest);
        o
    }
    fn loop_text(&self, k: usize, it: &str, s: &str, i: &str) -> (String, String, String, String) {
        let g = |m: &BTreeMap<usize, String>| m.get(&k).map(|t| self.sub(t, it, s, i)).unwrap_or_default();
        (g(&self.spec.loops), g(&self.spec.loopstart), g(&self.spec.loopend), g(&self.spec.afterloop))
    }

    fn loop_(&mut self, l: &ExprLoop, target: Option<String>) -> R<String> {
        if l.label.is_some() {
            return Err("labelled loop".into());
        }
        let k = self.loop_head();
        let (sp, st, en, af) = self.loop_text(k, "", "", "");
        let tn = target.clone().unwrap_or_default();
        let (sp, st, en, af) = (sp.replace("$t", &tn), st.replace("$t", &tn), en.replace("$t", &tn), af.replace("$t", &tn));
        self.loops.push(target);
        self.depth += 1;
        let b = self.block_body(&l.body, false)?;
        self.depth -= 1;
        self.loops.pop();
        Ok(format!("loop\n{}{}{{\n{}{}{}{}}}\n{}", sp, self.ind(), st, b, en, self.ind(), af))
    }
    fn while_(&mut self, l: &ExprWhile) -> R<String> {
        if l.label.is_some() {
            return Err("labelled loop".into());
        }
        let k = self.loop_head();
        let (sp, st, en, af) = self.loop_text(k, "", "", "");
        self.loops.push(None);
        let r = if let Expr::Let(x) = &*l.cond {
            let e = self.expr(&x.expr)?;
            let p = self.pat(&x.pat)?;
            self.depth += 2;
            let b = self.block_body(&l.body, false)?;
            self.depth -= 2;
            format!(
                "loop\n{sp}{i}{{\n{st}{i}    match {e} {{\n{i}        {p} => {{\n{b}{i}        }}\n{i}        _ => {{ break; }}\n{i}    }}\n{en}{i}}}\n{af}",
                i = self.ind()
            )
        } else {
            let c = self.expr(&l.cond)?;
            self.depth += 1;
            let b = self.block_body(&l.body, false)?;
            self.depth -= 1;
            format!("while {c}\n{sp}{i}{{\n{st}{b}{en}{i}}}\n{af}", i = self.ind())
        };
        self.loops.pop();
        Ok(r)
    }
    fn for_(&mut self, l: &ExprForLoop) -> R<String> {
        if l.label.is_some() {
            return Err("labelled loop".into());
        }
        let i = self.ind();
        // a range
        let mut e: &Expr = &l.expr;
        while let Expr::Paren(p) = e {
            e = &p.expr;
        }
        if let Expr::Range(r) = e {
            let (a, b) = match (&r.start, &r.end) {
                (Some(a), Some(b)) => (self.expr(a)?, self.expr(b)?),
                _ => return Err("open range in for".into()),
            };
            if matches!(r.limits, RangeLimits::Closed(_)) {
                return Err("closed range in for".into());
            }
            let n = self.fresh("i");
            let hi = self.fresh("hi");
            let k = self.loop_head();
            let (sp, st, en, af) = self.loop_text(k, "", &hi, &n);
            let p = self.pat(&l.pat)?;
            self.loops.push(None);
            self.depth += 1;
            let body = self.block_body(&l.body, false)?;
            self.depth -= 1;
            self.loops.pop();
            let bind = if p == "_" { String::new() } else { format!("{i}    let {p} = {n};\n") };
            return Ok(format!(
                "{{ let mut {n} = {a}; let {hi} = {b};\n{i}while {n} < {hi}\n{sp}{i}{{\n{bind}{i}    {n} = {n} + 1;\n{st}{body}{en}{i}}}\n{af}{i}}}"
            ));
        }
        let mut base: &Expr = e;
        let mut by_iter = false;
        if let Expr::MethodCall(m) = base {
            if m.method == "iter" && m.args.is_empty() {
                base = &m.receiver;
                by_iter = true;
            }
        }
        while let Expr::Reference(r) = base {
            base = &r.expr;
        }
        if self.cfg.grammar {
            // a collection: by value, or its items by reference
            let by_ref = by_iter || matches!(e, Expr::Reference(_));
            let base = match base {
                Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => &*m.receiver,
                b => b,
            };
            if !matches!(base, Expr::Path(_) | Expr::Field(_)) {
                return Err("iterator in for".into());
            }
            let (s, n) = (self.fresh("seq"), self.fresh("k"));
            let x = self.expr(base)?;
            let k = self.loop_head();
            let (sp, st, en, af) = self.loop_text(k, "", &s, &n);
            let p = self.pat(&l.pat)?;
            self.loops.push(None);
            self.depth += 1;
            let body = self.block_body(&l.body, false)?;
            self.depth -= 1;
            self.loops.pop();
            let take = if by_ref { "seq_get" } else { "seq_take" };
            return Ok(format!(
                "{{ let {s} = {x}; let mut {n}: usize = 0;\n{i}while {n} < seq_len(&{s})\n{sp}{i}{{\n{i}    let {p} = {take}(&{s}, {n});\n{i}    {n} = {n} + 1;\n{st}{body}{en}{i}}}\n{af}{i}}}"
            ));
        }
        // with the index
        let mut counted = false;
        let mut seq_e: &Expr = e_strip_iter(e);
        if let (true, Expr::MethodCall(m)) = (self.cfg.seqs, e) {
            if m.method == "enumerate" && m.args.is_empty() {
                counted = true;
                seq_e = e_strip_iter(&m.receiver);
            }
        }
        let is_seq = self.cfg.seqs && (counted || by_iter || matches!(base, Expr::Path(_) | Expr::Field(_) | Expr::Index(_)));
        if is_seq {
            let s = self.fresh("seq");
            let n = self.fresh("k");
            let x = self.expr(seq_e)?;
            let x = if matches!(seq_e, Expr::Field(_)) { format!("&{x}") } else { x };
            let k = self.loop_head();
            let (sp, st, en, af) = self.loop_text(k, "", &s, &n);
            let bind = match &*l.pat {
                Pat::Tuple(t) if counted && t.elems.len() == 2 => {
                    let (a, b) = (self.pat(&t.elems[0])?, self.pat(&t.elems[1])?);
                    format!("{i}    let {a} = {n};\n{i}    let {b} = seq_get({s}, {n});\n")
                }
                _ if counted => return Err("enumerate without a pair".into()),
                Pat::Tuple(t) => {
                    let el = self.fresh("el");
                    let mut o = format!("{i}    let {el} = seq_get({s}, {n});\n");
                    for (q, p) in t.elems.iter().enumerate() {
                        let p = self.pat(p)?;
                        o.push_str(&format!("{i}    let {p} = &{el}.{q};\n"));
                    }
                    o
                }
                p => {
                    let p = self.pat(p)?;
                    format!("{i}    let {p} = seq_get({s}, {n});\n")
                }
            };
            self.loops.push(None);
            self.depth += 1;
            let body = self.block_body(&l.body, false)?;
            self.depth -= 1;
            self.loops.pop();
            // what the loop puts into a collection
            let c = body.split("Coll::put(&mut ").nth(1).and_then(|r| r.split(',').next()).unwrap_or("").to_string();
            let (sp, st, en, af) = (sp.replace("$c", &c), st.replace("$c", &c), en.replace("$c", &c), af.replace("$c", &c));
            return Ok(format!(
                "{{ let {s} = seq_ref({x}); let mut {n}: usize = 0;\n{i}while {n} < seq_len({s})\n{sp}{i}{{\n{bind}{i}    {n} = {n} + 1;\n{st}{body}{en}{i}}}\n{af}{i}}}"
            ));
        }
        // an iterator
        let mut owned = true;
        let mut it_expr: &Expr = e;
        if let Expr::MethodCall(m) = e {
            if m.method == "by_ref" {
                owned = false;
                it_expr = &m.receiver;
            }
        }
        let x = self.expr(it_expr)?;
        let it = if owned { self.fresh("it") } else { x.clone() };
        let k = self.loop_head();
        let (sp, st, en, af) = self.loop_text(k, &it, "", "");
        let p = self.pat(&l.pat)?;
        self.loops.push(None);
        self.depth += 2;
        let body = self.block_body(&l.body, false)?;
        self.depth -= 2;
        self.loops.pop();
        let pre = if owned { format!("let mut {it} = {x};\n{i}") } else { String::new() };
        Ok(format!(
            "{{ {pre}loop\n{sp}{i}{{\n{st}{i}    match {it}.next() {{\n{i}        Some({p}) => {{\n{body}{i}        }}\n{i}        None => {{ break; }}\n{i}    }}\n{en}{i}}}\n{af}{i}}}"
        ))
    }

    pub fn pat(&mut self, p: &Pat) -> R<String> {
        Ok(match p {
            Pat::Ident(i) => {
                let mut s = String::new();
                if i.by_ref.is_some() {
                    s.push_str("ref ");
                }
                if i.mutability.is_some() {
                    s.push_str("mut ");
                }
                s.push_str(&self.ident(&i.ident.to_string()));
                if let Some((_, sub)) = &i.subpat {
                    s.push_str(&format!(" @ {}", self.pat(sub)?));
                }
                s
            }
            Pat::Wild(_) => "_".into(),
            Pat::Lit(l) => self.lit(&l.lit)?,
            Pat::Range(r) => {
                let f = |e: &Option<Box<Expr>>| -> R<String> {
                    match e.as_deref() {
                        Some(Expr::Lit(l)) => Ok(toks(&l.lit)),
                        None => Ok(String::new()),
                        _ => Err("range pattern".into()),
                    }
                };
                format!("{}..={}", f(&r.start)?, f(&r.end)?)
            }
            Pat::Or(o) => {
                let v: R<Vec<String>> = o.cases.iter().map(|c| self.pat(c)).collect();
                v?.join(" | ")
            }
            Pat::Paren(x) => format!("({})", self.pat(&x.pat)?),
            Pat::Tuple(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|c| self.pat(c)).collect();
                format!("({})", v?.join(", "))
            }
            Pat::Path(x) => self.path(&x.path),
            Pat::TupleStruct(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|c| self.pat(c)).collect();
                format!("{}({})", self.path(&t.path), v?.join(", "))
            }
            Pat::Struct(t) => {
                let mut v = vec![];
                for f in &t.fields {
                    v.push(format!("{}: {}", toks(&f.member), self.pat(&f.pat)?));
                }
                if t.rest.is_some() {
                    v.push("..".into());
                }
                format!("{} {{ {} }}", self.path(&t.path), v.join(", "))
            }
            Pat::Reference(r) => format!("&{}", self.pat(&r.pat)?),
            Pat::Type(t) => self.pat(&t.pat)?,
            Pat::Rest(_) => "..".into(),
            p => return Err(format!("pattern {}", toks(p))),
        })
    }
    fn ident(&self, i: &str) -> String {
        for (a, b) in self.renames.iter().rev() {
            if a == i {
                return b.clone();
            }
        }
        // names that mean something to the verifier
        if ["real", "int", "nat", "spec", "proof", "exec", "ghost", "tracked", "invariant", "requires", "ensures", "decreases", "choose", "forall", "exists", "is", "has", "by"].contains(&i) {
            return format!("{}_", i);
        }
        i.to_string()
    }
    pub fn path(&self, p: &Path) -> String {
        let mut s = path_str(p);
        let first = p.segments[0].ident.to_string();
        let one = p.segments.len() == 1;
        let hit = self.aliases.iter().rev().find(|(a, _, glob)| *a == first && !glob).or_else(|| self.aliases.iter().rev().find(|(a, _, glob)| *a == first && *glob && one));
        if let Some((_, f, _)) = hit {
            s = format!("{}{}", f, &s[first.len()..]);
            return self.cfg.paths.get(&s).cloned().unwrap_or(s);
        }
        if let Some(x) = self.cfg.paths.get(&s) {
            return x.clone();
        }
        if one {
            return self.ident(&s);
        }
        if s == "char::MAX" {
            return "'\\u{10FFFF}'".into();
        }
        // a path from the root of the crate: everything is in one module here
        if let Some(mut r) = ["crate::", "self::", "super::"].iter().find_map(|k| s.strip_prefix(k)) {
            const MODULES: [&str; 10] = ["self::", "super::", "position::", "common::", "tokenizer::", "helpers::", "format::", "query::", "schema::", "ast::"];
            while let Some(x) = MODULES.iter().chain(&["grammar::", "minify::", "error::"]).find_map(|k| r.strip_prefix(k)) {
                r = x;
            }
            return self.cfg.paths.get(r).cloned().unwrap_or(r.to_string());
        }
        s
    }
    fn lit(&mut self, l: &Lit) -> R<String> {
        Ok(match l {
            Lit::Str(s) if self.cfg.literals => {
                let v = s.value();
                let mut l = self.cfg.lits.borrow_mut();
                let k = match l.iter().position(|x| *x == v) {
                    Some(k) => k,
                    None => {
                        l.push(v);
                        l.len() - 1
                    }
                };
                format!("lit_{}()", k)
            }
            Lit::Str(s) => {
                let t = format!("{:?}", s.value());
                // Verus wants plain escapes
                let t = t.replace("\\'", "'");
                self.strlits.insert(t.clone());
                t
            }
            Lit::Byte(b) => format!("{}u8", b.value()),
            Lit::ByteStr(_) => return Err("byte string literal".into()),
            l => toks(l),
        })
    }
    fn args(&mut self, a: &punctuated::Punctuated<Expr, Token![,]>) -> R<Vec<String>> {
        a.iter().map(|e| self.expr(e)).collect()
    }

    fn macro_(&mut self, m: &Macro) -> R<String> {
        let n = path_str(&m.path);
        match n.as_str() {
            "unreachable" | "panic" | "unimplemented" | "todo" => return Ok("unreached()".into()),
            "debug_assert" | "debug_assert_eq" | "debug_assert_ne" => {
                self.dropped.insert("debug_assert!".into());
                return Ok("()".into());
            }
            "assert" => return Err("assert! in the code".into()),
            _ => {}
        }
        if n == "matches" {
            let parts: (Expr, Pat, Option<Expr>) = m
                .parse_body_with(|i: parse::ParseStream| {
                    let e: Expr = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) {
                        i.parse::<Token![if]>()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<Option<Token![,]>>();
                    Ok((e, p, g))
                })
                .map_err(|e| e.to_string())?;
            let e = self.expr(&parts.0)?;
            let p = self.pat(&parts.1)?;
            let g = match &parts.2 {
                Some(g) => format!(" if {}", self.expr(g)?),
                None => String::new(),
            };
            return Ok(format!("(match {} {{ {}{} => true, _ => false }})", e, p, g));
        }
        // format-like macros: the literal and the arguments
        let args: punctuated::Punctuated<Expr, Token![,]> =
            m.parse_body_with(punctuated::Punctuated::parse_terminated).map_err(|e| format!("macro {}: {}", n, e))?;
        let v: Vec<&Expr> = args.iter().collect();
        let fmt_at = if n == "write" || n == "writeln" { 1 } else { 0 };
        let lit = match v.get(fmt_at) {
            Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(),
            _ => String::new(),
        };
        // exact form first, then the macro's general rule
        for key in [format!("{}:{}", n, lit), format!("{}:*", n)] {
            if let Some(t) = self.cfg.macros.get(&key) {
                let t = t.clone();
                let mut out = t;
                for (i, a) in v.iter().enumerate() {
                    let slot = format!("{{{}}}", i);
                    if out.contains(&slot) {
                        let x = self.expr(a)?;
                        out = out.replace(&slot, &x);
                    }
                }
                return Ok(out);
            }
        }
        Err(format!("macro {}!({:?})", n, lit))
    }

    fn closure_key(a: &punctuated::Punctuated<Expr, Token![,]>) -> &'static str {
        let mut e = match a.first() {
            Some(e) => e,
            None => return "",
        };
        while let Expr::Reference(r) = e {
            e = &r.expr;
        }
        while let Expr::Paren(r) = e {
            e = &r.expr;
        }
        match e {
            Expr::Lit(ExprLit { lit: Lit::Char(_), .. }) => "char",
            Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => "str",
            Expr::Closure(_) => "closure",
            Expr::Array(_) | Expr::Index(_) => "array",
            _ => "",
        }
    }

    fn method(&mut self, m: &ExprMethodCall) -> R<String> {
        let name = m.method.to_string();
        if self.cfg.grammar && m.args.len() == 1 && !(name == "parse" && m.turbofish.is_some()) && self.is_parser(&m.receiver) {
            match name.as_str() {
                "parse_stream" => return self.parse_stream(&m.receiver, &m.args[0]),
                "parse_lazy" => return self.parse_lazy(&m.receiver, &m.args[0]),
                "parse" => {
                    let st = self.fresh("st");
                    let x = self.expr(&m.args[0])?;
                    let sx: Expr = parse_str(&format!("&mut {}", st)).unwrap();
                    let t = self.parse_stream(&m.receiver, &sx)?;
                    return Ok(format!("{{ let mut {st} = {x}; match {t} {{ Ok((v, _)) => Ok((v, {st})), Err(c) => Err(parse_error(c)) }} }}"));
                }
                _ => {}
            }
        }
        if self.cfg.grammar && name == "into_result" && m.args.is_empty() {
            return self.expr(&m.receiver);
        }
        if self.cfg.grammar && name == "unwrap_or_else" {
            if let Some(Expr::Closure(c)) = m.args.first() {
                if c.inputs.is_empty() {
                    let r = self.expr(&m.receiver)?;
                    let b = self.expr(&c.body)?;
                    let x = self.fresh("x");
                    return Ok(format!("(match {r} {{ Some({x}) => {x}, None => {b} }})"));
                }
            }
        }
        // `items.iter().map(|x| e).collect()` puts e for every item into a new collection
        if let (true, "collect", Expr::MethodCall(mm)) = (self.cfg.seqs, name.as_str(), &*m.receiver) {
            // `map(f)` is `map(|x| f(x))`
            let named = match mm.args.first() {
                Some(Expr::Path(f)) => parse_str::<ExprClosure>(&format!("|x| {}(x)", toks(f))).ok(),
                Some(Expr::Closure(c)) => Some(c.clone()),
                _ => None,
            };
            if let (true, Some(c)) = (mm.method == "map" && mm.args.len() == 1, &named) {
                if c.inputs.len() == 1 && self.cfg.paths.contains_key("Coll") {
                    let acc = self.fresh("acc");
                    let t = format!(
                        "{{ let mut {acc} = Coll::new(); for {} in {} {{ Coll::put(&mut {acc}, {}); }} {acc} }}",
                        toks(&c.inputs[0]), toks(&mm.receiver), toks(&c.body));
                    let e: Expr = parse_str(&t).map_err(|e| format!("collect: {}", e))?;
                    return self.expr(&e);
                }
            }
        }
        // whole chains that have one meaning
        let chain = chain_key(m);
        if let Some((key, base, lits)) = chain {
            if let Some(t) = self.cfg.methods.get(&key).cloned() {
                let b = self.expr(base)?;
                let mut t = t.replace("{0}", &b);
                for (i, l) in lits.iter().enumerate() {
                    t = t.replace(&format!("{{{}}}", i + 1), l);
                }
                if t.contains("{c}") {
                    let c = match m.args.first() {
                        Some(c) => self.expr(c)?,
                        None => return Err(format!("no closure in {}", key)),
                    };
                    t = t.replace("{c}", &c);
                }
                return Ok(t);
            }
        }
        let kind = Self::closure_key(&m.args);
        let exact = m.args.iter().map(|a| toks(a)).collect::<Vec<_>>().join(", ");
        let fish = m.turbofish.as_ref().map(|t| toks(&t.args).replace(' ', "")).unwrap_or_default();
        for key in [format!("{}::<{}>", name, fish), format!("{}({})", name, exact), format!("{}:{}", name, kind), name.clone()] {
            if let Some(t) = self.cfg.methods.get(&key).cloned() {
                if t == "keep" {
                    break;
                }
                let r = self.expr(&m.receiver)?;
                let mut t = t.replace("{0}", &r);
                for (i, a) in m.args.iter().enumerate() {
                    let slot = format!("{{{}}}", i + 1);
                    if t.contains(&slot) {
                        let x = self.expr(a)?;
                        t = t.replace(&slot, &x);
                    } else if !key.contains('(') {
                        self.dropped.insert(format!("an argument of {}", name));
                    }
                }
                return Ok(t);
            }
        }
        // Option/Result adaptors with a literal closure become a match
        if let Some(Expr::Closure(c)) = m.args.first() {
            if m.args.len() == 1 {
                match name.as_str() {
                    "ok_or_else" => {
                        let r = self.expr(&m.receiver)?;
                        let e = self.expr(&c.body)?;
                        return Ok(format!("(match {} {{ Some(v) => Ok(v), None => Err({}) }})", r, e));
                    }
                    "unwrap_or_else" => {
                        let r = self.expr(&m.receiver)?;
                        let e = self.expr(&c.body)?;
                        return Ok(format!("(match {} {{ Some(v) => v, None => {} }})", r, e));
                    }
                    _ => {}
                }
            }
        }
        // a helper of the crate that has no contract here is inlined
        let self_ty = self.spec_self_ty();
        if !self.cfg.known.contains(&name) {
            if let Some(f) = self.src.method(&self.file, &name, self_ty.as_deref()).cloned() {
                if let Expr::Path(p) = &*m.receiver {
                    if path_str(&p.path) == "self" {
                        return self.inline(&f, m.args.iter().collect());
                    }
                }
            }
        }
        if self.cfg.literals && !self.cfg.known.contains(&name) {
            if let (Some(f), Expr::Path(p)) = (self.src.method("src/format.rs", &name, Some("Formatter")).cloned(), &*m.receiver) {
                let r = self.path(&p.path);
                let n = self.renames.len();
                self.renames.push(("self".into(), r));
                let x = self.inline(&f, m.args.iter().collect());
                self.renames.truncate(n);
                return x;
            }
        }
        let r = self.expr(&m.receiver)?;
        let a = self.args(&m.args)?;
        let s = format!("{}.{}({})", r, name, a.join(", "));
        self.note_call(&name);
        Ok(s)
    }
    fn spec_self_ty(&self) -> Option<String> {
        None
    }
    fn note_call(&mut self, name: &str) {
        if let Some(t) = self.spec.aftercall.get(name) {
            self.pending_after = Some(t.clone());
        }
    }

    pub fn inline(&mut self, f: &Func, args: Vec<&Expr>) -> R<String> {
        if self.inline_stack.contains(&f.path) || self.inline_stack.len() > 6 {
            return Err(format!("recursive function {} without a contract", f.path));
        }
        if has_return(&f.block) {
            return Err(format!("function {} without a contract returns early", f.path));
        }
        self.inlined.insert(f.path.clone());
        let mut o = String::from("{\n");
        let mut params = vec![];
        for i in &f.sig.inputs {
            if let FnArg::Typed(t) = i {
                match &*t.pat {
                    Pat::Ident(i) => params.push((i.ident.to_string(), i.mutability.is_some())),
                    _ => return Err("pattern parameter".into()),
                }
            }
        }
        if params.len() != args.len() {
            return Err("argument count".into());
        }
        // arguments are evaluated outside, then bound under fresh names
        let mut ren = vec![];
        for ((p, m), a) in params.iter().zip(args) {
            // a plain variable passed on is the same variable
            if let Expr::Path(q) = a {
                if q.path.segments.len() == 1 && !m {
                    ren.push((p.clone(), self.path(&q.path)));
                    continue;
                }
            }
            if let Expr::Reference(r) = a {
                if r.mutability.is_some() {
                    return Err("inlining with a mutable borrow".into());
                }
            }
            let x = self.expr(a)?;
            let n = self.fresh(p);
            o.push_str(&format!("{}    let {}{} = {};\n", self.ind(), if *m { "mut " } else { "" }, n, x));
            ren.push((p.clone(), n));
        }
        let saved = self.renames.clone();
        let saved_loops = std::mem::take(&mut self.loops);
        let saved_file = std::mem::replace(&mut self.file, f.file.clone());
        self.renames.extend(ren);
        self.inline_stack.push(f.path.clone());
        self.depth += 1;
        let b = self.block_body(&f.block, true);
        self.depth -= 1;
        self.inline_stack.pop();
        self.renames = saved;
        self.loops = saved_loops;
        self.file = saved_file;
        o.push_str(&b?);
        o.push_str(&format!("{}}}", self.ind()));
        Ok(o)
    }

    pub fn expr(&mut self, e: &Expr) -> R<String> {
        Ok(match e {
            Expr::Lit(l) => self.lit(&l.lit)?,
            Expr::Path(p) => self.path(&p.path),
            Expr::Paren(p) => format!("({})", self.expr(&p.expr)?),
            Expr::Group(p) => self.expr(&p.expr)?,
            Expr::Field(f) => format!("{}.{}", self.expr(&f.base)?, toks(&f.member)),
            Expr::Index(i) => self.index(i, false)?,
            Expr::Reference(r) => {
                if let Expr::Index(i) = &*r.expr {
                    if matches!(&*i.index, Expr::Range(_)) {
                        return self.index(i, true);
                    }
                }
                if let Expr::Index(i) = &*r.expr {
                    let _ = i;
                }
                format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, self.expr(&r.expr)?)
            }
            Expr::MethodCall(m) => self.method(m)?,
            Expr::Call(c) => {
                let f = match &*c.func {
                    Expr::Path(p) => p.path.clone(),
                    f => return Err(format!("call of {}", toks(f))),
                };
                let name = path_str(&f);
                if let Some(t) = self.cfg.calls.get(&name).cloned() {
                    let mut t = t;
                    for (i, a) in c.args.iter().enumerate() {
                        let slot = format!("{{{}}}", i);
                        if t.contains(&slot) {
                            let x = self.expr(a)?;
                            t = t.replace(&slot, &x);
                        } else {
                            self.dropped.insert(format!("an argument of {}", name));
                        }
                    }
                    return Ok(t);
                }
                let plain = f.segments.last().unwrap().ident.to_string();
                if f.segments.len() == 1 && !self.cfg.known.contains(&plain) && plain.chars().next().unwrap().is_lowercase() {
                    if let Some(g) = self.src.by_name(&self.file, &plain).cloned() {
                        return self.inline(&g, c.args.iter().collect());
                    }
                }
                let a = self.args(&c.args)?;
                let s = format!("{}({})", self.path(&f), a.join(", "));
                self.note_call(&plain);
                s
            }
            Expr::Macro(m) => self.macro_(&m.mac)?,
            Expr::Binary(b) => {
                let (l, r) = (self.expr(&b.left)?, self.expr(&b.right)?);
                let is_str = |e: &Expr| matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }));
                // in grammar mode, tokens' texts
                let is_text = |e: &Expr| self.cfg.grammar && matches!(e, Expr::Field(f) if toks(&f.member) == "value");
                if is_str(&b.left) || is_str(&b.right) || is_text(&b.left) || is_text(&b.right) {
                    match b.op {
                        BinOp::Eq(_) => return Ok(format!("str_eq({}, {})", l, r)),
                        BinOp::Ne(_) => return Ok(format!("!str_eq({}, {})", l, r)),
                        _ => {}
                    }
                }
                let is_float = |e: &Expr| matches!(e, Expr::Lit(ExprLit { lit: Lit::Float(_), .. }));
                if is_float(&b.left) || is_float(&b.right) {
                    match b.op {
                        BinOp::Ge(_) => return Ok(format!("f_ge({}, {})", l, r)),
                        BinOp::Le(_) => return Ok(format!("f_ge({}, {})", r, l)),
                        _ => return Err("operation on floats".into()),
                    }
                }
                format!("{} {} {}", l, toks(&b.op), r)
            }
            Expr::Unary(u) => format!("{}{}", toks(&u.op), self.expr(&u.expr)?),
            Expr::Assign(a) => {
                let r = if let Expr::Loop(lp) = &*a.right {
                    if breaks_with_value(&lp.body) {
                        let t = self.expr(&a.left)?;
                        return self.loop_(lp, Some(t));
                    }
                    self.expr(&a.right)?
                } else {
                    self.expr(&a.right)?
                };
                format!("{} = {}", self.expr(&a.left)?, r)
            }
            Expr::Return(r) => match &r.expr {
                Some(x) => format!("return {}", self.expr(x)?),
                None => "return".into(),
            },
            Expr::Break(b) => {
                if b.label.is_some() {
                    return Err("labelled break".into());
                }
                match &b.expr {
                    None => "break".into(),
                    Some(x) => {
                        let x = self.expr(x)?;
                        match self.loops.last() {
                            Some(Some(t)) => format!("{{ {} = {}; break; }}", t.clone(), x),
                            _ => return Err("break with a value".into()),
                        }
                    }
                }
            }
            Expr::Continue(c) => {
                if c.label.is_some() {
                    return Err("labelled continue".into());
                }
                "continue".into()
            }
            Expr::Tuple(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|x| self.expr(x)).collect();
                let v = v?;
                if v.len() == 1 {
                    format!("({},)", v[0])
                } else {
                    format!("({})", v.join(", "))
                }
            }
            Expr::Block(b) => self.block(&b.block, true)?,
            Expr::Unsafe(b) => self.block(&b.block, true)?,
            Expr::If(i) => {
                let c = self.cond(&i.cond)?;
                let t = self.block(&i.then_branch, true)?;
                let mut s = format!("if {} {}", c, t);
                if let Some((_, e)) = &i.else_branch {
                    s.push_str(&format!(" else {}", self.expr(e)?));
                }
                s
            }
            Expr::Match(m) => {
                let x = self.expr(&m.expr)?;
                if m.arms.iter().any(|a| has_str_pat(&a.pat)) {
                    return self.match_str(&x, m);
                }
                let mut o = format!("match {} {{\n", x);
                self.depth += 1;
                for a in &m.arms {
                    let (pt, guard) = match &a.pat {
                        // Verus has no guards behind several patterns: one arm for each
                        Pat::Guard(g) => {
                            let v: R<Vec<String>> = match &*g.pat {
                                Pat::Or(o) => o.cases.iter().map(|c| self.pat(c)).collect(),
                                p => self.pat(p).map(|x| vec![x]),
                            };
                            (v?, format!(" if {}", self.expr(&g.guard)?))
                        }
                        p => (vec![self.pat(p)?], String::new()),
                    };
                    let b = self.expr(&a.body)?;
                    for p in pt {
                        o.push_str(&format!("{}{}{} => {},\n", self.ind(), p, guard, b));
                    }
                }
                self.depth -= 1;
                o.push_str(&format!("{}}}", self.ind()));
                o
            }
            Expr::Loop(l) => {
                if breaks_with_value(&l.body) {
                    let n = self.fresh("val");
                    let s = self.loop_(l, Some(n.clone()))?;
                    format!("{{ let {}; {} {} }}", n, s, n)
                } else {
                    self.loop_(l, None)?
                }
            }
            Expr::While(w) => self.while_(w)?,
            Expr::ForLoop(f) => self.for_(f)?,
            Expr::Struct(s) => {
                let mut v = vec![];
                for f in &s.fields {
                    let x = self.expr(&f.expr)?;
                    v.push(format!("{}: {}", toks(&f.member), x));
                }
                if let Some(r) = &s.rest {
                    v.push(format!("..{}", self.expr(r)?));
                }
                format!("{} {{ {} }}", self.path(&s.path), v.join(", "))
            }
            Expr::Try(t) => format!("{}?", self.expr(&t.expr)?),
            Expr::Cast(c) => format!("({} as {})", self.expr(&c.expr)?, toks(&c.ty)),
            Expr::Closure(c) => {
                // a closure with a known body has a fixed contract
                if c.inputs.len() == 1 {
                    if let Some(Ok(p)) = c.inputs.first().map(|p| self.pat(p)) {
                        if p.chars().all(|c| c.is_alphanumeric() || c == '_') {
                            let body = self.expr(&c.body)?;
                            let norm: String = replace_ident(&toks(&c.body), &p, "x");
                            if let Some(h) = self.cfg.closures.get(&norm) {
                                return Ok(format!("{} {{ {} }}", replace_ident(h, "x", &p), body));
                            }
                        }
                    }
                }
                let k = self.nclosure;
                self.nclosure += 1;
                let head = match self.spec.closures.get(&k) {
                    Some(h) => h.trim().to_string(),
                    None => return Err(format!("closure {} without a contract", k)),
                };
                // the contract names the parameters; destructure inside
                let hc = head.clone();
                let inner = hc.trim_start_matches('|');
                let pname = inner.split(':').next().unwrap_or("").trim().to_string();
                if c.inputs.len() != 1 {
                    return Err("closure with several parameters".into());
                }
                let p = self.pat(&c.inputs[0])?;
                let b = self.expr(&c.body)?;
                let bind = if p == pname { String::new() } else { format!("let {} = {};", p, pname) };
                format!("{} {{ {} {} }}", head, bind, b)
            }
            Expr::Let(_) => return Err("let in an expression".into()),
            e => return Err(format!("expression {}", toks(e))),
        })
    }
    /// A match on string literals, as comparisons in order.
    fn match_str(&mut self, x: &str, m: &ExprMatch) -> R<String> {
        let v = self.fresh("key");
        let mut o = format!("{{ let {} = {};\n", v, x);
        let mut done = false;
        let i = self.ind();
        for (k, a) in m.arms.iter().enumerate() {
            let (p, g) = match &a.pat {
                Pat::Guard(g) => ((*g.pat).clone(), Some((*g.guard).clone())),
                p => (p.clone(), None),
            };
            let mut bind = String::new();
            let mut conds = vec![];
            match &p {
                Pat::Wild(_) => {}
                Pat::Ident(n) => bind = format!("let {} = {}; ", n.ident, v),
                p => {
                    let mut alts = vec![];
                    str_pats(p, &mut alts)?;
                    let mut c = vec![];
                    for l in alts {
                        c.push(format!("str_eq({}, {})", v, self.lit(&l)?));
                    }
                    conds.push(format!("({})", c.join(" || ")));
                }
            }
            if let Some(g) = g {
                if !bind.is_empty() {
                    return Err("binding and guard in a match on strings".into());
                }
                conds.push(format!("({})", self.expr(&g)?));
            }
            let b = self.expr(&a.body)?;
            let head = if conds.is_empty() { String::new() } else { format!("if {} ", conds.join(" && ")) };
            if k > 0 {
                o.push_str(" else ");
            } else {
                o.push_str(&i);
            }
            o.push_str(&format!("{}{{ {}{} }}", head, bind, b));
            if conds.is_empty() {
                done = true;
                break;
            }
        }
        if !done {
            return Err("match on strings without a last arm".into());
        }
        o.push_str(" }");
        Ok(o)
    }
    fn cond(&mut self, e: &Expr) -> R<String> {
        match e {
            Expr::Let(l) => {
                let x = self.expr(&l.expr)?;
                Ok(format!("let {} = {}", self.pat(&l.pat)?, x))
            }
            e => self.expr(e),
        }
    }
    fn index(&mut self, i: &ExprIndex, _by_ref: bool) -> R<String> {
        let b = match &*i.expr {
            // a slice of a slice
            Expr::Index(j) if matches!(&*j.index, Expr::Range(_)) => self.index(j, true)?,
            x => self.expr(x)?,
        };
        match &*i.index {
            Expr::Range(r) => {
                let s = match &r.start {
                    Some(x) => Some(self.expr(x)?),
                    None => None,
                };
                let e = match &r.end {
                    Some(x) => Some(self.expr(x)?),
                    None => None,
                };
                if matches!(r.limits, RangeLimits::Closed(_)) {
                    return Err("closed range slice".into());
                }
                if self.cfg.seqs {
                    return match (s, e) {
                        (Some(s), None) => Ok(format!("seq_from(seq_ref(&{}), {})", b, s)),
                        (None, None) => Ok(format!("seq_ref(&{})", b)),
                        _ => Err("range of a sequence".into()),
                    };
                }
                Ok(match (s, e) {
                    (Some(s), Some(e)) => format!("sl_range(sl_ref(&{}), {}, {})", b, s, e),
                    (Some(s), None) => format!("sl_from(sl_ref(&{}), {})", b, s),
                    (None, Some(e)) => format!("sl_to(sl_ref(&{}), {})", b, e),
                    (None, None) => format!("sl_ref(&{})", b),
                }
                .replace("sl_ref(&sl_", "sl_id(sl_"))
            }
            x => {
                let x = self.expr(x)?;
                if self.cfg.seqs {
                    Ok(format!("(*seq_get(seq_ref(&{}), {}))", b, x))
                } else {
                    Ok(format!("{}[{}]", b, x))
                }
            }
        }
    }
}

fn e_strip_iter(e: &Expr) -> &Expr {
    if let Expr::MethodCall(m) = e {
        if m.method == "iter" && m.args.is_empty() {
            return &m.receiver;
        }
    }
    e
}

/// `x.as_bytes().iter().filter(|&&x| x == b'\n').count()` and the like, as one
/// key with its literals.
fn chain_key(m: &ExprMethodCall) -> Option<(String, &Expr, Vec<String>)> {
    let mut names = vec![];
    let mut lits = vec![];
    let mut cur: &Expr = &m.receiver;
    let push = |m: &ExprMethodCall, names: &mut Vec<String>, lits: &mut Vec<String>| {
        let mut k = m.method.to_string();
        if let Some(Expr::Closure(c)) = m.args.first() {
            if let Expr::Binary(b) = &*c.body {
                if matches!(b.op, BinOp::Eq(_)) {
                    if let Expr::Lit(ExprLit { lit: Lit::Byte(x), .. }) = &*b.right {
                        k.push_str("(==byte)");
                        lits.push(format!("{}u8", x.value()));
                    }
                    if let Expr::Lit(ExprLit { lit: Lit::Char(x), .. }) = &*b.right {
                        k.push_str("(==char)");
                        lits.push(toks(x));
                    }
                }
            }
            if k == m.method.to_string() {
                k.push_str("(closure)");
            }
        }
        names.push(k);
    };
    push(m, &mut names, &mut lits);
    while let Expr::MethodCall(n) = cur {
        push(n, &mut names, &mut lits);
        cur = &n.receiver;
    }
    if names.len() < 2 {
        return None;
    }
    names.reverse();
    Some((names.join("."), cur, lits))
}

pub fn parse_sig(s: &str) -> R<Signature> {
    // `-> (r: T)` is Verus; drop it for parsing
    let cut = match s.rfind("->") {
        Some(i) => &s[..i],
        None => s,
    };
    let cut = cut.replace("pub fn", "fn").replace("exec fn", "fn");
    let cut = cut.trim();
    parse_str::<Signature>(cut).map_err(|e| format!("contract signature {:?}: {}", cut, e))
}


fn has_str_pat(p: &Pat) -> bool {
    match p {
        Pat::Lit(l) => matches!(l.lit, Lit::Str(_)),
        Pat::Or(o) => o.cases.iter().any(has_str_pat),
        Pat::Paren(p) => has_str_pat(&p.pat),
        Pat::Guard(g) => has_str_pat(&g.pat),
        _ => false,
    }
}
fn str_pats(p: &Pat, out: &mut Vec<Lit>) -> R<()> {
    match p {
        Pat::Lit(l) => out.push(l.lit.clone()),
        Pat::Or(o) => {
            for c in &o.cases {
                str_pats(c, out)?;
            }
        }
        Pat::Paren(p) => str_pats(&p.pat, out)?,
        p => return Err(format!("pattern {} among strings", toks(p))),
    }
    Ok(())
}

pub fn replace_ident(s: &str, a: &str, b: &str) -> String {
    let mut o = String::new();
    let mut w = String::new();
    let mut flush = |w: &mut String, o: &mut String| {
        o.push_str(if w == a { b } else { w });
        w.clear();
    };
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
        } else {
            flush(&mut w, &mut o);
            o.push(c);
        }
    }
    flush(&mut w, &mut o);
    o
}
