//! Parser expressions (combine), printed as Verus: every combinator is replaced by what combine 4.6.9's `parse_mode_impl`
//! does with the stream, step by step (checkpoint, reset, uncons), without the error messages. The result of a parser is
//! `R<T> = Result<(T, bool), bool>`; the flag says whether input was committed.
use crate::exec::*;
use syn::*;

const HEADS: &[&str] = &["position", "eof", "parser", "optional", "many", "many1", "sep_by1", "choice", "satisfy"];

fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}
fn last(p: &Path) -> String {
    p.segments.last().unwrap().ident.to_string()
}

/// Early returns out of a closure's body become else branches.
fn structured(b: &Block) -> R<Block> {
    let mut out: Vec<Stmt> = vec![];
    for (i, s) in b.stmts.iter().enumerate() {
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                if let Some(x) = &r.expr {
                    out.push(Stmt::Expr((**x).clone(), None));
                    return Ok(Block { brace_token: b.brace_token, stmts: out });
                }
                return Err("return without a value in a closure".into());
            }
            Stmt::Expr(Expr::If(f), _) if f.else_branch.is_none() && ends_in_return(&f.then_branch) => {
                let rest = Block { brace_token: b.brace_token, stmts: b.stmts[i + 1..].to_vec() };
                let mut f = f.clone();
                f.then_branch = structured(&f.then_branch)?;
                let e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: structured(&rest)? });
                f.else_branch = Some((Default::default(), Box::new(e)));
                out.push(Stmt::Expr(Expr::If(f), None));
                return Ok(Block { brace_token: b.brace_token, stmts: out });
            }
            Stmt::Expr(Expr::If(f), None) if i + 1 == b.stmts.len() => {
                let mut f = f.clone();
                f.then_branch = structured(&f.then_branch)?;
                if let Some((t, e)) = &f.else_branch {
                    if let Expr::Block(x) = &**e {
                        let mut x = x.clone();
                        x.block = structured(&x.block)?;
                        f.else_branch = Some((*t, Box::new(Expr::Block(x))));
                    }
                }
                out.push(Stmt::Expr(Expr::If(f), None));
            }
            s => out.push(s.clone()),
        }
    }
    let nb = Block { brace_token: b.brace_token, stmts: out };
    if has_return(&nb) {
        return Err("early return in a closure".into());
    }
    Ok(nb)
}
fn ends_in_return(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}

impl<'a> Emit<'a> {
    /// Whether e is a parser (by its form).
    pub fn is_parser(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.is_parser(&p.expr),
            Expr::Tuple(t) => !t.elems.is_empty() && t.elems.iter().all(|x| self.is_parser(x)),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let n = last(&p.path);
                    HEADS.contains(&n.as_str()) || self.parser_fn(&n)
                }
                _ => false,
            },
            Expr::MethodCall(m) => {
                ["with", "skip", "and", "or", "map", "flat_map", "and_then", "expected", "message", "by_ref"].contains(&m.method.to_string().as_str())
                    && self.is_parser(&m.receiver)
            }
            Expr::Path(p) => p.path.segments.len() == 1 && self.psubst(&path_str(&p.path)).is_some(),
            _ => false,
        }
    }
    fn parser_fn(&self, n: &str) -> bool {
        if self.cfg.parsers.contains(n) {
            return true;
        }
        match self.src.by_name(&self.file, n) {
            Some(f) => match &f.sig.output {
                ReturnType::Type(_, t) => {
                    let s = quote::ToTokens::to_token_stream(t).to_string();
                    s.starts_with("impl ") && s.contains("Parser")
                }
                _ => false,
            },
            None => false,
        }
    }
    fn psubst(&self, n: &str) -> Option<Expr> {
        self.psubsts.iter().rev().find(|(a, _)| a == n).map(|(_, e)| e.clone())
    }

    /// `P.parse_stream(input)`
    pub fn parse_stream(&mut self, p: &Expr, input: &Expr) -> R<String> {
        let (v, a) = self.stream_of(input)?;
        let saved = std::mem::replace(&mut self.pin, (v, a));
        let t = self.parse_stream_here(p);
        self.pin = saved;
        t
    }
    fn parse_stream_here(&mut self, p: &Expr) -> R<String> {
        let b = self.fresh("b");
        let t = self.parser(p)?;
        let (v, a) = self.pin.clone();
        Ok(format!("{{ let {b} = {v}.checkpoint(); match {t} {{ Err(false) => {{ look_again({a}, {b}); Err(false) }}, r => r }} }}"))
    }
    /// `P.parse_lazy(input)`
    pub fn parse_lazy(&mut self, p: &Expr, input: &Expr) -> R<String> {
        let (v, a) = self.stream_of(input)?;
        let saved = std::mem::replace(&mut self.pin, (v, a));
        let t = self.parser(p);
        self.pin = saved;
        t
    }
    fn stream_of(&mut self, input: &Expr) -> R<(String, String)> {
        Ok(match input {
            Expr::Reference(r) if r.mutability.is_some() => {
                let x = self.expr(&r.expr)?;
                (x.clone(), format!("&mut {}", x))
            }
            e => {
                let x = self.expr(e)?;
                (x.clone(), x)
            }
        })
    }

    /// f(x), for a closure or a path
    fn apply(&mut self, f: &Expr, x: &str) -> R<String> {
        match f {
            Expr::Closure(c) => {
                if c.inputs.len() != 1 {
                    return Err("closure with several parameters".into());
                }
                let p = self.pat(&c.inputs[0])?;
                let body = match &*c.body {
                    Expr::Block(b) => {
                        let nb = structured(&b.block)?;
                        self.block(&nb, true)?
                    }
                    e => self.expr(e)?,
                };
                Ok(format!("{{ let {} = {}; {} }}", p, x, body))
            }
            Expr::Path(p) => {
                let n = path_str(&p.path);
                if let Some(t) = self.cfg.calls.get(&n) {
                    return Ok(t.replace("{0}", x));
                }
                if p.path.segments.len() == 1 && n.chars().next().unwrap().is_lowercase() && !self.cfg.known.contains(&n) {
                    return Err(format!("function {} without a contract is applied", n));
                }
                Ok(format!("{}({})", self.path(&p.path), x))
            }
            Expr::Paren(p) => self.apply(&p.expr, x),
            f => Err(format!("application of {}", quote::ToTokens::to_token_stream(f))),
        }
    }

    pub fn parser(&mut self, e: &Expr) -> R<String> {
        let (v, a) = self.pin.clone();
        match e {
            Expr::Paren(p) => self.parser(&p.expr),
            Expr::Group(p) => self.parser(&p.expr),
            Expr::Tuple(t) => {
                let ps: Vec<&Expr> = t.elems.iter().collect();
                let n = ps.len();
                self.seq(&ps, &|xs: &[String]| if n == 1 { format!("({},)", xs[0]) } else { format!("({})", xs.join(", ")) })
            }
            Expr::Path(p) if p.path.segments.len() == 1 => match self.psubst(&path_str(&p.path)) {
                Some(x) => self.parser(&x),
                None => Err(format!("parser {}", path_str(&p.path))),
            },
            Expr::Call(c) => {
                let n = match &*c.func {
                    Expr::Path(p) => last(&p.path),
                    f => return Err(format!("parser {}", quote::ToTokens::to_token_stream(f))),
                };
                let one = || -> R<&Expr> { c.args.first().ok_or_else(|| format!("{} without an argument", n)) };
                match n.as_str() {
                    "position" => Ok(format!("pass({v}.position())")),
                    "eof" => Ok(format!("eof({a})")),
                    "parser" => match one()? {
                        Expr::Path(p) => {
                            let f = last(&p.path);
                            if self.cfg.known.contains(&f) {
                                return Ok(format!("{}({})", f, a));
                            }
                            let g = self.src.by_name(&self.file, &f).cloned().ok_or_else(|| format!("function {}", f))?;
                            let x: Expr = parse_str(&v).map_err(|e| e.to_string())?;
                            self.inline(&g, vec![&x])
                        }
                        x => Err(format!("parser({})", quote::ToTokens::to_token_stream(x))),
                    },
                    "optional" => {
                        let b = self.fresh("b");
                        let p = self.parser(one()?)?;
                        Ok(format!("{{ let {b} = {v}.checkpoint(); match {p} {{ Ok((x, c)) => Ok((Some(x), c)), Err(true) => Err(true), Err(false) => {{ {v}.reset({b}); Ok((None, false)) }} }} }}"))
                    }
                    "many" => {
                        let p = one()?.clone();
                        self.repeat(None, &p, false)
                    }
                    "many1" => {
                        let p = one()?.clone();
                        self.repeat(None, &p, true)
                    }
                    "sep_by1" => {
                        if c.args.len() != 2 {
                            return Err("sep_by1".into());
                        }
                        let p = c.args[0].clone();
                        let with = self.seq_expr(&c.args[1], &p);
                        self.repeat(Some(&p), &with, false)
                    }
                    "choice" => {
                        let ps: Vec<Expr> = match one()? {
                            Expr::Tuple(t) => t.elems.iter().cloned().collect(),
                            Expr::Array(t) => t.elems.iter().cloned().collect(),
                            x => return Err(format!("choice({})", quote::ToTokens::to_token_stream(x))),
                        };
                        self.choice(&ps.iter().collect::<Vec<_>>())
                    }
                    "satisfy" => {
                        let t = match one()? {
                            Expr::Closure(c) => {
                                let p = self.pat(&c.inputs[0])?;
                                let b = self.expr(&c.body)?;
                                format!("{{ let {p} = t; {b} }}")
                            }
                            x => self.apply(x, "t")?,
                        };
                        Ok(format!("(match {v}.uncons() {{ Ok(t) => if {t} {{ Ok((t, true)) }} else {{ Err(false) }}, Err(_) => Err(false) }})"))
                    }
                    _ if self.cfg.parsers.contains(&n) => {
                        let x = self.expr(e)?;
                        let p = self.fresh("p");
                        Ok(format!("{{ let mut {p} = {x}; {p}.parse_lazy({a}) }}"))
                    }
                    _ => {
                        // a function of the crate that gives a parser
                        let g = self.src.by_name(&self.file, &n).cloned().ok_or_else(|| format!("parser function {}", n))?;
                        if self.inline_stack.contains(&g.path) {
                            return Err(format!("recursive function {} without a contract", n));
                        }
                        let body = match g.block.stmts.as_slice() {
                            [Stmt::Expr(x, None)] => x.clone(),
                            _ => return Err(format!("parser function {} is not one expression", n)),
                        };
                        let mut subs = vec![];
                        let mut lets = String::new();
                        let mut ren = vec![];
                        for (i, x) in g.sig.inputs.iter().zip(c.args.iter()) {
                            if let FnArg::Typed(t) = i {
                                if let Pat::Ident(q) = &*t.pat {
                                    if self.is_parser(x) {
                                        subs.push((q.ident.to_string(), x.clone()));
                                    } else {
                                        let y = self.expr(x)?;
                                        let m = self.fresh(&q.ident.to_string());
                                        lets.push_str(&format!("let {} = {}; ", m, y));
                                        ren.push((q.ident.to_string(), m));
                                    }
                                    continue;
                                }
                            }
                            return Err("pattern parameter".into());
                        }
                        self.inlined.insert(g.path.clone());
                        let (n1, n2) = (self.psubsts.len(), self.renames.len());
                        self.psubsts.extend(subs);
                        self.renames.extend(ren);
                        self.inline_stack.push(g.path.clone());
                        let f = std::mem::replace(&mut self.file, g.file.clone());
                        let t = self.parser(&body);
                        self.file = f;
                        self.inline_stack.pop();
                        self.psubsts.truncate(n1);
                        self.renames.truncate(n2);
                        Ok(format!("{{ {}{} }}", lets, t?))
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let arg = m.args.first();
                let need = || arg.ok_or_else(|| format!("{} without an argument", n));
                match n.as_str() {
                    "with" => self.seq(&[&m.receiver, need()?], &|x: &[String]| x[1].clone()),
                    "skip" => self.seq(&[&m.receiver, need()?], &|x: &[String]| x[0].clone()),
                    "and" => self.seq(&[&m.receiver, need()?], &|x: &[String]| format!("({}, {})", x[0], x[1])),
                    "or" => self.choice(&[&m.receiver, need()?]),
                    "expected" | "message" | "by_ref" => self.parser(&m.receiver),
                    "map" => {
                        let p = self.parser(&m.receiver)?;
                        let (x, c) = (self.fresh("x"), self.fresh("c"));
                        let f = self.apply(need()?, &x)?;
                        Ok(format!("(match {p} {{ Ok(({x}, {c})) => Ok(({f}, {c})), Err({c}) => Err({c}) }})"))
                    }
                    "flat_map" | "and_then" => {
                        let p = self.parser(&m.receiver)?;
                        let (x, c) = (self.fresh("x"), self.fresh("c"));
                        let f = self.apply(need()?, &x)?;
                        Ok(format!("(match {p} {{ Ok(({x}, {c})) => match {f} {{ Ok(y) => Ok((y, {c})), Err(_) => Err({c}) }}, Err({c}) => Err({c}) }})"))
                    }
                    _ => Err(format!("combinator {}", n)),
                }
            }
            e => Err(format!("parser {}", quote::ToTokens::to_token_stream(e))),
        }
    }

    fn seq_expr(&self, a: &Expr, b: &Expr) -> Expr {
        parse_quote!((#a).with(#b))
    }

    fn seq(&mut self, ps: &[&Expr], value: &dyn Fn(&[String]) -> String) -> R<String> {
        let (v, a) = self.pin.clone();
        let mut o = String::new();
        let mut close = String::new();
        let mut xs = vec![];
        let mut c = String::new();
        for (i, p) in ps.iter().enumerate() {
            let (x, d) = (self.fresh("x"), self.fresh("c"));
            if i == 0 {
                let t = self.parser(p)?;
                o.push_str(&format!("(match {t} {{ Err(e) => Err(e), Ok(({x}, {d})) => {{\n{}", self.ind()));
            } else {
                let b = self.fresh("b");
                let t = self.parser(p)?;
                let d2 = self.fresh("d");
                o.push_str(&format!("let {b} = {v}.checkpoint(); match {t} {{ Err(e) => Err(give_up({a}, {b}, {c}, e)), Ok(({x}, {d2})) => {{ let {d} = {c} || {d2};\n{}", self.ind()));
            }
            close.push_str(if i + 1 == ps.len() { "}}" } else { "}}" });
            xs.push(x);
            c = d;
        }
        o.push_str(&format!("Ok(({}, {})) {})", value(&xs), c, close));
        Ok(o)
    }

    fn choice(&mut self, ps: &[&Expr]) -> R<String> {
        let (v, _) = self.pin.clone();
        let b = self.fresh("b");
        let mut o = format!("{{ let {b} = {v}.checkpoint(); ");
        let mut close = String::new();
        for p in ps {
            let t = self.parser(p)?;
            o.push_str(&format!("match {t} {{ Err(false) => {{ {v}.reset({b});\n{}", self.ind()));
            close.push_str("}, r => r }");
        }
        o.push_str("Err(false)");
        o.push_str(&close);
        o.push('}');
        Ok(o)
    }

    /// p over and over; `first` before it (sep_by1); `some`: at least once (many1)
    fn repeat(&mut self, first: Option<&Expr>, p: &Expr, some: bool) -> R<String> {
        let (v, _) = self.pin.clone();
        let k = self.nmany;
        self.nmany += 1;
        let (ty, from) = self.spec.manys.get(&k).cloned().ok_or_else(|| format!("the contract says nothing about repetition {}", k))?;
        let pre = match first {
            Some(f) => Some(self.parser(f)?),
            None => None,
        };
        let body = self.parser(p)?;
        let (acc, c, c0, bad, go, k0, b, a0) =
            (self.fresh("acc"), self.fresh("c"), self.fresh("c0"), self.fresh("bad"), self.fresh("go"), self.fresh("k0"), self.fresh("b"), self.fresh("a0"));
        let f = |k: &str, acc: &str| from.replace("$k", k).replace("$acc", acc);
        let kk = format!("{v}.k()");
        let start = f(&k0, &a0);
        let i = self.ind();
        if self.cfg.height {
            let (lvl, same) = (format!("nst(s, {k0})"), format!("nst(s, {kk})"));
            let o = format!(
                "let {c0} = {c}; let mut {go} = true; let mut {bad} = false; let ghost {k0} = {kk};\n\
                 {i}while {go}\n\
                 {i}    invariant\n\
                 {i}        {v}.ok(), {v}.src() == whole, {bad} ==> !{go}, {k0} <= {kk} || {bad},\n\
                 {i}        {go} ==> {same} == {lvl} && {c} == ({c0} || {k0} < {kk}),\n{}\
                 {i}    decreases (if {go} {{ 1int }} else {{ 0int }}), {v}.left(),\n\
                 {i}{{\n\
                 {i}    let {b} = {v}.checkpoint();\n\
                 {i}    match {body} {{\n\
                 {i}        Ok((x, d)) => {{ {acc}.put(x); {c} = {c} || d; }}\n\
                 {i}        Err(e) => {{ {go} = false; if e {{ {bad} = true; }} else {}{{ {v}.reset({b}); }} }}\n\
                 {i}    }}\n\
                 {i}}}\n",
                if some {
                    format!(
                        "{i}        {go} ==> ({acc}.g@.len() == 0) == ({k0} == {kk}),\n\
                         {i}        !{go} && !{bad} && {acc}.g@.len() > 0 ==> {same} == {lvl} && {k0} < {kk} && {c},\n\
                         {i}        !{go} && !{bad} && {acc}.g@.len() == 0 ==> {k0} <= {kk} <= {v}.front() <= {k0} + 1,\n"
                    )
                } else {
                    format!("{i}        !{go} && !{bad} ==> {same} == {lvl} && {c} == ({c0} || {k0} < {kk}),\n")
                },
                if some { format!("if !{acc}.is_empty() ") } else { String::new() },
            );
            let end = if some {
                format!("if {bad} {{ Err(true) }} else if {acc}.is_empty() {{ Err(false) }} else {{ Ok(({acc}, {c})) }}")
            } else {
                format!("if {bad} {{ Err(true) }} else {{ Ok(({acc}, {c})) }}")
            };
            return Ok(match pre {
                None => format!("{{ let mut {acc}: {ty} = Coll::new(); let mut {c} = false; {o}{i}{end} }}"),
                Some(p) => {
                    let x = self.fresh("x");
                    format!("(match {p} {{ Err(e) => Err(e), Ok(({x}, d)) => {{ let mut {acc}: {ty} = Coll::new(); {acc}.put({x}); let mut {c} = d; {o}{i}{end} }} }})")
                }
            });
        }
        let o = format!(
            "let {c0} = {c}; let mut {go} = true; let mut {bad} = false; let ghost {k0} = {kk}; let ghost {a0} = {acc};\n\
             {i}while {go}\n\
             {i}    invariant\n\
             {i}        {v}.ok(), {v}.src() == whole,\n\
             {i}        {bad} ==> !{go} && {start} == Out::<{ty}>::Bad,\n\
             {i}        {go} ==> {k0} <= {kk} && {} == {start} && {c} == ({c0} || {k0} < {kk}),\n{}\
             {i}    decreases (if {go} {{ 1int }} else {{ 0int }}), {v}.left(),\n\
             {i}{{\n\
             {i}    let {b} = {v}.checkpoint();\n\
             {i}    match {body} {{\n\
             {i}        Ok((x, d)) => {{ {acc}.put(x); {c} = {c} || d; }}\n\
             {i}        Err(e) => {{ {go} = false; if e {{ {bad} = true; }} else {}{{ {v}.reset({b}); }} }}\n\
             {i}    }}\n\
             {i}}}\n",
            f(&kk, &acc),
            if some {
                format!(
                    "{i}        {go} ==> ({acc}.g@.len() == 0) == ({k0} == {kk}), {k0} <= {kk} || {bad},\n\
                     {i}        !{go} && !{bad} && {acc}.g@.len() > 0 ==> {start} == Out::Ok({acc}, {kk}) && {k0} < {kk} && {c},\n\
                     {i}        !{go} && !{bad} && {acc}.g@.len() == 0 ==> {start} == Out::Ok({acc}, {k0}) && {acc} == {a0} && {k0} <= {kk} <= {v}.front() <= {k0} + 1,\n"
                )
            } else {
                format!("{i}        !{go} && !{bad} ==> {start} == Out::Ok({acc}, {kk}) && {k0} <= {kk} && {c} == ({c0} || {k0} < {kk}),\n")
            },
            if some { format!("if !{acc}.is_empty() ") } else { String::new() },
        );
        let end = if some {
            format!("if {bad} {{ Err(true) }} else if {acc}.is_empty() {{ Err(false) }} else {{ Ok(({acc}, {c})) }}")
        } else {
            format!("if {bad} {{ Err(true) }} else {{ Ok(({acc}, {c})) }}")
        };
        Ok(match pre {
            None => format!("{{ let mut {acc}: {ty} = Coll::new(); let mut {c} = false; {o}{i}{end} }}"),
            Some(p) => {
                let x = self.fresh("x");
                format!("(match {p} {{ Err(e) => Err(e), Ok(({x}, d)) => {{ let mut {acc}: {ty} = Coll::new(); {acc}.put({x}); let mut {c} = d; {o}{i}{end} }} }})")
            }
        })
    }
}
