//! The crate's source: every function under a path, as syn trees.
use std::collections::BTreeMap;
use syn::*;

#[derive(Clone)]
pub struct Func {
    pub file: String,
    pub path: String,
    pub sig: Signature,
    pub block: Block,
    pub self_ty: Option<String>,
    pub is_trait: bool,
}
pub struct Source {
    pub fns: BTreeMap<(String, String), Func>,
    pub types: BTreeMap<(String, String), Item>,
    macros: BTreeMap<String, crate::mac::Rules>,
}

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => ty_name(&r.elem),
        _ => String::new(),
    }
}
pub fn is_test(attrs: &[Attribute]) -> bool {
    use quote::ToTokens;
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s == "#[cfg(test)]" || s == "#[test]" || s == "#[cfg(gp_verif)]"
    })
}

impl Source {
    pub fn load(repo: &str, files: &[&str]) -> std::result::Result<Source, String> {
        let mut s = Source { fns: BTreeMap::new(), types: BTreeMap::new(), macros: BTreeMap::new() };
        let mut asts = vec![];
        for f in files {
            let text = match std::fs::read_to_string(format!("{}/{}", repo, f)) {
                Ok(t) => t,
                Err(e) => return Err(format!("cannot read {}: {}", f, e)),
            };
            let ast = parse_file(&text).map_err(|e| format!("cannot parse {}: {}", f, e))?;
            for it in &ast.items {
                if let Item::Macro(m) = it {
                    if let (true, Some(n)) = (m.mac.path.is_ident("macro_rules"), &m.ident) {
                        if let Some(r) = crate::mac::Rules::parse(m.mac.tokens.clone()) {
                            s.macros.insert(n.to_string(), r);
                        }
                    }
                }
            }
            asts.push((f, ast));
        }
        for (f, ast) in asts {
            s.items(f, "", &ast.items);
        }
        Ok(s)
    }
    fn items(&mut self, file: &str, prefix: &str, items: &[Item]) {
        for it in items {
            match it {
                Item::Fn(x) if !is_test(&x.attrs) => {
                    let path = format!("{}{}", prefix, x.sig.ident);
                    self.fns.insert(
                        (file.into(), path.clone()),
                        Func { file: file.into(), path, sig: x.sig.clone(), block: (*x.block).clone(), self_ty: None, is_trait: false },
                    );
                }
                Item::Impl(x) if !is_test(&x.attrs) => {
                    let ty = ty_name(&x.self_ty);
                    let pre = match &x.trait_ {
                        Some((p, _)) => format!("{}@{}", p.segments.last().unwrap().ident, ty),
                        None => ty.clone(),
                    };
                    for i in &x.items {
                        if let ImplItem::Fn(f) = i {
                            let path = format!("{}::{}", pre, f.sig.ident);
                            self.fns.insert(
                                (file.into(), path.clone()),
                                Func {
                                    file: file.into(),
                                    path,
                                    sig: f.sig.clone(),
                                    block: f.block.clone(),
                                    self_ty: Some(ty.clone()),
                                    is_trait: x.trait_.is_some(),
                                },
                            );
                        }
                    }
                }
                Item::Struct(x) => {
                    self.types.insert((file.into(), x.ident.to_string()), it.clone());
                }
                Item::Enum(x) => {
                    self.types.insert((file.into(), x.ident.to_string()), it.clone());
                }
                Item::Type(x) => {
                    self.types.insert((file.into(), x.ident.to_string()), it.clone());
                }
                Item::Macro(m) if !is_test(&m.attrs) && m.ident.is_none() => {
                    let e = m.mac.path.segments.last().and_then(|n| self.macros.get(&n.ident.to_string())).and_then(|r| r.expand(m.mac.tokens.clone()));
                    if let Some(Ok(f)) = e.map(parse2::<syn::File>) {
                        self.items(file, prefix, &f.items);
                    }
                }
                Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, its)) = &m.content {
                        self.items(file, &format!("{}{}::", prefix, m.ident), its);
                    }
                }
                _ => {}
            }
        }
    }
    pub fn get(&self, file: &str, path: &str) -> std::result::Result<&Func, String> {
        self.fns
            .get(&(file.to_string(), path.to_string()))
            .ok_or_else(|| format!("lost anchor: no function {} in {}", path, file))
    }
    /// A function by its plain name, in the given file or else anywhere.
    pub fn by_name(&self, file: &str, name: &str) -> Option<&Func> {
        self.fns
            .get(&(file.to_string(), name.to_string()))
            .or_else(|| {
                let v: Vec<&Func> = self.fns.values().filter(|f| f.path == name).collect();
                if v.len() == 1 {
                    Some(v[0])
                } else {
                    None
                }
            })
    }
    pub fn method(&self, file: &str, name: &str, ty: Option<&str>) -> Option<&Func> {
        let v: Vec<&Func> = self
            .fns
            .values()
            .filter(|f| f.file == file && !f.is_trait && f.self_ty.is_some() && f.path.ends_with(&format!("::{}", name)))
            .filter(|f| ty.is_none() || f.self_ty.as_deref() == ty)
            .collect();
        if v.len() == 1 {
            Some(v[0])
        } else {
            None
        }
    }
}

/// The item without attributes, for types of plain fields.
pub fn plain_type(i: &Item) -> std::result::Result<String, String> {
    use quote::ToTokens;
    let mut i = i.clone();
    match &mut i {
        Item::Enum(e) => {
            e.attrs.clear();
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
        }
        Item::Struct(e) => {
            e.attrs.clear();
            for f in e.fields.iter_mut() {
                f.attrs.clear();
            }
        }
        _ => return Err("not a struct or enum".into()),
    }
    Ok(i.to_token_stream().to_string())
}

fn mono(t: &Type) -> std::result::Result<String, String> {
    use quote::ToTokens;
    Ok(match t {
        Type::Reference(r) => {
            if ty_name(&r.elem) == "str" {
                "Str".into()
            } else {
                return Err(format!("type {}", t.to_token_stream()));
            }
        }
        Type::Tuple(x) => {
            let v: std::result::Result<Vec<String>, String> = x.elems.iter().map(mono).collect();
            format!("({})", v?.join(", "))
        }
        Type::Path(p) => {
            let segs = &p.path.segments;
            if segs.len() == 2 && segs[1].ident == "Value" && segs[0].ident.to_string().len() == 1 {
                return Ok("Str".into());
            }
            let l = segs.last().unwrap();
            let n = l.ident.to_string();
            let mut args = vec![];
            if let PathArguments::AngleBracketed(a) = &l.arguments {
                for g in &a.args {
                    if let GenericArgument::Type(t) = g {
                        args.push(t);
                    }
                }
            }
            match (n.as_str(), args.as_slice()) {
                ("Vec", [x]) => format!("Lst<{}>", mono(x)?),
                ("Option", [x]) => format!("Option<{}>", mono(x)?),
                ("Box", [x]) => format!("Box<{}>", mono(x)?),
                ("BTreeMap", [k, v]) => {
                    if mono(k)? != "Str" {
                        return Err("map key".into());
                    }
                    format!("Obj<{}>", mono(v)?)
                }
                ("String", _) => "Str".into(),
                ("PhantomData", _) => "()".into(),
                _ => n,
            }
        }
        t => return Err(format!("type {}", t.to_token_stream())),
    })
}
/// A type of the document for one text type, under the name new.
pub fn mono_type(i: &Item, new: &str) -> std::result::Result<String, String> {
    let fields = |f: &Fields, vis: &str| -> std::result::Result<String, String> {
        Ok(match f {
            Fields::Unit => String::new(),
            Fields::Named(n) => {
                let mut v = vec![];
                for x in &n.named {
                    v.push(format!("{}{}: {}", vis, x.ident.as_ref().unwrap(), mono(&x.ty)?));
                }
                format!(" {{ {} }}", v.join(", "))
            }
            Fields::Unnamed(n) => {
                let mut v = vec![];
                for x in &n.unnamed {
                    v.push(format!("{}{}", vis, mono(&x.ty)?));
                }
                format!("({})", v.join(", "))
            }
        })
    };
    match i {
        Item::Struct(s) => {
            let f = fields(&s.fields, "pub ")?;
            let semi = if matches!(s.fields, Fields::Named(_)) { "" } else { ";" };
            Ok(format!("pub struct {}{}{}", new, f, semi))
        }
        Item::Enum(e) => {
            let mut v = vec![];
            for x in &e.variants {
                v.push(format!("{}{}", x.ident, fields(&x.fields, "")?));
            }
            Ok(format!("pub enum {} {{ {} }}", new, v.join(", ")))
        }
        Item::Type(t) => Ok(format!("pub type {} = {};", new, mono(&t.ty)?)),
        _ => Err("not a type".into()),
    }
}
