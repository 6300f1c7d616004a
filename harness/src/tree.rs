//! Neutral trees: the real AST and the reference parser's result are both
//! converted to `T` and compared.
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct P(pub usize, pub usize);

#[derive(Clone, PartialEq)]
pub enum T {
    N(&'static str, Vec<(&'static str, T)>),
    L(Vec<T>),
    S(String),
    I(i64),
    F(u64),
    B(bool),
    O(Option<Box<T>>),
    Pos(P),
}

impl fmt::Debug for T {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            T::N(n, fs) => {
                write!(f, "{}", n)?;
                if !fs.is_empty() {
                    write!(f, "(")?;
                    for (i, (k, v)) in fs.iter().enumerate() {
                        if i > 0 {
                            write!(f, ", ")?;
                        }
                        write!(f, "{}={:?}", k, v)?;
                    }
                    write!(f, ")")?;
                }
                Ok(())
            }
            T::L(v) => f.debug_list().entries(v).finish(),
            T::S(s) => write!(f, "{:?}", s),
            T::I(i) => write!(f, "{}", i),
            T::F(b) => write!(f, "{:?}f", f64::from_bits(*b)),
            T::B(b) => write!(f, "{}", b),
            T::O(None) => write!(f, "-"),
            T::O(Some(x)) => write!(f, "{:?}", x),
            T::Pos(p) => write!(f, "{}:{}", p.0, p.1),
        }
    }
}

impl T {
    /// The same tree with every position dropped.
    pub fn strip(&self) -> T {
        match self {
            T::N(n, fs) => T::N(
                n,
                fs.iter()
                    .filter(|(_, v)| !matches!(v, T::Pos(_)))
                    .map(|(k, v)| (*k, v.strip()))
                    .collect(),
            ),
            T::L(v) => T::L(v.iter().map(|x| x.strip()).collect()),
            T::O(o) => T::O(o.as_ref().map(|x| Box::new(x.strip()))),
            x => x.clone(),
        }
    }
}

pub fn s(x: &str) -> T {
    T::S(x.to_string())
}
pub fn opt(x: Option<T>) -> T {
    T::O(x.map(Box::new))
}
