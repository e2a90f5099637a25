//! Reference values, independent of doodle's own representation choices.
use doodle::decoder::Value;

#[derive(Clone, Debug)]
pub enum RV {
    Bool(bool),
    /// (width in bits, or 0 when unknown; value)
    Int(u8, i128),
    Char(char),
    Opt(Option<Box<RV>>),
    Tup(Vec<RV>),
    Rec(Vec<(String, RV)>),
    Var(String, Box<RV>),
    Seq(Vec<RV>),
    View(usize),
    Phantom,
    /// something with no nominal value (e.g. an error fallback without a value)
    Bad(String),
}

impl PartialEq for RV {
    fn eq(&self, o: &RV) -> bool {
        use RV::*;
        match (self, o) {
            (Bool(a), Bool(b)) => a == b,
            (Int(_, a), Int(_, b)) => a == b,
            (Char(a), Char(b)) => a == b,
            (Opt(a), Opt(b)) => a == b,
            (Tup(a), Tup(b)) => a == b,
            (Rec(a), Rec(b)) => a == b,
            (Var(l, a), Var(m, b)) => l == m && a == b,
            (Seq(a), Seq(b)) => a == b,
            (View(a), View(b)) => a == b,
            (Phantom, Phantom) => true,
            _ => false,
        }
    }
}

pub const MAX_EXPAND: usize = 1 << 20;
thread_local! {
    /// longest lazy sequence the reference evaluator expands
    pub static EXPAND: std::cell::Cell<usize> = const { std::cell::Cell::new(MAX_EXPAND) };
}
pub fn expand_cap() -> usize {
    EXPAND.with(|c| c.get())
}

/// Normalises a decoded value: representation wrappers are dropped, lazy sequences expanded.
pub fn from_value(v: &Value) -> RV {
    use doodle::decoder::seq_kind::SeqKind;
    match v {
        Value::Bool(b) => RV::Bool(*b),
        Value::U8(n) => RV::Int(8, *n as i128),
        Value::U16(n) => RV::Int(16, *n as i128),
        Value::U32(n) => RV::Int(32, *n as i128),
        Value::U64(n) => RV::Int(64, *n as i128),
        Value::Usize(n) => RV::Int(0, *n as i128),
        Value::Char(c) => RV::Char(*c),
        Value::Numeric(n) => RV::Int(0, n.as_raw_value().to_string().parse::<i128>().unwrap_or(i128::MAX)),
        Value::View { offset } => RV::View(*offset),
        Value::PhantomData => RV::Phantom,
        Value::EnumFromTo(r) => {
            if r.len() > MAX_EXPAND {
                return RV::Bad(format!("huge range {r:?}"));
            }
            RV::Seq(r.clone().map(|n| RV::Int(0, n as i128)).collect())
        }
        Value::Option(o) => RV::Opt(o.as_ref().map(|x| Box::new(from_value(x)))),
        Value::Tuple(vs) => RV::Tup(vs.iter().map(from_value).collect()),
        Value::Record(fs) => RV::Rec(fs.iter().map(|(l, v)| (l.to_string(), from_value(v))).collect()),
        Value::Variant(l, v) => RV::Var(l.to_string(), Box::new(from_value(v))),
        Value::Seq(s) => match s {
            SeqKind::Strict(vs) => RV::Seq(vs.iter().map(from_value).collect()),
            SeqKind::Dup(n, v) => {
                if *n > MAX_EXPAND {
                    return RV::Bad(format!("huge dup {n}"));
                }
                let x = from_value(v);
                RV::Seq(vec![x; *n])
            }
        },
        Value::Mapped(_, v) => from_value(v),
        Value::Branch(_, v) => from_value(v),
        Value::Permit(Ok(v)) => from_value(v),
        Value::Permit(Err(Some(v))) => from_value(v),
        Value::Permit(Err(None)) => RV::Bad("fallback without value".into()),
    }
}

impl std::fmt::Display for RV {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            RV::Bool(b) => write!(f, "{b}"),
            RV::Int(_, n) => write!(f, "{n}"),
            RV::Char(c) => write!(f, "{c:?}"),
            RV::Opt(None) => write!(f, "None"),
            RV::Opt(Some(v)) => write!(f, "Some({v})"),
            RV::Tup(vs) => {
                write!(f, "(")?;
                for v in vs {
                    write!(f, "{v},")?;
                }
                write!(f, ")")
            }
            RV::Rec(vs) => {
                write!(f, "{{")?;
                for (l, v) in vs {
                    write!(f, "{l}:{v},")?;
                }
                write!(f, "}}")
            }
            RV::Var(l, v) => write!(f, "`{l}({v})"),
            RV::Seq(vs) => {
                write!(f, "[")?;
                for v in vs {
                    write!(f, "{v},")?;
                }
                write!(f, "]")
            }
            RV::View(n) => write!(f, "View@{n}"),
            RV::Phantom => write!(f, "Phantom"),
            RV::Bad(s) => write!(f, "BAD<{s}>"),
        }
    }
}
