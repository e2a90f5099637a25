//! The expression space shared by the expression checks: a typed table of every operator of
//! the expression language (with every lambda / pattern shape it is used with), and the
//! complete bounded value space its arguments range over.
use crate::rv::RV;
use doodle::{Arith, BaseType, Expr, IntRel, Label, Pattern, TypeHint, UnaryOp, ValueType};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum T {
    B,
    I(u8),
    /// a U32 used as an index, start, length or count: small values only
    Ix,
    C,
    S(Box<T>),
    P(Vec<T>),
    R,
    V,
    O(Box<T>),
}

impl T {
    pub fn vt(&self) -> ValueType {
        match self {
            T::B => ValueType::Base(BaseType::Bool),
            T::I(8) => ValueType::U8,
            T::I(16) => ValueType::U16,
            T::I(64) => ValueType::U64,
            T::I(_) | T::Ix => ValueType::U32,
            T::C => ValueType::Base(BaseType::Char),
            T::S(t) => ValueType::Seq(Box::new(t.vt())),
            T::P(ts) => ValueType::Tuple(ts.iter().map(T::vt).collect()),
            T::R => ValueType::Record(vec![("a".into(), ValueType::U8), ("b".into(), ValueType::U16)]),
            T::V => ValueType::Union(
                [
                    (Label::from("A"), ValueType::U8),
                    (Label::from("B"), ValueType::Tuple(vec![ValueType::U8, ValueType::U16])),
                    (Label::from("C"), ValueType::Tuple(vec![])),
                ]
                .into_iter()
                .collect(),
            ),
            T::O(t) => ValueType::Option(Box::new(t.vt())),
        }
    }
}
pub fn s8() -> T {
    T::S(bx(T::I(8)))
}
pub fn pair() -> T {
    T::P(vec![T::I(8), T::I(16)])
}
pub fn bx<X>(x: X) -> Box<X> {
    Box::new(x)
}

type Build = Rc<dyn Fn(&[Expr]) -> Expr>;
#[derive(Clone)]
pub struct Op {
    pub name: String,
    pub args: Vec<T>,
    pub out: T,
    pub build: Build,
}

pub fn v(n: &'static str) -> Expr {
    Expr::Var(n.into())
}
pub fn bo(e: Expr) -> Box<Expr> {
    Box::new(e)
}
pub fn lit(w: u8, n: u64) -> Expr {
    match w {
        8 => Expr::U8(n as u8),
        16 => Expr::U16(n as u16),
        32 => Expr::U32(n as u32),
        _ => Expr::U64(n),
    }
}
fn lam(n: &'static str, e: Expr) -> Box<Expr> {
    bo(Expr::Lambda(n.into(), bo(e)))
}
fn proj(e: Expr, i: usize) -> Expr {
    Expr::TupleProj(bo(e), i)
}
fn add(a: Expr, b: Expr) -> Expr {
    Expr::Arith(Arith::Add, bo(a), bo(b))
}
fn hint(t: T) -> TypeHint {
    TypeHint::from(t.vt())
}
fn mat(h: Expr, bs: Vec<(Pattern, Expr)>) -> Expr {
    Expr::Match(bo(h), bs)
}
fn bind(n: &'static str) -> Pattern {
    Pattern::Binding(n.into())
}

pub fn ops() -> Vec<Op> {
    let mut o: Vec<Op> = vec![];
    let mut op = |name: String, args: Vec<T>, out: T, build: Build| o.push(Op { name, args, out, build });
    let ar = |a: Arith| move |x: &[Expr]| Expr::Arith(a, bo(x[0].clone()), bo(x[1].clone()));
    for w in [8u8, 16, 32, 64] {
        for a in [
            Arith::Add,
            Arith::Sub,
            Arith::Mul,
            Arith::Div,
            Arith::Rem,
            Arith::BitAnd,
            Arith::BitOr,
            Arith::Shl,
            Arith::Shr,
        ] {
            op(format!("{a:?}{w}"), vec![T::I(w), T::I(w)], T::I(w), Rc::new(ar(a)));
        }
        for r in [IntRel::Eq, IntRel::Ne, IntRel::Lt, IntRel::Gt, IntRel::Lte, IntRel::Gte] {
            op(
                format!("{r:?}{w}"),
                vec![T::I(w), T::I(w)],
                T::B,
                Rc::new(move |x| Expr::IntRel(r, bo(x[0].clone()), bo(x[1].clone()))),
            );
        }
        for u in [UnaryOp::IntSucc, UnaryOp::IntPred] {
            op(format!("{u:?}{w}"), vec![T::I(w)], T::I(w), Rc::new(move |x| Expr::Unary(u, bo(x[0].clone()))));
        }
        op(format!("AsU8<{w}"), vec![T::I(w)], T::I(8), Rc::new(|x| Expr::AsU8(bo(x[0].clone()))));
        op(format!("AsU16<{w}"), vec![T::I(w)], T::I(16), Rc::new(|x| Expr::AsU16(bo(x[0].clone()))));
        op(format!("AsU32<{w}"), vec![T::I(w)], T::I(32), Rc::new(|x| Expr::AsU32(bo(x[0].clone()))));
        op(format!("AsU64<{w}"), vec![T::I(w)], T::I(64), Rc::new(|x| Expr::AsU64(bo(x[0].clone()))));
        op(format!("AsChar<{w}"), vec![T::I(w)], T::C, Rc::new(|x| Expr::AsChar(bo(x[0].clone()))));
        // integer patterns: exact, ranges, open ranges, default
        let max = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
        let pat = move |n: u64| match w {
            8 => Pattern::U8(n as u8),
            16 => Pattern::U16(n as u16),
            32 => Pattern::U32(n as u32),
            _ => Pattern::U64(n),
        };
        op(
            format!("match-exact{w}"),
            vec![T::I(w)],
            T::I(8),
            Rc::new(move |x| {
                mat(
                    x[0].clone(),
                    vec![(pat(0), Expr::U8(10)), (pat(2), Expr::U8(12)), (pat(max), Expr::U8(13)), (Pattern::Wildcard, Expr::U8(99))],
                )
            }),
        );
        op(
            format!("match-range{w}"),
            vec![T::I(w)],
            T::I(8),
            Rc::new(move |x| {
                mat(
                    x[0].clone(),
                    vec![
                        (Pattern::Int(doodle::bounds::Bounds::new(1, 2)), Expr::U8(10)),
                        (Pattern::Int(doodle::bounds::Bounds::at_least(5)), Expr::U8(11)),
                        (bind("k"), Expr::AsU8(bo(v("k")))),
                    ],
                )
            }),
        );
        op(
            format!("match-z{w}"),
            vec![T::I(w)],
            T::I(8),
            Rc::new(move |x| {
                mat(
                    x[0].clone(),
                    vec![
                        (Pattern::z_const(1), Expr::U8(10)),
                        (Pattern::z_range(2u64, 4u64), Expr::U8(11)),
                        (Pattern::z_const(max), Expr::U8(12)),
                        (Pattern::z_range(max / 2, max - 1), Expr::U8(13)),
                        (Pattern::Wildcard, Expr::U8(99)),
                    ],
                )
            }),
        );
        op(
            format!("match-partial{w}"),
            vec![T::I(w)],
            T::I(8),
            Rc::new(move |x| mat(x[0].clone(), vec![(pat(1), Expr::U8(10)), (pat(3), Expr::U8(12))])),
        );
        op(
            format!("EnumFromTo{w}"),
            vec![T::I(w), T::I(w)],
            T::S(bx(T::I(w))),
            Rc::new(|x| Expr::EnumFromTo(bo(x[0].clone()), bo(x[1].clone()))),
        );
    }
    for a in [Arith::BoolAnd, Arith::BoolOr] {
        op(format!("{a:?}"), vec![T::B, T::B], T::B, Rc::new(ar(a)));
    }
    op("BoolNot".into(), vec![T::B], T::B, Rc::new(|x| Expr::Unary(UnaryOp::BoolNot, bo(x[0].clone()))));
    op(
        "match-bool".into(),
        vec![T::B],
        T::I(8),
        Rc::new(|x| mat(x[0].clone(), vec![(Pattern::Bool(true), Expr::U8(1)), (Pattern::Bool(false), Expr::U8(0))])),
    );
    op(
        "match-char".into(),
        vec![T::C],
        T::I(8),
        Rc::new(|x| mat(x[0].clone(), vec![(Pattern::Char('a'), Expr::U8(1)), (Pattern::Wildcard, Expr::U8(0))])),
    );
    // byte order
    for n in [2usize, 4, 8] {
        let args = vec![T::P(vec![T::I(8); n])];
        let out = T::I(8 * n as u8);
        match n {
            2 => {
                op("U16Be".into(), args.clone(), out.clone(), Rc::new(|x| Expr::U16Be(bo(x[0].clone()))));
                op("U16Le".into(), args, out, Rc::new(|x| Expr::U16Le(bo(x[0].clone()))));
            }
            4 => {
                op("U32Be".into(), args.clone(), out.clone(), Rc::new(|x| Expr::U32Be(bo(x[0].clone()))));
                op("U32Le".into(), args, out, Rc::new(|x| Expr::U32Le(bo(x[0].clone()))));
            }
            _ => {
                op("U64Be".into(), args.clone(), out.clone(), Rc::new(|x| Expr::U64Be(bo(x[0].clone()))));
                op("U64Le".into(), args, out, Rc::new(|x| Expr::U64Le(bo(x[0].clone()))));
            }
        }
    }
    // structure
    op("tuple".into(), vec![T::I(8), T::I(16)], pair(), Rc::new(|x| Expr::Tuple(x.to_vec())));
    op("proj0".into(), vec![pair()], T::I(8), Rc::new(|x| proj(x[0].clone(), 0)));
    op("proj1".into(), vec![pair()], T::I(16), Rc::new(|x| proj(x[0].clone(), 1)));
    op(
        "record".into(),
        vec![T::I(8), T::I(16)],
        T::R,
        Rc::new(|x| Expr::Record(vec![("a".into(), x[0].clone()), ("b".into(), x[1].clone())])),
    );
    op("field-a".into(), vec![T::R], T::I(8), Rc::new(|x| Expr::RecordProj(bo(x[0].clone()), "a".into())));
    op("field-b".into(), vec![T::R], T::I(16), Rc::new(|x| Expr::RecordProj(bo(x[0].clone()), "b".into())));
    op("variant-A".into(), vec![T::I(8)], T::V, Rc::new(|x| Expr::Variant("A".into(), bo(x[0].clone()))));
    op("variant-B".into(), vec![pair()], T::V, Rc::new(|x| Expr::Variant("B".into(), bo(x[0].clone()))));
    op(
        "match-variant".into(),
        vec![T::V],
        T::I(16),
        Rc::new(|x| {
            mat(
                x[0].clone(),
                vec![
                    (Pattern::Variant("A".into(), bx(Pattern::U8(1))), Expr::U16(500)),
                    (Pattern::Variant("A".into(), bx(bind("k"))), Expr::AsU16(bo(v("k")))),
                    (Pattern::Variant("B".into(), bx(Pattern::Tuple(vec![Pattern::U8(0), bind("m")]))), v("m")),
                    (
                        Pattern::Variant("B".into(), bx(Pattern::Tuple(vec![bind("k"), bind("m")]))),
                        add(v("m"), Expr::AsU16(bo(v("k")))),
                    ),
                    (Pattern::Variant("C".into(), bx(Pattern::Wildcard)), Expr::U16(7)),
                ],
            )
        }),
    );
    op("some".into(), vec![T::I(8)], T::O(bx(T::I(8))), Rc::new(|x| Expr::LiftOption(Some(bo(x[0].clone())))));
    op(
        "match-option".into(),
        vec![T::O(bx(T::I(8)))],
        T::I(8),
        Rc::new(|x| {
            mat(
                x[0].clone(),
                vec![
                    (Pattern::Option(Some(bx(Pattern::U8(2)))), Expr::U8(200)),
                    (Pattern::Option(Some(bx(bind("k")))), v("k")),
                    (Pattern::Option(None), Expr::U8(255)),
                ],
            )
        }),
    );
    op(
        "match-pair".into(),
        vec![pair()],
        T::I(16),
        Rc::new(|x| {
            mat(
                x[0].clone(),
                vec![
                    (Pattern::Tuple(vec![Pattern::U8(0), Pattern::U16(1)]), Expr::U16(9)),
                    (Pattern::Tuple(vec![Pattern::Wildcard, Pattern::U16(2)]), Expr::U16(8)),
                    (Pattern::Tuple(vec![bind("a"), bind("b")]), add(Expr::AsU16(bo(v("a"))), v("b"))),
                ],
            )
        }),
    );
    op(
        "destructure".into(),
        vec![pair()],
        T::P(vec![T::I(16), T::I(8)]),
        Rc::new(|x| {
            Expr::Destructure(
                bo(x[0].clone()),
                Pattern::Tuple(vec![bind("a"), bind("b")]),
                bo(Expr::Tuple(vec![v("b"), v("a")])),
            )
        }),
    );
    op(
        "shadow".into(),
        vec![T::I(8), T::I(8)],
        T::I(8),
        Rc::new(|x| {
            Expr::Destructure(
                bo(x[0].clone()),
                bind("k"),
                bo(Expr::Destructure(
                    bo(mat(x[1].clone(), vec![(bind("k"), v("k"))])),
                    bind("m"),
                    bo(Expr::Arith(Arith::BitOr, bo(v("k")), bo(v("m")))),
                )),
            )
        }),
    );
    // sequences, for several element types
    for t in [T::I(8), T::I(16), T::I(32), T::I(64), pair(), s8(), T::R] {
        let s = T::S(bx(t.clone()));
        op(format!("seq2 {t:?}"), vec![t.clone(), t.clone()], s.clone(), Rc::new(|x| Expr::Seq(x.to_vec())));
        op(format!("length {t:?}"), vec![s.clone()], T::I(32), Rc::new(|x| Expr::SeqLength(bo(x[0].clone()))));
        op(
            format!("index {t:?}"),
            vec![s.clone(), T::Ix],
            t.clone(),
            Rc::new(|x| Expr::SeqIx(bo(x[0].clone()), bo(x[1].clone()))),
        );
        op(
            format!("subseq {t:?}"),
            vec![s.clone(), T::Ix, T::Ix],
            s.clone(),
            Rc::new(|x| Expr::SubSeq(bo(x[0].clone()), bo(x[1].clone()), bo(x[2].clone()))),
        );
        op(
            format!("inflate {t:?}"),
            vec![s.clone(), T::Ix, T::Ix],
            s.clone(),
            Rc::new(|x| Expr::SubSeqInflate(bo(x[0].clone()), bo(x[1].clone()), bo(x[2].clone()))),
        );
        op(
            format!("append {t:?}"),
            vec![s.clone(), s.clone()],
            s.clone(),
            Rc::new(|x| Expr::Append(bo(x[0].clone()), bo(x[1].clone()))),
        );
        op(
            format!("dup {t:?}"),
            vec![T::Ix, t.clone()],
            s.clone(),
            Rc::new(|x| Expr::Dup(bo(x[0].clone()), bo(x[1].clone()))),
        );
        op(
            format!("flatmap-twice {t:?}"),
            vec![s.clone()],
            s.clone(),
            Rc::new(|x| Expr::FlatMap(lam("z", Expr::Seq(vec![v("z"), v("z")])), bo(x[0].clone()))),
        );
        op(
            format!("flatmap-dup {t:?}"),
            vec![s.clone(), T::Ix],
            s.clone(),
            Rc::new(|x| Expr::FlatMap(lam("z", Expr::Dup(bo(x[1].clone()), bo(v("z")))), bo(x[0].clone()))),
        );
        op(
            format!("match-seq {t:?}"),
            vec![s.clone()],
            s.clone(),
            Rc::new(|x| {
                mat(
                    x[0].clone(),
                    vec![
                        (Pattern::Seq(vec![]), Expr::Seq(vec![])),
                        (Pattern::Seq(vec![bind("a")]), Expr::Seq(vec![v("a"), v("a")])),
                        (Pattern::Seq(vec![bind("a"), bind("b")]), Expr::Seq(vec![v("b"), v("a")])),
                        (bind("q"), v("q")),
                    ],
                )
            }),
        );
        op(
            format!("fold-count {t:?}"),
            vec![s.clone()],
            T::I(8),
            Rc::new(|x| {
                Expr::LeftFold(
                    lam("z", add(proj(v("z"), 0), Expr::U8(1))),
                    bo(Expr::U8(0)),
                    hint(T::I(8)),
                    bo(x[0].clone()),
                )
            }),
        );
        {
            let (s2, t2) = (s.clone(), t.clone());
            op(
                format!("fold-reverse {t:?}"),
                vec![s.clone()],
                s.clone(),
                Rc::new(move |x| {
                    Expr::LeftFold(
                        lam("z", Expr::Append(bo(Expr::Seq(vec![proj(v("z"), 1)])), bo(proj(v("z"), 0)))),
                        bo(Expr::Seq(vec![])),
                        hint(s2.clone()),
                        bo(x[0].clone()),
                    )
                }),
            );
            op(
                format!("flatmaplist-prefix {t:?}"),
                vec![s.clone()],
                s.clone(),
                Rc::new(move |x| {
                    Expr::FlatMapList(
                        lam(
                            "z",
                            mat(
                                Expr::SeqLength(bo(proj(v("z"), 0))),
                                vec![
                                    (Pattern::U32(2), Expr::Dup(bo(Expr::U32(2)), bo(proj(v("z"), 1)))),
                                    (Pattern::U32(4), Expr::Seq(vec![])),
                                    (
                                        Pattern::U32(1),
                                        Expr::Append(bo(proj(v("z"), 0)), bo(Expr::Seq(vec![proj(v("z"), 1)]))),
                                    ),
                                    (Pattern::Wildcard, Expr::Seq(vec![proj(v("z"), 1)])),
                                ],
                            ),
                        ),
                        hint(t2.clone()),
                        bo(x[0].clone()),
                    )
                }),
            );
            op(
                format!("flatmapaccum-last {t:?}"),
                vec![s.clone(), t.clone()],
                s.clone(),
                Rc::new({
                    let t2 = t.clone();
                    move |x| {
                        Expr::FlatMapAccum(
                            lam("z", Expr::Tuple(vec![proj(v("z"), 1), Expr::Seq(vec![proj(v("z"), 0), proj(v("z"), 1)])])),
                            bo(x[1].clone()),
                            hint(t2.clone()),
                            bo(x[0].clone()),
                        )
                    }
                }),
            );
        }
    }
    op("seq0".into(), vec![], s8(), Rc::new(|_| Expr::Seq(vec![])));
    for w in [8u8, 16, 32, 64] {
        let (t, s) = (T::I(w), T::S(bx(T::I(w))));
        op(
            format!("flatmap-succ{w}"),
            vec![s.clone()],
            s.clone(),
            Rc::new(move |x| Expr::FlatMap(lam("z", Expr::Seq(vec![add(v("z"), lit(w, 1))])), bo(x[0].clone()))),
        );
        op(
            format!("flatmap-filter{w}"),
            vec![s.clone(), t.clone()],
            s.clone(),
            Rc::new(move |x| {
                Expr::FlatMap(
                    lam(
                        "z",
                        mat(
                            Expr::IntRel(IntRel::Lt, bo(v("z")), bo(x[1].clone())),
                            vec![(Pattern::Bool(true), Expr::Seq(vec![v("z")])), (Pattern::Bool(false), Expr::Seq(vec![]))],
                        ),
                    ),
                    bo(x[0].clone()),
                )
            }),
        );
        op(
            format!("flatmap-range{w}"),
            vec![s.clone()],
            s.clone(),
            Rc::new(move |x| Expr::FlatMap(lam("z", Expr::EnumFromTo(bo(lit(w, 0)), bo(v("z")))), bo(x[0].clone()))),
        );
        op(
            format!("flatmap-exact{w}"),
            vec![s.clone()],
            s8(),
            Rc::new(move |x| {
                let p = match w {
                    8 => Pattern::U8(1),
                    16 => Pattern::U16(1),
                    32 => Pattern::U32(1),
                    _ => Pattern::U64(1),
                };
                Expr::FlatMap(
                    lam("z", Expr::Seq(vec![mat(v("z"), vec![(p, Expr::U8(1)), (Pattern::Wildcard, Expr::U8(0))])])),
                    bo(x[0].clone()),
                )
            }),
        );
        op(
            format!("flatmap-char{w}"),
            vec![s.clone()],
            T::S(bx(T::C)),
            Rc::new(move |x| Expr::FlatMap(lam("z", Expr::Seq(vec![Expr::AsChar(bo(v("z")))])), bo(x[0].clone()))),
        );
        op(
            format!("fold-sum{w}"),
            vec![s.clone(), t.clone()],
            t.clone(),
            Rc::new(move |x| {
                Expr::LeftFold(
                    lam("z", add(proj(v("z"), 0), proj(v("z"), 1))),
                    bo(x[1].clone()),
                    hint(T::I(w)),
                    bo(x[0].clone()),
                )
            }),
        );
        op(
            format!("flatmapaccum-sums{w}"),
            vec![s.clone()],
            s.clone(),
            Rc::new(move |x| {
                Expr::FlatMapAccum(
                    lam(
                        "z",
                        Expr::Destructure(
                            bo(add(proj(v("z"), 0), proj(v("z"), 1))),
                            bind("n"),
                            bo(Expr::Tuple(vec![v("n"), Expr::Seq(vec![v("n")])])),
                        ),
                    ),
                    bo(lit(w, 0)),
                    hint(T::I(w)),
                    bo(x[0].clone()),
                )
            }),
        );
        op(
            format!("flatmapaccum-ranges{w}"),
            vec![s.clone()],
            s.clone(),
            Rc::new(move |x| {
                Expr::FlatMapAccum(
                    lam("z", Expr::Tuple(vec![proj(v("z"), 1), Expr::EnumFromTo(bo(proj(v("z"), 0)), bo(proj(v("z"), 1)))])),
                    bo(lit(w, 0)),
                    hint(T::I(w)),
                    bo(x[0].clone()),
                )
            }),
        );
        op(
            format!("flatmaplist-ranges{w}"),
            vec![s.clone()],
            s.clone(),
            Rc::new(move |x| {
                Expr::FlatMapList(
                    lam("z", Expr::EnumFromTo(bo(lit(w, 0)), bo(proj(v("z"), 1)))),
                    hint(T::I(w)),
                    bo(x[0].clone()),
                )
            }),
        );
        for sorted in [true, false] {
            op(
                format!("find{w}-{sorted}"),
                vec![s.clone(), t.clone()],
                T::O(bx(t.clone())),
                Rc::new(move |x| Expr::FindByKey(sorted, lam("z", v("z")), bo(x[1].clone()), bo(x[0].clone()))),
            );
        }
    }
    for sorted in [true, false] {
        op(
            format!("find-pair0-{sorted}"),
            vec![T::S(bx(pair())), T::I(8)],
            T::O(bx(pair())),
            Rc::new(move |x| Expr::FindByKey(sorted, lam("z", proj(v("z"), 0)), bo(x[1].clone()), bo(x[0].clone()))),
        );
        op(
            format!("find-pair1-{sorted}"),
            vec![T::S(bx(pair())), T::I(16)],
            T::O(bx(pair())),
            Rc::new(move |x| Expr::FindByKey(sorted, lam("z", proj(v("z"), 1)), bo(x[1].clone()), bo(x[0].clone()))),
        );
        op(
            format!("find-field-{sorted}"),
            vec![T::S(bx(T::R)), T::I(8)],
            T::O(bx(T::R)),
            Rc::new(move |x| {
                Expr::FindByKey(sorted, lam("z", Expr::RecordProj(bo(v("z")), "a".into())), bo(x[1].clone()), bo(x[0].clone()))
            }),
        );
    }
    op(
        "flatten".into(),
        vec![T::S(bx(s8()))],
        s8(),
        Rc::new(|x| Expr::FlatMap(lam("z", v("z")), bo(x[0].clone()))),
    );
    op(
        "nested".into(),
        vec![s8(), s8()],
        s8(),
        Rc::new(|x| {
            Expr::FlatMap(
                lam("z", Expr::FlatMap(lam("y", Expr::Seq(vec![Expr::Arith(Arith::BitOr, bo(v("z")), bo(v("y")))])), bo(x[1].clone()))),
                bo(x[0].clone()),
            )
        }),
    );
    o
}

/// one point of the value space: a closed expression denoting it in one representation
#[derive(Clone)]
pub struct Pt {
    pub e: Expr,
    pub rv: RV,
}

pub struct Space {
    /// longest strict sequence
    pub len: usize,
    pub alpha: u64,
    pub ix: u32,
}

fn ints(w: u8) -> Vec<u64> {
    let max = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    let mut r = vec![0, 1, 2, 3, 5, (w as u64) - 1, w as u64, max / 2, max / 2 + 1, max - 1, max];
    if w == 16 || w == 32 {
        r.extend([97, 255, 256, 0xD7FF, 0xD800, 0xDFFF, 0xE000]);
    }
    if w > 16 {
        r.extend([65535, 65536, 0x10FFFF, 0x110000]);
    }
    if w > 32 {
        r.extend([u32::MAX as u64, 1 << 32]);
    }
    if w == 8 {
        r.extend([97, 128]);
    }
    r.sort();
    r.dedup();
    r
}

/// all points of a type; `small` keeps integers to the sequence alphabet
pub fn points(t: &T, sp: &Space) -> Vec<Pt> {
    let pt = |e: Expr| {
        let rv = crate::refsem::eval(&e, &None).expect("closed literal");
        Pt { e, rv }
    };
    match t {
        T::B => vec![pt(Expr::Bool(false)), pt(Expr::Bool(true))],
        T::I(w) => ints(*w).into_iter().map(|n| pt(lit(*w, n))).collect(),
        T::Ix => (0..=sp.ix).map(|n| pt(Expr::U32(n))).collect(),
        T::C => ['a', '\0', '\u{10ffff}'].iter().map(|c| pt(Expr::AsChar(bo(Expr::U32(*c as u32))))).collect(),
        T::P(ts) if ts.len() > 2 || ts.iter().all(|t| *t == T::I(8)) => {
            // byte tuples: each position in turn carries a marker
            let n = ts.len();
            let mut r = vec![pt(Expr::Tuple((0..n).map(|i| Expr::U8(17 * (i as u8 + 1))).collect()))];
            for i in 0..n {
                for b in [1u8, 0x80, 0xff] {
                    r.push(pt(Expr::Tuple((0..n).map(|j| Expr::U8(if i == j { b } else { 0 })).collect())));
                }
            }
            r
        }
        T::P(_) => {
            let mut r = vec![];
            for a in [0u8, 1, 2, 255] {
                for b in [0u16, 1, 2, 300, 65535] {
                    r.push(pt(Expr::Tuple(vec![Expr::U8(a), Expr::U16(b)])));
                }
            }
            r
        }
        T::R => {
            let mut r = vec![];
            for a in [0u8, 1, 255] {
                for b in [0u16, 1, 300] {
                    r.push(pt(Expr::Record(vec![("a".into(), Expr::U8(a)), ("b".into(), Expr::U16(b))])));
                }
            }
            r
        }
        T::V => {
            let mut r = vec![pt(Expr::Variant("C".into(), bo(Expr::Tuple(vec![]))))];
            for a in [0u8, 1, 255] {
                r.push(pt(Expr::Variant("A".into(), bo(Expr::U8(a)))));
                r.push(pt(Expr::Variant("B".into(), bo(Expr::Tuple(vec![Expr::U8(a), Expr::U16(300)])))));
            }
            r
        }
        T::O(t) => {
            let mut r = vec![pt(Expr::LiftOption(None))];
            r.extend(elems(t, sp).into_iter().map(|e| pt(Expr::LiftOption(Some(bo(e))))));
            r
        }
        T::S(t) => {
            let es = elems(t, sp);
            let max = if matches!(**t, T::I(8)) { sp.len } else { sp.len.min(3) };
            let mut r = vec![];
            let mut layer: Vec<Vec<Expr>> = vec![vec![]];
            for _ in 0..=max {
                let mut next = vec![];
                for s in &layer {
                    r.push(pt(Expr::Seq(s.clone())));
                    for e in &es {
                        let mut s2 = s.clone();
                        s2.push(e.clone());
                        next.push(s2);
                    }
                }
                layer = next;
            }
            for e in &es {
                for n in 0..=max as u32 + 1 {
                    r.push(pt(Expr::Dup(bo(Expr::U32(n)), bo(e.clone()))));
                }
            }
            if let T::I(w) = **t {
                for a in 0..=3u64 {
                    for b in 0..=4u64 {
                        r.push(pt(Expr::EnumFromTo(bo(lit(w, a)), bo(lit(w, b)))));
                    }
                }
            }
            r
        }
    }
}

fn elems(t: &T, sp: &Space) -> Vec<Expr> {
    match t {
        T::I(8) => (0..sp.alpha).map(|n| lit(8, n)).collect(),
        T::I(w) => vec![lit(*w, 0), lit(*w, 1), lit(*w, if *w == 16 { 300 } else { 70000 })],
        T::R => vec![
            Expr::Record(vec![("a".into(), Expr::U8(0)), ("b".into(), Expr::U16(3))]),
            Expr::Record(vec![("a".into(), Expr::U8(1)), ("b".into(), Expr::U16(2))]),
        ],
        T::S(_) => vec![
            Expr::Seq(vec![]),
            Expr::Seq(vec![Expr::U8(1), Expr::U8(2)]),
            Expr::Dup(bo(Expr::U32(2)), bo(Expr::U8(3))),
            Expr::EnumFromTo(bo(Expr::U8(0)), bo(Expr::U8(3))),
        ],
        _ => vec![
            Expr::Tuple(vec![Expr::U8(0), Expr::U16(2)]),
            Expr::Tuple(vec![Expr::U8(1), Expr::U16(1)]),
            Expr::Tuple(vec![Expr::U8(2), Expr::U16(0)]),
        ],
    }
}
