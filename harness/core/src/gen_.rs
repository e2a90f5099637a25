//! Exhaustive enumeration of well-typed formats, by nesting level.
use crate::analysis::Item;
use doodle::byte_set::ByteSet;
use doodle::helper::*;
use doodle::{
    BaseKind, BaseType, DynFormat, Expr, Format, FormatModule, Label, Pattern, StyleHint, ValueType,
    ViewExpr,
};
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    Bool,
    U8,
    U16,
    U32,
    U64,
    /// position: an integer of unconstrained width
    Num,
    Opt(Box<Ty>),
    Seq(Box<Ty>),
    Tup(Vec<Ty>),
    Rec(Vec<(String, Ty)>),
    Var(BTreeMap<String, Ty>),
    Phantom,
    View,
    /// no constraint (never produced, or empty)
    Any,
}

impl Ty {
    pub fn unit() -> Ty {
        Ty::Tup(vec![])
    }
    fn seq(t: Ty) -> Ty {
        Ty::Seq(Box::new(t))
    }
    pub fn to_vt(&self) -> Option<ValueType> {
        Some(match self {
            Ty::Bool => ValueType::Base(BaseType::Bool),
            Ty::U8 => ValueType::Base(BaseType::U8),
            Ty::U16 => ValueType::Base(BaseType::U16),
            Ty::U32 => ValueType::Base(BaseType::U32),
            Ty::U64 => ValueType::Base(BaseType::U64),
            Ty::Opt(t) => ValueType::Option(Box::new(t.to_vt()?)),
            Ty::Seq(t) => ValueType::Seq(Box::new(t.to_vt()?)),
            Ty::Tup(ts) => ValueType::Tuple(ts.iter().map(|t| t.to_vt()).collect::<Option<_>>()?),
            _ => return None,
        })
    }
    /// fully determined (usable where types must coincide)
    fn solid(&self) -> bool {
        match self {
            Ty::Any | Ty::Phantom | Ty::View | Ty::Num => false,
            Ty::Opt(t) | Ty::Seq(t) => t.solid(),
            Ty::Tup(ts) => ts.iter().all(|t| t.solid()),
            Ty::Rec(ts) => ts.iter().all(|t| t.1.solid()),
            Ty::Var(ts) => ts.values().all(|t| t.solid()),
            _ => true,
        }
    }
    /// some constant of this type
    fn konst(&self) -> Option<Expr> {
        Some(match self {
            Ty::Bool => Expr::Bool(true),
            Ty::U8 => Expr::U8(9),
            Ty::U16 => Expr::U16(9),
            Ty::U32 => Expr::U32(9),
            Ty::U64 => Expr::U64(9),
            Ty::Opt(_) => Expr::LiftOption(None),
            Ty::Seq(_) => Expr::Seq(vec![]),
            Ty::Tup(ts) => Expr::Tuple(ts.iter().map(|t| t.konst()).collect::<Option<_>>()?),
            Ty::Rec(ts) => Expr::Record(
                ts.iter()
                    .map(|(l, t)| Some((Label::Owned(l.clone()), t.konst()?)))
                    .collect::<Option<_>>()?,
            ),
            Ty::Var(m) => {
                let (l, t) = m.iter().next()?;
                Expr::Variant(Label::Owned(l.clone()), Box::new(t.konst()?))
            }
            _ => return None,
        })
    }
}

#[derive(Clone, Debug)]
pub struct G {
    pub f: Format,
    pub ty: Ty,
}

fn g(f: Format, ty: Ty) -> G {
    G { f, ty }
}
pub fn byte(bs: &[u8]) -> Format {
    Format::Byte(ByteSet::from_iter(bs.iter().copied()))
}
pub fn any() -> Format {
    Format::ANY_BYTE
}
fn u8s(v: &[u8]) -> Expr {
    Expr::Seq(v.iter().map(|b| Expr::U8(*b)).collect())
}
fn bx<T>(t: T) -> Box<T> {
    Box::new(t)
}
fn var_ty(l: &str, t: Ty) -> Ty {
    Ty::Var(BTreeMap::from([(l.to_string(), t)]))
}

pub fn atoms() -> Vec<G> {
    vec![
        g(byte(&[0]), Ty::U8),
        g(byte(&[1]), Ty::U8),
        g(byte(&[0, 1]), Ty::U8),
        g(any(), Ty::U8),
        g(Format::Byte(!ByteSet::from_iter([0u8])), Ty::U8),
        g(Format::EMPTY, Ty::unit()),
        g(compute(Expr::U8(1)), Ty::U8),
        g(Format::Pos, Ty::Num),
        g(Format::Fail, Ty::Any),
        g(Format::EndOfInput, Ty::unit()),
        g(Format::Align(2), Ty::unit()),
        g(Format::Align(3), Ty::unit()),
        g(Format::SkipRemainder, Ty::unit()),
        g(compute(u8s(&[0, 1])), Ty::seq(Ty::U8)),
        g(base::u16be(), Ty::U16),
        g(base::u16le(), Ty::U16),
        g(Format::Phantom(bx(any())), Ty::Phantom),
    ]
}

pub struct Gen {
    pub module: FormatModule,
    pub items: Vec<Item>,
    /// problems met while defining named items (a well-typed definition was refused)
    pub refused: Vec<(String, String)>,
    pub with_items: bool,
    /// nesting level of the format being visited
    pub level: usize,
}

impl Default for Gen {
    fn default() -> Self {
        Self::new()
    }
}

impl Gen {
    pub fn new() -> Gen {
        Gen { module: FormatModule::new(), items: vec![], refused: vec![], with_items: true, level: 0 }
    }

    pub fn define(
        &mut self,
        args: Vec<(&'static str, ValueType)>,
        views: Vec<&'static str>,
        f: &Format,
    ) -> Option<usize> {
        let name = format!("item{}", self.items.len());
        let r = crate::report::guarded(|| {
            self.module
                .define_format_args_views(
                    name,
                    args.iter().map(|(l, t)| (Label::Borrowed(*l), t.clone())).collect(),
                    views.iter().map(|l| Label::Borrowed(*l)).collect(),
                    f.clone(),
                )
                .get_level()
        });
        match r {
            Ok(level) => {
                self.items.push(Item {
                    args: args.iter().map(|(l, t)| (l.to_string(), t.clone())).collect(),
                    views: views.iter().map(|s| s.to_string()).collect(),
                });
                assert_eq!(level + 1, self.items.len());
                Some(level)
            }
            Err(e) => {
                self.refused.push((format!("{f:?}"), e));
                None
            }
        }
    }

    /// every one-step context around `x`
    pub fn unary(&mut self, x: &G, out: &mut Vec<G>) {
        let f = &x.f;
        let t = &x.ty;
        let o = &mut *out;
        let bf = || bx(f.clone());
        // --- labels, repetition
        o.push(g(fmt_variant("A", f.clone()), var_ty("A", t.clone())));
        let st = Ty::seq(t.clone());
        o.push(g(repeat(f.clone()), st.clone()));
        o.push(g(repeat1(f.clone()), st.clone()));
        for k in [0u8, 1, 2] {
            o.push(g(repeat_count(Expr::U8(k), f.clone()), st.clone()));
        }
        o.push(g(repeat_count(Expr::U64(2), f.clone()), st.clone()));
        for (a, b) in [(0u32, 1u32), (0, 2), (1, 2), (2, 2), (1, 3)] {
            o.push(g(repeat_between(Expr::U32(a), Expr::U32(b), f.clone()), st.clone()));
        }
        if *t != Ty::Any && consuming(f) {
            o.push(g(
                repeat_until_seq(lambda("s", expr_gte(seq_length(var("s")), Expr::U32(2))), f.clone()),
                st.clone(),
            ));
            if *t == Ty::U8 {
                o.push(g(
                    repeat_until_last(lambda("l", expr_eq(var("l"), Expr::U8(1))), f.clone()),
                    st.clone(),
                ));
                o.push(g(
                    repeat_until_seq(
                        lambda(
                            "s",
                            expr_eq(
                                index_unchecked(var("s"), pred(seq_length(var("s")))),
                                Expr::U8(0),
                            ),
                        ),
                        f.clone(),
                    ),
                    st.clone(),
                ));
                o.push(g(
                    accum_until(
                        lambda("as", expr_gte(tuple_proj(var("as"), 0), Expr::U32(2))),
                        lambda(
                            "ax",
                            add(tuple_proj(var("ax"), 0), as_u32(tuple_proj(var("ax"), 1))),
                        ),
                        Expr::U32(0),
                        ValueType::Base(BaseType::U32),
                        f.clone(),
                    ),
                    Ty::Tup(vec![Ty::U32, st.clone()]),
                ));
            }
            o.push(g(
                accum_until(
                    lambda("as", expr_gte(seq_length(tuple_proj(var("as"), 1)), Expr::U32(2))),
                    lambda("ax", succ(tuple_proj(var("ax"), 0))),
                    Expr::U8(0),
                    ValueType::Base(BaseType::U8),
                    f.clone(),
                ),
                Ty::Tup(vec![Ty::U8, st.clone()]),
            ));
            o.push(g(
                repeat_until_last(lambda("l", Expr::Bool(true)), f.clone()),
                st.clone(),
            ));
        }
        o.push(g(for_each(u8s(&[1, 2]), "e", f.clone()), st.clone()));
        o.push(g(
            for_each(u8s(&[0, 2]), "e", repeat_count(var("e"), f.clone())),
            Ty::seq(st.clone()),
        ));
        o.push(g(
            for_each(u8s(&[1, 0]), "e", Format::Tuple(vec![compute(var("e")), f.clone()])),
            Ty::seq(Ty::Tup(vec![Ty::U8, t.clone()])),
        ));
        // --- optionality, lookahead
        o.push(g(cond_maybe(Expr::Bool(true), f.clone()), Ty::Opt(bx(t.clone()))));
        o.push(g(cond_maybe(Expr::Bool(false), f.clone()), Ty::Opt(bx(t.clone()))));
        o.push(g(Format::Peek(bf()), t.clone()));
        o.push(g(Format::PeekNot(bf()), Ty::unit()));
        o.push(g(
            Format::Tuple(vec![Format::PeekNot(bf()), any()]),
            Ty::Tup(vec![Ty::unit(), Ty::U8]),
        ));
        o.push(g(
            Format::Tuple(vec![Format::Peek(bf()), any()]),
            Ty::Tup(vec![t.clone(), Ty::U8]),
        ));
        // --- windows
        for k in [0u8, 1, 2, 3] {
            o.push(g(slice(Expr::U8(k), f.clone()), t.clone()));
        }
        o.push(g(
            Format::Tuple(vec![slice(Expr::U8(2), f.clone()), any()]),
            Ty::Tup(vec![t.clone(), Ty::U8]),
        ));
        o.push(g(
            Format::Tuple(vec![any(), slice(Expr::U8(2), f.clone()), Format::Pos]),
            Ty::Tup(vec![Ty::U8, t.clone(), Ty::Num]),
        ));
        o.push(g(Format::Bits(bf()), t.clone()));
        o.push(g(
            Format::Tuple(vec![Format::Bits(bf()), any()]),
            Ty::Tup(vec![t.clone(), Ty::U8]),
        ));
        o.push(g(
            Format::Tuple(vec![any(), Format::Bits(bf())]),
            Ty::Tup(vec![Ty::U8, t.clone()]),
        ));
        for k in [0u64, 1, 3] {
            o.push(g(
                Format::WithRelativeOffset(bx(Expr::U64(0)), bx(Expr::U64(k)), bf()),
                t.clone(),
            ));
        }
        o.push(g(
            Format::Tuple(vec![
                any(),
                chain(
                    Format::Pos,
                    "p",
                    Format::WithRelativeOffset(bx(as_u64(var("p"))), bx(Expr::U64(1)), bf()),
                ),
                Format::Pos,
            ]),
            Ty::Tup(vec![Ty::U8, t.clone(), Ty::Num]),
        ));
        o.push(g(
            Format::Tuple(vec![any(), Format::Align(2), f.clone()]),
            Ty::Tup(vec![Ty::U8, Ty::unit(), t.clone()]),
        ));
        // --- values
        o.push(g(map(f.clone(), lambda("m", Expr::U8(7))), Ty::U8));
        if *t != Ty::Any {
            o.push(g(map(f.clone(), lambda("m", var("m"))), t.clone()));
            o.push(g(
                map(f.clone(), lambda("m", Expr::Tuple(vec![var("m"), Expr::Bool(true)]))),
                Ty::Tup(vec![t.clone(), Ty::Bool]),
            ));
        }
        o.push(g(where_lambda(f.clone(), "w", Expr::Bool(true)), t.clone()));
        o.push(g(where_lambda(f.clone(), "w", Expr::Bool(false)), t.clone()));
        o.push(g(expect_lambda(f.clone(), "w", Expr::Bool(false)), t.clone()));
        o.push(g(fmt_let("x", Expr::U8(2), repeat_count(var("x"), f.clone())), st.clone()));
        o.push(g(
            fmt_let(
                "x",
                Expr::U8(1),
                fmt_let("x", Expr::U8(2), Format::Tuple(vec![compute(var("x")), f.clone()])),
            ),
            Ty::Tup(vec![Ty::U8, t.clone()]),
        ));
        o.push(g(chain(f.clone(), "x", compute(Expr::U8(3))), Ty::U8));
        if *t != Ty::Any {
            o.push(g(chain(f.clone(), "x", compute(var("x"))), t.clone()));
            o.push(g(
                chain(
                    f.clone(),
                    "x",
                    Format::Tuple(vec![chain(any(), "x", compute(var("x"))), compute(var("x"))]),
                ),
                Ty::Tup(vec![Ty::U8, t.clone()]),
            ));
            o.push(g(
                Format::record([("a", f.clone()), ("b", any())]),
                Ty::Rec(vec![("a".into(), t.clone()), ("b".into(), Ty::U8)]),
            ));
            o.push(g(
                Format::Hint(
                    StyleHint::Record { old_style: false },
                    bx(chain(
                        any(),
                        "a",
                        chain(
                            f.clone(),
                            "b",
                            compute(Expr::Record(vec![
                                ("c".into(), var("b")),
                                ("d".into(), var("a")),
                            ])),
                        ),
                    )),
                ),
                Ty::Rec(vec![("c".into(), t.clone()), ("d".into(), Ty::U8)]),
            ));
        }
        o.push(g(monad_seq(f.clone(), Format::Pos), Ty::Num));
        o.push(g(monad_seq(any(), f.clone()), t.clone()));
        o.push(g(Format::LiftedOption(Some(bf())), Ty::Opt(bx(t.clone()))));
        o.push(g(Format::Phantom(bf()), Ty::Phantom));
        o.push(g(Format::Hint(StyleHint::AsciiStr, bf()), t.clone()));
        // --- data-dependent contexts
        let v = |l: &str, f: Format| fmt_variant(l.to_string(), f);
        o.push(g(
            chain(any(), "n", repeat_count(var("n"), f.clone())),
            st.clone(),
        ));
        o.push(g(chain(any(), "n", slice(var("n"), f.clone())), t.clone()));
        o.push(g(
            chain(
                any(),
                "n",
                Format::WithRelativeOffset(bx(Expr::U8(0)), bx(var("n")), bf()),
            ),
            t.clone(),
        ));
        o.push(g(
            chain(any(), "n", cond_maybe(expr_eq(var("n"), Expr::U8(0)), f.clone())),
            Ty::Opt(bx(t.clone())),
        ));
        o.push(g(
            chain(
                any(),
                "n",
                fmt_match(
                    var("n"),
                    [
                        (Pattern::U8(0), v("A", f.clone())),
                        (Pattern::U8(1), v("B", any())),
                        (Pattern::Wildcard, v("C", Format::EMPTY)),
                    ],
                ),
            ),
            Ty::Var(BTreeMap::from([
                ("A".into(), t.clone()),
                ("B".into(), Ty::U8),
                ("C".into(), Ty::unit()),
            ])),
        ));
        o.push(g(
            chain(
                any(),
                "n",
                fmt_match(
                    Expr::Tuple(vec![var("n"), Expr::LiftOption(Some(bx(var("n"))))]),
                    [
                        (
                            Pattern::Tuple(vec![
                                Pattern::U8(1),
                                Pattern::Option(Some(bx(Pattern::binding("k")))),
                            ]),
                            v("A", repeat_count(var("k"), f.clone())),
                        ),
                        (
                            Pattern::Tuple(vec![Pattern::binding("k"), Pattern::Wildcard]),
                            v("B", compute(var("k"))),
                        ),
                    ],
                ),
            ),
            Ty::Var(BTreeMap::from([("A".into(), st.clone()), ("B".into(), Ty::U8)])),
        ));
        // --- views
        let vv = || ViewExpr::var("v");
        o.push(g(
            let_view("v", monad_seq(f.clone(), with_view(vv(), capture_bytes(Expr::U8(2))))),
            Ty::seq(Ty::U8),
        ));
        o.push(g(
            let_view("v", monad_seq(any(), parse_from_view(vv(), f.clone()))),
            t.clone(),
        ));
        o.push(g(
            let_view(
                "v",
                Format::Tuple(vec![
                    any(),
                    parse_from_view(vv().offset(Expr::U8(1)), f.clone()),
                    any(),
                ]),
            ),
            Ty::Tup(vec![Ty::U8, t.clone(), Ty::U8]),
        ));
        o.push(g(
            let_view(
                "v",
                Format::Tuple(vec![
                    f.clone(),
                    with_view(vv(), read_array(Expr::U8(1), BaseKind::U16BE)),
                ]),
            ),
            Ty::Tup(vec![t.clone(), Ty::seq(Ty::U16)]),
        ));
        o.push(g(
            Format::Tuple(vec![
                f.clone(),
                let_view("v", with_view(vv(), read_array(Expr::U8(2), BaseKind::U8))),
            ]),
            Ty::Tup(vec![t.clone(), Ty::seq(Ty::U8)]),
        ));
        o.push(g(
            Format::Tuple(vec![any(), let_view("v", monad_seq(f.clone(), reify_view(vv())))]),
            Ty::Tup(vec![Ty::U8, Ty::View]),
        ));
        // --- re-decoding
        o.push(g(decode_bytes(u8s(&[0, 1]), f.clone()), t.clone()));
        // --- permits
        if let Some(k) = t.konst() {
            o.push(g(permit(f.clone(), k.clone()), t.clone()));
            o.push(g(
                Format::Tuple(vec![permit(f.clone(), k), any()]),
                Ty::Tup(vec![t.clone(), Ty::U8]),
            ));
        }
        // --- dynamic codes (bit mode)
        o.push(g(
            Format::Bits(bx(Format::Dynamic(
                "h".into(),
                DynFormat::Huffman(bx(u8s(&[2, 1, 2])), None),
                bx(Format::Tuple(vec![Format::Apply("h".into()), f.clone()])),
            ))),
            Ty::Tup(vec![Ty::U16, t.clone()]),
        ));
        // --- by type
        match t {
            Ty::U8 => {
                for b in [
                    expr_eq(var("w"), Expr::U8(1)),
                    expr_lt(var("w"), Expr::U8(1)),
                ] {
                    o.push(g(where_lambda(f.clone(), "w", b.clone()), Ty::U8));
                    o.push(g(expect_lambda(f.clone(), "w", b), Ty::U8));
                }
                o.push(g(map(f.clone(), lambda("m", add(var("m"), Expr::U8(1)))), Ty::U8));
                o.push(g(map(f.clone(), lambda("m", as_u16(var("m")))), Ty::U16));
                o.push(g(
                    map(f.clone(), lambda("m", expr_if_else(
                        expr_eq(var("m"), Expr::U8(0)), Expr::Seq(vec![var("m")]), Expr::Seq(vec![])))),
                    Ty::seq(Ty::U8),
                ));
                o.push(g(chain(f.clone(), "x", repeat_count(var("x"), any())), Ty::seq(Ty::U8)));
                o.push(g(chain(f.clone(), "x", slice(var("x"), repeat(any()))), Ty::seq(Ty::U8)));
                o.push(g(
                    chain(f.clone(), "x", for_each(enum_from_to(Expr::U8(0), var("x")), "i",
                        Format::Tuple(vec![compute(as_u8(var("i"))), any()]))),
                    Ty::seq(Ty::Tup(vec![Ty::U8, Ty::U8])),
                ));
                o.push(g(
                    chain(
                        f.clone(),
                        "x",
                        fmt_match(
                            var("x"),
                            [
                                (Pattern::U8(1), any()),
                                (Pattern::binding("y"), compute(var("y"))),
                            ],
                        ),
                    ),
                    Ty::U8,
                ));
                o.push(g(
                    chain(f.clone(), "x", compute(dup(as_u32(var("x")), Expr::Tuple(vec![var("x")])))),
                    Ty::seq(Ty::Tup(vec![Ty::U8])),
                ));
            }
            Ty::Seq(e) => {
                o.push(g(map(f.clone(), lambda("m", seq_length(var("m")))), Ty::U32));
                o.push(g(
                    chain(f.clone(), "x", for_each(var("x"), "e", compute(var("e")))),
                    t.clone(),
                ));
                if e.solid() {
                    o.push(g(
                        map(f.clone(), lambda("m", Expr::Append(bx(var("m")), bx(var("m"))))),
                        t.clone(),
                    ));
                    o.push(g(
                        map(f.clone(), lambda("m", flat_map(lambda("z", Expr::Seq(vec![var("z"), var("z")])), var("m")))),
                        t.clone(),
                    ));
                }
                if **e == Ty::U8 {
                    o.push(g(chain(f.clone(), "x", decode_bytes(var("x"), any())), Ty::U8));
                    o.push(g(
                        chain(f.clone(), "x", decode_bytes(var("x"), repeat(byte(&[0, 1])))),
                        t.clone(),
                    ));
                    o.push(g(
                        map(f.clone(), lambda("m", left_fold(
                            lambda("az", add(tuple_proj(var("az"), 0), as_u32(tuple_proj(var("az"), 1)))),
                            Expr::U32(0), ValueType::Base(BaseType::U32), var("m")))),
                        Ty::U32,
                    ));
                    o.push(g(
                        map(f.clone(), lambda("m", find_by_key(false, |z| z, Expr::U8(1), var("m")))),
                        Ty::Opt(bx(Ty::U8)),
                    ));
                    o.push(g(
                        chain(
                            f.clone(),
                            "x",
                            fmt_match(
                                var("x"),
                                [
                                    (Pattern::Seq(vec![Pattern::U8(0), Pattern::binding("y")]), compute(var("y"))),
                                    (Pattern::Seq(vec![]), any()),
                                    (Pattern::Wildcard, compute(Expr::U8(5))),
                                ],
                            ),
                        ),
                        Ty::U8,
                    ));
                }
            }
            Ty::Opt(e) => {
                if let Some(k) = e.konst() {
                    o.push(g(
                        map(
                            f.clone(),
                            lambda(
                                "m",
                                expr_match(
                                    var("m"),
                                    [
                                        (Pattern::Option(Some(bx(Pattern::binding("y")))), var("y")),
                                        (Pattern::Option(None), k),
                                    ],
                                ),
                            ),
                        ),
                        (**e).clone(),
                    ));
                }
            }
            Ty::Tup(ts) => {
                for i in 0..ts.len() {
                    if ts[i] != Ty::Any {
                        o.push(g(
                            map(f.clone(), lambda("m", tuple_proj(var("m"), i))),
                            ts[i].clone(),
                        ));
                    }
                }
                if !ts.is_empty() && ts.iter().all(|t| *t != Ty::Any) {
                    let names = ["p0", "p1", "p2", "p3"];
                    let ps = (0..ts.len()).map(|i| Pattern::binding(names[i])).collect();
                    let body = Expr::Tuple((0..ts.len()).rev().map(|i| var(names[i])).collect());
                    o.push(g(
                        map(
                            f.clone(),
                            lambda("m", Expr::Destructure(bx(var("m")), Pattern::Tuple(ps), bx(body))),
                        ),
                        Ty::Tup(ts.iter().rev().cloned().collect()),
                    ));
                }
            }
            Ty::Rec(fs) => {
                for (l, ft) in fs {
                    o.push(g(
                        map(f.clone(), lambda("m", record_proj(var("m"), l.clone()))),
                        ft.clone(),
                    ));
                }
            }
            Ty::Var(m) => {
                if m.values().all(|t| *t != Ty::Any) {
                    o.push(g(
                        map(
                            f.clone(),
                            lambda(
                                "m",
                                expr_match(
                                    var("m"),
                                    m.keys()
                                        .enumerate()
                                        .map(|(i, l)| {
                                            (
                                                Pattern::Variant(
                                                    Label::Owned(l.clone()),
                                                    bx(Pattern::Wildcard),
                                                ),
                                                Expr::U8(i as u8),
                                            )
                                        })
                                        .collect::<Vec<_>>(),
                                ),
                            ),
                        ),
                        Ty::U8,
                    ));
                    let (l, vt) = m.iter().next().unwrap();
                    if let Some(k) = vt.konst() {
                        o.push(g(
                            map(
                                f.clone(),
                                lambda(
                                    "m",
                                    expr_match(
                                        var("m"),
                                        [
                                            (
                                                Pattern::Variant(
                                                    Label::Owned(l.clone()),
                                                    bx(Pattern::binding("y")),
                                                ),
                                                var("y"),
                                            ),
                                            (Pattern::Wildcard, k),
                                        ],
                                    ),
                                ),
                            ),
                            vt.clone(),
                        ));
                    }
                }
            }
            _ => {}
        }
        if self.with_items {
            if let Some(l) = self.define(vec![], vec![], f) {
                out.push(g(Format::ItemVar(l, vec![], vec![]), t.clone()));
                out.push(g(
                    fmt_let("n", Expr::U8(1), Format::Tuple(vec![
                        Format::ItemVar(l, vec![], vec![]), compute(var("n")), any()])),
                    Ty::Tup(vec![t.clone(), Ty::U8, Ty::U8]),
                ));
            }
            let body = Format::Tuple(vec![compute(var("n")), repeat_count(var("n"), f.clone())]);
            if let Some(l) = self.define(vec![("n", ValueType::Base(BaseType::U8))], vec![], &body) {
                out.push(g(
                    chain(any(), "k", Format::ItemVar(l, vec![var("k")], vec![])),
                    Ty::Tup(vec![Ty::U8, st.clone()]),
                ));
            }
            let body = Format::Tuple(vec![any(), parse_from_view(ViewExpr::var("u"), f.clone())]);
            if let Some(l) = self.define(vec![], vec!["u"], &body) {
                out.push(g(
                    let_view("w", monad_seq(any(), Format::ItemVar(l, vec![], vec![ViewExpr::var("w")]))),
                    Ty::Tup(vec![Ty::U8, t.clone()]),
                ));
            }
        }
    }

    /// a small set of wrappers, for deep chains
    pub fn wraps(&mut self, x: &G, items: bool, o: &mut Vec<G>) {
        let (f, t) = (&x.f, &x.ty);
        let bf = || bx(f.clone());
        let st = Ty::seq(t.clone());
        o.push(g(repeat(f.clone()), st.clone()));
        o.push(g(repeat_count(Expr::U8(2), f.clone()), st.clone()));
        o.push(g(chain(any(), "n", repeat_count(var("n"), f.clone())), st.clone()));
        o.push(g(slice(Expr::U8(2), f.clone()), t.clone()));
        o.push(g(Format::Bits(bf()), t.clone()));
        o.push(g(Format::Peek(bf()), t.clone()));
        o.push(g(Format::Tuple(vec![Format::PeekNot(bf()), any()]), Ty::Tup(vec![Ty::unit(), Ty::U8])));
        let v2 = |s: &Ty| Ty::Var(BTreeMap::from([("A".into(), s.clone()), ("B".into(), Ty::U8)]));
        o.push(g(alts([("A", f.clone()), ("B", byte(&[2]))]), v2(t)));
        o.push(g(
            Format::UnionNondet(vec![fmt_variant("A", f.clone()), fmt_variant("B", any())]),
            v2(t),
        ));
        o.push(g(Format::Tuple(vec![f.clone(), any()]), Ty::Tup(vec![t.clone(), Ty::U8])));
        o.push(g(Format::Tuple(vec![any(), f.clone()]), Ty::Tup(vec![Ty::U8, t.clone()])));
        o.push(g(map(f.clone(), lambda("m", Expr::Tuple(vec![var("m")]))), Ty::Tup(vec![t.clone()])));
        o.push(g(
            chain(any(), "n", where_lambda(f.clone(), "w", expr_eq(var("n"), Expr::U8(0)))),
            t.clone(),
        ));
        o.push(g(let_view("v", monad_seq(any(), parse_from_view(ViewExpr::var("v"), f.clone()))), t.clone()));
        o.push(g(Format::WithRelativeOffset(bx(Expr::U8(0)), bx(Expr::U8(1)), bf()), t.clone()));
        o.push(g(cond_maybe(Expr::Bool(true), f.clone()), Ty::Opt(bx(t.clone()))));
        if let Some(k) = t.konst() {
            o.push(g(permit(f.clone(), k), t.clone()));
        }
        if items {
            if let Some(l) = self.define(vec![], vec![], f) {
                o.push(g(Format::ItemVar(l, vec![], vec![]), t.clone()));
            }
        }
    }

    pub fn binary(&mut self, x: &G, y: &G, o: &mut Vec<G>) {
        let (a, b) = (&x.f, &y.f);
        let (s, t) = (&x.ty, &y.ty);
        o.push(g(Format::Tuple(vec![a.clone(), b.clone()]), Ty::Tup(vec![s.clone(), t.clone()])));
        o.push(g(monad_seq(a.clone(), b.clone()), t.clone()));
        let vt = Ty::Var(BTreeMap::from([("A".into(), s.clone()), ("B".into(), t.clone())]));
        o.push(g(alts([("A", a.clone()), ("B", b.clone())]), vt.clone()));
        o.push(g(
            Format::UnionNondet(vec![fmt_variant("A", a.clone()), fmt_variant("B", b.clone())]),
            vt.clone(),
        ));
        if s == t && s.solid() {
            o.push(g(Format::Sequence(vec![a.clone(), b.clone()]), Ty::seq(s.clone())));
            o.push(g(Format::Union(vec![a.clone(), b.clone()]), s.clone()));
        }
        if *s != Ty::Any && *t != Ty::Any {
            o.push(g(
                chain(
                    a.clone(),
                    "x",
                    chain(b.clone(), "y", compute(Expr::Tuple(vec![var("y"), var("x")]))),
                ),
                Ty::Tup(vec![t.clone(), s.clone()]),
            ));
        }
        o.push(g(
            Format::Tuple(vec![
                alts([("A", a.clone()), ("B", Format::EMPTY)]),
                b.clone(),
            ]),
            Ty::Tup(vec![
                Ty::Var(BTreeMap::from([("A".into(), s.clone()), ("B".into(), Ty::unit())])),
                t.clone(),
            ]),
        ));
        o.push(g(
            Format::Tuple(vec![repeat(a.clone()), b.clone()]),
            Ty::Tup(vec![Ty::seq(s.clone()), t.clone()]),
        ));
    }
}

/// every successful parse advances (so data-driven loops over it terminate at end of input)
pub fn consuming(f: &Format) -> bool {
    match f {
        Format::Byte(_) => true,
        Format::Fail => true,
        Format::Variant(_, f) | Format::Map(f, _) | Format::Hint(_, f) | Format::Repeat1(f) => consuming(f),
        Format::Where(f, _) => consuming(f),
        Format::Tuple(fs) | Format::Sequence(fs) => fs.iter().any(consuming),
        Format::Union(fs) | Format::UnionNondet(fs) => !fs.is_empty() && fs.iter().all(consuming),
        Format::MonadSeq(a, b) | Format::LetFormat(a, _, b) => consuming(a) || consuming(b),
        Format::Let(_, _, f) | Format::LetView(_, f) => consuming(f),
        Format::LiftedOption(Some(f)) => consuming(f),
        Format::Slice(k, _) => matches!(**k, Expr::U8(n) if n > 0),
        Format::Bits(f) => consuming(f),
        Format::Apply(_) => true,
        Format::RepeatCount(k, f) => matches!(**k, Expr::U8(n) if n > 0) && consuming(f),
        Format::Dynamic(_, _, f) => consuming(f),
        _ => false,
    }
}

/// Streams the enumeration. `level` 1 or 2; `small` bounds the partner set of binary steps.
pub fn stream(gen_: &mut Gen, level: usize, partners: usize, visit: &mut dyn FnMut(&Gen, usize, &G)) {
    let l0 = atoms();
    let mut n = 0;
    gen_.level = 0;
    for x in &l0 {
        visit(gen_, n, x);
        n += 1;
    }
    gen_.level = 1;
    let mut l1: Vec<G> = vec![];
    for x in &l0 {
        gen_.unary(x, &mut l1);
    }
    for x in &l0 {
        for y in &l0 {
            gen_.binary(x, y, &mut l1);
        }
    }
    for x in &l1 {
        visit(gen_, n, x);
        n += 1;
    }
    if level < 2 {
        return;
    }
    gen_.level = 2;
    let mut tmp = vec![];
    for x in &l1 {
        tmp.clear();
        gen_.unary(x, &mut tmp);
        for y in &l0[..partners.min(l0.len())] {
            gen_.binary(x, y, &mut tmp);
            gen_.binary(y, x, &mut tmp);
        }
        for y in &tmp {
            visit(gen_, n, y);
            n += 1;
        }
    }
}

pub fn chain_seeds() -> Vec<G> {
    vec![
        g(byte(&[0, 1]), Ty::U8),
        g(any(), Ty::U8),
        g(Format::EMPTY, Ty::unit()),
        g(Format::EndOfInput, Ty::unit()),
        g(base::u16be(), Ty::U16),
        g(Format::SkipRemainder, Ty::unit()),
    ]
}

/// Deep chains: every composition of `depth` wrappers over a few seeds, without branching.
pub fn chains(gen_: &mut Gen, depth: usize, visit: &mut dyn FnMut(&Gen, usize, &G)) {
    let seeds = chain_seeds();
    gen_.level = 3;
    let mut n = 0;
    fn go(gen_: &mut Gen, x: &G, depth: usize, n: &mut usize, visit: &mut dyn FnMut(&Gen, usize, &G)) {
        let mut next = vec![];
        gen_.wraps(x, depth > 1, &mut next);
        for y in &next {
            if depth == 1 {
                visit(gen_, *n, y);
                *n += 1;
            } else {
                go(gen_, y, depth - 1, n, visit);
            }
        }
    }
    for x in &seeds {
        go(gen_, x, depth, &mut n, visit);
    }
}

/// Longer inputs: runs, ramps and alternations.
pub fn long_inputs() -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    for n in [5usize, 9, 12] {
        out.push(vec![0; n]);
        out.push(vec![1; n]);
        out.push((0..n).map(|i| (i % 2) as u8).collect());
        out.push((0..n).map(|i| ((i + 1) % 3) as u8).collect());
    }
    out.push((0..16u8).collect());
    out.push((0..16u8).rev().collect());
    out.push((0..12u8).map(|i| i.wrapping_mul(37).wrapping_add(0x83)).collect());
    out
}

/// All byte strings over `alphabet` of length at most `max`.
pub fn inputs(alphabet: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    let mut cur = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for s in &cur {
            for b in alphabet {
                let mut t: Vec<u8> = s.clone();
                t.push(*b);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        cur = next;
    }
    out
}
