//! Independent one-byte-lookahead analysis: FIRST sets, nullability, and a "clean" check
//! saying when one byte of lookahead decides every choice in a format.
use doodle::byte_set::ByteSet;
use doodle::{Expr, Format, FormatModule, ValueType};

pub struct Item {
    pub args: Vec<(String, ValueType)>,
    pub views: Vec<String>,
}

/// Plain bitmap so that the analysis does not lean on the byte-set code under test
/// (membership of the format's own literal sets is the only query made of it).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Set(pub [u64; 4]);

impl Set {
    pub const NONE: Set = Set([0; 4]);
    pub const ALL: Set = Set([u64::MAX; 4]);
    pub fn contains(&self, b: u8) -> bool {
        self.0[(b >> 6) as usize] >> (b & 63) & 1 == 1
    }
    pub fn add(&mut self, b: u8) {
        self.0[(b >> 6) as usize] |= 1 << (b & 63);
    }
    pub fn or(self, o: Set) -> Set {
        Set(std::array::from_fn(|i| self.0[i] | o.0[i]))
    }
    pub fn meets(self, o: Set) -> bool {
        (0..4).any(|i| self.0[i] & o.0[i] != 0)
    }
    pub fn of(bs: &ByteSet) -> Set {
        let mut s = Set::NONE;
        for b in 0..=255u8 {
            if bs.contains(b) {
                s.add(b);
            }
        }
        s
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Info {
    /// bytes a successful parse may begin by consuming (over-approximation)
    pub first: Set,
    /// may succeed without consuming (over-approximation)
    pub nullable: bool,
    /// lookahead cannot see into it: it acts as a default alternative
    pub opaque: bool,
    /// begins with something that filters on lookahead (peek, permit, ...): not used in choices
    pub weird: bool,
}

fn const_usize(e: &Expr) -> Option<usize> {
    match e {
        Expr::U8(n) => Some(*n as usize),
        Expr::U16(n) => Some(*n as usize),
        Expr::U32(n) => Some(*n as usize),
        Expr::U64(n) => Some(*n as usize),
        _ => None,
    }
}

const EMPTY: Info = Info { first: Set::NONE, nullable: true, opaque: false, weird: false };

fn seq_info(module: &FormatModule, fs: &[&Format]) -> Info {
    let mut acc = EMPTY;
    for f in fs {
        if !acc.nullable {
            break;
        }
        let i = info(module, f);
        acc.first = acc.first.or(i.first);
        acc.nullable = i.nullable;
        acc.opaque |= i.opaque;
        acc.weird |= i.weird;
    }
    acc
}
fn alt_info<'a>(module: &FormatModule, fs: impl Iterator<Item = &'a Format>) -> Info {
    let mut acc = Info { first: Set::NONE, nullable: false, opaque: false, weird: false };
    for f in fs {
        let i = info(module, f);
        acc.first = acc.first.or(i.first);
        acc.nullable |= i.nullable;
        acc.opaque |= i.opaque;
        acc.weird |= i.weird;
    }
    acc
}

pub fn info(module: &FormatModule, f: &Format) -> Info {
    match f {
        Format::ItemVar(l, _, _) => info(module, module.get_format(*l)),
        Format::Fail => Info { nullable: false, ..EMPTY },
        Format::EndOfInput => Info { opaque: true, ..EMPTY },
        Format::Phantom(_) => Info { opaque: true, ..EMPTY },
        Format::SkipRemainder => Info { first: Set::ALL, opaque: true, ..EMPTY },
        Format::Align(1) => EMPTY,
        Format::Align(_) => Info { first: Set::ALL, opaque: true, ..EMPTY },
        Format::Byte(bs) => Info { first: Set::of(bs), nullable: false, ..EMPTY },
        Format::Variant(_, f)
        | Format::Map(f, _)
        | Format::Let(_, _, f)
        | Format::LetView(_, f)
        | Format::Hint(_, f)
        | Format::Dynamic(_, _, f) => info(module, f),
        Format::Where(f, _) => info(module, f),
        Format::LiftedOption(None) => EMPTY,
        Format::LiftedOption(Some(f)) => info(module, f),
        Format::Union(fs) => alt_info(module, fs.iter()),
        Format::UnionNondet(fs) => {
            let mut i = alt_info(module, fs.iter());
            // an alternative may fail part-way and hand over to the next: keep the union
            i.weird |= false;
            i
        }
        Format::Match(_, bs) => alt_info(module, bs.iter().map(|x| &x.1)),
        Format::Tuple(fs) | Format::Sequence(fs) => {
            let v: Vec<&Format> = fs.iter().collect();
            seq_info(module, &v)
        }
        Format::MonadSeq(a, b) | Format::LetFormat(a, _, b) => seq_info(module, &[a, b]),
        Format::Repeat(a) => Info { nullable: true, ..info(module, a) },
        Format::Repeat1(a) => info(module, a),
        Format::RepeatCount(k, a) => {
            let i = info(module, a);
            match const_usize(k) {
                Some(0) => EMPTY,
                Some(_) => i,
                // data-dependent counts: lookahead stops there
                None => Info { nullable: true, opaque: true, ..i },
            }
        }
        Format::RepeatBetween(lo, _hi, a) => {
            let i = info(module, a);
            Info { nullable: i.nullable || const_usize(lo) == Some(0), ..i }
        }
        Format::RepeatUntilLast(_, a) => Info { opaque: true, ..info(module, a) },
        Format::RepeatUntilSeq(_, a) => Info { opaque: true, nullable: true, ..info(module, a) },
        Format::AccumUntil(.., a) => Info { opaque: true, nullable: true, ..info(module, a) },
        Format::ForEach(_, _, a) => {
            let i = info(module, a);
            Info { nullable: true, opaque: i.opaque || i.nullable, ..i }
        }
        Format::Maybe(_, a) => Info { nullable: true, ..info(module, a) },
        Format::Peek(_) | Format::PeekNot(_) => Info { weird: true, ..EMPTY },
        Format::Permit(a, _) => {
            let i = info(module, a);
            Info { weird: true, nullable: true, ..i }
        }
        Format::Slice(k, a) => {
            let i = info(module, a);
            match const_usize(k) {
                Some(0) => EMPTY,
                Some(_) => Info {
                    first: if i.nullable || i.opaque { Set::ALL } else { i.first },
                    nullable: false,
                    opaque: false,
                    // leftovers and zero-width content make its lookahead irregular
                    weird: i.weird || i.nullable || i.opaque || i.first == Set::NONE,
                },
                None => Info { first: Set::ALL, nullable: true, opaque: true, weird: i.weird },
            }
        }
        Format::Bits(a) => {
            let i = info(module, a);
            Info { first: Set::ALL, nullable: i.nullable, opaque: true, weird: i.weird }
        }
        Format::WithRelativeOffset(..) => Info { opaque: true, ..EMPTY },
        Format::Apply(_) => {
            let mut s = Set::NONE;
            s.add(0);
            s.add(1);
            Info { first: s, nullable: false, opaque: true, weird: false }
        }
        Format::Compute(_) | Format::Pos | Format::DecodeBytes(..) | Format::ParseFromView(..) => EMPTY,
        Format::WithView(..) => EMPTY,
        #[allow(unreachable_patterns)]
        _ => Info { first: Set::ALL, nullable: true, opaque: true, weird: true },
    }
}

/// What may come after a format.
#[derive(Clone, Copy, Debug)]
pub struct Follow {
    pub first: Set,
    /// anything (or nothing) may follow: choices that could stop do so by default
    pub any: bool,
    /// includes something lookahead is irregular on
    pub weird: bool,
    /// (part of) it lies outside an enclosing construct that catches failure
    pub outside: bool,
}

pub const TOP: Follow = Follow { first: Set::NONE, any: true, weird: false, outside: false };

fn follow_seq(module: &FormatModule, rest: &[&Format], fl: Follow) -> Follow {
    let i = seq_info(module, rest);
    if i.nullable {
        Follow {
            first: i.first.or(fl.first),
            any: fl.any || i.opaque,
            weird: i.weird || fl.weird,
            outside: fl.outside,
        }
    } else {
        Follow { first: i.first, any: i.opaque, weird: i.weird, outside: false }
    }
}

/// A choice between stopping (what follows) and starting `a` again.
fn can_decide_repeat(module: &FormatModule, a: &Format, fl: Follow) -> bool {
    let i = info(module, a);
    !i.nullable && !i.opaque && !i.weird && !fl.weird && !fl.outside && !i.first.meets(fl.first)
}

/// True if every choice inside `f` is decided by at most one byte of lookahead and the
/// compiler therefore has to accept it.
pub fn clean(module: &FormatModule, f: &Format, fl: Follow) -> bool {
    match f {
        Format::ItemVar(l, _, _) => clean(module, module.get_format(*l), fl),
        Format::Fail
        | Format::EndOfInput
        | Format::Phantom(_)
        | Format::SkipRemainder
        | Format::Align(_)
        | Format::Byte(_)
        | Format::LiftedOption(None)
        | Format::Compute(_)
        | Format::Pos
        | Format::Apply(_)
        | Format::WithView(..) => true,
        Format::Variant(_, f)
        | Format::Map(f, _)
        | Format::Let(_, _, f)
        | Format::LetView(_, f)
        | Format::Hint(_, f)
        | Format::Dynamic(_, _, f) => clean(module, f, fl),
        Format::Where(f, _) => clean(module, f, fl),
        Format::LiftedOption(Some(f)) => clean(module, f, fl),
        Format::Union(fs) => {
            if fs.is_empty() {
                return false;
            }
            let mut seen = Set::NONE;
            let mut defaults = 0;
            for f in fs {
                if !clean(module, f, fl) {
                    return false;
                }
                let i = info(module, f);
                if i.weird {
                    return false;
                }
                let mut s = i.first;
                if i.nullable {
                    if fl.weird || fl.outside {
                        return false;
                    }
                    s = s.or(fl.first);
                }
                if i.nullable || i.opaque {
                    defaults += 1;
                }
                if s.meets(seen) {
                    return false;
                }
                seen = seen.or(s);
            }
            defaults <= 1
        }
        Format::UnionNondet(fs) => {
            if fs.is_empty() {
                return false;
            }
            let fl2 = Follow { outside: !fl.any || fl.outside, ..fl };
            fs.iter().all(|f| clean(module, f, fl2))
        }
        Format::Permit(a, _) => {
            let fl2 = Follow { outside: !fl.any || fl.outside, ..fl };
            clean(module, a, fl2)
        }
        Format::Match(_, bs) => bs.iter().all(|x| clean(module, &x.1, fl)),
        Format::Tuple(fs) | Format::Sequence(fs) => {
            let v: Vec<&Format> = fs.iter().collect();
            (0..v.len()).all(|i| clean(module, v[i], follow_seq(module, &v[i + 1..], fl)))
        }
        Format::MonadSeq(a, b) | Format::LetFormat(a, _, b) => {
            clean(module, a, follow_seq(module, &[b], fl)) && clean(module, b, fl)
        }
        Format::RepeatBetween(_, _, a) if !one_byte(module, a) => false,
        Format::Repeat(a) | Format::Repeat1(a) | Format::RepeatBetween(_, _, a) => {
            can_decide_repeat(module, a, fl) && clean(module, a, after_item(module, a, fl))
        }
        Format::RepeatCount(_, a)
        | Format::RepeatUntilLast(_, a)
        | Format::RepeatUntilSeq(_, a)
        | Format::AccumUntil(.., a)
        | Format::ForEach(_, _, a) => clean(module, a, after_item(module, a, fl)),
        Format::Maybe(_, a)
        | Format::Peek(a)
        | Format::PeekNot(a)
        | Format::Slice(_, a)
        | Format::Bits(a)
        | Format::WithRelativeOffset(_, _, a)
        | Format::DecodeBytes(_, a)
        | Format::ParseFromView(_, a) => clean(module, a, TOP),
        #[allow(unreachable_patterns)]
        _ => false,
    }
}

fn after_item(module: &FormatModule, a: &Format, fl: Follow) -> Follow {
    let i = info(module, a);
    Follow {
        first: i.first.or(fl.first),
        any: fl.any || i.opaque,
        weird: fl.weird || i.weird,
        outside: fl.outside,
    }
}

/// The compiler may refuse these although one byte of lookahead would do: negative lookahead
/// it cannot bound, bounded repetition whose lookahead is computed for all counts at once, and
/// repetition of something that never succeeds.
pub fn may_refuse(module: &FormatModule, f: &Format) -> bool {
    let rec = |f: &Format| may_refuse(module, f);
    match f {
        Format::PeekNot(_) | Format::RepeatBetween(..) => true,
        Format::Repeat(a) | Format::Repeat1(a) => {
            let i = info(module, a);
            i.first == Set::NONE || format!("{a:?}").contains("Fail") || rec(a)
        }
        Format::ItemVar(l, _, _) => rec(module.get_format(*l)),
        Format::Variant(_, f)
        | Format::Map(f, _)
        | Format::Let(_, _, f)
        | Format::LetView(_, f)
        | Format::Hint(_, f)
        | Format::Dynamic(_, _, f)
        | Format::Where(f, _)
        | Format::Permit(f, _)
        | Format::RepeatCount(_, f)
        | Format::RepeatUntilLast(_, f)
        | Format::RepeatUntilSeq(_, f)
        | Format::AccumUntil(.., f)
        | Format::ForEach(_, _, f)
        | Format::Maybe(_, f)
        | Format::Peek(f)
        | Format::Slice(_, f)
        | Format::Bits(f)
        | Format::WithRelativeOffset(_, _, f)
        | Format::DecodeBytes(_, f)
        | Format::ParseFromView(_, f)
        | Format::LiftedOption(Some(f)) => rec(f),
        Format::Union(fs) | Format::UnionNondet(fs) | Format::Tuple(fs) | Format::Sequence(fs) => {
            fs.iter().any(rec)
        }
        Format::Match(_, bs) => bs.iter().any(|x| rec(&x.1)),
        Format::MonadSeq(a, b) | Format::LetFormat(a, _, b) => rec(a) || rec(b),
        _ => false,
    }
}

/// consumes exactly one byte whenever it succeeds
fn one_byte(module: &FormatModule, f: &Format) -> bool {
    match f {
        Format::Byte(_) => true,
        Format::ItemVar(l, _, _) => one_byte(module, module.get_format(*l)),
        Format::Variant(_, f) | Format::Map(f, _) | Format::Hint(_, f) | Format::Where(f, _) => {
            one_byte(module, f)
        }
        Format::Union(fs) => fs.iter().all(|f| one_byte(module, f)),
        Format::Tuple(fs) => fs.len() == 1 && one_byte(module, &fs[0]),
        _ => false,
    }
}
