//! Runs one input through the interpreted definition and through the committed generated decoder.
use doodle::decoder::{Compiler, Program};
use doodle::helper::record_auto;
use doodle::prelude::Parser;
use doodle::read::ReadCtxt;
use doodle::{Format, FormatModule};
use vcore::dbgtree;
use vcore::report::guarded;
use vcore::rv::{RV, from_value};

pub const NAMES: &[(&str, &str)] = &[
    ("waldo", "waldo.main"),
    ("peano", "peano.sequence"),
    ("gif", "gif.main"),
    ("tgz", "tgz.main"),
    ("gzip", "gzip.main"),
    ("jpeg", "jpeg.main"),
    ("mpeg4", "mpeg4.main"),
    ("png", "png.main"),
    ("riff", "riff.main"),
    ("tiff", "tiff.main"),
    ("tar", "tar.main"),
    ("elf", "elf.main"),
    ("opentype", "opentype.main"),
    ("numbers", "numbers.main"),
    ("rle", "rle.main"),
    ("text", "text.string"),
];

/// formats that leave what their offsets lead to unconsumed
pub const NO_END: &[&str] = &["tiff"];

pub struct Shipped {
    pub label: String,
    pub program: Program,
}

/// the complete module, and the format named `name`
pub fn module() -> (FormatModule, Format) {
    let mut m = FormatModule::new();
    let main = doodle_formats::format::main(&mut m);
    (m, main.call())
}

pub fn lookup(m: &FormatModule, name: &str) -> Option<Format> {
    m.iter_formats().find(|(l, _)| m.get_name(*l) == name).map(|(l, _)| Format::ItemVar(l, vec![], vec![]))
}

pub fn compile(m: &FormatModule, main: &Format, label: &str) -> Result<Shipped, String> {
    let f = if label == "main" {
        main.clone()
    } else {
        let name = NAMES.iter().find(|(l, _)| *l == label).map(|x| x.1).unwrap_or(label);
        let f = lookup(m, name).ok_or_else(|| format!("no format named {name}"))?;
        // followed by the end of input, as in the choice of all shipped formats
        if NO_END.contains(&label) { f } else { record_auto([("data", f), ("__end", Format::EndOfInput)]) }
    };
    let program = guarded(|| Compiler::compile_program(m, &f)).map_err(|e| format!("panic: {e}"))?.map_err(|e| e.to_string())?;
    Ok(Shipped { label: label.to_string(), program })
}

#[derive(Debug)]
pub enum Out {
    Ok(RV),
    Reject(String),
    Panic(String),
}

impl Out {
    pub fn kind(&self) -> &'static str {
        match self {
            Out::Ok(_) => "accepts",
            Out::Reject(_) => "rejects",
            Out::Panic(_) => "panics",
        }
    }
}

pub fn interp(s: &Shipped, input: &[u8]) -> Out {
    match guarded(|| s.program.run(ReadCtxt::new(input)).map(|(v, _)| from_value(&v)).map_err(|e| format!("{e}"))) {
        Ok(Ok(RV::Rec(fs))) if fs.len() == 1 => Out::Ok(fs.into_iter().next().unwrap().1),
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Reject(e),
        Err(p) => Out::Panic(p),
    }
}

/// the message of a panic of the located decoder
pub fn located(s: &Shipped, input: &[u8]) -> Option<String> {
    guarded(|| s.program.run_with_loc(ReadCtxt::new(input)).is_ok()).err()
}

pub enum GenOut {
    Ok(String),
    /// the message, and whether arithmetic or a refuted match is the reason
    Reject(String, &'static str),
    Panic(String),
    Absent,
}

pub fn generated(label: &str, input: &[u8]) -> GenOut {
    let r = guarded(|| {
        let mut p = Parser::new(input);
        let r = vgen::run_entry(label, &mut p)?;
        Some(r.and_then(|s| if label == "main" || NO_END.contains(&label) { Ok(s) } else { p.finish().map(|_| s) }).map_err(|e| {
            use doodle::prelude::ParseError as E;
            let why = match &e {
                E::UnsoundOperation(..) | E::BadEval(_) => "arithmetic",
                E::ExcludedBranch(_) => "no_branch",
                _ => "",
            };
            (format!("{e}"), why)
        }))
    });
    match r {
        Ok(None) => GenOut::Absent,
        Ok(Some(Ok(s))) => GenOut::Ok(s),
        Ok(Some(Err((e, why)))) => GenOut::Reject(e, why),
        Err(p) => GenOut::Panic(p),
    }
}

/// `None` if the two agree
pub fn compare(label: &str, a: &Out, b: &GenOut) -> Option<String> {
    match (a, b) {
        (_, GenOut::Absent) => None,
        (Out::Ok(v), GenOut::Ok(s)) => match dbgtree::parse(s) {
            Ok(t) => {
                // `main` is a record of one field
                let t = match t {
                    dbgtree::T::Rec(_, mut fs) if label == "main" && fs.len() == 1 => fs.pop().unwrap().1,
                    t => t,
                };
                dbgtree::diff(v, &t).map(|d| format!("values differ: {d}"))
            }
            Err(e) => Some(format!("cannot read generated value: {e}")),
        },
        // a crash of the interpreter leaves nothing to compare: whether there may be one is C18's question
        (Out::Panic(_), _) => None,
        // and a crash is no acceptance
        (Out::Reject(_), GenOut::Panic(_) | GenOut::Reject(..)) => None,
        (a, b) => {
            let why = match b {
                GenOut::Ok(_) => "accepts".to_string(),
                GenOut::Reject(e, _) => format!("rejects ({e})"),
                GenOut::Panic(e) => format!("panics ({e})"),
                GenOut::Absent => String::new(),
            };
            let mine = match a {
                Out::Reject(e) | Out::Panic(e) => format!(" ({})", dbgtree::short(e)),
                _ => String::new(),
            };
            Some(format!("interpreter {}{mine}, generated decoder {why}", a.kind()))
        }
    }
}
