//! Takes the committed generated decoders from /repo, unchanged apart from the file header, so that
//! their (private) entry points can be called.
use std::fmt::Write;
fn main() {
    let src = "/repo/generated/gencode.rs";
    println!("cargo:rerun-if-changed={src}");
    let text = std::fs::read_to_string(src).expect("gencode.rs");
    let mut out = String::with_capacity(text.len() + 4096);
    for line in text.lines() {
        let t = line.trim_start();
        if t.starts_with("#![") || t.starts_with("mod codegen_tests") || t.starts_with("pub mod api_helper") {
            continue;
        }
        out.push_str(line);
        out.push('\n');
    }
    // entry points: the decoder of the whole format, and what the branches of its choice call
    let sig = |name: &str| -> bool {
        text.contains(&format!("fn {name}<'input>(_input: &mut Parser<'input>)")) || text.contains(&format!("fn {name}(_input: &mut Parser<'_>)"))
            || text.contains(&format!("fn {name}(_input: &mut Parser)"))
    };
    let mut entries: Vec<(String, String)> = vec![];
    if let Some(top) = text.lines().find_map(|l| l.strip_prefix("fn Decoder").filter(|r| r.starts_with("_main")).map(|_| "Decoder_main".to_string())) {
        entries.push(("main".into(), top));
    }
    let mut last: Option<String> = None;
    for line in text.lines() {
        if let Some(p) = line.find("Decoder") {
            let name: String = line[p..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            if line[p + name.len()..].starts_with("(_input)") {
                last = Some(name);
            }
        }
        if let Some(p) = line.find("main_data::") {
            let label: String = line[p + 11..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            if let Some(d) = last.take() {
                if sig(&d) && !entries.iter().any(|(l, _)| *l == label) {
                    entries.push((label, d));
                }
            }
        }
    }
    out.push_str("\npub fn run_entry(name: &str, p: &mut Parser<'_>) -> Option<Result<String, ParseError>> {\n    match name {\n");
    for (l, d) in &entries {
        writeln!(out, "        {l:?} => Some({d}(p).map(|x| format!(\"{{:?}}\", x))),").unwrap();
    }
    out.push_str("        _ => None,\n    }\n}\npub const ENTRIES: &[&str] = &[");
    for (l, _) in &entries {
        write!(out, "{l:?}, ").unwrap();
    }
    out.push_str("];\n");
    let dir = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{dir}/gen.rs"), out).unwrap();
}
