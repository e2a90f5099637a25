//! Checks that need to see static analyses: built with `--cfg verif_hooks`.
mod c10;
use vcore::report::{Ctx, Tier};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tier = if a.get(2).map(|s| s == "thorough").unwrap_or(false) { Tier::Thorough } else { Tier::Quick };
    let id = a[1].as_str();
    let ctx = Ctx::init(id, tier, "model_checking");
    ctx.run_all(|ctx| match id {
        "C10" => c10::run(ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    })
}
