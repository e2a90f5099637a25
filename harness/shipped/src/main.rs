mod c04s;
mod c13s;
mod c07;
mod c08;
mod damage;
mod eng;
mod inflate;
use vcore::report::{Ctx, Tier};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tier = if a.get(2).map(|s| s == "thorough").unwrap_or(false) { Tier::Thorough } else { Tier::Quick };
    let id = a[1].as_str();
    let ctx = Ctx::init(id, tier, "model_checking");
    ctx.run_all(|ctx| match id {
        "C04" => c04s::run(ctx),
        "C13" => c13s::run(ctx),
        "C07" => c07::run(ctx),
        "C06" => damage::run(ctx, false),
        "C18" => damage::run(ctx, true),
        "C08" => c08::run(ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    })
}
