use vcore::report::{Ctx, Tier};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tier = if a.get(2).map(|s| s == "thorough").unwrap_or(false) { Tier::Thorough } else { Tier::Quick };
    let id = a[1].as_str();
    let ctx = Ctx::init(id, tier, "model_checking");
    ctx.run_all(|ctx| match id {
        "C01" => vcore::c01::run(ctx),
        "C02" => vcore::c02::run(ctx),
        "C05" => vcore::c05::run(ctx),
        "C09" => vcore::c09::run(ctx),
        "C12" => vcore::c12::run(ctx),
        "C13" => vcore::c13::run(ctx),
        "C14" => vcore::c14::run(ctx),
        "C15" => vcore::c15::run(ctx),
        "C16" => vcore::c16::run(ctx),
        "C11" => vcore::c11::run(ctx),
        "C17" => vcore::c17::run(ctx),
        "C19" => vcore::c19::run(ctx),
        "C03" => vcore::c03::run(ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    })
}
