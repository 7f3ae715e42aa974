// included into the crate under test (module `verif` of /repo/src/main.rs) by the cfg(fix_rs_verif) hook
#[path = "/verif/harness/src/kit.rs"]
pub mod kit;
#[path = "/verif/harness/src/refmodel.rs"]
pub mod refmodel;
#[path = "/verif/harness/src/specs.rs"]
pub mod specs;
#[path = "/verif/harness/src/codec.rs"]
pub mod codec;
#[path = "/verif/harness/src/builder.rs"]
pub mod builder;
#[path = "/verif/harness/src/ident.rs"]
pub mod ident;
#[path = "/verif/harness/src/dict.rs"]
pub mod dict;
#[path = "/verif/harness/src/settings.rs"]
pub mod settings;
#[path = "/verif/harness/src/schedule.rs"]
pub mod schedule;
#[path = "/verif/harness/src/engine.rs"]
pub mod engine;
#[path = "/verif/harness/src/scenes.rs"]
pub mod scenes;
#[path = "/verif/harness/src/deep.rs"]
pub mod deep;
#[path = "/verif/harness/src/conform.rs"]
pub mod conform;

pub fn main() {
    kit::install();
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let replay = match (args.get(2).map(|s| s.as_str()), args.get(3)) {
        (Some("--replay"), Some(path)) => {
            Some(std::fs::read_to_string(path).expect("replay file"))
        }
        _ => None,
    };
    if id == "child" {
        dict::child(&args[2..]);
        return;
    }
    if id == "deep" {
        deep::child(&args[2..]);
        return;
    }
    if id == "conform" {
        std::process::exit(conform::main(args.get(2).and_then(|x| x.parse().ok()).unwrap_or(4)));
    }
    if id == "worker" {
        let ctx = kit::Ctx::new(&args[2], None);
        engine::worker(ctx);
        return;
    }
    let ctx = kit::Ctx::new(&id, replay);
    if ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09"].contains(&id.as_str()) && deep::check(&ctx) {
        ctx.finish();
    }
    match id.as_str() {
        "C01" => codec::c01(&ctx),
        "C02" => codec::c02(&ctx),
        "C03" => codec::c03(&ctx),
        "C04" => codec::c04(&ctx),
        "C05" => builder::c05(&ctx),
        "C06" => ident::c06(&ctx),
        "C07" => dict::c07(&ctx),
        "C08" => dict::c08(&ctx),
        "C09" => settings::c09(&ctx),
        "C10" => settings::c10(&ctx),
        "C11" => schedule::c11(&ctx),
        "C12" => schedule::c12(&ctx),
        "C13" => engine::c13(&ctx),
        "C14" => engine::c14(&ctx),
        "C15" => engine::c15(&ctx),
        "C16" => engine::c16(&ctx),
        "C17" => engine::c17(&ctx),
        "C18" => engine::c18(&ctx),
        "C19" => builder::c19(&ctx),
        _ => {
            eprintln!("unknown check {}", id);
            std::process::exit(2);
        }
    }
    ctx.finish();
}
