//! Property-based checks for compose_spec. `harness check <ID>` or `harness replay <FILE>`.

mod code;
mod docgen;
mod docs;
mod equality;
mod errors;
mod formats;
mod fw;
mod gen;
mod groups;
mod image;
mod keys;
mod lists;
mod merge;
mod mounts;
mod panics;
mod refs;
mod scalar;
mod shapes;
mod strings;
mod tmpl;
mod views;
mod whole;

use fw::{Property, RunCfg, Tier};

fn properties() -> Vec<Property> {
    vec![panics::c02(), keys::c08(), keys::c09(), image::c10(), image::c11(), scalar::c12(), scalar::c13(), scalar::c22(), scalar::c28(), mounts::c14(), mounts::c15(), mounts::c27(), shapes::c16(), shapes::c17(), shapes::c18(), strings::c19(), strings::c20(), strings::c21(), strings::c23(), whole::c01(), docs::c03(), docs::c04(), docs::c05(), refs::c07(), merge::c06(), groups::c24(), groups::c25(), groups::c26(), lists::c29(), lists::c30(), equality::c31(), formats::c32(), code::c33(), errors::c34()]
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    fw::install_panic_hook();
    let env = |name: &str| std::env::var(name).ok();
    let cfg_for = |property: &'static str| RunCfg {
        tier: if env("VERIF_TIER").as_deref() == Some("thorough") {
            Tier::Thorough
        } else {
            Tier::Quick
        },
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        property,
        pct: env("VERIF_CASES_PCT").and_then(|s| s.parse().ok()).unwrap_or(100),
    };
    let code = match args.get(1).map(String::as_str) {
        Some("check") => {
            let id = args.get(2).expect("property id");
            match properties().iter().find(|p| p.id == id) {
                Some(p) => fw::run_property(p, &cfg_for(p.id)),
                None => {
                    eprintln!("no such property: {id}");
                    2
                }
            }
        }
        Some("replay") => fw::replay(&properties(), args.get(2).expect("file")),
        Some("list") => {
            for p in properties() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: harness check <ID> | replay <FILE> | list");
            2
        }
    };
    std::process::exit(code);
}
