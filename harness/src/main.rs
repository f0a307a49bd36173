mod framework;
mod gens;
mod graph;
mod lib_tensor;
mod model;

mod c01;
mod c02;
mod c03;
mod c05;
mod c08;
mod ops;
mod alloc;
mod c12;
mod prog;
mod c17;
mod c15;
mod types;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

use framework::*;
use std::path::Path;

fn properties() -> Vec<Property> {
    vec![
        c01::property(),
        c02::property(),
        c03::property_c03(),
        c03::property_c04(),
        c05::property_c05(),
        c05::property_c06(),
        c05::property_c07(),
        c08::property_c08(),
        c08::property_c09(),
        c08::property_c10(),
        c08::property_c11(),
        c12::property_c12(),
        c12::property_c13(),
        c12::property_c14(),
        c15::property_c15(),
        c15::property_c16(),
        c17::property_c17(),
        c17::property_c18(),
        c17::property_c19(),
    ]
}
fn find(id: &str) -> Property {
    properties().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let code = match arg(1) {
        // vh check ID [tier] [suite substring]
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let t = if arg(3).is_empty() { std::env::var("VERIF_TIER").unwrap_or_default() } else { arg(3).to_string() };
            check(&find(arg(2)), seed, tier(&t), a.get(4).map(|s| s.as_str()))
        }
        "run-child" => {
            limit_memory();
            let only = a.get(7).map(|s| s.as_str());
            child_run(&find(arg(2)), arg(3).parse().unwrap(), tier(arg(4)), arg(5).parse().unwrap(), Path::new(arg(6)), only);
            0
        }
        "replay-child" => {
            limit_memory();
            child_replay(&find(arg(2)), Path::new(arg(3)))
        }
        // vh replay ID FILE
        "replay" => {
            let work = std::env::temp_dir().join(format!("vh-replay-{}", std::process::id()));
            std::fs::create_dir_all(&work).unwrap();
            let r = replay_file(find(arg(2)).id, Path::new(arg(3)), &work);
            let _ = std::fs::remove_dir_all(&work);
            match r {
                Ok(None) => {
                    println!("the property holds on this case");
                    0
                }
                Ok(Some(m)) => {
                    println!("{m}");
                    1
                }
                Err(e) => {
                    println!("ERROR {e}");
                    2
                }
            }
        }
        "list" => {
            for p in properties() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vh check ID [quick|thorough] [suite] | replay ID FILE | list");
            2
        }
    };
    std::process::exit(code);
}
