use crate::runner::{self, AnyProp, Opt};
use std::path::{Path, PathBuf};

fn usage() -> ! {
    eprintln!("pbt run ID TIER SEED [CASES] | pbt replay FILE | pbt list");
    std::process::exit(2)
}
/// Command line over the given properties.
pub fn main(props: Vec<Box<dyn AnyProp>>) {
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let a: Vec<String> = std::env::args().skip(1).collect();
    let verif = std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| {
        Path::new(env!("CARGO_MANIFEST_DIR")).parent().expect("parent of the harness").to_path_buf()
    });
    let get = |id: &str| props.iter().find(|p| p.id() == id).unwrap_or_else(|| {
        eprintln!("{id}: not built in (feature {})", id.to_lowercase());
        std::process::exit(2)
    });
    let code = match a.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice() {
        ["list"] => {
            for p in &props {
                println!("{}", p.id());
            }
            0
        }
        ["run", id, tier, seed, rest @ ..] => runner::supervise(
            get(id).as_ref(),
            &verif,
            tier,
            seed.parse().unwrap_or_else(|_| usage()),
            rest.first().map(|s| s.parse().unwrap_or_else(|_| usage())),
        ),
        ["worker", id, tier, seed, dir, regress, cases] => {
            let opt = Opt {
                tier: tier.to_string(),
                seed: seed.parse().unwrap_or_else(|_| usage()),
                dir: dir.into(),
                regress: regress.into(),
                cases: cases.parse().ok(),
            };
            let r = get(id).work(&opt);
            std::fs::write(opt.dir.join("result.json"), serde_json::to_vec(&r).expect("result")).expect("result file");
            0
        }
        ["replay-case", id, file] => {
            runner::install_hook();
            let v = serde_json::from_str(&std::fs::read_to_string(file).expect("case file")).expect("json");
            match get(id).replay(&v) {
                Ok(()) => 0,
                Err(e) => {
                    println!("{e}");
                    1
                }
            }
        }
        ["replay", file] => {
            runner::install_hook();
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
            let id = v["property"].as_str().expect("property").to_string();
            match get(&id).replay(&v["case"]) {
                Ok(()) => {
                    println!("PASS {id}");
                    0
                }
                Err(e) => {
                    println!("{e}\nVIOLATION property={id} replay={file}");
                    1
                }
            }
        }
        _ => usage(),
    };
    std::process::exit(code)
}
