mod big;
mod core;
mod gen;
mod model;
mod props;
mod run;
mod special;
mod trace;
mod vary;
use crate::core::*;
use serde_json::Value;
use std::path::Path;

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => run::run(&a[2]),
        Some("lane") => run::lane(&a[2..]),
        Some("case") | Some("replay") => run::case(Path::new(&a[2])),
        Some("eval") => run::eval(Path::new(&a[2]), Path::new(&a[3])),
        Some("dump") => {
            run::dump(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
            0
        }
        Some("probe") => {
            let f = a[2].clone();
            run::on_stack(64 * 1024, move || probe(&f));
            0
        }
        _ => {
            eprintln!("usage: mon run PROP | replay FILE | dump PROP SEED INDEX | probe FILE");
            2
        }
    };
    std::process::exit(code);
}
/// The answers of a case next to those of the model, for reading.
fn probe(file: &str) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let c = gen::Case::from_json(if v.get("case").is_some() { &v["case"] } else { &v });
    let base = run::scratch_base();
    let root = base.join("w");
    props::fresh_root(&root, &c.world);
    let r = c.opts.resolver(&root, None);
    let m = model::Model::new(&c.opts, &root);
    for call in &c.calls {
        let b = base_path(&root, &call.base);
        if call.se {
            println!("side effects {:?}: {} | model {:?}", call.base, side_effects(&r, &b).short(&root), m.side_effects(&b));
            continue;
        }
        let req = subst(&call.req, &root);
        let e = m.resolve(&b, &req);
        println!("{:?} {:?}: {} | model {} {:?}", call.base, call.req, resolve(&r, &b, &req).short(&root), e.short(&root), m.tags.borrow());
    }
    let _ = std::fs::remove_dir_all(&base);
}
