//! vp-lib <family> <dir>: what the library code of /repo does with every case
//! of dir/cases.ndjson; one observation per line of dir/obs.ndjson.
mod base;
mod con;
mod ext;
mod ix;
mod mint;
mod util;
use serde_json::Value;
use std::io::Write;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let dir = std::path::Path::new(&a[2]);
    let h: Value = serde_json::from_str(&std::fs::read_to_string(dir.join("header.json")).unwrap()).unwrap();
    let cases: Vec<Value> = std::fs::read_to_string(dir.join("cases.ndjson"))
        .unwrap()
        .lines()
        .map(|l| serde_json::from_str(l).unwrap())
        .collect();
    let obs = match a[1].as_str() {
        "con" => con::run(&h, &cases),
        "mint" => mint::run(&h, &cases),
        "base" => base::run(&h, &cases, dir),
        "ix" => ix::run(&h, &cases),
        "ext" => ext::run(&h, &cases),
        c => panic!("unknown family {c}"),
    };
    let mut f = std::io::BufWriter::new(std::fs::File::create(dir.join("obs.ndjson")).unwrap());
    for o in obs {
        writeln!(f, "{o}").unwrap();
    }
}
