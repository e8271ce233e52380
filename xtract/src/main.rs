//! Mechanical extraction of Rust source into the dialect Verus accepts.
mod core;
mod gencode;

use std::io::Read;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut input = String::new();
    std::io::stdin().read_to_string(&mut input).unwrap();
    match args.get(1).map(|s| s.as_str()) {
        // one JSON object {"src":.., "prefix":..} per line -> one JSON object per line
        Some("gen") => {
            for line in input.lines() {
                let v: serde_json::Value = serde_json::from_str(line).unwrap();
                let out = match gencode::extract(v["src"].as_str().unwrap(), v["prefix"].as_str().unwrap()) {
                    Ok(v) => v,
                    Err(e) => serde_json::json!({"unsupported": e}),
                };
                println!("{}", out);
            }
        }
        // {"src": text of a source file, "kind": "fn" | "type", "path": ..}
        Some("core") => {
            for line in input.lines() {
                let v: serde_json::Value = serde_json::from_str(line).unwrap();
                let out = match core::run(&v) {
                    Ok(v) => v,
                    Err(e) => serde_json::json!({"unsupported": e}),
                };
                println!("{}", out);
            }
        }
        _ => panic!("usage: xtract gen"),
    }
}
