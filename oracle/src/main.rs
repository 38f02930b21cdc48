//! Runs the real crates of /repo on enumerated and seeded inputs and compares what they do with an
//! independent reading of each property.  Used to turn a failed proof obligation into a failing
//! input (and to replay it), never as evidence of proof.
//!
//!   oracle PROP --seed N --tier quick|thorough --out FILE [--only CASE_ID]
mod att;
mod client;
mod ctx;
mod de;
mod engine;
mod rig;
mod ser;
mod subslice;
mod trip;
mod val;

use ctx::Ctx;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let mut seed = 1u64;
    let mut tier = "quick".to_string();
    let mut out = "/dev/stdout".to_string();
    let mut only = None;
    let mut extra: Vec<String> = vec![];
    let mut i = 2;
    while i + 1 < args.len() {
        match args[i].as_str() {
            "--seed" => seed = args[i + 1].parse().unwrap_or(1),
            "--tier" => tier = args[i + 1].clone(),
            "--out" => out = args[i + 1].clone(),
            "--texts" => extra = serde_json::from_str(&std::fs::read_to_string(&args[i + 1]).unwrap()).unwrap(),
            "--dict" => {
                let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[i + 1]).unwrap()).unwrap();
                let _ = ctx::DICT.set(ctx::Dict {
                    ints: v["ints"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default(),
                    words: v["words"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default(),
                });
            }
            "--only" => only = Some(args[i + 1].parse().unwrap()),
            x => panic!("unknown argument {}", x),
        }
        i += 2;
    }
    let run: fn(&mut Ctx) = match prop.as_str() {
        "C01" => engine::c01,
        "C02" => engine::c02,
        "C03" => engine::c03,
        "C04" => subslice::c04,
        "C05" => ser::c05,
        "C06" => de::c06,
        "C07" => de::c07,
        "C08" => de::c08,
        "C09" => de::c09,
        "C10" => de::c10,
        "C11" => att::c11,
        "C12" => ser::c12,
        "C13" => ser::c13,
        "C14" => trip::c14,
        "C15" => client::c15,
        "C16" => client::c16,
        "C17" => client::c17,
        "C18" => client::c18,
        "C19" => client::c19,
        "C20" => client::c20,
        "C21" => client::c21,
        "C22" => client::c22,
        p => {
            eprintln!("no oracle for {}", p);
            std::process::exit(3);
        }
    };
    ctx::drive(&prop, seed, tier == "thorough", out, only, extra, run);
}
