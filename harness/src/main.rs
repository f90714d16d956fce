mod codec;
mod ctx;
mod ffi;
mod form;
mod hybrid;
mod parse;
mod pol;
mod scheme;
mod toy;
mod side;
use ctx::*;
use std::time::{Duration, Instant};

#[global_allocator]
static A: Tracking = Tracking;

fn kinds(p: &str) -> Vec<Kind> {
    match p {
        "C01" => scheme::c01(),
        "C02" => scheme::c02(),
        "C03" => pol::c03(),
        "C04" => scheme::c04(),
        "C05" => codec::c05(),
        "C06" => codec::c06(),
        "C07" => parse::c07(),
        "C08" => hybrid::c08(),
        "C09" => hybrid::c09(),
        "C10" => ffi::c10(),
        "C11" => ffi::c11(),
        "C12" => pol::c12(),
        "C13" => scheme::c13(),
        "C14" => hybrid::c14(),
        _ => vec![],
    }
}
// vh run PROP SEED TIER SECONDS OUT [kind [from to]]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("side") {
        return side::main(&a[2..]);
    }
    if a.get(1).map(|s| s.as_str()) == Some("kinds") {
        for k in kinds(&a[2]) {
            println!("{} {} {}", k.name, k.quick, k.thorough);
        }
        return;
    }
    let (p, seed, tier, secs, out) = (&a[2], a[3].parse::<u64>().unwrap(), &a[4], a[5].parse::<u64>().unwrap(), &a[6]);
    let only = a.get(7);
    ECHO.store(std::env::var("VH_ECHO").is_ok(), std::sync::atomic::Ordering::Relaxed);
    let range = a.get(8).map(|f| (f.parse::<u64>().unwrap(), a[9].parse::<u64>().unwrap()));
    let mut rep = Report { evals: vec![], samples: vec![], failure: None, known: vec![] };
    let end = Instant::now() + Duration::from_secs(secs);
    for k in kinds(p) {
        if only.is_some_and(|o| o != k.name) {
            continue;
        }
        let n = if tier == "thorough" { k.thorough } else { k.quick };
        let (f, t) = range.unwrap_or((0, n));
        if f >= t {
            continue;
        }
        println!("KIND {}", k.name);
        let t0 = Instant::now();
        run_kind(&k, seed, f, t, &mut rep, end);
        eprintln!("{} {:?} {:?}", k.name, rep.evals.last().unwrap().1, t0.elapsed());
        if rep.failure.is_some() {
            break;
        }
    }
    let j = serde_json::json!({
        "evals": rep.evals, "samples": rep.samples, "known": rep.known,
        "failure": rep.failure.as_ref().map(|f| serde_json::json!({"kind": f.kind, "index": f.index, "input": f.input, "what": f.what})),
    });
    std::fs::write(out, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    std::process::exit(if rep.failure.is_some() { 1 } else { 0 });
}
