mod codec; mod common; mod json; mod merkle; mod msg; mod mss; mod ntru; mod rc; mod refimpl; mod pb3; mod prng; mod ring; mod slice; mod spongos; mod total; mod troika;
#[global_allocator]
static HEAP: common::Track = common::Track;
use common::*;
use std::io::BufRead;
use std::sync::atomic::Ordering;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if let Ok(s) = std::env::var("VERIF_SEED") { if let Ok(n) = s.parse() { SEED.store(n, Ordering::Relaxed) } }
    if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { THOROUGH.store(true, Ordering::Relaxed) }
    let serial = std::env::var("HARNESS_SERIAL").is_ok();
    if std::env::var("HARNESS_LOUD").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let family = args[1].as_str();
    let lines: Vec<String> = match args.get(2) {
        Some(p) if p != "-" => std::io::BufReader::new(std::fs::File::open(p).expect("cases")).lines().map(|l| l.unwrap()).filter(|l| !l.is_empty()).collect(),
        _ => vec![],
    };
    let num = |i: usize| args[i].parse::<usize>().expect("number");
    match family {
        "slice" => run_cases(family, &lines, serial, slice::replay),
        "codec" => run_cases(family, &lines, serial, codec::replay),
        "merkleC08" => run_cases(family, &lines, serial, |c| merkle::replay(c, "C08")),
        "merkleC09" => run_cases(family, &lines, serial, |c| merkle::replay(c, "C09")),
        "merkleC10" => run_cases(family, &lines, serial, |c| merkle::replay(c, "C10")),
        "merklerec" => rec(family, || merkle::record(&args[3], num(4), num(5), num(6))),
        "mssC06" => run_cases(family, &lines, serial, |c| mss::replay(c, "C06")),
        "mssC07" => run_cases(family, &lines, serial, |c| mss::replay(c, "C07")),
        f if f.starts_with("msg") => { let p = f[3..].to_string(); run_cases(family, &lines, serial, move |c| msg::replay(c, &p)) }
        "total" => run_cases(family, &lines, serial, total::replay),
        "ntru" => run_cases(family, &lines, serial, ntru::replay),
        "ring" => run_cases(family, &lines, serial, ring::replay),
        "troika" => run_cases(family, &lines, serial, troika::replay),
        "pb3" => run_cases(family, &lines, serial, pb3::replay),
        "prng" => run_cases(family, &lines, serial, prng::replay),
        "spongos" => run_cases(family, &lines, serial, spongos::replay),
        f => { eprintln!("unknown family {}", f); std::process::exit(2) }
    }
    finish();
}
/// recording drives the code under test: a panic there is a failure
fn rec(family: &str, f: impl FnOnce()) {
    if let Err(p) = guarded(f) {
        if p.starts_with("harness:") { println!("TOOLERROR {}", p); std::process::exit(3) }
        fail(family, 0, &format!("panic while recording: {}", p), "");
    }
}
