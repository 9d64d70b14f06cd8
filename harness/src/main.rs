//! Concrete checks of the properties against the real crates, next to the deductive proof.
//! usage: csv_harness PROPERTY quick|thorough REPLAY_FILE ; exit 0 clean, 1 failing input found, 2 known finding only
mod base;
mod deps;
mod mpc;
mod reference;
mod seals;
mod util;
mod wire;
use util::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut c = Ctx { rng: Rng(seed.wrapping_mul(0x1234567)), deep: a[2] == "thorough", cases: 0, notes: vec![] };
    quiet_panics();
    let prop = a[1].clone();
    let out = guard(|| match prop.as_str() {
        "C01" => mpc::c01(&mut c), "C02" => mpc::c02(&mut c), "C03" => mpc::c03(&mut c), "C04" => mpc::c04(&mut c),
        "C05" => mpc::c05(&mut c), "C06" => mpc::c06(&mut c), "C07" => mpc::c07(&mut c), "C08" => mpc::c08(&mut c),
        "C09" => base::c09(&mut c), "C10" => base::c10(&mut c), "C11" => base::c11(&mut c), "C12" => base::c12(&mut c),
        "C13" => base::c13(&mut c), "C14" => seals::c14(&mut c), "C15" => seals::c15(&mut c), "C16" => base::c16(&mut c),
        "C17" => wire::c17(&mut c), "C18" => mpc::c18(&mut c), "C19" => mpc::c19(&mut c), "C20" => base::c20(&mut c),
        "C21" => match mpc::c21(&mut c) { Ok(true) => { c.note("FINDING other-half"); Ok(()) } Ok(false) => Ok(()), Err(e) => Err(e) },
        "C22" => base::c22(&mut c),
        "DEPS" => deps::deps(&mut c),
        p => panic!("no such property {p}"),
    });
    let res = match out { Ok(r) => r, Err(p) => Err(Fail { input: "(input not captured; rerun with the same seed)".into(), what: format!("the code under test crashed: {p}") }) };
    println!("cases {}", c.cases);
    for n in &c.notes { println!("{n}"); }
    if let Err(f) = res {
        let text = format!("property {prop}\nwhat: {}\ninput: {}\nreplay: VERIF_SEED={seed} csv_harness {prop} {} FILE\n", f.what, f.input, a[2]);
        if let Some(p) = a.get(3) { let _ = std::fs::write(p, &text); }
        println!("FAIL {text}");
        flush();
        std::process::exit(1);
    }
}
