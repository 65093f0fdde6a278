#[cfg(feature = "c01")]
mod c01;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c06")]
mod c06;
#[cfg(feature = "c07")]
mod c07;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c09")]
mod c09;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "c12")]
mod c12;
#[cfg(feature = "c15")]
mod c15;
#[cfg(feature = "c16")]
mod c16;
#[cfg(feature = "c17")]
mod c17;
#[cfg(feature = "c18")]
mod c18;
#[cfg(feature = "c19")]
mod c19;
#[cfg(feature = "c20")]
mod c20;
#[cfg(feature = "c21")]
mod c21;
#[cfg(feature = "c22")]
mod c22;
#[cfg(feature = "robust")]
mod c23;
#[cfg(feature = "c24")]
mod c24;
#[cfg(feature = "c25")]
mod c25;
#[cfg(feature = "c26")]
mod c26;
#[cfg(feature = "c27")]
mod c27;
mod common;
mod der;
mod eut;
mod hello;
mod mutate;
mod ossl;
mod rep;
mod rng;
mod seq;
#[cfg(feature = "robust")]
mod robust;
mod sim;
mod tls;

use std::os::unix::process::ExitStatusExt;
use std::process::Command;
use std::time::Duration;

#[global_allocator]
static ALLOC: sim::Counting = sim::Counting;

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
/// Signatures of listed (unrepaired) findings of a property
pub fn known_findings(prop: &str) -> Vec<String> {
    let txt = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())).unwrap_or_default();
    let pre = format!("finding: property={prop} ");
    txt.lines().filter_map(|l| l.strip_prefix(&pre).map(|s| s.trim().to_string())).collect()
}
pub fn level(_prop: &str) -> &'static str {
    "exploration"
}

type Check = fn(&rep::Rep);
/// (property, check, rule)
const CHECKS: &[(&str, Check, &str)] = &[
    #[cfg(feature = "c01")]
    ("C01", c01::run, c01::RULE),
    #[cfg(feature = "c02")]
    ("C02", c02::run, c02::RULE),
    #[cfg(feature = "c03")]
    ("C03", c03::run, c03::RULE),
    #[cfg(feature = "c04")]
    ("C04", c04::run, c04::RULE),
    #[cfg(feature = "c05")]
    ("C05", c05::run, c05::RULE),
    #[cfg(feature = "c06")]
    ("C06", c06::run, c06::RULE),
    #[cfg(feature = "c07")]
    ("C07", c07::run, c07::RULE),
    #[cfg(feature = "c08")]
    ("C08", c08::run, c08::RULE),
    #[cfg(feature = "c09")]
    ("C09", c09::run, c09::RULE),
    #[cfg(feature = "c10")]
    ("C10", c10::run, c10::RULE),
    #[cfg(feature = "c11")]
    ("C11", c11::run, c11::RULE),
    #[cfg(feature = "c12")]
    ("C12", c12::run, c12::RULE),
    #[cfg(feature = "robust")]
    ("C13", robust::c13, robust::RULE),
    #[cfg(feature = "robust")]
    ("C14", robust::c14, robust::RULE),
    #[cfg(feature = "c15")]
    ("C15", c15::run, c15::RULE),
    #[cfg(feature = "c16")]
    ("C16", c16::run, c16::RULE),
    #[cfg(feature = "c17")]
    ("C17", c17::run, c17::RULE),
    #[cfg(feature = "c18")]
    ("C18", c18::run, c18::RULE),
    #[cfg(feature = "c19")]
    ("C19", c19::run, c19::RULE),
    #[cfg(feature = "c20")]
    ("C20", c20::run, c20::RULE),
    #[cfg(feature = "c21")]
    ("C21", c21::run, c21::RULE),
    #[cfg(feature = "c22")]
    ("C22", c22::run, c22::RULE),
    #[cfg(feature = "robust")]
    ("C23", c23::run, c23::RULE),
    #[cfg(feature = "c24")]
    ("C24", c24::run, c24::RULE),
    #[cfg(feature = "c25")]
    ("C25", c25::run, c25::RULE),
    #[cfg(feature = "c26")]
    ("C26", c26::run, c26::RULE),
    #[cfg(feature = "c27")]
    ("C27", c27::run, c27::RULE),
];

fn main() {
    rep::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: vh <property> <quick|thorough> | vh replay <file>");
        std::process::exit(2)
    };
    if a.len() < 3 {
        usage()
    }
    if a[1] == "worker" {
        std::process::exit(worker(&a[2], &a[3], a.get(4).map(|s| s.as_str())));
    }
    #[cfg(feature = "c25")]
    if a[1] == "march" && a.len() == 7 {
        std::process::exit(c25::child(a[2].parse().expect("seed"), &a[3], a[4] == "server", a[5].parse().expect("number"), &a[6]));
    }
    #[cfg(feature = "c26")]
    if a[1] == "diag" && a.len() == 5 {
        std::process::exit(c26::child(a[2].parse().expect("seed"), &a[3], a[4] == "hostile"));
    }
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (mut prop, mut tier) = (a[1].clone(), a[2].clone());
    let mut only = None;
    if a[1] == "replay" {
        let txt = std::fs::read_to_string(&a[2]).expect("replay file");
        let get = |k: &str| txt.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or_default().to_string();
        prop = get("property");
        tier = get("tier");
        seed = get("seed").parse().expect("seed");
        only = Some(get("case"));
    }
    if !CHECKS.iter().any(|c| c.0 == prop) || !["quick", "thorough"].contains(&tier.as_str()) {
        usage()
    }
    std::process::exit(supervise(&prop, &tier, seed, only));
}

/// Runs the check in a child process, so that a crash of the code under test is an observation
fn supervise(prop: &str, tier: &str, seed: u64, only: Option<String>) -> i32 {
    let scratch = eut::Scratch::new();
    let slots = scratch.path("slots");
    let exe = std::env::current_exe().expect("exe");
    let run = |only: Option<&str>| {
        let mut c = Command::new(&exe);
        c.arg("worker").arg(prop).arg(tier);
        if let Some(o) = only {
            c.arg(o);
        }
        c.env("VERIF_SEED", seed.to_string()).env("VH_SLOTS", &slots).env("VH_SCRATCH", &scratch.0);
        c.status().expect("worker")
    };
    let st = run(only.as_deref());
    if let Some(code) = st.code() {
        return code;
    }
    let sig = st.signal().unwrap_or(0);
    if ![libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig) {
        println!("ERROR: worker ended by signal {sig}");
        return 2;
    }
    // find the case that does it
    let mut cand = vec![];
    if let Some(o) = only {
        cand.push(o);
    } else if let Ok(b) = std::fs::read(&slots) {
        for s in b.chunks(128) {
            let n = s.iter().position(|x| *x == 0).unwrap_or(s.len());
            if n > 0 {
                cand.push(String::from_utf8_lossy(&s[..n]).into_owned());
            }
        }
    }
    for o in cand {
        let st = run(Some(&o));
        if st.signal() == Some(sig) {
            let dir = verif_dir();
            let _ = std::fs::create_dir_all(format!("{dir}/evidence/replay"));
            let path = format!("{dir}/evidence/replay/{prop}-crash.txt");
            let _ = std::fs::write(&path, format!("property={prop}\ntier={tier}\nseed={seed}\ncase={o}\nsignature=crash\n\nthe process was ended by signal {sig}\n"));
            let ev = format!(
                "{{\"property\":\"{prop}\",\"tier\":\"{tier}\",\"seed\":{seed},\"level\":\"{}\",\"coverage\":{{\"evaluations\":1,\"distinct_nontrivial\":1,\"rule\":\"the run ended in a crash (signal {sig}) of case {o}\",\"samples\":[\"{o}\"]}},\"wall_s\":0,\"violations\":1}}\n",
                level(prop)
            );
            let _ = std::fs::write(format!("{dir}/evidence/{prop}.json"), ev);
            println!("  crash: case {o} ends the process by signal {sig}");
            println!("VIOLATION property={prop} replay={path}");
            return 1;
        }
    }
    println!("ERROR: worker ended by signal {sig}, not reproducible");
    2
}

fn worker(prop: &str, tier: &str, only: Option<&str>) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let only = only.map(|o| {
        let (g, i) = o.rsplit_once(':').expect("case");
        (g.to_string(), i.parse().expect("index"))
    });
    let budget = Duration::from_secs(if tier == "thorough" { 780 } else { 240 });
    let r = rep::Rep::new(prop, tier, seed, budget, only, std::env::var("VH_SLOTS").ok().as_deref());
    let (_, f, rule) = CHECKS.iter().find(|c| c.0 == prop).unwrap();
    f(&r);
    r.finish(rule)
}
