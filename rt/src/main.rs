//! Runs the executable form of the contracts against the real crate on generated inputs.
//! rt <property> --seed N (--secs S | --case K) --out FILE
//! Exit 0: held on every case; exit 1: a failing input was found and written to FILE; 2: usage.
mod build;
mod dirs;
mod fstops;
mod images;
mod oracle;
mod pyext;
mod records;
mod reading;

use std::cell::RefCell;
use std::collections::HashSet;
use std::io::Write;
use std::time::Instant;

thread_local! {
    static LOG: RefCell<Vec<String>> = RefCell::new(Vec::new());
    static PANIC: RefCell<String> = RefCell::new(String::new());
}
pub fn log(s: String) {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        if l.len() < 4000 {
            l.push(s)
        }
    });
}
#[macro_export]
macro_rules! step { ($($t:tt)*) => { $crate::log(format!($($t)*)) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } } }

pub type R = Result<(), String>;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = a.get(1).cloned().unwrap_or_default();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(5.0);
    let min_cases: u64 = get("--min").and_then(|s| s.parse().ok()).unwrap_or(1);
    let only: Option<u64> = get("--case").and_then(|s| s.parse().ok());
    let out = get("--out").unwrap_or("/dev/stdout".into());
    let f: fn(&mut oracle::Rng, u64) -> R = match prop.as_str() {
        "C01" => reading::c01,
        "C02" => build::c02,
        "C03" => build::c03,
        "C04" => fstops::c04,
        "C05" => fstops::c05,
        "C06" => fstops::c06,
        "C07" => fstops::c07,
        "C08" => reading::c08,
        "C09" => records::c09,
        "C10" => build::c10,
        "C11" => build::c11,
        "C12" => dirs::c12,
        "C13" => images::c13,
        "C14" => reading::c14,
        "C15" => build::c15,
        "C16" => pyext::c16,
        "C17" => build::c17,
        _ => {
            eprintln!("usage: rt C01..C17 --seed N --secs S --out FILE");
            std::process::exit(2)
        }
    };
    std::panic::set_hook(Box::new(|i| {
        PANIC.with(|p| *p.borrow_mut() = format!("{i}"));
    }));
    let t0 = Instant::now();
    let mut n = 0u64;
    let mut seen: HashSet<u64> = HashSet::new();
    let mut nontrivial = 0u64;
    let mut samples: Vec<String> = Vec::new();
    let mut bad: Option<(u64, String, Vec<String>)> = None;
    let mut case = only.unwrap_or(0);
    // the case being run, for the driver when this process hangs or is killed
    let mut cur = get("--cur").and_then(|p| std::fs::File::create(p).ok());
    loop {
        if let Some(f) = &mut cur {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(format!("{case:020}").as_bytes(), 0);
        }
        LOG.with(|l| l.borrow_mut().clear());
        let mut rng = oracle::Rng::new(seed.wrapping_mul(0x1000003).wrapping_add(case));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut rng, case)));
        let steps = LOG.with(|l| l.borrow().clone());
        n += 1;
        {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            steps.hash(&mut h);
            // non-trivial: the case performed at least two recorded steps
            if seen.insert(h.finish()) && steps.len() >= 2 {
                nontrivial += 1;
                if samples.len() < 3 {
                    samples.push(steps.iter().take(6).cloned().collect::<Vec<_>>().join("; "));
                }
            }
        }
        let res = match r {
            Ok(r) => r,
            Err(_) => Err(format!("panicked: {}", PANIC.with(|p| p.borrow().clone()))),
        };
        if let Err(m) = res {
            bad = Some((case, m, steps));
            break;
        }
        case += 1;
        if only.is_some() || (n >= min_cases && t0.elapsed().as_secs_f64() > secs) {
            break;
        }
    }
    let mut o = String::new();
    o.push_str(&format!(
        "{{\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"wall_s\":{:.2},\"failure\":",
        js(&prop), seed, n, nontrivial,
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64()
    ));
    match &bad {
        None => o.push_str("null}\n"),
        Some((c, m, st)) => o.push_str(&format!(
            "{{\"case\":{},\"what\":{},\"input\":[{}]}}}}\n",
            c, js(m), st.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
        )),
    }
    let _ = std::fs::File::create(&out).and_then(|mut f| f.write_all(o.as_bytes()));
    std::process::exit(if bad.is_some() { 1 } else { 0 });
}
