//! Deterministic simulator for the stream-ciphers crates.
//!
//!   dst batch  --prop P --build B --seed S --runs N [--start I --step K --seconds T] --out DIR/PREFIX
//!   dst one    --prop P (--run-seed X | --tape FILE) [--spill FILE] [--trace]
//!   dst replay FILE [--trace]
//!   dst mini   --prop P --seed S --runs N [--start I --step K] [--tape "1,2;3,4"] [--trace]
//!   dst selftest
//!
//! `mini` needs nothing from the operating system but its arguments and
//! standard output, so that an interpreter of another architecture can run it.
//!
//! Exit status: 0 held, 10 violation, 11 the simulator itself failed.

#![allow(dead_code)]

mod cpu;
mod ct;
mod hook;
mod mem;
mod model;
mod sim;
mod threads;
#[cfg(feature = "stream")]
mod ciphers;
#[cfg(feature = "stream")]
mod common;
#[cfg(feature = "rng")]
mod rngs;
mod scen;

use sim::{RunOut, Src, Stats, Verdict};
use std::collections::HashMap;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: mem::Watch = mem::Watch;

struct Args(HashMap<String, String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    fn num(&self, k: &str, def: u64) -> u64 {
        self.get(k).map_or(def, |v| v.parse().expect("number"))
    }
}

fn run_seed(seed: u64, prop: &str, build: &str, i: u64) -> u64 {
    sim::mix(sim::mix(seed ^ sim::hash(prop.as_bytes())) ^ sim::hash(build.as_bytes()).rotate_left(17) ^ sim::mix(i))
}

fn class(o: &RunOut) -> Option<&str> {
    match &o.verdict {
        Verdict::Violated(v) => Some(&v.class),
        _ => None,
    }
}

/// Shrink a failing tape while the same class of violation persists.
fn minimise(first: &RunOut, body: fn(), stats: &mut Stats) -> RunOut {
    let want = class(first).unwrap().to_string();
    let t0 = Instant::now();
    let mut tries = 0;
    let mut best = sim::execute(Src::replay(first.tape.clone()), false, stats, &body);
    if class(&best) != Some(&want) {
        return sim::execute(Src::replay(first.tape.clone()), true, stats, &body);
    }
    let mut tape = best.tape.clone();
    let mut attempt = |cand: Vec<u64>, tape: &mut Vec<u64>, best: &mut RunOut| -> bool {
        if tries > 6000 || t0.elapsed() > Duration::from_secs(25) {
            return false;
        }
        tries += 1;
        let r = sim::execute(Src::replay(cand), false, stats, &body);
        if class(&r) == Some(&want) {
            let mut t = r.tape.clone();
            while t.last() == Some(&0) {
                t.pop();
            }
            let key = |t: &Vec<u64>| (t.len(), t.iter().filter(|&&x| x != 0).count(), t.iter().map(|&x| x as u128).sum::<u128>());
            if key(&t) < key(tape) {
                *tape = t;
                *best = r;
                return true;
            }
        }
        false
    };
    loop {
        let before = tape.clone();
        let mut size = (tape.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < tape.len() {
                let mut c = tape.clone();
                let end = (i + size).min(c.len());
                c.drain(i..end);
                if !attempt(c, &mut tape, &mut best) {
                    let mut c = tape.clone();
                    let end = (i + size).min(c.len());
                    let z = c[i..end].iter().any(|&x| x != 0);
                    if z {
                        c[i..end].fill(0);
                    }
                    if !(z && attempt(c, &mut tape, &mut best)) {
                        i += size;
                    }
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..tape.len() {
            for f in [|x: u64| 1.min(x), |x: u64| x / 2, |x: u64| x.saturating_sub(1)] {
                while i < tape.len() && f(tape[i]) != tape[i] {
                    let mut c = tape.clone();
                    c[i] = f(tape[i]);
                    if !attempt(c, &mut tape, &mut best) {
                        break;
                    }
                }
            }
        }
        if tape == before {
            break;
        }
    }
    let fin = sim::execute(Src::replay(tape), true, stats, &body);
    if class(&fin) == Some(&want) { fin } else { sim::execute(Src::replay(first.tape.clone()), true, stats, &body) }
}

fn replay_text(prop: &str, build: &str, focus: bool, seed: u64, o: &RunOut) -> String {
    let Verdict::Violated(v) = &o.verdict else { panic!() };
    let mut tape = o.tape.clone();
    while tape.last() == Some(&0) {
        tape.pop();
    }
    let mut s = String::new();
    s += &format!("property: {prop}\nbuild: {build}\nfocus: {}\nrun_seed: {seed}\nclass: {}\n", focus as u8, v.class);
    s += &format!("message: {}\ndigest: {:016x}\n", v.msg.replace('\n', " "), o.digest);
    s += &format!("tape: {}\n", tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    s += "--- schedule and faults of the minimised run ---\n";
    for l in &o.trace {
        s += l;
        s += "\n";
    }
    s
}

fn report(o: &RunOut) -> i32 {
    match &o.verdict {
        Verdict::Held => {
            println!("verdict: held digest={:016x}", o.digest);
            0
        }
        Verdict::Violated(v) => {
            println!("verdict: violated class={} digest={:016x}\nmessage: {}", v.class, o.digest, v.msg);
            10
        }
        Verdict::HarnessError(e) => {
            println!("verdict: harness error: {e}");
            11
        }
    }
}

fn batch(a: &Args, body: fn()) -> i32 {
    let prop = a.get("prop").unwrap();
    let build = a.get("build").unwrap();
    let focus = a.get("focus") == Some("1");
    let (seed, runs) = (a.num("seed", 1), a.num("runs", 100));
    let (start, step) = (a.num("start", 0), a.num("step", 1));
    let limit = Duration::from_secs(a.num("seconds", 3600));
    let out = a.get("out").unwrap();
    let marker = std::fs::File::create(format!("{out}.marker")).unwrap();
    let mut stats = Stats::new();
    let mut digests: Vec<u8> = vec![];
    let t0 = Instant::now();
    let mut i = start;
    let mut n = 0u64;
    let mut code = 0;
    let mut sample = vec![];
    while i < runs && (n == 0 || t0.elapsed() < limit) {
        let s = run_seed(seed, prop, build, i);
        marker.write_all_at(&[i.to_le_bytes(), s.to_le_bytes()].concat(), 0).unwrap();
        let o = sim::execute(Src::seeded(s), n == 0, &mut stats, &body);
        n += 1;
        digests.extend_from_slice(&i.to_le_bytes());
        digests.extend_from_slice(&o.digest.to_le_bytes());
        digests.extend_from_slice(&(o.ops.min(u32::MAX as u64) as u32).to_le_bytes());
        digests.extend_from_slice(&(o.faults.min(u32::MAX as u64) as u32).to_le_bytes());
        if sample.is_empty() {
            sample = o.trace.clone();
        }
        match &o.verdict {
            Verdict::Held => {}
            Verdict::Violated(_) => {
                // what the library keeps from earlier runs can get in the way:
                // then the run as it was, and `check` looks into it
                let m = if a.get("plain").is_some() { None } else { Some(minimise(&o, body, &mut Stats::new())) };
                let m = m.filter(|m| class(m) == class(&o)).unwrap_or(o);
                std::fs::write(format!("{out}.replay"), replay_text(prop, build, focus, s, &m)).unwrap();
                code = 10;
                break;
            }
            Verdict::HarnessError(e) => {
                std::fs::write(format!("{out}.error"), format!("run {i} seed {s}: {e}\n")).unwrap();
                code = 11;
                break;
            }
        }
        i += step;
    }
    let mut f = std::fs::File::create(format!("{out}.stats")).unwrap();
    writeln!(f, "runs={n}\nwall_us={}\nsim_us={}\nevents={}\ncpu_real={}", t0.elapsed().as_micros(), stats.sim_us, stats.events, cpu::real()).unwrap();
    for (k, v) in &stats.counts {
        writeln!(f, "count.{k}={v}").unwrap();
    }
    for l in sample.iter().take(40) {
        writeln!(f, "sample={l}").unwrap();
    }
    std::fs::write(format!("{out}.digests"), digests).unwrap();
    let bytes: Vec<u8> = stats.states.iter().flat_map(|w| w.to_le_bytes()).collect();
    std::fs::write(format!("{out}.states"), bytes).unwrap();
    code
}

/// One line before and one after every run; the parent ends us when time is up.
fn mini(a: &Args, body: fn()) -> i32 {
    let (seed, runs) = (a.num("seed", 1), a.num("runs", 1));
    let (start, step) = (a.num("start", 0), a.num("step", 1));
    let prop = a.get("prop").unwrap();
    let tapes: Option<Vec<Vec<u64>>> = a.get("tape").map(|t| {
        t.split(';').map(|t| t.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).collect()
    });
    let mut stats = Stats::new();
    let mut i = start;
    let mut code = 0;
    loop {
        let src = match &tapes {
            Some(t) if i >= t.len() as u64 => break,
            Some(t) => Src::replay(t[i as usize].clone()),
            None if i >= runs => break,
            None => Src::seeded(run_seed(seed, prop, "fleet", i)),
        };
        println!("> {i}");
        let o = sim::execute(src, a.get("trace").is_some(), &mut stats, &body);
        for l in &o.trace {
            println!(". {l}");
        }
        let (class, msg) = match &o.verdict {
            Verdict::Held => ("held", String::new()),
            Verdict::Violated(v) => (v.class.as_str(), v.msg.replace('\n', " ")),
            Verdict::HarnessError(e) => ("harness-error", e.replace('\n', " ")),
        };
        if a.get("show-tape").is_some() {
            println!("t {}", o.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        }
        println!("= {i} {:016x} {} {} {class} {msg}", o.digest, o.ops, o.faults);
        if class != "held" {
            code = 10;
        }
        i += step;
    }
    println!("# events={} sim_us={}", stats.events, stats.sim_us);
    for (k, v) in &stats.counts {
        println!("# count.{k}={v}");
    }
    let sigs: u32 = stats.states.iter().map(|w| w.count_ones()).sum();
    println!("# states={sigs}");
    code
}

fn main() {
    sim::install_panic_hook();
    cpu::init();
    let argv: Vec<String> = std::env::args().skip(1).collect();
    let mode = argv.first().map_or("", |s| s.as_str()).to_string();
    let mut a = Args(HashMap::new());
    let mut free = vec![];
    let mut it = argv.into_iter().skip(1).peekable();
    while let Some(x) = it.next() {
        if let Some(k) = x.strip_prefix("--") {
            let v = if k == "trace" || k == "plain" { "1".into() } else { it.next().unwrap_or_default() };
            a.0.insert(k.to_string(), v);
        } else {
            free.push(x);
        }
    }
    if !cfg!(miri) {
        if let Err(e) = model::self_test() {
            eprintln!("{e}");
            std::process::exit(11);
        }
    }
    let mut tape = None;
    if mode == "replay" {
        let text = std::fs::read_to_string(&free[0]).expect("replay file");
        for l in text.lines() {
            if l.starts_with("---") {
                break;
            }
            if let Some((k, v)) = l.split_once(": ") {
                match k {
                    "property" => drop(a.0.insert("prop".into(), v.into())),
                    "focus" => drop(a.0.insert("focus".into(), v.into())),
                    "tape" => tape = Some(v.split_whitespace().map(|x| x.parse().unwrap()).collect::<Vec<u64>>()),
                    _ => {}
                }
            }
        }
        tape.get_or_insert(vec![]);
    }
    #[cfg(feature = "stream")]
    common::FOCUS_CHACHA.store(a.get("focus") == Some("1"), std::sync::atomic::Ordering::SeqCst);
    if mode == "decode" {
        for l in std::io::stdin().lines() {
            println!("{}", ct::decode_dump(u64::from_str_radix(&l.unwrap(), 16).unwrap()));
        }
        return;
    }
    if mode == "selftest" {
        println!("models ok, real cpu mask {}", cpu::real());
        return;
    }
    let prop = a.get("prop").expect("--prop").to_string();
    let Some(body) = scen::find(&prop) else {
        eprintln!("no scenario for {prop} in this build");
        std::process::exit(11);
    };
    let code = match mode.as_str() {
        "batch" => batch(&a, body),
        "mini" => mini(&a, body),
        "one" | "replay" => {
            let mut src = if let Some(t) = tape {
                Src::replay(t)
            } else if let Some(f) = a.get("tape") {
                let t = std::fs::read_to_string(f).expect("tape file");
                Src::replay(t.split_whitespace().map(|x| x.parse().unwrap()).collect())
            } else {
                Src::seeded(a.num("run-seed", 0))
            };
            if let Some(f) = a.get("spill") {
                src.spill_to(std::fs::File::create(f).unwrap());
            }
            let o = sim::execute(src, a.get("trace").is_some(), &mut Stats::new(), &body);
            for l in &o.trace {
                println!("{l}");
            }
            report(&o)
        }
        _ => {
            eprintln!("unknown mode");
            11
        }
    };
    std::process::exit(code);
}
