mod alloc;
mod conc;
mod conf;
mod data;
mod engine;
mod fam;
mod imp;
mod iters;
mod ops;
mod refmodel;
mod total;
mod ucd;
mod words;

use engine::*;
use std::io::Write;
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

pub enum Part {
    C(Check<'static, char>),
    N(Check<'static, u32>),
    X(Box<dyn Fn(&mut Report)>),
}

fn parts(id: &str, deep: bool) -> Vec<Part> {
    if let Some(c) = words::build(id, deep) {
        return vec![Part::C(c)];
    }
    if let Some(c) = data::build(id, deep) {
        return vec![Part::N(c)];
    }
    if let Some(c) = iters::build(id, deep) {
        return vec![Part::N(c)];
    }
    if id == "C20" {
        return vec![Part::X(Box::new(move |r| conc::explore(deep, r)))];
    }
    if id == "C21" {
        return vec![Part::N(total::scalars(deep)), Part::C(total::chars(deep))];
    }
    if id == "C23" {
        // every table of the crate, on its complete input space
        return vec![
            Part::N(data::build("C11", deep).unwrap()),
            Part::N(data::build("C13", deep).unwrap()),
            Part::C(words::tables_check(deep)),
            Part::N(data::build("C12", false).unwrap()),
        ];
    }
    if id == "C22" {
        return vec![Part::X(Box::new(move |r| conf::explore(deep, r)))];
    }
    eprintln!("no such check: {}", id);
    std::process::exit(2);
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7E => {
                let mut b = [0u16; 2];
                for x in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", x));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn write_evidence(id: &str, tier: &str, rep: &Report, wall: f64, oracle: u64) {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let fams: Vec<String> = rep
        .families
        .iter()
        .map(|(n, c)| format!("{{\"family\":{},\"cases\":{}}}", json_str(n), c))
        .collect();
    let samples: Vec<String> = rep.samples.iter().map(|s| json_str(s)).collect();
    let notes: Vec<String> = rep.notes.iter().map(|s| json_str(s)).collect();
    let j = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"cases\":{},\"families\":[{}],\"samples\":[{}],\"oracle_vectors_checked\":{},\"exhaustive\":{},\"notes\":[{}]}},\"assumptions\":[\"states are distinct final model states, counted by a 2^27-bit hash map (a lower bound)\",\"the frozen UCD 16.0.0 reference data in ucd/ucd16.txt is right\"],\"wall_s\":{:.2},\"violations\":{}}}\n",
        json_str(id),
        json_str(tier),
        seed,
        rep.states,
        rep.transitions,
        rep.traces,
        rep.cases,
        fams.join(","),
        samples.join(","),
        oracle,
        rep.exhaustive && rep.found.is_none(),
        notes.join(","),
        wall,
        rep.found.is_some() as u32
    );
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, id), j).expect("evidence file");
}

pub fn report_violation(id: &str, tier: &str, f: &Found) {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.json", dir, id);
    let case: Vec<String> = f.case.iter().map(|v| v.to_string()).collect();
    let unit = if f.chars {
        let lit: String = f.case.iter().map(|v| format!("\\u{{{:X}}}", v)).collect();
        format!("#[test] fn replay() {{ let input = \"{}\"; /* {} */ }}", lit, f.msg)
    } else {
        String::new()
    };
    let j = format!(
        "{{\"property\":{},\"tier\":{},\"family\":{},\"index\":{},\"chars\":{},\"case\":[{}],\"message\":{},\"unit_test\":{},\"replay\":\"./run.sh replay {}\"}}\n",
        json_str(id),
        json_str(tier),
        json_str(&f.family),
        f.index,
        f.chars,
        case.join(","),
        json_str(&f.msg),
        json_str(&unit),
        path
    );
    let _ = std::fs::write(&path, j);
    println!("family: {} [case {}]", f.family, f.index);
    println!("input: {}", show_case(&f.case, f.chars));
    println!("{}", f.msg);
    println!("VIOLATION property={} replay={}", id, path);
    let _ = std::io::stdout().flush();
}

fn rlimit_as(gb: u64) {
    unsafe {
        let r = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

fn explore_parts(ps: &[Part]) -> Report {
    let mut rep = Report::new();
    for (i, p) in ps.iter().enumerate() {
        match p {
            Part::C(c) => explore(i as u64, c, &mut rep),
            Part::N(c) => explore(i as u64, c, &mut rep),
            Part::X(f) => {
                if rep.found.is_none() {
                    f(&mut rep)
                }
            }
        }
    }
    rep
}

fn do_explore(id: &str, tier: &str) -> i32 {
    rlimit_as(24);
    quiet_panics();
    let t0 = Instant::now();
    let off = refmodel::official();
    let oracle = match refmodel::self_check(&off) {
        Ok(n) => n,
        Err(e) => {
            eprintln!("ORACLE ERROR: {}", e);
            return 3;
        }
    };
    let ps = parts(id, tier == "thorough");
    let mut rep = explore_parts(&ps);
    if off.is_empty() {
        rep.notes.push("official NormalizationTest vectors not found; oracle not re-validated".into());
    }
    write_evidence(id, tier, &rep, t0.elapsed().as_secs_f64(), oracle);
    if std::env::var("MC_VERBOSE").is_ok() {
        for (n, c) in &rep.families {
            println!("  {:>12} {}", c, n);
        }
    }
    match &rep.found {
        Some(f) => {
            report_violation(id, tier, f);
            1
        }
        None => {
            println!(
                "{} {}: held on {} cases, {} transitions, {} traces, {} distinct model states, {:.1} s",
                id, tier, rep.cases, rep.transitions, rep.traces, rep.states, t0.elapsed().as_secs_f64()
            );
            0
        }
    }
}

/// fork, run f in the child, return the raw wait status, or None if it had to be killed (hang)
pub fn in_child(limit: Duration, stalled: impl Fn() -> bool, f: impl FnOnce() -> i32) -> Option<i32> {
    let _ = std::io::stdout().flush();
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(3);
            let _ = std::io::stdout().flush();
            libc::_exit(r);
        }
        let t0 = Instant::now();
        let mut st = 0;
        let mut nap = 1u64;
        loop {
            let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
            if r == pid {
                return Some(st);
            }
            if t0.elapsed() > limit || stalled() {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
                return None;
            }
            std::thread::sleep(Duration::from_millis(nap));
            nap = (nap * 2).min(200);
        }
    }
}

fn status_text(st: Option<i32>) -> String {
    match st {
        None => "did not terminate".into(),
        Some(s) if libc::WIFSIGNALED(s) => format!("killed by signal {}", libc::WTERMSIG(s)),
        Some(s) => format!("exit status {}", libc::WEXITSTATUS(s)),
    }
}

/// a case that takes longer is taken to hang (the longest runs of marks may cost a quadratic sort some time)
const STALL: Duration = Duration::from_secs(90);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "check" => {
            let (id, tier) = (args[2].clone(), args.get(3).cloned().unwrap_or("quick".into()));
            std::process::exit(supervise(&id, &tier, false));
        }
        "replay" => {
            quiet_panics();
            map_shared();
            let t = std::fs::read_to_string(&args[2]).expect("replay file");
            let get = |k: &str| -> String {
                let p = t.find(&format!("\"{}\":", k)).expect("key") + k.len() + 3;
                let e = t[p..].find(|c| c == ',' || c == '}').unwrap();
                t[p..p + e].trim_matches('"').to_string()
            };
            let p = t.find("\"case\":[").unwrap() + 8;
            let e = t[p..].find(']').unwrap();
            let case: Vec<u32> = t[p..p + e].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            let id = get("property");
            for part in parts(&id, get("tier") == "thorough") {
                if let Part::X(f) = &part {
                    // schedules are explored deterministically: repeat the exploration
                    let mut rep = Report::new();
                    f(&mut rep);
                    if let Some(x) = rep.found {
                        println!("reproduced: {}", x.msg);
                        std::process::exit(1);
                    }
                }
                let r = match &part {
                    Part::C(c) if get("chars") == "true" => run_case(c, &case),
                    Part::N(c) if get("chars") == "false" => run_case(c, &case),
                    _ => continue,
                };
                if let Some(m) = r {
                    println!("reproduced: {}", m);
                    std::process::exit(1);
                }
            }
            println!("not reproduced");
        }
        "digest" => {
            quiet_panics();
            map_shared();
            std::process::exit(conf::digest_main(args[2] == "thorough", args[3].parse().unwrap()));
        }
        "dump" => {
            quiet_panics();
            map_shared();
            std::process::exit(conf::dump_main(args[2] == "thorough", args[3].parse().unwrap(), args[4].parse().unwrap(), args[5].parse().unwrap()));
        }
        "sets" => println!("{}", fam::describe_sets()),
        _ => {
            eprintln!("usage: mc check <ID> quick|thorough | mc replay <file>");
            std::process::exit(2);
        }
    }
}

fn supervise(id: &str, tier: &str, again: bool) -> i32 {
    map_shared();
    let mut last: Vec<(u64, Instant)> = (0..SLOTS).map(|_| (u64::MAX, Instant::now())).collect();
    let cell = std::cell::RefCell::new(&mut last);
    let stalled = || {
        let mut l = cell.borrow_mut();
        for t in 0..SLOTS {
            let s = slot(t);
            if s.active.load(Acquire) == 1 {
                let k = s.family.load(Relaxed) << 48 ^ s.index.load(Acquire);
                if k != l[t].0 {
                    l[t] = (k, Instant::now());
                } else if l[t].1.elapsed() > STALL {
                    return true;
                }
            } else {
                l[t] = (u64::MAX, Instant::now());
            }
        }
        false
    };
    let t0 = Instant::now();
    let st = in_child(Duration::from_secs(3600), stalled, || do_explore(id, tier));
    if let Some(s) = st {
        if libc::WIFEXITED(s) {
            return libc::WEXITSTATUS(s);
        }
    }
    // The exploration crashed or hung inside the code under test (or the machinery is broken):
    // re-execute the cases that were in flight, each alone in a fresh process.
    let why = status_text(st);
    eprintln!("exploration child {}; re-executing the cases in flight", why);
    // (the one that was under way for longest first)
    let since: Vec<Instant> = cell.borrow().iter().map(|x| x.1).collect();
    let mut busy: Vec<usize> = (0..SLOTS).filter(|&t| slot(t).active.load(Acquire) == 1).collect();
    busy.sort_by_key(|&t| since[t]);
    let inflight: Vec<(usize, usize, u64)> = busy
        .into_iter()
        .map(|t| {
            let s = slot(t);
            (s.part.load(Relaxed) as usize, s.family.load(Relaxed) as usize, s.index.load(Acquire))
        })
        .collect();
    for (p, f, i) in inflight {
        let r = in_child(STALL, || false, || {
            rlimit_as(8);
            quiet_panics();
            let ps = parts(id, tier == "thorough");
            let (_, r) = match &ps[p] {
                Part::C(c) => run_one(c, f, i),
                Part::N(c) => run_one(c, f, i),
                Part::X(_) => return 0,
            };
            r.is_some() as i32
        });
        let bad = match r {
            Some(s) => !libc::WIFEXITED(s) || libc::WEXITSTATUS(s) == 1,
            None => true,
        };
        if bad {
            let ps = parts(id, tier == "thorough");
            let (name, case, chars) = match &ps[p] {
                Part::C(c) => {
                    let mut w = Vec::new();
                    c.families[f].fill(i, &mut w);
                    (c.families[f].name(), w.iter().map(|&c| c as u32).collect(), true)
                }
                Part::N(c) => {
                    let mut w = Vec::new();
                    c.families[f].fill(i, &mut w);
                    (c.families[f].name(), w, false)
                }
                Part::X(_) => unreachable!(),
            };
            let found = Found { family: name, index: i, case, chars, msg: format!("the code under test crashed or hung on this case alone: {}", status_text(r)) };
            let mut rep = Report::new();
            rep.samples.push(show_case(&found.case, chars));
            rep.notes.push("exploration stopped by a crash or hang of the code under test".into());
            rep.found = Some(found.clone());
            write_evidence(id, tier, &rep, 0.0, 0);
            report_violation(id, tier, &found);
            return 1;
        }
    }
    if st.is_none() && !again && t0.elapsed() < Duration::from_secs(400) {
        // the machine was busy: nothing hangs on its own
        eprintln!("no case in flight hangs on its own; exploring again");
        return supervise(id, tier, true);
    }
    eprintln!("machinery error: {} and no case in flight reproduces it", why);
    3
}
