//! C22: the same enumeration in every build configuration; the observable results must be identical.
//! Each build is a separate binary of this harness that prints one digest per chunk of cases
//! (`mc digest TIER`); the explorer compares them and narrows a difference down to one case.

use crate::engine::{guarded, slot, Family, Found, Report, Sym};
use crate::fam::*;
use crate::ops::{char_op, compose_op, extra_op, word_op, Digest, CHAR_OPS, EXTRA_NAMES, EXTRA_OPS, WORD_NAMES, WORD_OPS};
use crate::words::show;
use std::collections::BTreeMap;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Duration;

const PANICKED: u64 = 0xDEAD_DEAD_DEAD_DEAD;
const CRASHED: u64 = 0xC4A5_C4A5_C4A5_C4A5;
const CHUNK: u64 = 64;

fn partners(deep: bool) -> Vec<char> {
    let mut v = if deep { reps(2) } else { reps(1) };
    v.extend((0x10FFu32..=0x1113).step_by(5).chain(0x1160..=0x1162).chain(0x11A6..=0x11A9).chain([0xAC00, 0xAC01, 0xD788, 0xD7A3, 0, 0xFFFF, 0x10FFFF]).filter_map(char::from_u32));
    v.sort();
    v.dedup();
    if !deep {
        v = v.into_iter().step_by(3).collect();
    }
    v
}

fn families(deep: bool) -> Vec<Box<dyn Family<char>>> {
    let (pre, suf) = contexts();
    let r1 = reps(1);
    let inter = interesting();
    let mut v: Vec<Box<dyn Family<char>>> = vec![
        Scalars::new("every scalar value: all character operations and compose", vec![s("")], vec![s("")]),
        Words::new("simple letters and marks", singles(&s("ae\u{301}\u{316}\u{E9}\u{1100}\u{1161}\u{11A8}")), 4),
        Prod::new("all pairs of class representatives", vec![singles(&r1), singles(&r1)]),
        hangul_family(),
    ];
    if deep {
        v.push(Scalars::new("every scalar value in contexts", pre, vec![s(""), s("\u{334}\u{308}"), suf[3].clone(), suf[4].clone()]));
        v.push(Prod::new("all relevant characters x class representatives", vec![singles(&inter), singles(&r1)]));
        v.push(Prod::new("class representatives x all relevant characters", vec![singles(&r1), singles(&inter)]));
        v.push(official_family());
    } else {
        v.push(Scalars::new("every scalar value in contexts", vec![s("a")], vec![s("\u{334}\u{308}")]));
        v.push(Prod::new("every relevant character in contexts", vec![pre, singles(&inter), suf]));
    }
    for (n, t) in themes() {
        v.push(Words::new(&format!("theme {}", n), t, if deep { 4 } else { 3 }));
    }
    let few: Vec<Vec<char>> = vec![s("\u{301}\u{316}"), s("\u{345}\u{301}\u{316}\u{334}"), s("\u{344}\u{316}")];
    v.push(Box::new(Runs {
        name: "mark runs, every length 0..=72".into(),
        pre: vec![s(""), s("a"), s("\u{AC00}")],
        pats: if deep { mark_patterns() } else { few.clone() },
        lens: lens_all(72),
        suf: vec![s(""), s("b"), s("\u{11A8}\u{344}\u{316}")],
    }));
    v.push(Box::new(Runs {
        name: "mark runs at thresholds 80..4097".into(),
        pre: vec![s("a")],
        pats: few.clone(),
        lens: lens_thresholds(),
        suf: vec![s("b\u{301}\u{316}")],
    }));
    v.push(Box::new(Runs {
        name: "mark runs at thresholds 16384..70000".into(),
        pre: vec![s("a")],
        pats: few[..2].to_vec(),
        lens: if deep { lens_huge() } else { vec![32769, 65537] },
        suf: vec![s("b")],
    }));
    v.push(far_end_family(deep));
    v
}

/// short texts also go through the further ways of using the adapters
fn word_ops(w: &[char]) -> u32 {
    if w.len() <= 6 {
        WORD_OPS + EXTRA_OPS
    } else {
        WORD_OPS
    }
}

fn text_op(k: u32, w: &[char], st: &str, d: &mut Digest) {
    if k < WORD_OPS {
        word_op(k, w, st, d)
    } else {
        extra_op(k - WORD_OPS, w, st, d)
    }
}

/// an operation that takes longer is taken to hang (an unoptimized quadratic sort of a long run may take some time)
const OP_LIMIT: Duration = Duration::from_secs(60);

/// cases per digest
fn chunk(f: &dyn Family<char>) -> u64 {
    (CHUNK / f.weight()).max(1)
}

fn one(fam: usize, partners: &[char], w: &[char], st: &mut String, at: &crate::engine::Slot) -> u64 {
    let mut d = Digest::new();
    let r = guarded(|| {
        if fam == 0 {
            let c = w[0];
            for k in 0..CHAR_OPS {
                char_op(k, c, &mut d);
            }
            for &p in partners {
                compose_op(c, p, &mut d);
                compose_op(p, c, &mut d);
            }
        } else {
            st.clear();
            st.extend(w.iter());
            for k in 0..word_ops(w) {
                at.part.store(k as u64, Release);
                text_op(k, w, st, &mut d);
            }
        }
        Ok(())
    });
    if r.is_err() {
        return PANICKED;
    }
    d.0
}

/// per-chunk digests of everything, on `nthreads` threads
fn compute(deep: bool, nthreads: usize) {
    let fams = families(deep);
    let ps = partners(deep);
    for (fi, f) in fams.iter().enumerate() {
        let len = f.len();
        let size = chunk(f.as_ref());
        let chunks = (len + size - 1) / size;
        let out = Mutex::new(vec![0u64; chunks as usize]);
        let next = AtomicU64::new(0);
        let batch = (256 / f.weight()).max(1);
        std::thread::scope(|sc| {
            for t in 0..nthreads {
                let (out, next, ps) = (&out, &next, &ps);
                sc.spawn(move || {
                    let (mut w, mut st) = (Vec::new(), String::new());
                    let sl = slot(t);
                    sl.family.store(fi as u64, Relaxed);
                    let mut local = Vec::new();
                    loop {
                        let a = next.fetch_add(batch, Relaxed);
                        if a >= chunks {
                            break;
                        }
                        for c in a..(a + batch).min(chunks) {
                            let mut h = 0u64;
                            for i in c * size..((c + 1) * size).min(len) {
                                sl.index.store(i, Release);
                                sl.active.store(1, Release);
                                w.clear();
                                f.fill(i, &mut w);
                                h = h.rotate_left(9) ^ one(fi, ps, &w, &mut st, sl);
                                h = h.wrapping_mul(0x0000_0100_0000_01b3);
                            }
                            local.push((c, h));
                        }
                    }
                    sl.active.store(0, Release);
                    let mut o = out.lock().unwrap();
                    for (c, h) in local {
                        o[c as usize] = h;
                    }
                });
            }
        });
        let o = out.into_inner().unwrap();
        let mut text = format!("F {} {}\n", fi, len);
        for h in o {
            text.push_str(&format!("{:x}\n", h));
        }
        print!("{}", text);
    }
    println!("END");
}

/// `mc digest TIER THREADS`
pub fn digest_main(deep: bool, nthreads: usize) -> i32 {
    let mut last: Vec<(u64, std::time::Instant)> = (0..crate::engine::SLOTS).map(|_| (u64::MAX, std::time::Instant::now())).collect();
    let cell = std::cell::RefCell::new(&mut last);
    let stalled = || {
        let mut l = cell.borrow_mut();
        for t in 0..crate::engine::SLOTS {
            let sl = slot(t);
            if sl.active.load(Acquire) == 1 {
                let k = sl.family.load(Relaxed) << 56 ^ sl.part.load(Acquire) << 48 ^ sl.index.load(Acquire);
                if k != l[t].0 {
                    l[t] = (k, std::time::Instant::now());
                } else if l[t].1.elapsed() > OP_LIMIT {
                    return true;
                }
            } else {
                l[t] = (u64::MAX, std::time::Instant::now());
            }
        }
        false
    };
    let st = crate::in_child(Duration::from_secs(3000), stalled, || {
        compute(deep, nthreads);
        0
    });
    match st {
        Some(0) => 0,
        _ => {
            // died or hung: name the cases in flight
            for t in 0..crate::engine::SLOTS {
                let sl = slot(t);
                if sl.active.load(Acquire) == 1 {
                    println!("INFLIGHT {} {}", sl.family.load(Relaxed), sl.index.load(Acquire));
                }
            }
            1
        }
    }
}

/// `mc dump TIER FAM FROM TO`: the digests of a range of cases, every operation separately, each case in a
/// process of its own
pub fn dump_main(deep: bool, fi: usize, from: u64, to: u64) -> i32 {
    let fams = families(deep);
    let ps = partners(deep);
    for i in from..to {
        let mut w = Vec::new();
        fams[fi].fill(i, &mut w);
        println!("C {}", i);
        dump_case(fi, &w, &ps);
    }
    0
}

fn dump_case(fi: usize, w: &[char], ps: &[char]) {
    let st: String = w.iter().collect();
    let n = if fi == 0 { CHAR_OPS as usize + 2 * ps.len() } else { word_ops(w) as usize };
    let run = |k: usize| {
        let mut d = Digest::new();
        let r = guarded(|| {
            if fi != 0 {
                text_op(k as u32, w, &st, &mut d);
            } else if k < CHAR_OPS as usize {
                char_op(k as u32, w[0], &mut d);
            } else {
                let p = ps[(k - CHAR_OPS as usize) / 2];
                if (k - CHAR_OPS as usize) % 2 == 0 {
                    compose_op(w[0], p, &mut d)
                } else {
                    compose_op(p, w[0], &mut d)
                }
            }
            Ok(())
        });
        println!("{} {:x}", k, if r.is_err() { PANICKED } else { d.0 });
    };
    // all operations in one process; after one that kills it or hangs, the rest in another
    let at = slot(0);
    let mut k = 0;
    while k < n {
        at.index.store(k as u64, Release);
        let last = std::cell::Cell::new((u64::MAX, std::time::Instant::now()));
        let stalled = || {
            let now = at.index.load(Acquire);
            if last.get().0 != now {
                last.set((now, std::time::Instant::now()));
            }
            last.get().1.elapsed() > OP_LIMIT
        };
        let r = crate::in_child(Duration::from_secs(3000), stalled, || {
            for j in k..n {
                at.index.store(j as u64, Release);
                run(j);
            }
            0
        });
        if r == Some(0) {
            break;
        }
        let died = at.index.load(Acquire) as usize;
        println!("{} {:x}", died, CRASHED);
        k = died + 1;
    }
}

fn op_name(fi: usize, deep: bool, k: usize, w: &[char]) -> String {
    if fi != 0 && k >= WORD_OPS as usize {
        return format!("{} (\"{}\")", EXTRA_NAMES[k - WORD_OPS as usize], show(w));
    }
    if fi != 0 {
        return format!("{}(\"{}\")", WORD_NAMES[k], show(w));
    }
    if k < CHAR_OPS as usize {
        return crate::ops::describe(&crate::ops::Op::Char(k as u32, w[0]));
    }
    let p = partners(deep)[(k - CHAR_OPS as usize) / 2];
    let (a, b) = if (k - CHAR_OPS as usize) % 2 == 0 { (w[0], p) } else { (p, w[0]) };
    format!("compose(U+{:04X}, U+{:04X})", a as u32, b as u32)
}

fn result_name(x: Option<&String>) -> String {
    match x.map(|s| s.as_str()) {
        None => "no result".into(),
        Some(h) if u64::from_str_radix(h, 16) == Ok(PANICKED) => "panics".into(),
        Some(h) if u64::from_str_radix(h, 16) == Ok(CRASHED) => "crashes or hangs".into(),
        Some(h) => format!("result digest {}", h),
    }
}

/// compare a range of cases between the builds: the first case with a difference, and its description
fn compare_range(bins: &[(String, String)], deep: bool, fi: usize, from: u64, to: u64) -> Option<(u64, Vec<u32>, String)> {
    let tier = if deep { "thorough" } else { "quick" };
    let range = [fi.to_string(), from.to_string(), to.to_string()];
    let kids: Vec<_> = bins
        .iter()
        .map(|(_, b)| Command::new(b).args(["dump", tier]).args(&range).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn"))
        .collect();
    let handles: Vec<_> = kids.into_iter().map(|k| std::thread::spawn(move || k.wait_with_output().expect("wait"))).collect();
    let res: Vec<BTreeMap<u64, BTreeMap<usize, String>>> = handles
        .into_iter()
        .map(|h| {
            let mut m: BTreeMap<u64, BTreeMap<usize, String>> = BTreeMap::new();
            let mut cur = from;
            for l in String::from_utf8_lossy(&h.join().unwrap().stdout).lines() {
                match l.split_once(' ') {
                    Some(("C", i)) => cur = i.parse().unwrap_or(cur),
                    Some((k, v)) => {
                        if let Ok(k) = k.parse() {
                            m.entry(cur).or_default().insert(k, v.to_string());
                        }
                    }
                    None => {}
                }
            }
            m
        })
        .collect();
    let fams = families(deep);
    let none = BTreeMap::new();
    for i in from..to {
        let of = |b: usize| res[b].get(&i).unwrap_or(&none);
        for k in of(0).keys() {
            for b in 1..bins.len() {
                if of(b).get(k) != of(0).get(k) {
                    let mut w = Vec::new();
                    fams[fi].fill(i, &mut w);
                    return Some((
                        i,
                        w.iter().map(|c| c.raw()).collect(),
                        format!(
                            "{} differs between builds: {}: {}; {}: {}",
                            op_name(fi, deep, *k, &w),
                            bins[0].0,
                            result_name(of(0).get(k)),
                            bins[b].0,
                            result_name(of(b).get(k))
                        ),
                    ));
                }
            }
        }
    }
    None
}

pub fn explore(deep: bool, rep: &mut Report) {
    let tier = if deep { "thorough" } else { "quick" };
    // the std release build exists (this is it); a configuration that does not even compile is a difference
    for b in std::env::var("VERIF_BROKEN").unwrap_or_default().split_whitespace() {
        let (name, log) = b.split_once(':').unwrap();
        let text = std::fs::read_to_string(log).unwrap_or_default();
        if text.contains("could not compile `unicode-normalization`") {
            let first = text.lines().find(|l| l.starts_with("error")).unwrap_or("error").to_string();
            rep.samples.push(format!("build of {}", name));
            rep.found = Some(Found { family: "builds".into(), index: 0, case: vec![], chars: false, msg: format!("the crate compiles in release with std but not as {}: {}", name, first) });
            return;
        }
        panic!("the harness does not build as {}", name);
    }
    let root = std::env::var("VERIF_BINS").expect("VERIF_BINS");
    let bins: Vec<(String, String)> = root
        .split(',')
        .map(|x| {
            let (n, p) = x.split_once('=').unwrap();
            (n.to_string(), p.to_string())
        })
        .collect();
    // unoptimized builds are the slow ones: they get most of the threads
    let kids: Vec<_> = bins
        .iter()
        .map(|(n, p)| {
            let th = if n.contains("debug") { "4" } else { "2" };
            Command::new(p).args(["digest", tier, th]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn")
        })
        .collect();
    let handles: Vec<_> = kids.into_iter().map(|k| std::thread::spawn(move || k.wait_with_output().expect("wait"))).collect();
    let outs: Vec<String> = handles.into_iter().map(|h| String::from_utf8_lossy(&h.join().unwrap().stdout).to_string()).collect();
    let fams = families(deep);
    type Parsed = (BTreeMap<usize, Vec<String>>, Vec<(usize, u64)>, bool);
    let parsed: Vec<Parsed> = outs
        .iter()
        .map(|o| {
            let mut m: BTreeMap<usize, Vec<String>> = BTreeMap::new();
            let mut inflight = Vec::new();
            let (mut cur, mut end) = (0, false);
            for l in o.lines() {
                if let Some(x) = l.strip_prefix("F ") {
                    cur = x.split(' ').next().unwrap().parse().unwrap();
                    m.insert(cur, Vec::new());
                } else if let Some(x) = l.strip_prefix("INFLIGHT ") {
                    let (a, b) = x.split_once(' ').unwrap();
                    inflight.push((a.parse().unwrap(), b.parse().unwrap()));
                } else if l == "END" {
                    end = true;
                } else {
                    m.entry(cur).or_default().push(l.to_string());
                }
            }
            (m, inflight, end)
        })
        .collect();
    let mut suspects: Vec<(usize, u64, u64)> = Vec::new();
    for (b, p) in parsed.iter().enumerate() {
        if !p.2 {
            rep.notes.push(format!("the {} build did not finish", bins[b].0));
            rep.exhaustive = false;
            suspects.extend(p.1.iter().map(|&(f, i)| (f, i, i + 1)));
        }
    }
    for (fi, f) in fams.iter().enumerate() {
        let have: Vec<&Vec<String>> = parsed.iter().filter_map(|p| p.0.get(&fi)).collect();
        if have.len() < 2 {
            continue;
        }
        let n = f.len();
        rep.families.push((f.name(), n));
        rep.cases += n;
        let per = if fi == 0 { CHAR_OPS as u64 + 2 * partners(deep).len() as u64 } else { WORD_OPS as u64 };
        rep.transitions += n * per * have.len() as u64;
        rep.traces += n * have.len() as u64;
        let mut distinct: Vec<&String> = have[0].iter().collect();
        distinct.sort();
        distinct.dedup();
        rep.states += distinct.len() as u64;
        if rep.samples.len() < 12 {
            let mut w = Vec::new();
            f.fill(n * 2 / 3, &mut w);
            rep.samples.push(format!("{} [{}]: {}", f.name(), n * 2 / 3, show(&w)));
        }
        for b in 1..have.len() {
            if let Some(c) = (0..have[0].len()).find(|&c| have[0][c] != have[b][c]) {
                // narrow down inside the chunk
                let size = chunk(f.as_ref());
                suspects.push((fi, c as u64 * size, ((c as u64 + 1) * size).min(n)));
                break;
            }
        }
        if suspects.len() > 0 {
            break;
        }
    }
    rep.notes.push(format!("builds compared: {}", bins.iter().map(|b| b.0.clone()).collect::<Vec<_>>().join(", ")));
    rep.notes.push(format!("states counts distinct digests of chunks of up to {} cases", CHUNK));
    for (fi, from, to) in suspects.iter().copied() {
        if let Some((i, case, msg)) = compare_range(&bins, deep, fi, from, to) {
            rep.found = Some(Found { family: fams[fi].name(), index: i, case, chars: true, msg });
            return;
        }
    }
    if !suspects.is_empty() {
        if parsed.iter().all(|p| p.2) {
            // digests differ but no single case does: results depend on what ran before
            let (fi, i, _) = suspects[0];
            rep.found = Some(Found { family: fams[fi].name(), index: i, case: vec![], chars: true, msg: "the builds give different results on this range of cases, though not on any case alone".into() });
            return;
        }
        rep.notes.push("a build crashed or hung, but all builds behave the same on the cases in flight (see C21)".into());
    }
}
