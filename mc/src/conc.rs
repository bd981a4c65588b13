//! C20: results depend only on arguments.
//!  (a) histories: every ordered pair of operations executed back to back in one process, and whole-range
//!      scans in several orders, against results obtained in pristine processes;
//!  (b) interleavings: every merge of the next() calls of two live adapters, every operation executed
//!      between any two steps of an adapter, inside its source and inside an emit callback;
//!  (d) aborted operations: every operation cut short at every point (a panicking or dropped source, callback or
//!      writer), in this or another thread, followed by every other operation;
//!  (c) preemptions: for a pair of operations A and B on different threads, B runs to completion at *every
//!      machine instruction* of A (one preemption), or is itself preempted at every one of its instructions
//!      while A finishes (two preemptions).  The processor's single-step trap delivers the control; a forked
//!      snapshot per preemption point makes each execution independent and deterministic.

use crate::engine::{guarded, hash_chars, Found, Report};
use crate::fam;
use crate::iters::KINDS;
use crate::ops::{char_op, describe, run_op, Digest, Op, CHAR_OPS, WORD_OPS};
use crate::refmodel;
use crate::ucd::{scalar, ucd, SCALARS};
use crate::words::show;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicPtr, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};
use unicode_normalization as un;
use unicode_normalization::{Decompositions, Recompositions, Replacements, StreamSafe};

const NP: usize = 8;

/// memory shared between the worker processes of one stage
struct Shared {
    p: *mut AtomicU64,
    n: usize,
}
impl Shared {
    fn new(n: usize) -> Shared {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                n * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            Shared { p: p as *mut AtomicU64, n }
        }
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        assert!(i < self.n);
        unsafe { &*self.p.add(i) }
    }
}

/// one counter per worker process of the running stage, bumped by every operation
static BEAT: AtomicPtr<AtomicU64> = AtomicPtr::new(std::ptr::null_mut());
const STALL: Duration = Duration::from_secs(20);
fn beat() {
    let p = BEAT.load(Relaxed);
    if !p.is_null() {
        let c = unsafe { &*p };
        c.store(c.load(Relaxed) + 1, Relaxed);
    }
}

fn digest_of(op: &Op) -> u64 {
    beat();
    let mut d = Digest::new();
    match guarded(|| {
        run_op(op, &mut d);
        Ok(())
    }) {
        Ok(()) => d.0 | 1,
        Err(_) => 0xDEAD_0000_0000_0001,
    }
}

/// run `f(worker)` in NP processes; per worker: Ok or a description of how it died
fn workers(limit: Duration, f: &dyn Fn(usize) -> i32) -> Vec<Result<i32, String>> {
    workers_watched(limit, false, f)
}
/// `watched`: a worker that starts no operation for a while hangs in one
fn workers_watched(limit: Duration, watched: bool, f: &dyn Fn(usize) -> i32) -> Vec<Result<i32, String>> {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let mut pids = Vec::new();
    let beats = Shared::new(NP);
    let mut last = [(0u64, Instant::now()); NP];
    for k in 0..NP {
        unsafe {
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                BEAT.store(beats.p.add(k), SeqCst);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(k))).unwrap_or(99);
                libc::_exit(r);
            }
            pids.push(pid);
        }
    }
    let t0 = Instant::now();
    let mut res: Vec<Option<Result<i32, String>>> = vec![None; NP];
    while res.iter().any(|r| r.is_none()) {
        for k in 0..NP {
            if res[k].is_some() {
                continue;
            }
            let mut st = 0;
            unsafe {
                if libc::waitpid(pids[k], &mut st, libc::WNOHANG) == pids[k] {
                    res[k] = Some(if libc::WIFSIGNALED(st) {
                        Err(format!("killed by signal {}", libc::WTERMSIG(st)))
                    } else {
                        Ok(libc::WEXITSTATUS(st))
                    });
                } else if t0.elapsed() > limit || {
                    // (a stage that reports no operations has only its overall limit)
                    let b = beats.at(k).load(Relaxed);
                    if b != last[k].0 {
                        last[k] = (b, Instant::now());
                    }
                    watched && b > 0 && last[k].1.elapsed() > STALL
                } {
                    libc::kill(pids[k], libc::SIGKILL);
                    libc::waitpid(pids[k], &mut st, 0);
                    res[k] = Some(Err("did not terminate".into()));
                }
            }
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    res.into_iter().map(|r| r.unwrap()).collect()
}

fn base_chars() -> Vec<char> {
    "a\u{7F}\u{80}\u{E9}\u{301}\u{316}\u{345}\u{34F}\u{344}\u{1100}\u{1161}\u{11A8}\u{AC00}\u{AC01}\u{D7A3}\u{1EAD}\u{F900}\u{FA0E}\u{FB03}\u{FDFA}\u{212B}\u{378}\u{E000}\u{4E00}\u{958}\u{3099}\u{1109A}\u{110BA}\u{1D15E}\u{2F800}\u{10FFFF}\u{1E9B}"
        .chars()
        .collect()
}

fn op_words() -> Vec<Vec<char>> {
    [
        "", "a", "e\u{301}", "\u{E9}", "\u{316}\u{301}", "\u{301}\u{316}", "\u{1EAD}\u{301}", "\u{1100}\u{1161}\u{11A8}", "\u{AC01}\u{AC00}\u{11A8}",
        "\u{F900}\u{301}", "\u{FB03}\u{323}\u{FDFA}", "a\u{345}\u{301}\u{316}\u{334}\u{321}\u{308}b", "\u{344}\u{344}\u{316}", "\u{958}\u{915}\u{93C}",
        "\u{11131}\u{11127}\u{2F800}", "plain ascii text", "\u{2126}\u{212B}", "\u{DD9}\u{DCF}\u{DCA}",
    ]
    .iter()
    .map(|x| x.chars().collect())
    .chain([
        std::iter::once('a').chain(std::iter::repeat('\u{301}').take(33)).collect::<Vec<char>>(),
        std::iter::repeat('\u{316}').take(31).chain("b".chars()).collect(),
    ])
    .collect()
}

pub fn op_set(deep: bool) -> Vec<Op> {
    let mut v = Vec::new();
    let mut chars: Vec<char> = base_chars();
    // characters that agree with a base character in the low or in the high bits
    for b in base_chars() {
        for off in [0x40u32, 0x80, 0x100, 0x400, 0x1000, 0x4000, 0x8000, 0x10000, 0x20000, 0x40000, 0x100000] {
            if let Some(x) = char::from_u32(b as u32 ^ off) {
                chars.push(x);
            }
        }
    }
    if deep {
        chars.extend(fam::reps(2));
    }
    chars.sort();
    chars.dedup();
    for k in 0..CHAR_OPS {
        for &x in &chars {
            if k < 6 || base_chars().contains(&x) {
                v.push(Op::Char(k, x));
            }
        }
    }
    for &(a, b) in &[
        (0x61u32, 0x301u32), (0x61, 0x316), (0x41, 0x30A), (0x1100, 0x1161), (0xAC00, 0x11A8), (0xAC01, 0x11A8), (0x11131, 0x11127), (0x1131, 0x1127),
        (0x11131, 0x1127), (0x915, 0x93C), (0x928, 0x93C), (0x3B1, 0x345), (0x1F00, 0x345), (0x65, 0x302), (0xEA, 0x301), (0x302, 0x65), (0xDD9, 0xDCF), (0xDDC, 0xDCA), (0x11935, 0x11930),
    ] {
        for (x, y) in [(a, b), (b, a), (a ^ 1, b), (a, b ^ 1), (a ^ 0x100, b), (a, b ^ 0x10000), (a ^ 0x10000, b)] {
            if let (Some(x), Some(y)) = (char::from_u32(x), char::from_u32(y)) {
                v.push(Op::Compose(x, y));
            }
        }
    }
    for k in 0..WORD_OPS {
        for w in op_words() {
            v.push(Op::Word(k, w));
        }
    }
    v
}

fn baselines(ops: &[Op]) -> Result<Vec<u64>, String> {
    let sh = Shared::new(ops.len() + 1);
    let r = workers(Duration::from_secs(300), &|k| {
        for i in (k..ops.len()).step_by(NP) {
            unsafe {
                let pid = libc::fork();
                if pid == 0 {
                    libc::alarm(30);
                    sh.at(i).store(digest_of(&ops[i]), SeqCst);
                    libc::_exit(0);
                }
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0);
            }
        }
        0
    });
    for x in r {
        x?;
    }
    Ok((0..ops.len()).map(|i| sh.at(i).load(SeqCst)).collect())
}

fn found(stage: u32, case: Vec<u32>, name: &str, msg: String) -> Option<Found> {
    let mut cs = vec![stage];
    cs.extend(case);
    Some(Found { family: name.into(), index: 0, case: cs, chars: false, msg })
}

// ------------------------------------------------------------------ (a) histories

/// all ordered pairs (i, j) executed back to back; worker k takes the first operations i = k mod NP
fn histories(deep: bool, ops: &[Op], base: &[u64], rep: &mut Report) {
    let n = ops.len();
    let step = n / if deep { 500 } else { 250 };
    let few: Vec<usize> = (0..n).filter(|i| i % step.max(1) == 0).collect();
    let sh = Shared::new(8 * NP);
    let r = workers_watched(Duration::from_secs(600), true, &|k| {
        let s = |f: usize| sh.at(k * 8 + f);
        let mut prev = usize::MAX;
        let mut count = 0u64;
        let mut go = |i: usize| -> bool {
            s(1).store(i as u64, Relaxed);
            let ok = digest_of(&ops[i]) == base[i];
            count += 1;
            s(0).store(count, Relaxed);
            if !ok {
                s(2).store(1, SeqCst);
                s(3).store(i as u64, SeqCst);
                s(4).store(prev as u64, SeqCst);
            }
            prev = i;
            ok
        };
        for i in (k..n).step_by(NP) {
            if !go(i) || !go(i) {
                return 1;
            }
            for j in 0..n {
                if !go(j) || !go(i) {
                    return 1;
                }
            }
        }
        // all ordered triples of a spread of operations
        for (x, &i) in few.iter().enumerate() {
            if x % NP != k {
                continue;
            }
            for &j in &few {
                for &l in &few {
                    if !go(i) || !go(j) || !go(l) {
                        return 1;
                    }
                }
            }
        }
        0
    });
    let mut total = 0;
    for (k, x) in r.iter().enumerate() {
        let s = |f: usize| sh.at(k * 8 + f).load(SeqCst);
        total += s(0);
        if s(2) == 1 {
            let (i, p) = (s(3) as usize, s(4) as usize);
            let after = if p < n { describe(&ops[p]) } else { "nothing".into() };
            rep.found = found(1, vec![p as u32, i as u32], "histories", format!(
                "{} gives a different result after {} other calls (last: {}) than in a fresh process", describe(&ops[i]), s(0) - 1, after));
            return;
        }
        if let Err(e) = x {
            let i = s(1) as usize;
            rep.found = found(1, vec![u32::MAX, i as u32], "histories", format!("process {} in {} after {} calls; alone in a fresh process it works", e, describe(&ops[i]), s(0)));
            return;
        }
    }
    let (p2, p3) = ((n * n) as u64, (few.len() * few.len() * few.len()) as u64);
    rep.families.push((format!("ordered pairs of {} operations", n), p2));
    rep.families.push((format!("ordered triples of {} operations", few.len()), p3));
    rep.cases += p2 + p3;
    rep.transitions += total;
    rep.traces += total;
    rep.states += n as u64;
    rep.samples.push(format!("history: {} then {}", describe(&ops[n / 3]), describe(&ops[2 * n / 3])));
}

/// one operation repeated many times, then any other: counters and caches that need warming up.  Each
/// following operation runs in its own copy of the warmed-up process.
fn repetitions(deep: bool, ops: &[Op], base: &[u64], rep: &mut Report) {
    let reps: u64 = if deep { 140_000 } else { 66_000 };
    // first operations: every operation kind on a few arguments; following: every kind on the unsettled words
    let mut firsts: Vec<usize> = Vec::new();
    let mut seen: std::collections::BTreeMap<(u32, u32), u32> = Default::default();
    let mut thens: Vec<usize> = Vec::new();
    for (i, o) in ops.iter().enumerate() {
        let (key, long, cap) = match o {
            Op::Char(k, _) => ((0, *k), false, if deep { 8 } else { 2 }),
            Op::Compose(..) => ((1, 0), false, if deep { 30 } else { 8 }),
            Op::Word(k, w) => ((2, *k), w.len() > 20, if deep { 20 } else { 9 }),
        };
        let n = seen.entry(key).or_default();
        if !long && *n < cap {
            *n += 1;
            firsts.push(i);
        }
        match o {
            Op::Word(_, w) if w.len() > 1 => thens.push(i),
            Op::Compose(..) => thens.push(i),
            Op::Char(_, c) if base_chars().contains(c) => {
                if i % 3 == 0 || deep {
                    thens.push(i)
                }
            }
            _ => {}
        }
    }
    if !deep {
        thens = thens.into_iter().step_by(3).collect();
    }
    let sh = Shared::new(8 * NP + 8);
    let next = sh.at(8 * NP);
    let r = workers(Duration::from_secs(if deep { 600 } else { 240 }), &|k| {
        let s = |f: usize| sh.at(k * 8 + f);
        loop {
            let x = next.fetch_add(1, SeqCst) as usize;
            if x >= firsts.len() {
                return 0;
            }
            let i = firsts[x];
            s(1).store(i as u64, SeqCst);
            // a pristine process for every first operation
            unsafe {
                let pid = libc::fork();
                if pid == 0 {
                    for n in 0..reps {
                        if digest_of(&ops[i]) != base[i] {
                            s(2).store(1, SeqCst);
                            s(3).store(n, SeqCst);
                            libc::_exit(1);
                        }
                    }
                    s(0).fetch_add(reps, Relaxed);
                    for &j in &thens {
                        let p2 = libc::fork();
                        if p2 == 0 {
                            libc::alarm(30);
                            libc::_exit((digest_of(&ops[j]) != base[j] || digest_of(&ops[i]) != base[i]) as i32);
                        }
                        let mut st = 0;
                        libc::waitpid(p2, &mut st, 0);
                        s(0).fetch_add(2, Relaxed);
                        if p2 < 0 || st != 0 {
                            s(2).store(2, SeqCst);
                            s(3).store(j as u64, SeqCst);
                            libc::_exit(1);
                        }
                    }
                    libc::_exit(0);
                }
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0);
                if st != 0 {
                    return 1;
                }
            }
        }
    });
    let mut total = 0;
    for (k, x) in r.iter().enumerate() {
        let s = |f: usize| sh.at(k * 8 + f).load(SeqCst);
        total += s(0);
        if *x == Ok(0) {
            continue;
        }
        let i = s(1) as usize;
        let msg = match s(2) {
            1 => format!("{} gives a different result at its {}th repetition", describe(&ops[i]), s(3) + 1),
            2 => format!("{} gives a different result (or crashes) after {} repetitions of {}", describe(&ops[s(3) as usize]), reps, describe(&ops[i])),
            _ => format!("repeating {}: {:?}", describe(&ops[i]), x),
        };
        rep.found = found(5, vec![i as u32, s(2) as u32, s(3) as u32], "repetitions", msg);
        return;
    }
    rep.families.push((format!("{} repetitions of each of {} operations, then each of {} others", reps, firsts.len(), thens.len()), total));
    rep.cases += (firsts.len() * thens.len()) as u64;
    rep.transitions += total;
    rep.traces += (firsts.len() * thens.len()) as u64;
}

/// what the six character functions must answer, from the UCD
fn want_char(k: usize, c: char, t: &mut Vec<char>) -> u64 {
    let u = ucd();
    t.clear();
    match k {
        0 => return u.ccc(c) as u64,
        1 => return u.is_mark(c) as u64,
        2 => return u.is_public_assigned(c) as u64,
        3 => refmodel::decompose_char(u, c, false, t),
        4 => refmodel::decompose_char(u, c, true, t),
        _ => refmodel::cjk_variants(&[c], t),
    }
    fold_chars(t)
}
fn fold_chars(t: &[char]) -> u64 {
    t.iter().fold(1, |h, &c| fold_char(h, c))
}
#[inline(always)]
fn fold_char(h: u64, c: char) -> u64 {
    (h.rotate_left(21) ^ c as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)
}
#[inline(always)]
fn got_char(k: usize, c: char) -> u64 {
    let mut h = 1;
    match k {
        0 => return un::char::canonical_combining_class(c) as u64,
        1 => return un::char::is_combining_mark(c) as u64,
        2 => return un::char::is_public_assigned(c) as u64,
        3 => un::char::decompose_canonical(c, |x| h = fold_char(h, x)),
        4 => un::char::decompose_compatible(c, |x| h = fold_char(h, x)),
        _ => un::char::decompose_cjk_compat_variants(c, |x| h = fold_char(h, x)),
    }
    h
}
fn comp_code(c: Option<char>) -> u64 {
    c.map_or(u64::MAX, |x| x as u64)
}

/// every ordered pair of normalization-relevant characters through each character function, every ordered
/// pair of compositions, and every text alias (one bit of one character flipped), back to back: whatever a
/// call leaves behind must not be taken for the answer to another argument
fn aliases(deep: bool, rep: &mut Report) {
    let inter = fam::interesting();
    let n = inter.len();
    let mut t = Vec::new();
    let mut want: Vec<[u64; 6]> = inter.iter().map(|&c| std::array::from_fn(|k| want_char(k, c, &mut t))).collect();
    let u = ucd();
    // expected is the answer in a process of its own; where a run over everything agrees with the UCD, the UCD's
    let mut pairs: Vec<(char, char, u64)> = Vec::new();
    let chr = |v: u32| char::from_u32(v);
    for &(a, b, _) in &u.composites {
        for (x, y) in [(a, b), (b, a), (a ^ 1, b), (a, b ^ 1), (a ^ 0x10000, b), (a, b ^ 0x10000), (a + 1, b.wrapping_sub(1))] {
            if let (Some(x), Some(y)) = (chr(x), chr(y)) {
                pairs.push((x, y, comp_code(refmodel::compose_pair(u, x, y))));
            }
        }
    }
    for (a, b) in [(0x1100u32, 0x1161u32), (0x1112, 0x1175), (0xAC00, 0x11A8), (0xAC1C, 0x11C2), (0xAC01, 0x11A8), (0x1100, 0x11A8)] {
        let (x, y) = (chr(a).unwrap(), chr(b).unwrap());
        pairs.push((x, y, comp_code(refmodel::compose_pair(u, x, y))));
    }
    pairs.sort();
    pairs.dedup();
    let m = pairs.len();
    {
        let odd = Shared::new(n + m);
        workers(Duration::from_secs(120), &|w| {
            for i in (w..n).step_by(NP) {
                odd.at(i).store((0..6).any(|k| got_char(k, inter[i]) != want[i][k]) as u64, SeqCst);
            }
            for i in (w..m).step_by(NP) {
                odd.at(n + i).store((comp_code(un::char::compose(pairs[i].0, pairs[i].1)) != pairs[i].2) as u64, SeqCst);
            }
            0
        });
        for i in 0..n {
            for k in 0..6 {
                if odd.at(i).load(SeqCst) != 0 {
                    want[i][k] = pristine(|| got_char(k, inter[i])).unwrap_or(0);
                }
            }
        }
        for i in 0..m {
            if odd.at(n + i).load(SeqCst) != 0 {
                pairs[i].2 = pristine(|| comp_code(un::char::compose(pairs[i].0, pairs[i].1))).unwrap_or(0);
            }
        }
    }
    let words: Vec<char> = fam::reps(if deep { 2 } else { 1 });
    let sh = Shared::new(16 * NP);
    let r = workers(Duration::from_secs(if deep { 600 } else { 200 }), &|w| {
        let s = |f: usize| sh.at(w * 16 + f);
        let mut total = 0u64;
        for k in 0..6 {
            s(5).store(k as u64, Relaxed);
            for i in (w..n).step_by(NP) {
                s(6).store(inter[i] as u64, Relaxed);
                for j in 0..n {
                    let x = got_char(k, inter[i]);
                    let y = got_char(k, inter[j]);
                    if x != want[i][k] || y != want[j][k] {
                        let (a, b) = if y != want[j][k] { (i, j) } else { (j.wrapping_sub(1).min(n - 1), i) };
                        for (f, v) in [1, k as u64, inter[a] as u64, inter[b] as u64].into_iter().enumerate() {
                            s(1 + f).store(v, SeqCst);
                        }
                        return 1;
                    }
                }
                total += 2 * n as u64;
                s(0).store(total, Relaxed);
            }
        }
        s(5).store(6, Relaxed);
        for i in (w..m).step_by(NP) {
            let (a, b, want) = pairs[i];
            s(6).store(a as u64, Relaxed);
            s(7).store(b as u64, Relaxed);
            for &(c, d, wanted) in &pairs {
                let x = comp_code(un::char::compose(a, b));
                let y = comp_code(un::char::compose(c, d));
                if x != want || y != wanted {
                    for (f, v) in [2, a as u64, b as u64, c as u64, d as u64].into_iter().enumerate() {
                        s(1 + f).store(v, SeqCst);
                    }
                    return 1;
                }
            }
            total += 2 * m as u64;
            if want >> 32 == 0 {
                // one bit of each character flipped
                for e in 0..22u32 {
                    for f in 0..22u32 {
                        let bit = |v: char, e: u32| if e == 21 { Some(v) } else { chr(v as u32 ^ 1 << e) };
                        if let (Some(c), Some(d)) = (bit(a, e), bit(b, f)) {
                            let wanted = comp_code(refmodel::compose_pair(u, c, d));
                            if comp_code(un::char::compose(a, b)) != want || comp_code(un::char::compose(c, d)) != wanted {
                                for (f, v) in [2, a as u64, b as u64, c as u64, d as u64].into_iter().enumerate() {
                                    s(1 + f).store(v, SeqCst);
                                }
                                return 1;
                            }
                            total += 2;
                        }
                    }
                }
            }
            s(0).store(total, Relaxed);
        }
        // texts: the same operation on two texts that differ in one bit of one character
        s(5).store(7, Relaxed);
        let text = |k: u32, v: &[char]| -> u64 {
            let st: String = v.iter().collect();
            let mut d = Digest::new();
            crate::ops::word_op(k, v, &st, &mut d);
            d.0
        };
        let mut base: Vec<u64> = vec![0; WORD_OPS as usize * 22];
        for i in (w..words.len()).step_by(NP) {
            for ctx in 0..5 {
                if ctx == 4 && !deep && i / NP % 4 != 0 {
                    continue;
                }
                let make = |x: char| -> Vec<char> {
                    match ctx {
                        0 => vec![x],
                        1 => vec!['e', x],
                        2 => vec![x, '\u{301}'],
                        4 => std::iter::repeat('x').take(48).chain([x]).chain(std::iter::repeat('x').take(48)).collect(),
                        _ => vec!['\u{1100}', x, '\u{316}', 'b'],
                    }
                };
                let alias: Vec<Vec<char>> =
                    (0..22u32).filter_map(|e| if e == 21 { Some(words[i]) } else { chr(words[i] as u32 ^ 1 << e) }).map(make).collect();
                s(6).store(words[i] as u64, Relaxed);
                // each text once on its own first: a different operation clears nothing, but the order differs
                for k in 0..WORD_OPS {
                    for (e, v) in alias.iter().enumerate() {
                        base[k as usize * 22 + e] = text(k, v);
                    }
                }
                for k in 0..WORD_OPS {
                    let (a, b) = (alias.len() - 1, &alias[alias.len() - 1]);
                    for (e, v) in alias.iter().enumerate().rev() {
                        if text(k, b) != base[k as usize * 22 + a] || text(k, v) != base[k as usize * 22 + e] {
                            for (f, z) in [3, k as u64, words[i] as u64, ctx as u64, e as u64].into_iter().enumerate() {
                                s(1 + f).store(z, SeqCst);
                            }
                            return 1;
                        }
                        total += 3;
                    }
                }
            }
            s(0).store(total, Relaxed);
        }
        0
    });
    let mut total = 0;
    for (w, x) in r.iter().enumerate() {
        let s = |f: usize| sh.at(w * 16 + f).load(SeqCst);
        total += s(0);
        if *x == Ok(0) {
            continue;
        }
        if s(1) == 2 {
            // wrong by itself (the business of C12) rather than because of the other call?
            let alone = |a: u64, b: u64| -> bool {
                let (a, b) = (chr(a as u32).unwrap(), chr(b as u32).unwrap());
                pristine(|| comp_code(un::char::compose(a, b))) == Some(comp_code(refmodel::compose_pair(u, a, b)))
            };
            if !(alone(s(2), s(3)) && alone(s(4), s(5))) {
                rep.notes.push("a composition differs from the UCD in a fresh process; the alternating calls were cut short".into());
                rep.exhaustive = false;
                continue;
            }
        }
        let names = ["canonical_combining_class", "is_combining_mark", "is_public_assigned", "decompose_canonical", "decompose_compatible", "decompose_cjk_compat_variants", "compose", "text operations"];
        let msg = match s(1) {
            1 => format!("{} gives a wrong result for U+{:04X} in a history where U+{:04X} was asked just before", names[s(2) as usize % 6], s(4), s(3)),
            2 => format!("compose gives a wrong result for (U+{:04X}, U+{:04X}) or (U+{:04X}, U+{:04X}) when they are asked alternately", s(2), s(3), s(4), s(5)),
            3 => format!("{} depends on the call before it: texts around U+{:04X} and the same with a bit flipped (context {}, bit {})", crate::ops::WORD_NAMES[s(2) as usize % WORD_OPS as usize], s(3), s(4), s(5)),
            _ => format!("{} (U+{:04X}, U+{:04X}): {:?}", names[s(5) as usize % 8], s(6), s(7), x),
        };
        rep.found = found(6, (1..6).map(|f| s(f) as u32).collect(), "aliases", msg);
        return;
    }
    rep.families.push((format!("alternating calls: {}^2 character pairs x 6 functions, {}^2 compositions and one-bit neighbours, one-bit neighbours of {} characters in texts", n, m, words.len()), total));
    rep.cases += total;
    rep.transitions += total;
    rep.traces += total / 2;
}

fn code(parts: [u64; 6]) -> u64 {
    parts.iter().fold(7, |h, &x| (h.rotate_left(9) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15))
}
fn got_all(c: char) -> u64 {
    code(std::array::from_fn(|k| got_char(k, c)))
}

/// run `f` in a process that has not used the crate; None when it crashes or hangs there
fn pristine(f: impl Fn() -> u64) -> Option<u64> {
    let sh = Shared::new(2);
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::alarm(30);
            let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(&f));
            if let Ok(v) = v {
                sh.at(1).store(v, SeqCst);
                sh.at(0).store(1, SeqCst);
            }
            libc::_exit(0);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
    }
    let r = (sh.at(0).load(SeqCst) == 1).then(|| sh.at(1).load(SeqCst));
    unsafe { libc::munmap(sh.p as *mut libc::c_void, 16) };
    r
}

/// The table lookups over all scalar values in several orders.  Expected: what each function answers in a
/// process of its own, which is the UCD's answer wherever one run over all values agrees with the UCD (the
/// tables themselves are the business of C11 and C13).
fn scans(rep: &mut Report) {
    const CAP: usize = 4096;
    let mut t = Vec::new();
    let mut exp: Vec<u64> = (0..0x110000u32)
        .map(|v| char::from_u32(v).map_or(0, |c| code(std::array::from_fn(|k| want_char(k, c, &mut t)))))
        .collect();
    let sh = Shared::new(8 * NP + CAP + 1);
    let odd = sh.at(8 * NP);
    workers(Duration::from_secs(120), &|k| {
        for v in (k as u32..0x110000).step_by(NP) {
            if let Some(c) = char::from_u32(v) {
                if got_all(c) != exp[v as usize] {
                    let i = odd.fetch_add(1, SeqCst) as usize;
                    if i < CAP {
                        sh.at(8 * NP + 1 + i).store(v as u64, SeqCst);
                    }
                }
            }
        }
        0
    });
    let n_odd = odd.load(SeqCst) as usize;
    if n_odd > CAP {
        rep.notes.push(format!("{} scalar values differ from the UCD; the whole-range scans were skipped", n_odd));
        rep.exhaustive = false;
        return;
    }
    for i in 0..n_odd {
        let v = sh.at(8 * NP + 1 + i).load(SeqCst) as u32;
        let c = char::from_u32(v).unwrap();
        match pristine(|| got_all(c)) {
            Some(x) if x == exp[v as usize] => {
                rep.found = found(2, vec![9, v], "whole-range scans", format!("a lookup or decomposition of U+{:04X} gives a different result after calls for other characters than in a fresh process", v));
                return;
            }
            Some(x) => exp[v as usize] = x,
            None => {
                rep.found = found(2, vec![9, v], "whole-range scans", format!("a lookup or decomposition of U+{:04X} crashes in a fresh process", v));
                return;
            }
        }
    }
    let names = ["ascending", "descending", "bit-reversed", "strided by 4096", "ascending twice each", "interleaved with a fixed character"];
    let r = workers(Duration::from_secs(300), &|k| {
        let s = |f: usize| sh.at(k * 8 + f);
        let mut n = 0u64;
        macro_rules! go {
            ($v:expr) => {
                n += 1;
                let v: u32 = $v;
                if let Some(c) = char::from_u32(v) {
                    s(1).store(v as u64, Relaxed);
                    s(0).store(n, Relaxed);
                    if got_all(c) != exp[v as usize] {
                        return 1;
                    }
                }
            };
        }
        match k {
            0 => for v in 0..0x110000u32 { go!(v); },
            1 => for v in (0..0x110000u32).rev() { go!(v); },
            2 => for x in 0..1u32 << 21 { let v = x.reverse_bits() >> 11; if v < 0x110000 { go!(v); } },
            3 => for o in 0..4096u32 { for h in 0..0x110u32 { go!(h << 12 | o); } },
            4 => for v in 0..0x110000u32 { go!(v); go!(v); },
            5 => for v in 0..0x110000u32 { go!(v); go!(0x1EAD); go!(0x301); },
            _ => {}
        }
        0
    });
    for (k, x) in r.iter().enumerate().take(names.len()) {
        let s = |f: usize| sh.at(k * 8 + f).load(SeqCst);
        let bad = match x {
            Ok(0) => None,
            Ok(_) => Some("a different result than in a fresh process".to_string()),
            Err(e) => Some(e.clone()),
        };
        if let Some(e) = bad {
            rep.found = found(2, vec![k as u32, s(1) as u32], "whole-range scans", format!("scan {}: U+{:04X} at call {}: {} for a lookup or decomposition", names[k], s(1), s(0), e));
            return;
        }
        rep.families.push((format!("scan of every scalar value, {}", names[k]), s(0)));
        rep.cases += s(0);
        rep.transitions += 6 * s(0);
        rep.traces += s(0);
    }
}

// ------------------------------------------------------------------ (b) interleavings

enum Any<'a> {
    D(Decompositions<std::iter::Copied<std::slice::Iter<'a, char>>>),
    R(Recompositions<std::iter::Copied<std::slice::Iter<'a, char>>>),
    C(Replacements<std::iter::Copied<std::slice::Iter<'a, char>>>),
    S(StreamSafe<std::iter::Copied<std::slice::Iter<'a, char>>>),
}
impl<'a> Any<'a> {
    fn new(kind: usize, w: &'a [char]) -> Any<'a> {
        let it = w.iter().copied();
        match kind {
            0 => Any::D(Decompositions::new_canonical(it)),
            1 => Any::D(Decompositions::new_compatible(it)),
            2 => Any::R(Recompositions::new_canonical(it)),
            3 => Any::R(Recompositions::new_compatible(it)),
            4 => Any::C(Replacements::new_cjk_compat_variants(it)),
            _ => Any::S(StreamSafe::new(it)),
        }
    }
    #[inline]
    fn next(&mut self) -> Option<char> {
        match self {
            Any::D(x) => x.next(),
            Any::R(x) => x.next(),
            Any::C(x) => x.next(),
            Any::S(x) => x.next(),
        }
    }
}

fn solo(kind: usize, w: &[char]) -> Vec<char> {
    let mut a = Any::new(kind, w);
    let mut v = Vec::new();
    while let Some(x) = a.next() {
        v.push(x);
        if v.len() > 2000 {
            break;
        }
    }
    v
}

fn live_words() -> Vec<Vec<char>> {
    [
        "a\u{301}\u{316}b",
        "\u{345}\u{301}\u{316}\u{334}\u{321}\u{308}x",
        "\u{1EAD}\u{301}\u{1100}\u{1161}\u{11A8}",
        "\u{F900}\u{FB03}\u{344}",
        "e\u{316}\u{302}\u{323}\u{301}",
        "\u{AC01}\u{AC00}\u{11A8}\u{DD9}\u{DCF}\u{DCA}",
        "q\u{300}\u{317}\u{334}\u{345}\u{316}\u{301}",
    ]
    .iter()
    .map(|x| x.chars().collect())
    .collect()
}

/// a writer that runs an operation at every piece it is given
struct Calling<'a> {
    op: &'a Op,
    base: u64,
    ok: bool,
    text: Vec<char>,
}
impl std::fmt::Write for Calling<'_> {
    fn write_str(&mut self, x: &str) -> std::fmt::Result {
        self.ok &= digest_of(self.op) == self.base;
        self.text.extend(x.chars());
        Ok(())
    }
}

fn interleavings(deep: bool, ops: &[Op], base: &[u64], rep: &mut Report) {
    let words = live_words();
    let r = if deep { 7 } else { 5 };
    let merges: Vec<u32> = (0u32..1 << (2 * r)).filter(|m| m.count_ones() == r).collect();
    let sh = Shared::new(16 * NP);
    let combos: Vec<(usize, usize, usize, usize)> = {
        let mut v = Vec::new();
        for k1 in 0..6 {
            for w1 in 0..words.len() {
                for k2 in 0..6 {
                    for w2 in 0..words.len() {
                        v.push((k1, w1, k2, w2));
                    }
                }
            }
        }
        v
    };
    let res = workers_watched(Duration::from_secs(700), true, &|p| {
        let s = |f: usize| sh.at(p * 16 + f);
        let mut n = 0u64;
        // merges of two adapters
        for ci in (p..combos.len()).step_by(NP) {
            let (k1, w1, k2, w2) = combos[ci];
            let want = [solo(k1, &words[w1]), solo(k2, &words[w2])];
            s(1).store(ci as u64, Relaxed);
            for &m in &merges {
                beat();
                s(2).store(m as u64, Relaxed);
                let mut a = [Any::new(k1, &words[w1]), Any::new(k2, &words[w2])];
                let mut pos = [0usize; 2];
                for b in 0..2 * r {
                    let i = (m >> b & 1) as usize;
                    let g = a[i].next();
                    n += 1;
                    if g != want[i].get(pos[i]).copied() {
                        s(3).store(1, SeqCst);
                        return 1;
                    }
                    pos[i] += 1;
                }
                for i in 0..2 {
                    while pos[i] <= want[i].len() {
                        let g = a[i].next();
                        n += 1;
                        if g != want[i].get(pos[i]).copied() {
                            s(3).store(1, SeqCst);
                            return 1;
                        }
                        pos[i] += 1;
                    }
                }
            }
            s(0).store(n, Relaxed);
        }
        // any operation between any two steps of an adapter; also inside its source and inside emit callbacks
        for oi in (p..ops.len()).step_by(NP * if deep { 1 } else { 3 }) {
            s(4).store(oi as u64, Relaxed);
            for kind in 0..6 {
                for (wi, w) in words.iter().enumerate() {
                    let want = solo(kind, w);
                    s(5).store((kind * 16 + wi) as u64, Relaxed);
                    for k in 0..=want.len().min(7) {
                        let mut a = Any::new(kind, w);
                        let mut out = Vec::new();
                        for _ in 0..k {
                            out.extend(a.next());
                        }
                        let d = digest_of(&ops[oi]);
                        while let Some(x) = a.next() {
                            out.push(x);
                        }
                        n += 1;
                        if d != base[oi] || out != want {
                            s(3).store(2, SeqCst);
                            return 1;
                        }
                    }
                    // re-entrant: the source runs the operation at every poll
                    let mut ok = true;
                    let src = w.iter().copied().inspect(|_| ok &= digest_of(&ops[oi]) == base[oi]);
                    let out: Vec<char> = match kind {
                        0 => Decompositions::new_canonical(src).collect(),
                        1 => Decompositions::new_compatible(src).collect(),
                        2 => Recompositions::new_canonical(src).collect(),
                        3 => Recompositions::new_compatible(src).collect(),
                        4 => Replacements::new_cjk_compat_variants(src).collect(),
                        _ => StreamSafe::new(src).collect(),
                    };
                    n += 1;
                    if out != want || !ok {
                        s(3).store(3, SeqCst);
                        return 1;
                    }
                    // re-entrant: the writer runs the operation at every piece it is given
                    if kind < 5 {
                        use std::fmt::Write;
                        let mut to = Calling { op: &ops[oi], base: base[oi], ok: true, text: Vec::new() };
                        let it = w.iter().copied();
                        let r = match kind {
                            0 => write!(to, "{}", Decompositions::new_canonical(it)),
                            1 => write!(to, "{}", Decompositions::new_compatible(it)),
                            2 => write!(to, "{}", Recompositions::new_canonical(it)),
                            3 => write!(to, "{}", Recompositions::new_compatible(it)),
                            _ => write!(to, "{}", Replacements::new_cjk_compat_variants(it)),
                        };
                        n += 1;
                        if r.is_err() || to.text != want || !to.ok {
                            s(3).store(5, SeqCst);
                            return 1;
                        }
                    }
                }
            }
            for ch in ['a', '\u{1EAD}', '\u{AC01}', '\u{FDFA}', '\u{F900}', '\u{301}'] {
                for compat in 0..3 {
                    let mut want = Vec::new();
                    let mut got = Vec::new();
                    let mut ok = true;
                    match compat {
                        0 => {
                            un::char::decompose_canonical(ch, |x| want.push(x));
                            un::char::decompose_canonical(ch, |x| { ok &= digest_of(&ops[oi]) == base[oi]; got.push(x) });
                        }
                        1 => {
                            un::char::decompose_compatible(ch, |x| want.push(x));
                            un::char::decompose_compatible(ch, |x| { ok &= digest_of(&ops[oi]) == base[oi]; got.push(x) });
                        }
                        _ => {
                            un::char::decompose_cjk_compat_variants(ch, |x| want.push(x));
                            un::char::decompose_cjk_compat_variants(ch, |x| { ok &= digest_of(&ops[oi]) == base[oi]; got.push(x) });
                        }
                    }
                    n += 1;
                    if got != want || !ok {
                        s(3).store(4, SeqCst);
                        return 1;
                    }
                }
            }
            s(0).store(n, Relaxed);
        }
        s(0).store(n, Relaxed);
        0
    });
    let mut total = 0;
    for (k, x) in res.iter().enumerate() {
        let s = |f: usize| sh.at(k * 16 + f).load(SeqCst);
        total += s(0);
        if *x != Ok(0) {
            let (k1, w1, k2, w2) = combos[s(1) as usize % combos.len()];
            let how = match x {
                Err(e) => format!("process {}", e),
                Ok(99) => "panicked".into(),
                _ => "different results".into(),
            };
            let m = s(2) as u32;
            let msg = match s(3) {
                1 => format!(
                    "{}(\"{}\") and {}(\"{}\") disturb each other when their next() calls interleave as {:0w$b} (read right to left): {}",
                    KINDS[k1], show(&words[w1]), KINDS[k2], show(&words[w2]), m, how, w = 2 * r as usize),
                q => format!(
                    "{} executed {} {}(\"{}\"): {}",
                    describe(&ops[s(4) as usize]),
                    ["during", "", "between two steps of", "inside the source of", "inside a decomposition callback, last adapter", "inside the writer formatting"][q as usize],
                    KINDS[(s(5) / 16) as usize % 6], show(&words[(s(5) % 16) as usize % words.len()]), how),
            };
            rep.found = found(3, vec![s(3) as u32, s(1) as u32, m, s(4) as u32, s(5) as u32], "interleavings", msg);
            return;
        }
    }
    rep.families.push((format!("merges of {}+{} next() calls of two live adapters ({} pairs x {} merges), operations between, inside source and callback", r, r, combos.len(), merges.len()), total));
    rep.cases += total;
    rep.transitions += total;
    rep.traces += (combos.len() * merges.len()) as u64;
}

// ------------------------------------------------------------------ (d) aborted operations

/// how an operation is cut short
const ABORTS: [&str; 7] = [
    "a source that panics",
    "a source that panics, the adapter never dropped",
    "being dropped half-way",
    "being forgotten half-way",
    "a writer that panics",
    "a writer that fails",
    "a callback that panics",
];

fn give_up() -> ! {
    // no hook, no message
    std::panic::resume_unwind(Box::new(()))
}

/// takes `left` characters, then panics or fails
struct Breaking {
    left: usize,
    panics: bool,
}
impl std::fmt::Write for Breaking {
    fn write_str(&mut self, x: &str) -> std::fmt::Result {
        for _ in x.chars() {
            if self.left == 0 {
                if self.panics {
                    give_up();
                }
                return Err(std::fmt::Error);
            }
            self.left -= 1;
        }
        Ok(())
    }
}

/// (how, kind, word or character, after so many characters); kinds 6.. are the predicates and quick checks
fn abort(how: usize, kind: usize, w: &[char], k: usize) {
    use std::fmt::Write;
    let _ = std::panic::catch_unwind(|| {
        let mut left = k;
        let src = w.iter().copied().inspect(move |_| {
            if left == 0 && how < 2 {
                give_up();
            }
            left = left.saturating_sub(1);
        });
        macro_rules! adapter {
            ($make:expr) => {{
                let mut a = $make;
                match how {
                    0 => {
                        while a.next().is_some() {}
                    }
                    1 => {
                        let mut a = std::mem::ManuallyDrop::new(a);
                        while a.next().is_some() {}
                    }
                    _ => {
                        for _ in 0..k {
                            a.next();
                        }
                        if how == 3 {
                            std::mem::forget(a);
                        }
                    }
                }
            }};
        }
        if how < 4 {
            match kind {
                0 => adapter!(Decompositions::new_canonical(src)),
                1 => adapter!(Decompositions::new_compatible(src)),
                2 => adapter!(Recompositions::new_canonical(src)),
                3 => adapter!(Recompositions::new_compatible(src)),
                4 => adapter!(Replacements::new_cjk_compat_variants(src)),
                5 => adapter!(StreamSafe::new(src)),
                6 => drop(un::is_nfd_quick(src)),
                7 => drop(un::is_nfkd_quick(src)),
                8 => drop(un::is_nfc_quick(src)),
                9 => drop(un::is_nfkc_quick(src)),
                10 => drop(un::is_nfd_stream_safe_quick(src)),
                _ => drop(un::is_nfc_stream_safe_quick(src)),
            }
        } else if how < 6 {
            let mut out = Breaking { left: k, panics: how == 4 };
            let it = w.iter().copied();
            let _ = match kind {
                0 => write!(out, "{}", Decompositions::new_canonical(it)),
                1 => write!(out, "{}", Decompositions::new_compatible(it)),
                2 => write!(out, "{}", Recompositions::new_canonical(it)),
                3 => write!(out, "{}", Recompositions::new_compatible(it)),
                _ => write!(out, "{}", Replacements::new_cjk_compat_variants(it)),
            };
        } else {
            let mut left = k;
            let f = |_| {
                if left == 0 {
                    give_up();
                }
                left -= 1;
            };
            match kind {
                0 => un::char::decompose_canonical(w[0], f),
                1 => un::char::decompose_compatible(w[0], f),
                _ => un::char::decompose_cjk_compat_variants(w[0], f),
            }
        }
    });
}

/// Texts that are easily taken for one another: the same characters in another order, or the same but for the
/// middle, at the same address; behind ASCII text of several lengths.  Every operation on one and then on the other.
fn lookalikes(deep: bool, rep: &mut Report) {
    let letters: Vec<char> = if deep { "xae\u{E9}\u{301}\u{302}\u{308}\u{316}\u{323}\u{345}\u{34F}\u{344}\u{1100}\u{1161}\u{11A8}\u{AC00}\u{F900}\u{FF9E}\u{FB01}\u{1D15E}\u{10FFFF}" } else { "xe\u{E9}\u{301}\u{302}\u{316}\u{323}\u{345}\u{1100}\u{1161}\u{AC00}\u{F900}\u{FF9E}" }.chars().collect();
    let n = letters.len();
    let mut groups: Vec<Vec<Vec<char>>> = Vec::new();
    for a in 0..n {
        for b in a + 1..n {
            for c in b + 1..n {
                groups.push([[a, b, c], [a, c, b], [b, a, c], [b, c, a], [c, a, b], [c, b, a]].iter().map(|t| t.iter().map(|&i| letters[i]).collect()).collect());
            }
        }
    }
    for a in 0..n {
        for c in 0..n {
            groups.push((0..n).map(|b| vec![letters[a], letters[b], letters[c]]).collect());
        }
    }
    let ends: &[(usize, usize)] = if deep { &[(0, 0), (20, 0), (64, 0), (0, 20), (0, 64), (40, 40), (300, 0), (130, 130)] } else { &[(0, 0), (20, 0), (64, 0), (24, 24)] };
    let sh = Shared::new(8 * NP);
    const W: usize = WORD_OPS as usize;
    let r = workers(Duration::from_secs(if deep { 600 } else { 200 }), &|p| {
        let s = |f: usize| sh.at(p * 8 + f);
        let mut total = 0u64;
        let mut st = String::with_capacity(4096);
        let mut op = |k: usize, v: &[char]| -> u64 {
            st.clear();
            st.extend(v.iter());
            let mut d = Digest::new();
            crate::ops::word_op(k as u32, v, &st, &mut d);
            d.0
        };
        let base = Shared::new(n.max(6) * W);
        for gi in (p..groups.len()).step_by(NP) {
            for (ei, &(pre, suf)) in ends.iter().enumerate() {
                s(1).store(gi as u64, Relaxed);
                s(2).store(ei as u64, Relaxed);
                let g: Vec<Vec<char>> = groups[gi].iter().map(|w| std::iter::repeat('x').take(pre).chain(w.iter().copied()).chain(std::iter::repeat('x').take(suf)).collect()).collect();
                for (i, v) in g.iter().enumerate() {
                    s(3).store((i * g.len() + i) as u64, Relaxed);
                    unsafe {
                        let pid = libc::fork();
                        if pid == 0 {
                            libc::alarm(30);
                            for k in 0..W {
                                s(4).store(k as u64, Relaxed);
                                base.at(i * W + k).store(op(k, v), SeqCst);
                            }
                            libc::_exit(0);
                        }
                        let mut ws = 0;
                        libc::waitpid(pid, &mut ws, 0);
                        if pid < 0 || ws != 0 {
                            return 2;
                        }
                    }
                }
                // (the operations run in a child too, so that each group starts afresh)
                unsafe {
                    let pid = libc::fork();
                    if pid == 0 {
                        libc::alarm(120);
                        for i in 0..g.len() {
                            for j in 0..g.len() {
                                s(3).store((i * g.len() + j) as u64, Relaxed);
                                for k in 0..W {
                                    // the same operation on the other text, and a different one
                                    for l in [k, (k + 1 + i + j) % W] {
                                        s(4).store((k * W + l) as u64, Relaxed);
                                        if i == j && k == l {
                                            continue;
                                        }
                                        if op(k, &g[i]) != base.at(i * W + k).load(Relaxed) || op(l, &g[j]) != base.at(j * W + l).load(Relaxed) {
                                            libc::_exit(1);
                                        }
                                        total += 2;
                                    }
                                }
                            }
                        }
                        s(0).fetch_add(total, Relaxed);
                        libc::_exit(0);
                    }
                    let mut ws = 0;
                    libc::waitpid(pid, &mut ws, 0);
                    if pid < 0 || ws != 0 {
                        return 1;
                    }
                }
            }
        }
        0
    });
    let mut total = 0;
    for (p, x) in r.iter().enumerate() {
        let s = |f: usize| sh.at(p * 8 + f).load(SeqCst);
        total += s(0);
        if *x != Ok(0) {
            let g = &groups[s(1) as usize];
            let (i, j) = (s(3) as usize / g.len(), s(3) as usize % g.len());
            let (k, l) = if *x == Ok(2) { (s(4) as usize, s(4) as usize) } else { (s(4) as usize / W, s(4) as usize % W) };
            let (pre, suf) = ends[s(2) as usize];
            rep.found = found(6, vec![s(1) as u32, s(2) as u32, s(3) as u32, s(4) as u32], "lookalike texts", format!(
                "{} of \"{}\" then {} of \"{}\" ({} letters before, {} behind) do not both give what they give in a process of their own, or crash or hang",
                crate::ops::WORD_NAMES[k], show(&g[i]), crate::ops::WORD_NAMES[l], show(&g[j]), pre, suf));
            return;
        }
    }
    rep.families.push((format!("lookalike texts: {} groups (same characters in other orders; other middles) x {} places, every operation on one and then on another", groups.len(), ends.len()), total));
    rep.cases += total;
    rep.transitions += total;
    rep.traces += total / 2;
}

/// An operation cut short at every point, in the same and in another thread, and then any other operation: what
/// was under way must not show.
fn aborted(deep: bool, ops: &[Op], base: &[u64], rep: &mut Report) {
    let mut acts: Vec<(usize, usize, Vec<char>, usize)> = Vec::new();
    for w in op_words().into_iter().chain(live_words()) {
        for how in 0..6 {
            for kind in 0..if how < 2 { 12 } else if how < 4 { 6 } else { 5 } {
                let most = if deep { 40 } else { 8 };
                for k in (0..=w.len()).filter(|&k| k < most || k % 16 == 15) {
                    acts.push((how, kind, w.clone(), k));
                }
            }
        }
    }
    for c in base_chars() {
        for kind in 0..3 {
            for k in 0..4 {
                acts.push((6, kind, vec![c], k));
            }
        }
    }
    let n = ops.len();
    let few: Vec<usize> = (0..n).filter(|i| i % (n / if deep { 400 } else { 120 }).max(1) == 0 || matches!(&ops[*i], Op::Word(_, w) if w.len() < 13 && w.len() > 2 && (deep || i % 4 == 0))).collect();
    let sh = Shared::new(8 * NP);
    let r = workers(Duration::from_secs(600), &|p| {
        let s = |f: usize| sh.at(p * 8 + f);
        for ai in (p..acts.len()).step_by(NP) {
            s(1).store(ai as u64, Relaxed);
            let (how, kind, w, k) = &acts[ai];
            unsafe {
                let pid = libc::fork();
                if pid == 0 {
                    libc::alarm(30);
                    if ai / NP % 2 == 0 {
                        abort(*how, *kind, w, *k);
                    } else {
                        let (how, kind, w, k) = (*how, *kind, w.clone(), *k);
                        let _ = std::thread::spawn(move || abort(how, kind, &w, k)).join();
                    }
                    for &j in &few {
                        s(3).store(j as u64, Relaxed);
                        if digest_of(&ops[j]) != base[j] {
                            libc::_exit(1);
                        }
                        s(0).fetch_add(1, Relaxed);
                    }
                    libc::_exit(0);
                }
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0);
                if pid < 0 || st != 0 {
                    return 1;
                }
            }
        }
        0
    });
    let mut total = 0;
    for (p, x) in r.iter().enumerate() {
        let s = |f: usize| sh.at(p * 8 + f).load(SeqCst);
        total += s(0);
        if *x != Ok(0) {
            let (how, kind, w, k) = &acts[s(1) as usize];
            let name = if *how == 6 { ["decompose_canonical", "decompose_compatible", "decompose_cjk_compat_variants"][*kind] } else if *kind < 6 { KINDS[*kind] } else { "quick check" };
            rep.found = found(6, vec![s(1) as u32, s(3) as u32], "aborted operations", format!(
                "{} gives a different result, crashes or hangs after {}(\"{}\") was cut short by {} (after {} characters)",
                describe(&ops[s(3) as usize]), name, show(w), ABORTS[*how], k));
            return;
        }
    }
    rep.families.push((format!("{} operations cut short at every point, then each of {} operations", acts.len(), few.len()), total));
    rep.cases += total;
    rep.transitions += total;
    rep.traces += acts.len() as u64;
}

/// runs an operation when it is dropped: at the end of its thread, or while a panic unwinds
struct Late(std::cell::Cell<Option<(usize, *const Op, u64, usize)>>);
impl Drop for Late {
    fn drop(&mut self) {
        if let Some((count, op, want, _)) = self.0.get() {
            let mut d = Digest::new();
            run_op(unsafe { &*op }, &mut d);
            if d.0 | 1 == want {
                unsafe { &*(count as *const AtomicU64) }.fetch_add(1, SeqCst);
            }
        }
    }
}
thread_local!(static LATE: Late = const { Late(std::cell::Cell::new(None)) });

/// Operations in places where a thread-local or a lock of the crate may be gone already: in the destructors of
/// thread-locals (set up before or after the crate was used) and of values dropped by a panic.
fn late_calls(deep: bool, ops: &[Op], base: &[u64], rep: &mut Report) {
    let n = ops.len();
    let thens: Vec<usize> = (0..n).filter(|i| i % (n / if deep { 800 } else { 230 }).max(1) == 0).collect();
    let firsts: Vec<usize> = thens.iter().copied().step_by(if deep { 4 } else { 6 }).collect();
    let sh = Shared::new(8 * NP);
    let r = workers(Duration::from_secs(if deep { 600 } else { 120 }), &|p| {
        let s = |f: usize| sh.at(p * 8 + f);
        for fi in (p..firsts.len()).step_by(NP) {
            let i = firsts[fi];
            s(1).store(i as u64, Relaxed);
            let done = Shared::new(1);
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                unsafe { libc::alarm(60) };
                let count = done.at(0) as *const AtomicU64 as usize;
                let mut ran = 0;
                for &j in &thens {
                    for way in 0..3usize {
                        s(2).store(j as u64, Relaxed);
                        s(3).store(way as u64, Relaxed);
                        let (op, want) = (&ops[j] as *const Op as usize, base[j]);
                        let set = move |l: &Late| l.0.set(Some((count, op as *const Op, want, 0)));
                        let first = &ops[i];
                        std::thread::scope(|sc| {
                            let h = sc.spawn(move || {
                                let mut d = Digest::new();
                                match way {
                                    0 => {
                                        LATE.with(set);
                                        run_op(first, &mut d);
                                    }
                                    1 => {
                                        run_op(first, &mut d);
                                        LATE.with(set);
                                    }
                                    _ => {
                                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                            let l = Late(std::cell::Cell::new(None));
                                            set(&l);
                                            run_op(first, &mut d);
                                            give_up()
                                        }));
                                    }
                                }
                            });
                            // (a scope alone does not wait for the destructors of thread-locals)
                            let _ = h.join();
                        });
                        ran += 1;
                        if done.at(0).load(SeqCst) != ran {
                            unsafe { libc::_exit(1) };
                        }
                        s(0).fetch_add(1, Relaxed);
                    }
                }
                unsafe { libc::_exit(0) };
            }
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            if pid < 0 || st != 0 {
                return 1;
            }
        }
        0
    });
    let mut total = 0;
    for (p, x) in r.iter().enumerate() {
        let s = |f: usize| sh.at(p * 8 + f).load(SeqCst);
        total += s(0);
        if *x != Ok(0) {
            rep.found = found(6, vec![s(1) as u32, s(2) as u32, s(3) as u32], "late calls", format!(
                "{} gives a different result, crashes or hangs in {} in a thread that ran {}",
                describe(&ops[s(2) as usize]), ["the destructor of a thread-local", "the destructor of a thread-local set up later", "a destructor run by a panic"][s(3) as usize % 3], describe(&ops[s(1) as usize])));
            return;
        }
    }
    rep.families.push((format!("{} operations in destructors (end of thread, unwinding) after each of {} others", thens.len(), firsts.len()), total));
    rep.cases += total;
    rep.transitions += total;
    rep.traces += total;
}

// ------------------------------------------------------------------ (c) preemptions

static STEP: AtomicU64 = AtomicU64::new(0);
static CHILD: AtomicBool = AtomicBool::new(false);
static BLOCKED: AtomicBool = AtomicBool::new(false);
static B_DONE: AtomicBool = AtomicBool::new(false);
static B_DIGEST: AtomicU64 = AtomicU64::new(0);
static B_STEP: AtomicU64 = AtomicU64::new(0);
static B_TARGET: AtomicU64 = AtomicU64::new(0);
static B_PARKED: AtomicBool = AtomicBool::new(false);
static A_DONE: AtomicBool = AtomicBool::new(false);
static FAIL_CODE: AtomicI64 = AtomicI64::new(0);
static FAIL_I: AtomicU64 = AtomicU64::new(0);
static FAIL_J: AtomicU64 = AtomicU64::new(0);
static POINTS: AtomicU64 = AtomicU64::new(0);
static CAP: AtomicU64 = AtomicU64::new(20000);
static CAPPED: AtomicBool = AtomicBool::new(false);
static TWO: AtomicBool = AtomicBool::new(false);
static STRIDE: AtomicU64 = AtomicU64::new(1);
static RESIDUE: AtomicU64 = AtomicU64::new(0);
static mut OP_B: *const Op = std::ptr::null();

static DEADLINE: AtomicU64 = AtomicU64::new(u64::MAX);

fn now_ms() -> u64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
        t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
    }
}

const TF: i64 = 0x100;

#[inline(always)]
fn set_tf() {
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}
#[inline(always)]
fn clear_tf() {
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
}

fn nap(us: u64) {
    unsafe {
        let t = libc::timespec { tv_sec: 0, tv_nsec: (us * 1000) as i64 };
        libc::nanosleep(&t, std::ptr::null_mut());
    }
}

fn wait_for(f: impl Fn() -> bool, ms: u64) -> bool {
    for k in 0..2000 {
        if f() {
            return true;
        }
        if k > 200 {
            unsafe { libc::sched_yield() };
        }
    }
    let t0 = Instant::now();
    while !f() {
        if t0.elapsed() > Duration::from_millis(ms) {
            return false;
        }
        nap(50);
    }
    true
}

fn start_b(stepped: bool) {
    let op: &'static Op = unsafe { &*OP_B };
    let _ = std::thread::Builder::new().stack_size(256 << 10).spawn(move || {
        if stepped {
            // spawned inside the trap handler, this thread inherits a blocked SIGTRAP
            unsafe {
                let mut m: libc::sigset_t = std::mem::zeroed();
                libc::sigemptyset(&mut m);
                libc::sigaddset(&mut m, libc::SIGTRAP);
                libc::pthread_sigmask(libc::SIG_UNBLOCK, &m, std::ptr::null_mut());
            }
            set_tf();
        }
        let d = digest_of(op);
        if stepped {
            clear_tf();
        }
        B_DIGEST.store(d, SeqCst);
        B_DONE.store(true, SeqCst);
    });
}

extern "C" fn trap(_sig: i32, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let uc = &mut *(ctx as *mut libc::ucontext_t);
        let efl = &mut uc.uc_mcontext.gregs[libc::REG_EFL as usize];
        if CHILD.load(Relaxed) {
            if libc::syscall(libc::SYS_gettid) as i32 == libc::getpid() {
                *efl &= !TF;
                return;
            }
            // thread B being stepped to its preemption point
            let s = B_STEP.fetch_add(1, SeqCst) + 1;
            if s == B_TARGET.load(SeqCst) {
                *efl &= !TF;
                B_PARKED.store(true, SeqCst);
                wait_for(|| A_DONE.load(SeqCst), 5000);
            }
            return;
        }
        let s = STEP.fetch_add(1, SeqCst) + 1;
        if s > CAP.load(Relaxed) || now_ms() > DEADLINE.load(Relaxed) {
            CAPPED.store(true, SeqCst);
            *efl &= !TF;
            return;
        }
        if s % STRIDE.load(Relaxed) != RESIDUE.load(Relaxed) {
            return;
        }
        let mut j = 0u64;
        loop {
            let pid = libc::fork();
            if pid < 0 {
                FAIL_CODE.store(-1, SeqCst);
                *efl &= !TF;
                return;
            }
            if pid == 0 {
                CHILD.store(true, SeqCst);
                libc::alarm(30);
                B_TARGET.store(j, SeqCst);
                start_b(j > 0);
                let ok = if j == 0 {
                    wait_for(|| B_DONE.load(SeqCst), 300)
                } else {
                    wait_for(|| B_DONE.load(SeqCst) || B_PARKED.load(SeqCst), 300)
                };
                if !ok {
                    BLOCKED.store(true, SeqCst);
                }
                *efl &= !TF;
                return;
            }
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) != pid {}
            POINTS.fetch_add(1, SeqCst);
            let code = if libc::WIFSIGNALED(st) { 100 + libc::WTERMSIG(st) } else { libc::WEXITSTATUS(st) };
            if code != 0 && code != 42 {
                FAIL_CODE.store(code as i64, SeqCst);
                FAIL_I.store(s, SeqCst);
                FAIL_J.store(j, SeqCst);
                *efl &= !TF;
                return;
            }
            if now_ms() > DEADLINE.load(Relaxed) {
                CAPPED.store(true, SeqCst);
                return;
            }
            if !TWO.load(Relaxed) || code == 42 || j >= 4000 {
                return;
            }
            j += 1;
        }
    }
}

fn finish_child(da: u64, a: &Op, base_a: u64, base_b: u64) -> ! {
    unsafe {
        let j = B_TARGET.load(SeqCst);
        let parked = B_PARKED.load(SeqCst);
        let early = j > 0 && B_DONE.load(SeqCst) && !parked;
        A_DONE.store(true, SeqCst);
        if da != base_a {
            libc::_exit(10);
        }
        if !wait_for(|| B_DONE.load(SeqCst), 8000) {
            libc::_exit(12);
        }
        if B_DIGEST.load(SeqCst) != base_b {
            libc::_exit(11);
        }
        // whatever the two left behind must not change later results, in either order: one order here,
        // the other in a copy of this process
        let b = &*OP_B;
        let pid = libc::fork();
        if pid == 0 {
            libc::alarm(30);
            libc::_exit(if digest_of(b) != base_b || digest_of(a) != base_a { 13 } else { 0 });
        }
        if pid < 0 || digest_of(a) != base_a || digest_of(b) != base_b {
            libc::_exit(13);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) != pid {}
        if st != 0 {
            libc::_exit(13);
        }
        libc::_exit(if early { 42 } else { 0 });
    }
}

/// explore every preemption point of `a` (and of `b` when two); returns (points, steps, failure)
fn preempt(a: &Op, b: &'static Op, base_a: u64, base_b: u64, two: bool, res: u64) -> (u64, u64, Option<(i64, u64, u64)>) {
    unsafe {
        OP_B = b;
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
    STEP.store(0, SeqCst);
    POINTS.store(0, SeqCst);
    FAIL_CODE.store(0, SeqCst);
    TWO.store(two, SeqCst);
    STRIDE.store(if two { NP as u64 } else { 1 }, SeqCst);
    RESIDUE.store(res % 256, SeqCst);
    if res & WARM_A != 0 {
        digest_of(a);
    }
    if res & WARM_B != 0 {
        digest_of(b);
    }
    set_tf();
    let d = digest_of(a);
    clear_tf();
    if CHILD.load(SeqCst) {
        finish_child(d, a, base_a, base_b);
    }
    let f = FAIL_CODE.load(SeqCst);
    let fail = if f != 0 {
        Some((f, FAIL_I.load(SeqCst), FAIL_J.load(SeqCst)))
    } else if d != base_a {
        Some((20, 0, 0))
    } else {
        None
    };
    (POINTS.load(SeqCst), STEP.load(SeqCst), fail)
}

const WARM_A: u64 = 256;
const WARM_B: u64 = 512;

fn pairs(deep: bool) -> Vec<(Op, Op, bool, u64)> {
    let w = |k: u32, x: &str| Op::Word(k, x.chars().collect());
    let mut lookups: Vec<Op> = Vec::new();
    for k in 0..6 {
        lookups.push(Op::Char(k, '\u{1EAD}'));
        lookups.push(Op::Char(k, '\u{301}'));
    }
    lookups.push(Op::Char(2, '\u{378}'));
    lookups.push(Op::Char(5, '\u{F900}'));
    lookups.push(Op::Char(3, '\u{AC01}'));
    lookups.push(Op::Compose('a', '\u{301}'));
    lookups.push(Op::Compose('e', '\u{302}'));
    lookups.push(Op::Compose('a', '\u{316}'));
    lookups.push(Op::Compose('\u{11131}', '\u{11127}'));
    lookups.push(Op::Compose('\u{1100}', '\u{1161}'));
    let mut v = Vec::new();
    for (i, a) in lookups.iter().enumerate() {
        for (j, b) in lookups.iter().enumerate() {
            let same = std::mem::discriminant(a) == std::mem::discriminant(b)
                && match (a, b) {
                    (Op::Char(x, _), Op::Char(y, _)) => x == y,
                    _ => true,
                };
            let long = matches!(a, Op::Char(2, _));
            // one preemption: pairs of the same function (all pairs when deep)
            if (deep && (same || !long)) || (same && i != j) {
                v.push((a.clone(), b.clone(), false, 0));
            }
            // the same, with the lookup of A (or of B) already made once
            if same && i != j && (deep || !long) {
                v.push((a.clone(), b.clone(), false, WARM_A));
                if deep {
                    v.push((a.clone(), b.clone(), false, WARM_B));
                }
            }
            // two preemptions: pairs of the same function; quick: the short lookups only
            let short = matches!(a, Op::Char(0, _)) || matches!((a, b), (Op::Compose('a', _), Op::Compose('e', _)));
            if same && i < j && (short || (deep && !long)) {
                for r in 0..NP as u64 {
                    v.push((a.clone(), b.clone(), true, r));
                }
            }
        }
    }
    // the same call twice, and calls at other places of a table that the first one may be filling
    for k in 0..6 {
        for (a, b) in [('\u{301}', "\u{301}\u{33F}\u{36F}\u{345}\u{1E94A}"), ('\u{1EAD}', "\u{1EAD}\u{1EFF}"), ('\u{F900}', "\u{F900}\u{2FA1D}\u{FAD9}"), ('\u{378}', "\u{378}\u{E0080}")] {
            if (k == 5) == (a == '\u{F900}') && (k == 2 || a != '\u{378}') {
                for b in b.chars() {
                    v.push((Op::Char(k, a), Op::Char(k, b), false, 0));
                }
            }
        }
    }
    for (b, c) in [('a', '\u{301}'), ('z', '\u{323}'), ('\u{3C9}', '\u{345}')] {
        v.push((Op::Compose('a', '\u{301}'), Op::Compose(b, c), false, 0));
    }
    let words = ["a\u{316}\u{301}", "\u{1EAD}\u{AC01}", "\u{F900}\u{301}"];
    for k in 0..WORD_OPS {
        v.push((w(k, words[0]), w(k, words[0]), false, 0));
        if !deep {
            // the same operation on another word; every second operation also against a lookup
            v.push((w(k, words[0]), w(k, "e\u{323}\u{302}"), false, 0));
        } else {
            for x in words.iter() {
                for k2 in [0u32, 2, 3, 4, 5, 8, 11, 17] {
                    v.push((w(k, x), w(k2, "e\u{345}\u{302}\u{323}\u{344}\u{1100}\u{1161}\u{301}\u{FB03}"), false, 0));
                }
                v.push((w(k, x), w(k, "e\u{323}\u{302}"), false, 0));
                v.push((w(k, x), Op::Char(4, '\u{FB03}'), false, 0));
            }
        }
    }
    v
}

fn preemptions(deep: bool, rep: &mut Report) {
    let mut list = pairs(deep);
    list.sort_by_key(|x| x.2); // one preemption first
    DEADLINE.store(now_ms() + if deep { 720_000 } else { 240_000 }, SeqCst);
    // baselines in pristine processes
    let mut ops: Vec<Op> = Vec::new();
    for (a, b, _, _) in &list {
        for o in [a, b] {
            if !ops.contains(o) {
                ops.push(o.clone());
            }
        }
    }
    let base = match baselines(&ops) {
        Ok(b) => b,
        Err(e) => {
            rep.notes.push(format!("baselines: {}", e));
            return;
        }
    };
    let list: &'static Vec<(Op, Op, bool, u64)> = Box::leak(Box::new(list));
    let sh = Shared::new(list.len() * 8 + 8);
    let next = sh.at(list.len() * 8);
    let t0 = Instant::now();
    let res = workers(Duration::from_secs(840), &|_| {
        loop {
            let i = next.fetch_add(1, SeqCst) as usize;
            if i >= list.len() {
                return 0;
            }
            // a process of its own, so that one exploration leaves no state for the next
            unsafe {
                let pid = libc::fork();
                if pid == 0 {
                    crate::alloc::use_arena();
                    let (a, b, two, res) = &list[i];
                    let ba = base[ops.iter().position(|o| o == a).unwrap()];
                    let bb = base[ops.iter().position(|o| o == b).unwrap()];
                    let (points, steps, fail) = preempt(a, b, ba, bb, *two, *res);
                    let s = |f: usize| sh.at(i * 8 + f);
                    s(1).store(points, SeqCst);
                    s(2).store(steps, SeqCst);
                    s(6).store(CAPPED.load(SeqCst) as u64, SeqCst);
                    if let Some((code, x, y)) = fail {
                        s(3).store(code as u64, SeqCst);
                        s(4).store(x, SeqCst);
                        s(5).store(y, SeqCst);
                    }
                    s(0).store(1, SeqCst);
                    if std::env::var("MC_VERBOSE").is_ok() {
                        println!("  pair {} {} / {} two={} points {} steps {} {:?}", i, describe(a), describe(b), two, points, steps, t0.elapsed());
                    }
                    libc::_exit(0);
                }
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0);
                if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
                    sh.at(i * 8 + 7).store(1 + st as u64, SeqCst);
                }
            }
        }
    });
    let (mut points, mut steps, mut one, mut two) = (0, 0, 0, 0);
    let mut capped = 0;
    for (i, (a, b, t, r)) in list.iter().enumerate() {
        let s = |f: usize| sh.at(i * 8 + f).load(SeqCst);
        if s(3) != 0 && s(3) as i64 != -1 {
            let code = s(3) as i64;
            let what = match code {
                10 => "A's result differs from its result alone".to_string(),
                11 => "B's result differs from its result alone".to_string(),
                12 => "B never finishes".to_string(),
                13 => "a later call of A or B gives a different result".to_string(),
                20 => "A's result is wrong even without preemption".to_string(),
                c if c >= 100 => format!("the process dies by signal {}", c - 100),
                c => format!("exit {}", c),
            };
            let sched = if s(5) == 0 {
                format!("B runs completely when A has executed {} instructions", s(4))
            } else {
                format!("B starts when A has executed {} instructions and is preempted after {} of its own until A has finished", s(4), s(5))
            };
            let warm = match *r & !255 {
                WARM_A => "after one call of A, ",
                WARM_B => "after one call of B, ",
                _ => "",
            };
            rep.found = found(4, vec![i as u32, s(4) as u32, s(5) as u32], "preemptions", format!("A = {}, B = {} on another thread; {}{}: {}", describe(a), describe(b), warm, sched, what));
            return;
        }
        if s(0) == 0 {
            rep.notes.push(format!("preemption exploration of pair {} ({} / {}) was not completed (status {})", i, describe(a), describe(b), s(7)));
            rep.exhaustive = false;
        }
        points += s(1);
        steps += if *r % 256 == 0 { s(2) } else { 0 };
        capped += s(6);
        if *t {
            two += s(1);
        } else {
            one += s(1);
        }
    }
    for x in res {
        if x != Ok(0) {
            rep.notes.push(format!("a preemption worker ended with {:?}", x));
            rep.exhaustive = false;
        }
    }
    if capped > 0 {
        rep.notes.push(format!("{} explorations exceeded the 20000-instruction cap or the time budget; their later preemption points were not explored", capped));
        rep.exhaustive = false;
    }
    rep.families.push((format!("one preemption at every instruction ({} operation pairs)", list.iter().filter(|x| !x.2).count()), one));
    rep.families.push((format!("two preemptions at every pair of instructions ({} operation pairs)", list.iter().filter(|x| x.2).count() / NP), two));
    rep.cases += points;
    rep.transitions += steps;
    rep.traces += points;
    rep.states += points;
    let (a, b, _, _) = &list[list.len() / 2];
    rep.samples.push(format!("schedule: {} preempted at each instruction by {}", describe(a), describe(b)));
}

pub fn explore(deep: bool, rep: &mut Report) {
    let ops = op_set(deep);
    let timing = std::env::var("MC_VERBOSE").is_ok();
    let t0 = Instant::now();
    // the pristine-process baselines come first, before anything in this process has used the crate
    let base = match baselines(&ops) {
        Ok(b) => b,
        Err(e) => {
            rep.notes.push(format!("baselines: {}", e));
            rep.exhaustive = false;
            return;
        }
    };
    for (i, &b) in base.iter().enumerate() {
        if b == 0 || b == 0xDEAD_0000_0000_0001 {
            rep.found = found(0, vec![i as u32], "baselines", format!("{} crashes or hangs in a fresh process", describe(&ops[i])));
            return;
        }
    }
    if timing {
        println!("baselines {:?}", t0.elapsed());
    }
    for stage in 0..9 {
        match stage {
            0 => preemptions(deep, rep),
            1 => histories(deep, &ops, &base, rep),
            2 => scans(rep),
            3 => repetitions(deep, &ops, &base, rep),
            4 => aliases(deep, rep),
            5 => aborted(deep, &ops, &base, rep),
            6 => lookalikes(deep, rep),
            7 => late_calls(deep, &ops, &base, rep),
            _ => interleavings(deep, &ops, &base, rep),
        }
        if timing {
            println!("stage {} {:?}", stage, t0.elapsed());
        }
        if rep.found.is_some() {
            return;
        }
    }
    let _ = (hash_chars as fn(u64, &[char]) -> u64, char_op as fn(u32, char, &mut Digest), scalar as fn(u64) -> char, SCALARS);
}
