//! Properties over words: C01-C10, C14, C19.

use crate::engine::{hash_chars, Check, Cov, Family};
use crate::fam::*;
use crate::imp;
use crate::refmodel::{self, Form, Qc, FORMS};
use crate::ucd::{ucd, Ucd};
use unicode_normalization::{Decompositions, Recompositions, Replacements, StreamSafe, UnicodeNormalization};

#[derive(Default)]
pub struct Scratch {
    a: Vec<char>,
    b: Vec<char>,
    c: Vec<char>,
    d: Vec<char>,
    r: [Vec<char>; 4],
    s: String,
    t: Vec<char>,
}

pub fn word_check(
    families: Vec<Box<dyn Family<char>>>,
    step: fn(&mut Scratch, &[char]) -> Result<Cov, String>,
) -> Check<'static, char> {
    Check {
        families,
        make: Box::new(move || {
            let mut sc = Scratch::default();
            Box::new(move |w: &[char]| step(&mut sc, w))
        }),
        shrink: true,
    }
}

pub fn show(w: &[char]) -> String {
    let v: Vec<u32> = w.iter().map(|&c| c as u32).collect();
    crate::engine::show_case(&v, true)
}

fn diff(what: &str, got: &[char], want: &[char]) -> String {
    let p = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    format!("{}: got \"{}\" want \"{}\" (first difference at item {})", what, show(got), show(want), p)
}

/// hash of the model state at the end of the word: the segment that can still change
fn tail_state(out: &[char], seed: u64) -> u64 {
    let u = ucd();
    let k = out.iter().rposition(|&c| u.ccc(c) == 0).unwrap_or(0);
    hash_chars(seed, &out[k..])
}

fn set_str(s: &mut String, w: &[char]) {
    s.clear();
    s.extend(w.iter());
}

fn exact(sc: &mut Scratch, w: &[char], f: Form) -> Result<Cov, String> {
    refmodel::normalize(w, f, &mut sc.a);
    imp::norm(w, f, &mut sc.b)?;
    if sc.a != sc.b {
        return Err(diff(f.name(), &sc.b, &sc.a));
    }
    set_str(&mut sc.s, w);
    let mut n = 1;
    for k in imp::splits(w.len()) {
        n += 1;
        imp::norm_str(&sc.s, f, k, &mut sc.b)?;
        if sc.a != sc.b {
            return Err(diff(&format!("{} of &str, {} items by next() and the rest by for_each", f.name(), k), &sc.b, &sc.a));
        }
    }
    Ok(Cov { transitions: n * (sc.a.len() as u64 + 1), traces: n, state: tail_state(&sc.a, f as u64) })
}
fn c01(sc: &mut Scratch, w: &[char]) -> Result<Cov, String> {
    exact(sc, w, Form::Nfd)
}
fn c02(sc: &mut Scratch, w: &[char]) -> Result<Cov, String> {
    exact(sc, w, Form::Nfkd)
}
fn c03(sc: &mut Scratch, w: &[char]) -> Result<Cov, String> {
    exact(sc, w, Form::Nfc)
}
fn c04(sc: &mut Scratch, w: &[char]) -> Result<Cov, String> {
    exact(sc, w, Form::Nfkc)
}

// ------------------------------------------------------------------------- C05

fn c05(sc: &mut Scratch, w: &[char]) -> Result<Cov, String> {
    let u: &Ucd = ucd();
    let mut tr = 0u64;
    for (k, &f) in FORMS.iter().enumerate() {
        let (r, _) = sc.r.split_at_mut(k + 1);
        imp::norm(w, f, &mut r[k])?;
        tr += r[k].len() as u64 + 1;
        if r[k].is_empty() != w.is_empty() {
            return Err(format!("{}: only the empty string may normalize to the empty string", f.name()));
        }
    }
    // form g applied to form f's result
    for (i, &f) in FORMS.iter().enumerate() {
        for (j, &g) in FORMS.iter().enumerate() {
            imp::norm(&sc.r[i], g, &mut sc.a)?;
            tr += sc.a.len() as u64 + 1;
            // g(f(x)): the more compatible of the two, composed iff g composes
            let want = FORMS
                .iter()
                .position(|h| h.compat() == (f.compat() || g.compat()) && h.composed() == g.composed())
                .unwrap();
            if sc.a != sc.r[want] {
                return Err(diff(
                    &format!("{}({}(x)) must equal {}(x); i=j:{}", g.name(), f.name(), FORMS[want].name(), i == j),
                    &sc.a,
                    &sc.r[want],
                ));
            }
        }
    }
    let short = w.len() <= 12;
    // equivalence rewriting: decompose one character, or swap adjacent non-starters of different class (in long
    // texts at the first, the middle and the last place where that is possible)
    let plain = |c: char| u.can[c as usize].1 == 0 && u.ccc(c) != 0;
    let swaps = |i: usize| i + 1 < w.len() && plain(w[i]) && plain(w[i + 1]) && u.ccc(w[i]) != u.ccc(w[i + 1]);
    let opens = |i: usize| i < w.len() && (u.can[w[i] as usize].1 != 0 || is_hangul(w[i] as u32));
    let all: Vec<(usize, bool)> = if short {
        (0..w.len()).flat_map(|i| [(i, false), (i, true)]).collect()
    } else {
        let n = w.len();
        let mut v = Vec::new();
        for (swap, ok) in [(false, &opens as &dyn Fn(usize) -> bool), (true, &swaps)] {
            v.extend((0..n).find(|&i| ok(i)).map(|i| (i, swap)));
            v.extend((n / 2..n).find(|&i| ok(i)).map(|i| (i, swap)));
            v.extend((0..n).rev().find(|&i| ok(i)).map(|i| (i, swap)));
        }
        v.dedup();
        v
    };
    for (i, swap) in all {
        sc.c.clear();
        if swap {
            if !swaps(i) {
                continue;
            }
            sc.c.extend_from_slice(w);
            sc.c.swap(i, i + 1);
        } else {
            if !opens(i) {
                continue;
            }
            sc.c.extend_from_slice(&w[..i]);
            refmodel::decompose_char(u, w[i], false, &mut sc.c);
            sc.c.extend_from_slice(&w[i + 1..]);
        }
        for (k, &f) in FORMS.iter().enumerate() {
            imp::norm(&sc.c, f, &mut sc.a)?;
            tr += sc.a.len() as u64 + 1;
            if sc.a != sc.r[k] {
                return Err(diff(
                    &format!("{} of {} equivalent text \"{}\" differs", f.name(), if swap { "reordered" } else { "decomposed" }, show(&sc.c)),
                    &sc.a,
                    &sc.r[k],
                ));
            }
        }
    }
    // concatenation
    let cuts: Vec<usize> = if short { (1..w.len()).collect() } else { vec![1, w.len() / 2, w.len() - 1] };
    for i in cuts {
        for (k, &f) in FORMS.iter().enumerate() {
            imp::norm(&w[..i], f, &mut sc.a)?;
            imp::norm(&w[i..], f, &mut sc.b)?;
            sc.c.clear();
            sc.c.extend_from_slice(&sc.a);
            sc.c.extend_from_slice(&sc.b);
            imp::norm(&sc.c, f, &mut sc.d)?;
            tr += (sc.c.len() + sc.d.len()) as u64 + 3;
            if sc.d != sc.r[k] {
                return Err(diff(
                    &format!("{} of concatenated parts (cut {}) differs from {} of the whole", f.name(), i, f.name()),
                    &sc.d,
                    &sc.r[k],
                ));
            }
        }
    }
    Ok(Cov { transitions: tr, traces: 1, state: tail_state(&sc.r[0], 5) })
}

// ------------------------------------------------------------------------- C06, C07

fn c06(sc: &mut Scratch, w: &[char]) -> Result<Cov, String> {
    set_str(&mut sc.s, w);
    let mut bits = 0u64;
    let mut tr = 0;
    for (k, &f) in FORMS.iter().enumerate() {
        refmodel::normalize(w, f, &mut sc.a);
        let want = sc.a == w;
        let mut got = want;
        for off in imp::offsets(w) {
            got = imp::placed(&sc.s, off, |t| imp::is_norm(t, f));
            if got != want {
                return Err(format!(
                    "is_{}(\"{}\") = {} but the text is{} in that form (slice {} bytes past a 16-byte boundary)",
                    f.name().to_lowercase(), show(w), got, if want { "" } else { " not" }, off
                ));
            }
        }
        imp::norm(w, f, &mut sc.b)?;
        if got != (sc.b == w) {
            return Err(format!(
                "is_{}(\"{}\") = {} but normalizing gives \"{}\"",
                f.name().to_lowercase(),
                show(w),
                got,
                show(&sc.b)
            ));
        }
        tr += w.len() as u64 + 1;
        bits |= (got as u64) << k;
    }
    Ok(Cov { transitions: tr, traces: 4, state: hash_chars(bits, &sc.a) })
}

fn c07(sc: &mut Scratch, w: &[char]) -> Result<Cov, String> {
    let mut bits = 0u64;
    let mut tr = 0;
    set_str(&mut sc.s, w);
    for &f in FORMS.iter() {
        let want = refmodel::quick_check(w, f);
        let got = imp::quick(w.iter().copied(), f);
        for src in imp::sources(w) {
            let hint = src.size_hint();
            let q = imp::quick(src, f);
            if q != want {
                return Err(format!("is_{}_quick(\"{}\") = {:?} over a source with size hint {:?}, UAX #15 quick check says {:?}", f.name().to_lowercase(), show(w), q, hint, want));
            }
        }
        if got != want {
            return Err(format!("is_{}_quick(\"{}\") = {:?}, UAX #15 quick check says {:?}", f.name().to_lowercase(), show(w), got, want));
        }
        let got2 = imp::quick(sc.s.chars(), f);
        if got2 != want {
            return Err(format!("is_{}_quick over str chars (\"{}\") = {:?}, UAX #15 says {:?}", f.name().to_lowercase(), show(w), got2, want));
        }
        // soundness, from the normal form itself
        refmodel::normalize(w, f, &mut sc.a);
        let is = sc.a == w;
        if (got == Qc::Yes && !is) || (got == Qc::No && is) {
            return Err(format!("is_{}_quick(\"{}\") = {:?} is unsound: in form = {}", f.name().to_lowercase(), show(w), got, is));
        }
        if got == Qc::Maybe && !f.composed() {
            return Err(format!("is_{}_quick answered Maybe", f.name().to_lowercase()));
        }
        tr += 2 * w.len() as u64 + 2;
        bits = bits * 3 + got as u64;
    }
    Ok(Cov { transitions: tr, traces: 8, state: hash_chars(bits, &sc.a) })
}

// ------------------------------------------------------------------------- C08, C09, C10

fn c08(sc: &mut Scratch, w: &[char]) -> Result<Cov, String> {
    refmodel::stream_safe(w, &mut sc.a, &mut sc.t);
    imp::drain(w.iter().copied().stream_safe(), &mut sc.b, 2 * w.len() + 4)?;
    if sc.a != sc.b {
        return Err(diff("stream_safe", &sc.b, &sc.a));
    }
    set_str(&mut sc.s, w);
    let mut n = 1;
    // the switch also falls just before, on and after the place of the first joiner
    for k in imp::splits(w.len()).chain((w.len() > 29).then_some(29 + w.len() % 5)) {
        n += 1;
        imp::drain_mixed(sc.s.stream_safe(), k, &mut sc.b, 2 * w.len() + 4)?;
        if sc.a != sc.b {
            return Err(diff(&format!("stream_safe of &str, {} items by next() and the rest by for_each", k), &sc.b, &sc.a));
        }
    }
    let run = refmodel::longest_nonstarter_run(&sc.b, true, &mut sc.t);
    if run > 30 {
        return Err(format!("stream-safe output has a run of {} non-starters", run));
    }
    // removing the inserted joiners gives the input back
    let mut k = 0;
    for &c in &sc.b {
        if k < w.len() && c == w[k] {
            k += 1;
        } else if c != refmodel::CGJ {
            return Err("stream_safe changed a character".into());
        }
    }
    if k != w.len() {
        return Err("stream_safe lost a character".into());
    }
    Ok(Cov { transitions: n * (sc.b.len() as u64 + 1), traces: n, state: hash_chars(8, &sc.a) })
}

fn c09(sc: &mut Scratch, w: &[char]) -> Result<Cov, String> {
    set_str(&mut sc.s, w);
    let safe = refmodel::longest_nonstarter_run(w, true, &mut sc.t) <= 30;
    let mut bits = safe as u64;
    for f in [Form::Nfc, Form::Nfd] {
        let n = f.name().to_lowercase();
        refmodel::normalize(w, f, &mut sc.a);
        let want = safe && sc.a == w;
        let mut got = want;
        for off in imp::offsets(w) {
            got = imp::placed(&sc.s, off, |t| imp::is_ss(t, f));
            if got != want {
                return Err(format!(
                    "is_{}_stream_safe(\"{}\") = {}, want {} (in form: {}, stream-safe: {}; slice {} bytes past a 16-byte boundary)",
                    n, show(w), got, want, sc.a == w, safe, off
                ));
            }
        }
        let q = imp::quick_ss(w.iter().copied(), f);
        let wq = if safe { refmodel::quick_check(w, f) } else { Qc::No };
        for src in imp::sources(w) {
            let hint = src.size_hint();
            let q = imp::quick_ss(src, f);
            if q != wq {
                return Err(format!("is_{}_stream_safe_quick(\"{}\") = {:?} over a source with size hint {:?}, want {:?}", n, show(w), q, hint, wq));
            }
        }
        if q != wq {
            return Err(format!("is_{}_stream_safe_quick(\"{}\") = {:?}, want {:?} (in form: {}, stream-safe: {})", n, show(w), q, wq, sc.a == w, safe));
        }
        if (q == Qc::Yes && !want) || (q == Qc::No && want) {
            return Err(format!("is_{}_stream_safe_quick(\"{}\") = {:?} is unsound", n, show(w), q));
        }
        bits = bits * 7 + q as u64 * 2 + got as u64;
    }
    Ok(Cov { transitions: 4 * w.len() as u64 + 4, traces: 4, state: hash_chars(bits, &sc.a) })
}

fn c10(sc: &mut Scratch, w: &[char]) -> Result<Cov, String> {
    let lim = 2 * w.len() + 4;
    imp::drain(w.iter().copied().stream_safe(), &mut sc.a, lim)?;
    let mut tr = sc.a.len() as u64 + 1;
    imp::drain(sc.a.iter().copied().stream_safe(), &mut sc.b, 2 * lim)?;
    if sc.a != sc.b {
        return Err(diff("stream_safe is not idempotent", &sc.b, &sc.a));
    }
    if refmodel::longest_nonstarter_run(w, true, &mut sc.t) <= 30 && sc.a != w {
        return Err(diff("stream_safe changed stream-safe text", &sc.a, w));
    }
    for f in [Form::Nfc, Form::Nfd] {
        let n = f.name().to_lowercase();
        let l = imp::limit(&sc.a);
        if f == Form::Nfc {
            imp::drain(w.iter().copied().stream_safe().nfc(), &mut sc.b, l)?;
            imp::drain(w.iter().copied().nfc().stream_safe(), &mut sc.c, l)?;
        } else {
            imp::drain(w.iter().copied().stream_safe().nfd(), &mut sc.b, l)?;
            imp::drain(w.iter().copied().nfd().stream_safe(), &mut sc.c, l)?;
        }
        for (v, how) in [(&sc.b, "stream_safe then normalize"), (&sc.c, "normalize then stream_safe")] {
            set_str(&mut sc.s, v);
            tr += 2 * v.len() as u64 + 2;
            if !imp::is_ss(&sc.s, f) {
                return Err(format!("{} ({}) gives \"{}\", which is_{}_stream_safe rejects", how, f.name(), show(v), n));
            }
            if imp::quick_ss(sc.s.chars(), f) == Qc::No {
                return Err(format!("{} ({}) gives \"{}\", which is_{}_stream_safe_quick rejects", how, f.name(), show(v), n));
            }
            // truth of the claim itself, independent of the predicates
            refmodel::normalize(v, f, &mut sc.d);
            if sc.d != *v {
                return Err(format!("{} ({}) gives \"{}\", which is not in {}", how, f.name(), show(v), f.name()));
            }
            if refmodel::longest_nonstarter_run(v, true, &mut sc.t) > 30 {
                return Err(format!("{} ({}) gives \"{}\", which is not stream-safe", how, f.name(), show(v)));
            }
        }
    }
    Ok(Cov { transitions: tr, traces: 4, state: hash_chars(10, &sc.b) })
}

// ------------------------------------------------------------------------- C14

fn c14(sc: &mut Scratch, w: &[char]) -> Result<Cov, String> {
    let u = ucd();
    refmodel::cjk_variants(w, &mut sc.a);
    imp::drain(w.iter().copied().cjk_compat_variants(), &mut sc.b, 2 * w.len() + 4)?;
    if sc.a != sc.b {
        return Err(diff("cjk_compat_variants", &sc.b, &sc.a));
    }
    set_str(&mut sc.s, w);
    let mut n = 1;
    for k in imp::splits(w.len()) {
        n += 1;
        imp::drain_mixed(sc.s.cjk_compat_variants(), k, &mut sc.b, 2 * w.len() + 4)?;
        if sc.a != sc.b {
            return Err(diff(&format!("cjk_compat_variants of &str, {} items by next() and the rest by for_each", k), &sc.b, &sc.a));
        }
    }
    if w.len() == 1 {
        let t = &mut sc.t;
        t.clear();
        unicode_normalization::char::decompose_cjk_compat_variants(w[0], |d| t.push(d));
        if sc.t != sc.a {
            return Err(diff("decompose_cjk_compat_variants", &sc.t, &sc.a));
        }
    }
    let mut tr = n * (sc.a.len() as u64 + 1);
    // the sequences survive every form: form(replaced) = form(between) seq form(between) seq ...
    if w.iter().any(|c| u.cjk.contains_key(&(*c as u32))) {
        for &f in &FORMS {
            imp::norm(&sc.a, f, &mut sc.b)?;
            tr += sc.b.len() as u64 + 1;
            sc.c.clear();
            let mut from = 0;
            for k in 0..=w.len() {
                let v = if k < w.len() { u.cjk.get(&(w[k] as u32)) } else { None };
                if k == w.len() || v.is_some() {
                    imp::norm(&w[from..k], f, &mut sc.d)?;
                    sc.c.extend_from_slice(&sc.d);
                    from = k + 1;
                    if let Some(&(a, b)) = v {
                        sc.c.push(char::from_u32(a).unwrap());
                        sc.c.push(char::from_u32(b).unwrap());
                    }
                }
            }
            if sc.b != sc.c {
                return Err(diff(&format!("{} of the replaced text breaks a variation sequence", f.name()), &sc.b, &sc.c));
            }
        }
    }
    Ok(Cov { transitions: tr, traces: n, state: hash_chars(14, &sc.a) })
}

// ------------------------------------------------------------------------- C19

fn c19(sc: &mut Scratch, w: &[char]) -> Result<Cov, String> {
    set_str(&mut sc.s, w);
    let s: &str = &sc.s;
    let l = imp::limit(w);
    let mut tr = 0;
    for k in 0..6 {
        let name = ["nfd", "nfkd", "nfc", "nfkc", "cjk_compat_variants", "stream_safe"][k];
        let a = &mut sc.a;
        match k {
            0 => imp::drain(Decompositions::new_canonical(w.iter().copied()), a, l)?,
            1 => imp::drain(Decompositions::new_compatible(w.iter().copied()), a, l)?,
            2 => imp::drain(Recompositions::new_canonical(w.iter().copied()), a, l)?,
            3 => imp::drain(Recompositions::new_compatible(w.iter().copied()), a, l)?,
            4 => imp::drain(Replacements::new_cjk_compat_variants(w.iter().copied()), a, l)?,
            _ => imp::drain(StreamSafe::new(w.iter().copied()), a, l)?,
        }
        for way in 0..6 {
            let b = &mut sc.b;
            macro_rules! run {
                ($it:expr) => {
                    match k {
                        0 => imp::drain($it.nfd(), b, l)?,
                        1 => imp::drain($it.nfkd(), b, l)?,
                        2 => imp::drain($it.nfc(), b, l)?,
                        3 => imp::drain($it.nfkc(), b, l)?,
                        4 => imp::drain($it.cjk_compat_variants(), b, l)?,
                        _ => imp::drain($it.stream_safe(), b, l)?,
                    }
                };
            }
            let what = match way {
                0 => {
                    let all = imp::offsets(w);
                    let last = all.end - 1;
                    for off in all {
                        imp::placed(s, off, |s| -> Result<(), String> {
                            run!(s);
                            Ok(())
                        })?;
                        if off != last && sc.a != *b {
                            return Err(diff(&format!("{} through a &str {} bytes past a 16-byte boundary differs from the constructor", name, off), b, &sc.a));
                        }
                    }
                    "&str"
                }
                1 => {
                    run!(w.iter().copied());
                    "iterator"
                }
                2 => {
                    run!(s.chars());
                    "str::chars()"
                }
                3 => {
                    let bx: Box<dyn Iterator<Item = char> + '_> = Box::new(w.iter().copied());
                    run!(bx);
                    "boxed iterator"
                }
                4 => {
                    let mut it = w.iter().copied();
                    run!(it.by_ref());
                    if it.next().is_some() {
                        return Err(format!("{} by mutable reference left input unread", name));
                    }
                    "&mut iterator"
                }
                _ => {
                    if w.len() != 1 {
                        continue;
                    }
                    run!(w[0]);
                    "char"
                }
            };
            tr += b.len() as u64 + 1;
            if sc.a != *b {
                return Err(diff(&format!("{} through {} differs from the constructor", name, what), b, &sc.a));
            }
        }
    }
    Ok(Cov { transitions: tr, traces: 6, state: hash_chars(19, &sc.a) })
}

// ------------------------------------------------------------------------- family selections

/// characters whose compatibility decomposition has leading or trailing non-starters, or several parts
fn ss_relevant() -> Vec<char> {
    let mut t = Vec::new();
    interesting()
        .into_iter()
        .filter(|&c| {
            let (l, tr, n) = refmodel::ss_class(c, &mut t);
            (l > 0 || tr > 0) && (n > 1 || c == '\u{300}' || c == '\u{34F}')
        })
        .collect()
}

/// cost 0: everything; 1: C09 quick; 2: C10 quick
pub fn ss_families(deep: bool, cost: u32) -> Vec<Box<dyn Family<char>>> {
    let rel = ss_relevant();
    let mut x: Vec<Vec<char>> = vec![s(""), s("a"), s("\u{34F}"), s("\u{AC00}"), s("\u{AC01}"), s("\u{1100}\u{1161}")];
    x.extend(singles(&rel));
    let inter = interesting();
    let lead: Vec<char> = {
        let mut t = Vec::new();
        rel.iter().copied().filter(|&c| refmodel::ss_class(c, &mut t).0 > 0).collect()
    };
    let mut y: Vec<Vec<char>> = vec![s(""), s("b")];
    y.extend(singles(&lead));
    y.push(s("\u{1EAD}"));
    y.push(s("\u{FC5E}"));
    let c30: Vec<usize> = if cost == 0 { vec![0, 1, 26, 27, 28, 29, 30, 31, 32] } else { vec![0, 28, 29, 30, 31] };
    let mut v: Vec<Box<dyn Family<char>>> = Vec::new();
    v.push(Box::new(Counted {
        name: "m^i x m^j y m^k around 30, every decomposing x".into(),
        pre: vec![s(""), s("a")],
        m: vec!['\u{300}'],
        i: c30.clone(),
        x,
        j: if deep { (0..=33).collect() } else { c30.clone() },
        y,
        k: match cost {
            0 => vec![0, 1, 2, 29, 30, 31],
            1 => vec![0, 30],
            _ => vec![0],
        },
    }));
    v.push(Box::new(Counted {
        name: "m^i x m^j, every non-starter m and every relevant x".into(),
        pre: vec![s("")],
        m: inter.iter().copied().filter(|&c| ucd().ccc(c) != 0).collect(),
        i: vec![0, 28, 29, 30, 31],
        x: singles(&{
            let mut k = vec!['a', '\u{34F}', '\u{E9}', '\u{344}', '\u{AC01}'];
            k.extend(lead.iter().copied());
            k
        }),
        j: vec![0, 28, 29, 30, 31, 61],
        y: vec![s("")],
        k: vec![0],
    }));
    let m = |n: usize| s(&"\u{300}".repeat(n));
    let (grid_pre, grid_suf) = (vec![m(0), m(28), m(29), m(30)], vec![m(0), m(28), m(29), m(30), m(31)]);
    v.push(Prod::new("every relevant character between runs of 28..31 marks", vec![grid_pre.clone(), singles(&inter), grid_suf.clone()]));
    // the states of the counting machine: the count 0..=30 after a starter, and at the start of the text
    let counts: Vec<Vec<char>> = (0..=31).map(|n| { let mut w = s("b"); w.extend(m(n)); w }).chain((0..=31).map(|n| m(n))).collect();
    v.push(Prod::new("every count state x every relevant character x a revealing run", vec![counts.clone(), singles(&inter), vec![m(31)]]));
    if deep {
        v.push(Scalars::new("every count state x every scalar value x a revealing run", (1..=27).map(m).collect(), vec![m(31)]));
        v.push(class_states());
    }
    v.push(match cost {
        0 => Scalars::new("every scalar value between runs of 28..31 marks", grid_pre, grid_suf),
        1 => Scalars::new("every scalar value between runs of 29..31 marks", vec![m(29), m(30)], vec![m(0), m(31)]),
        _ => Scalars::new("every scalar value after 30 marks", vec![m(30)], vec![m(0)]),
    });
    v.push(Box::new(Runs {
        name: "mark runs, every length 0..=140".into(),
        pre: vec![s(""), s("a"), s("\u{1EAD}"), s("\u{344}")],
        pats: mark_patterns(),
        lens: lens_all(140),
        suf: vec![s(""), s("b"), s("\u{344}\u{301}a")],
    }));
    // ascending classes: normalized long runs
    let u = ucd();
    let mut asc: Vec<char> = inter.iter().copied().filter(|&c| u.ccc(c) != 0 && u.qc[c as usize][2] == 0).collect();
    asc.sort_by_key(|&c| u.ccc(c));
    let per: Vec<char> = {
        // about 70 marks in ascending class order
        let k = asc.len() / 70;
        asc.iter().step_by(k.max(1)).copied().collect()
    };
    let mut items = Vec::new();
    for n in 0..per.len().min(66) {
        for off in [0, 3] {
            if off + n <= per.len() {
                for p in ["", "a", "\u{E9}", "\u{1EA1}", "\u{AC00}"] {
                    for q in ["", "z", "\u{E9}", "\u{34F}"] {
                        let mut w = s(p);
                        w.extend_from_slice(&per[off..off + n]);
                        w.extend(s(q));
                        items.push(w.clone());
                        for extra in ["\u{300}", "\u{345}", "\u{334}", "\u{344}"] {
                            let mut z = w.clone();
                            z.extend(s(extra));
                            items.push(z);
                        }
                    }
                }
            }
        }
    }
    v.push(List::new("ascending mark runs 0..65 in contexts", items));
    v.push(Box::new(Segments {
        name: "three runs, lengths around 30".into(),
        starters: vec![s("a"), s("\u{34F}"), s("\u{E9}"), s("\u{1EAD}")],
        pats: vec![s("\u{301}"), s("\u{344}"), s("\u{316}\u{301}\u{308}\u{F81}"), s("\u{334}\u{334}\u{316}")],
        lens: if deep { (0..=2).chain(14..=18).chain(26..=34).chain(58..=64).collect() } else { vec![0, 1, 15, 16, 28, 29, 30, 31, 32, 60, 61] },
        segs: 3,
    }));
    v
}

pub fn build(id: &str, deep: bool) -> Option<Check<'static, char>> {
    Some(match id {
        "C01" => word_check(word_families(deep), c01),
        "C02" => word_check(word_families(deep), c02),
        "C03" => word_check(word_families(deep), c03),
        "C04" => word_check(word_families(deep), c04),
        "C05" => {
            let (pre, suf) = contexts();
            let cr = ccc_reps(1);
            let r1 = reps(1);
            let mut v: Vec<Box<dyn Family<char>>> =
                vec![Words::new("simple letters and marks", singles(&s("ae\u{301}\u{316}\u{E9}\u{1100}\u{1161}\u{11A8}")), 4)];
            v.push(Scalars::new(
                "every scalar value in contexts",
                if deep { pre } else { vec![s(""), s("a\u{301}")] },
                if deep { suf } else { vec![s(""), s("\u{334}\u{308}")] },
            ));
            v.push(hangul_family());
            let inter = interesting();
            if deep {
                v.push(Prod::new("all pairs of normalization-relevant characters", vec![singles(&inter), singles(&inter)]));
                v.push(Prod::new("all triples of class representatives", vec![singles(&r1), singles(&r1), singles(&r1)]));
            } else {
                v.push(Prod::new("all relevant characters x class representatives", vec![singles(&inter), singles(&r1)]));
                v.push(Prod::new("class representatives x all relevant characters", vec![singles(&r1), singles(&inter)]));
            }
            v.push(Chains::new("every composite with every class of blocker at every gap", &cr, false));
            if deep {
                v.extend(compose_states(false));
            }
            for (n, t) in themes() {
                v.push(Words::new(&format!("theme {}", n), t, if deep { 5 } else { 4 }));
            }
            v.push(official_family());
            v.extend(run_families(false));
            v.push(block_family(deep));
            word_check(v, c05)
        }
        "C06" | "C07" => {
            let mut v = word_families(deep);
            v.extend(norm_prefix_families(deep));
            if id == "C06" {
                v.push(placed_family(deep));
            }
            word_check(v, if id == "C06" { c06 } else { c07 })
        }
        "C08" | "C09" | "C10" => {
            let (pre, suf) = contexts();
            let mut v: Vec<Box<dyn Family<char>>> =
                vec![Words::new("simple letters and marks", singles(&s("ae\u{301}\u{316}\u{E9}\u{1100}\u{1161}\u{11A8}")), 4)];
            let cost = if id == "C08" { 0 } else if id == "C09" { 1 - deep as u32 } else { 2 - deep as u32 };
            let (pre, suf) = if cost == 2 { (vec![s(""), s("a"), s("\u{345}")], vec![s(""), s("\u{301}")]) } else { (pre, suf) };
            v.push(Scalars::new("every scalar value in contexts", pre, suf));
            let inter = interesting();
            let r1 = reps(1);
            if deep {
                v.push(Prod::new("all pairs of normalization-relevant characters", vec![singles(&inter), singles(&inter)]));
            }
            v.push(Prod::new("all relevant characters x class representatives", vec![singles(&inter), singles(&r1)]));
            v.push(Prod::new("class representatives x all relevant characters", vec![singles(&r1), singles(&inter)]));
            v.extend(ss_families(deep, cost));
            for (n, t) in themes() {
                v.push(Words::new(&format!("theme {}", n), t, if deep { 5 } else { 4 }));
            }
            v.push(official_family());
            v.extend(run_families(deep));
            v.extend(stream_families(deep));
            if id == "C09" {
                v.push(placed_family(deep));
            }
            word_check(v, match id {
                "C08" => c08,
                "C09" => c09,
                _ => c10,
            })
        }
        "C14" => {
            let u = ucd();
            let (pre, suf) = contexts();
            let mut cj: Vec<char> = u.cjk.keys().map(|&v| char::from_u32(v).unwrap()).collect();
            cj.sort();
            let mut uni: Vec<char> = u.cjk.values().map(|v| char::from_u32(v.0).unwrap()).collect();
            uni.sort();
            uni.dedup();
            let mut near = cj.clone();
            near.extend(&uni);
            near.extend("\u{F8FF}\u{FA0E}\u{FA0F}\u{FA11}\u{FA13}\u{FA14}\u{FA1F}\u{FA21}\u{FA23}\u{FA24}\u{FA27}\u{FA28}\u{FA29}\u{FA6E}\u{FADA}\u{2F7FF}\u{2FA1E}\u{FE00}\u{FE01}\u{FE02}\u{FE0F}a\u{301}\u{AC00}\u{AC01}\u{1100}\u{1161}\u{3297}\u{2F00}".chars());
            near.sort();
            near.dedup();
            let r1 = reps(1);
            let mut v: Vec<Box<dyn Family<char>>> = vec![
                Words::new("theme cjk", themes().pop().unwrap().1, if deep { 6 } else { 5 }),
                Scalars::new("every scalar value in contexts", pre, suf),
                Scalars::new("every scalar value next to a CJK compatibility ideograph", vec![s("\u{F900}"), s("\u{2F800}")], vec![s(""), s("\u{FA1D}")]),
                Prod::new("all pairs of CJK-relevant characters", vec![singles(&near), singles(&near)]),
                Prod::new("class rep x CJK-relevant x class rep", vec![singles(&r1), singles(&near), singles(&r1)]),
                hangul_family(),
            ];
            if deep {
                let sub: Vec<char> = near.iter().step_by(4).copied().collect();
                v.push(Prod::new("all triples of a quarter of the CJK-relevant characters", vec![singles(&sub), singles(&sub), singles(&sub)]));
            }
            v.push(List::new("all CJK compatibility ideographs in one stream", vec![near.clone(), { let mut r = near.clone(); r.reverse(); r }]));
            v.push(Box::new(Runs {
                name: "repeated ideographs, every length".into(),
                pre: vec![s(""), s("a")],
                pats: vec![s("\u{F900}"), s("\u{F900}a"), s("a\u{2F800}\u{301}"), s("\u{AC00}\u{F902}\u{F903}")],
                lens: (0..=300).chain([1023, 1024, 1025, 65535, 65536, 65537]).collect(),
                suf: vec![s(""), s("\u{301}")],
            }));
            word_check(v, c14)
        }
        "C19" => {
            let (pre, suf) = contexts();
            let inter = interesting();
            let r1 = reps(1);
            let mut v: Vec<Box<dyn Family<char>>> =
                vec![Words::new("simple letters and marks", singles(&s("ae\u{301}\u{316}\u{E9}\u{1100}\u{1161}\u{11A8}")), 4)];
            v.push(Scalars::new("every scalar value in contexts", if deep { pre } else { vec![s(""), s("a")] }, if deep { suf } else { vec![s(""), s("\u{301}\u{316}")] }));
            v.push(Prod::new("all relevant characters x class representatives", vec![singles(&inter), singles(&r1)]));
            v.push(Prod::new("class representatives x all relevant characters", vec![singles(&r1), singles(&inter)]));
            if deep {
                v.push(Prod::new("all pairs of normalization-relevant characters", vec![singles(&inter), singles(&inter)]));
                v.push(Prod::new("all triples of class representatives", vec![singles(&r1), singles(&r1), singles(&r1)]));
            }
            v.push(hangul_family());
            for (n, t) in themes() {
                v.push(Words::new(&format!("theme {}", n), t, if deep { 5 } else { 4 }));
            }
            v.push(official_family());
            v.extend(run_families(deep));
            v.extend(stream_families(false));
            v.push(placed_family(deep));
            word_check(v, c19)
        }
        _ => return None,
    })
}

/// long, already normalized texts followed by a character that breaks (or does not break) the form
fn norm_prefix_families(deep: bool) -> Vec<Box<dyn Family<char>>> {
    let u = ucd();
    let inter = interesting();
    let mut pre: Vec<Vec<char>> = Vec::new();
    for base in ["plain text ", "\u{E9}", "\u{AC00}\u{AC01}", "a\u{316}\u{301}", "\u{4E00}", "\u{1F600}", "\u{1F600}\u{301}\u{345}"] {
        for n in if deep { vec![1usize, 2, 7, 8, 15, 16, 31, 32, 33, 63, 64, 100, 127, 128, 255, 256] } else { vec![1usize, 8, 32, 64] } {
            pre.push(s(&base.repeat(n)));
        }
    }
    let _ = u;
    vec![Prod::new("normalized prefixes of many lengths x relevant characters x tails", vec![pre, singles(&inter), vec![s(""), s("\u{301}"), s("\u{334}z")]])]
}

/// C23: the quick-check, stream-safe and variant tables through the public API, on every scalar value
pub fn tables_check(deep: bool) -> Check<'static, char> {
    let m = |n: usize| s(&"\u{300}".repeat(n));
    let (pre, suf) = contexts();
    let v: Vec<Box<dyn Family<char>>> = vec![
        Scalars::new("every scalar value: normal forms, quick checks, variants, stream-safe", vec![s("")], vec![s("")]),
        Scalars::new("every scalar value between marks", if deep { vec![s("a"), m(29), m(30)] } else { vec![m(30)] }, vec![m(0), m(31)]),
        Prod::new("every relevant character in contexts and runs", vec![[pre, vec![m(28), m(29), m(30)]].concat(), singles(&interesting()), [suf, vec![m(28), m(29), m(30), m(31)]].concat()]),
    ];
    word_check(v, |sc, w| {
        let mut c = c07(sc, w)?;
        for f in [c01, c02, c03, c04, c08, c09, c14] {
            let d = f(sc, w)?;
            c.transitions += d.transitions;
            c.traces += d.traces;
        }
        Ok(c)
    })
}
