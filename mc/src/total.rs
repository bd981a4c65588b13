//! C21: every operation terminates without panicking on every input (run in a build with overflow and
//! debug checks, so undefined "unchecked" operations abort), emits only valid characters, and its
//! working memory is bounded by the longest run of non-starters.

use crate::alloc;
use crate::engine::{Check, Cov};
use crate::fam::*;
use crate::ops::{char_op, compose_op, extra_op, word_op, Digest, CHAR_OPS, EXTRA_NAMES, EXTRA_OPS, WORD_NAMES, WORD_OPS};
use crate::refmodel;
use crate::words::show;

/// bytes allowed for a longest run of r decomposed non-starters
fn allowance(r: usize) -> isize {
    4096 + 64 * r as isize
}

fn total(w: &[char], extra_len: usize, s: &mut String, tmp: &mut Vec<char>) -> Result<Cov, String> {
    s.clear();
    s.extend(w.iter());
    let may = allowance(refmodel::longest_nonstarter_run(w, true, tmp));
    let mut tr = 0;
    let mut state = 0u64;
    for k in 0..WORD_OPS {
        let mut d = Digest::new();
        let base = alloc::start();
        word_op(k, w, s, &mut d);
        let used = alloc::peak_since(base);
        if alloc::live_since(base) > 0 {
            // kept something: a cache may, but not again and again for the same text
            let mut kept = [0; 2];
            for (i, n) in [64, 256].into_iter().enumerate() {
                let b = alloc::start();
                for _ in 0..n {
                    word_op(k, w, s, &mut Digest::new());
                }
                kept[i] = alloc::live_since(b);
            }
            if kept[0] >= 48 && kept[1] >= 192 {
                return Err(format!("256 more applications of {} to \"{}\" keep {} bytes of memory for good", WORD_NAMES[k as usize], show(w), kept[1]));
            }
        }
        if let Some(e) = d.1 {
            return Err(format!("{}(\"{}\"): {}", WORD_NAMES[k as usize], show(w), e));
        }
        if used > may {
            return Err(format!(
                "{} uses {} bytes of working memory on a text of {} characters whose longest run of non-starters is {} (allowed {})",
                WORD_NAMES[k as usize], used, w.len(), (may - 4096) / 64, may
            ));
        }
        tr += w.len() as u64 + 1;
        state = state.rotate_left(7) ^ d.0;
    }
    if w.len() <= extra_len {
        for k in 0..EXTRA_OPS {
            let mut d = Digest::new();
            extra_op(k, w, s, &mut d);
            if let Some(e) = d.1 {
                return Err(format!("{} on \"{}\": {}", EXTRA_NAMES[k as usize], show(w), e));
            }
            state = state.rotate_left(7) ^ d.0;
        }
        tr += EXTRA_OPS as u64 * (w.len() as u64 + 1);
    }
    Ok(Cov { transitions: tr, traces: WORD_OPS as u64, state: state | 1 })
}

pub fn chars(deep: bool) -> Check<'static, char> {
    let mut v = word_families(deep);
    if deep {
        v.extend(crate::words::ss_families(deep, 1));
    }
    v.push(Box::new(Runs {
        name: "extreme runs of marks".into(),
        pre: vec![s("a")],
        pats: if deep { mark_patterns() } else { vec![s("\u{301}"), s("\u{345}\u{301}\u{316}\u{334}"), s("\u{344}\u{316}")] },
        lens: if deep { vec![131071, 131072, 131073, 300000, 1000000] } else { vec![65537, 66001, 70000] },
        suf: vec![s("b\u{301}\u{316}")],
    }));
    v.push(Box::new(Runs {
        name: "texts of a million characters".into(),
        pre: vec![s("\u{301}")],
        pats: vec![
            s("a"),
            s("\u{E9}"),
            s("a\u{301}\u{316}"),
            s("\u{AC01}"),
            s("\u{1100}\u{1161}\u{11A8}"),
            s("\u{FDFA}"),
            s("\u{F900}\u{2F800}"),
            s("\u{DD9}\u{DCF}\u{DCA}"),
            s("\u{1E0A}\u{323}\u{345}x\u{344}"),
            s("\u{10FFFF}\u{E000}\u{378}"),
            s("a\u{301}\u{301}\u{301}\u{301}\u{301}\u{301}\u{301}\u{301}\u{316}\u{316}\u{316}\u{316}\u{316}\u{316}\u{316}\u{316}\u{334}\u{334}\u{334}\u{334}\u{334}\u{334}\u{334}\u{334}\u{345}\u{345}\u{345}\u{345}\u{345}\u{345}\u{345}\u{345}\u{301}\u{301}"),
        ],
        lens: if deep { vec![100_000, 1_000_000, 5_000_000] } else { vec![1_000_000] },
        suf: vec![s("\u{316}x")],
    }));
    let extra_len = if deep { 6 } else { 2 };
    // callers may have small stacks: neither deep recursion nor large arrays
    crate::engine::STACK.store(128 << 10, std::sync::atomic::Ordering::Relaxed);
    Check {
        families: v,
        make: Box::new(move || {
            let (mut s, mut t) = (String::new(), Vec::new());
            Box::new(move |w: &[char]| total(w, extra_len, &mut s, &mut t))
        }),
        shrink: true,
    }
}

/// every per-character operation on every scalar value; compose on every scalar with every relevant one
pub fn scalars(_deep: bool) -> Check<'static, u32> {
    let mut partners: Vec<char> = interesting();
    partners.extend((0x10FFu32..=0x1113).chain(0x1160..=0x1176).chain(0x11A6..=0x11C3).chain([0xABFF, 0xAC00, 0xAC01, 0xAC1C, 0xD788, 0xD7A3, 0xD7A4, 0, 0xFFFF, 0x10FFFF]).filter_map(char::from_u32));
    partners.sort();
    partners.dedup();
    Check {
        families: vec![Box::new(crate::data::Range { name: format!("every scalar value: all character operations, compose with {} characters on either side", partners.len()), n: crate::ucd::SCALARS, unit: 500 })],
        make: Box::new(move || {
            let partners = partners.clone();
            Box::new(move |c: &[u32]| {
                let c = char::from_u32(c[0]).unwrap();
                let mut d = Digest::new();
                let base = alloc::start();
                for k in 0..CHAR_OPS {
                    char_op(k, c, &mut d);
                }
                for &p in &partners {
                    compose_op(c, p, &mut d);
                    compose_op(p, c, &mut d);
                }
                let used = alloc::peak_since(base);
                if let Some(e) = d.1 {
                    return Err(format!("operations on U+{:04X}: {}", c as u32, e));
                }
                if used > allowance(4) {
                    return Err(format!("operations on U+{:04X} use {} bytes of working memory", c as u32, used));
                }
                let n = CHAR_OPS as u64 + 2 * partners.len() as u64;
                Ok(Cov { transitions: n, traces: n, state: d.0 | 1 })
            })
        }),
        shrink: false,
    }
}
