//! Properties over the tables: C11 (decompositions), C12 (composition pairs), C13 (lookups).

use crate::engine::{Check, Cov, Family};
use crate::refmodel;
use crate::ucd::{scalar, ucd, SCALARS};
use unicode_normalization as un;

pub struct Range {
    pub name: String,
    pub n: u64,
    pub unit: u64,
}
impl Family<u32> for Range {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.n
    }
    fn fill(&self, i: u64, out: &mut Vec<u32>) {
        out.push(scalar(i) as u32);
    }
    fn weight(&self) -> u64 {
        self.unit
    }
}

fn ch(v: u32) -> char {
    char::from_u32(v).unwrap()
}

fn c11(t: &mut (Vec<char>, Vec<char>), c: &[u32]) -> Result<Cov, String> {
    let c = ch(c[0]);
    let u = ucd();
    let mut n = 0;
    for compat in [false, true] {
        t.0.clear();
        t.1.clear();
        refmodel::decompose_char(u, c, compat, &mut t.0);
        let out = &mut t.1;
        let mut bad = None;
        let mut emit = |d: char| {
            if let Err(e) = crate::imp::check_char(d) {
                bad = Some(e);
            }
            if out.len() < 64 {
                out.push(d);
            }
        };
        if compat {
            un::char::decompose_compatible(c, &mut emit);
        } else {
            un::char::decompose_canonical(c, &mut emit);
        }
        if let Some(e) = bad {
            return Err(format!("decomposition of U+{:04X}: {}", c as u32, e));
        }
        if t.0 != t.1 {
            return Err(format!(
                "decompose_{}(U+{:04X}) emits \"{}\", UCD says \"{}\"",
                if compat { "compatible" } else { "canonical" },
                c as u32,
                crate::words::show(&t.1),
                crate::words::show(&t.0)
            ));
        }
        n += t.1.len() as u64;
    }
    Ok(Cov { transitions: n, traces: 2, state: crate::engine::hash_chars(11, &t.0) })
}

fn c13(c: &[u32]) -> Result<Cov, String> {
    let c = ch(c[0]);
    let u = ucd();
    let v = c as u32;
    let (a, b) = (un::char::canonical_combining_class(c), u.ccc(c));
    if a != b {
        return Err(format!("canonical_combining_class(U+{:04X}) = {}, UCD says {}", v, a, b));
    }
    let (x, y) = (un::char::is_combining_mark(c), u.is_mark(c));
    if x != y {
        return Err(format!("is_combining_mark(U+{:04X}) = {}, UCD says {} (General_Category {})", v, x, y, String::from_utf8_lossy(&u.gc[v as usize])));
    }
    let (p, q) = (un::char::is_public_assigned(c), u.is_public_assigned(c));
    if p != q {
        return Err(format!("is_public_assigned(U+{:04X}) = {}, UCD says {} (General_Category {})", v, p, q, String::from_utf8_lossy(&u.gc[v as usize])));
    }
    Ok(Cov { transitions: 3, traces: 3, state: ((a as u64) << 8 | (x as u64) << 1 | p as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1 })
}

/// one case = one first character (or second, when `second`); the check runs over a whole row
struct Row {
    name: String,
    firsts: Vec<u32>,
    kind: u32,
}
impl Family<u32> for Row {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.firsts.len() as u64
    }
    fn fill(&self, i: u64, out: &mut Vec<u32>) {
        out.push(self.kind);
        out.push(self.firsts[i as usize]);
    }
    fn weight(&self) -> u64 {
        60000
    }
}

fn pair(a: u32, b: u32) -> Result<(), String> {
    let (x, y) = (ch(a), ch(b));
    let got = un::char::compose(x, y);
    let want = refmodel::compose_pair(ucd(), x, y);
    if got != want {
        let g = got.map(|c| unsafe { *(&c as *const char as *const u32) });
        return Err(format!(
            "compose(U+{:04X}, U+{:04X}) = {}, UCD says {}",
            a,
            b,
            g.map_or("None".into(), |v| format!("U+{:04X}", v)),
            want.map_or("None".into(), |c| format!("U+{:04X}", c as u32))
        ));
    }
    Ok(())
}

/// kinds: 0 = first fixed, all scalars second; 1 = second fixed, all scalars first;
/// 2 = first fixed, BMP second; 3 = the single pair [3, a, b]; 5 = first fixed, seconds below U+30000;
/// 6 = first fixed, the neighbours of all composing seconds
fn c12(case: &[u32]) -> Result<Cov, String> {
    let kind = case[0];
    let a = case[1];
    let mut n = 0u64;
    if kind == 3 {
        pair(a, case[2])?;
        return Ok(Cov { transitions: 1, traces: 1, state: 0 });
    }
    let u = ucd();
    if kind == 6 {
        // second characters: every participant in every plane and with every pair of bits flipped
        static SECONDS: std::sync::OnceLock<Vec<char>> = std::sync::OnceLock::new();
        let x = ch(a);
        for &y in SECONDS.get_or_init(|| {
            let all: Vec<u32> = (0..0x110000).filter(|&v| (v & 0xF800) != 0xD800 && u.is_second[v as usize]).chain([0x1161, 0x1175, 0x11A7, 0x11A8, 0x11C2]).collect();
            neighbours(&all).into_iter().map(ch).collect()
        }) {
            let got = un::char::compose(x, y);
            n += 1;
            if got.is_some() || (u.comp[x as usize] != 0 && u.is_second[y as usize]) || jamo_pair(x, y) {
                pair(a, y as u32)?;
            }
        }
        return Ok(Cov { transitions: n, traces: 1, state: (a as u64 + 1 + (6u64 << 32)).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1 });
    }
    // fast path: the reference row as a lookup without per-pair branching
    let (lo, hi) = match kind {
        2 => (0u32, 0x10000u32),
        5 => (0u32, 0x30000u32),
        _ => (0u32, 0x110000u32),
    };
    // bit set of partners the reference composes, to keep the inner loop cheap
    let fixed = ch(a);
    let mut b = lo;
    while b < hi {
        if b == 0xD800 {
            b = 0xE000;
            continue;
        }
        let o = unsafe { char::from_u32_unchecked(b) };
        let (x, y) = if kind == 1 { (o, fixed) } else { (fixed, o) };
        let got = un::char::compose(x, y);
        n += 1;
        match got {
            None => {
                // only rows that have any composite need the reference lookup
                if (u.comp[x as usize] != 0 && u.is_second[y as usize]) || jamo_pair(x, y) {
                    pair(x as u32, y as u32)?;
                }
            }
            Some(_) => pair(x as u32, y as u32)?,
        }
        b += 1;
    }
    Ok(Cov { transitions: n, traces: 1, state: (a as u64 + 1 + ((kind as u64) << 32)).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1 })
}

/// the characters themselves, in every plane, and with one or two bits flipped
fn neighbours(v: &[u32]) -> Vec<u32> {
    let mut out = std::collections::BTreeSet::new();
    for &x in v {
        for p in 0..17 {
            out.insert(x & 0xFFFF | p << 16);
        }
        for e in 0..21 {
            for f in 0..=e {
                out.insert(x ^ 1 << e ^ if f == e { 0 } else { 1 << f });
            }
        }
    }
    out.into_iter().filter(|&x| char::from_u32(x).is_some()).collect()
}

fn jamo_pair(x: char, y: char) -> bool {
    let (x, y) = (x as u32, y as u32);
    ((0x1100..0x1113).contains(&x) && (0x1161..0x1176).contains(&y))
        || ((0xAC00..0xD7A4).contains(&x) && (0x11A8..0x11C3).contains(&y))
}

fn version(_c: &[u32]) -> Result<Cov, String> {
    let v = un::UNICODE_VERSION;
    if (v.0 as u32, v.1 as u32, v.2 as u32) != (16, 0, 0) {
        return Err(format!("UNICODE_VERSION = {:?}, the committed tables and properties are for 16.0.0", v));
    }
    Ok(Cov { transitions: 1, traces: 1, state: 0 })
}

pub fn build(id: &str, deep: bool) -> Option<Check<'static, u32>> {
    Some(match id {
        "C11" => Check {
            families: vec![Box::new(Range { name: "every scalar value".into(), n: SCALARS, unit: 1 })],
            make: Box::new(|| {
                let mut t = (Vec::new(), Vec::new());
                Box::new(move |c: &[u32]| c11(&mut t, c))
            }),
            shrink: false,
        },
        "C13" => Check {
            families: vec![Box::new(Range { name: "every scalar value".into(), n: SCALARS, unit: 1 })],
            make: Box::new(|| {
                let mut first = true;
                Box::new(move |c: &[u32]| {
                    if first {
                        version(c)?;
                        first = false;
                    }
                    c13(c)
                })
            }),
            shrink: false,
        },
        "C12" => {
            let u = ucd();
            let mut firsts: Vec<u32> = Vec::new();
            let mut seconds: Vec<u32> = Vec::new();
            for v in 0..0x110000u32 {
                if (0xD800..0xE000).contains(&v) {
                    continue;
                }
                let hangul_lv = (0xAC00..0xD7A4).contains(&v) && (v - 0xAC00) % 28 == 0;
                if u.comp[v as usize] != 0 || (0x10FF..=0x1113).contains(&v) || (hangul_lv && (v - 0xAC00) / 28 % 7 == 0) {
                    firsts.push(v);
                }
                if u.is_second[v as usize] || (0x1160..=0x1176).contains(&v) || (0x11A6..=0x11C3).contains(&v) {
                    seconds.push(v);
                }
            }
            // single-level decompositions that are excluded from composition
            let mut ex_f: Vec<u32> = Vec::new();
            let mut ex_s: Vec<u32> = Vec::new();
            for (_, (k, m)) in u.single.iter() {
                if !*k && m.len() == 2 {
                    ex_f.push(m[0]);
                    ex_s.push(m[1]);
                }
            }
            for (dst, src) in [(&mut firsts, ex_f), (&mut seconds, ex_s)] {
                dst.extend(src);
                dst.sort();
                dst.dedup();
            }
            // characters differing from participants in one bit or by a plane offset (key aliasing)
            let mut families: Vec<Box<dyn Family<u32>>> = Vec::new();
            families.push(Box::new(Row { name: "every composing first x every scalar value".into(), firsts: firsts.clone(), kind: 0 }));
            families.push(Box::new(Row { name: "every scalar value x every composing second".into(), firsts: seconds.clone(), kind: 1 }));
            let bmp: Vec<u32> = (0..0x10000u32).filter(|v| !(0xD800..0xE000).contains(v)).collect();
            if deep {
                let low: Vec<u32> = (0..0x30000u32).filter(|v| !(0xD800..0xE000).contains(v)).collect();
                families.push(Box::new(Row { name: "planes 0-2 x every scalar value".into(), firsts: low, kind: 0 }));
                families.push(Box::new(Row { name: "planes 3-16 x planes 0-2".into(), firsts: (0x30000..0x110000).collect(), kind: 5 }));
            } else {
                families.push(Box::new(Row { name: "BMP x BMP".into(), firsts: bmp, kind: 2 }));
                families.push(Box::new(Row { name: "neighbours (any plane, one or two bits) of composing firsts x neighbours of composing seconds".into(), firsts: neighbours(&firsts), kind: 6 }));
            }
            Check {
                families,
                make: Box::new(|| Box::new(c12)),
                shrink: false,
            }
        }
        _ => return None,
    })
}
