//! The case families: every one is enumerated completely.

use crate::engine::Family;
use crate::refmodel::{self, Form};
use crate::ucd::{scalar, ucd, SCALARS};
use std::collections::{BTreeMap, BTreeSet};

type W = Vec<char>;

pub fn s(x: &str) -> W {
    x.chars().collect()
}
pub fn singles(v: &[char]) -> Vec<W> {
    v.iter().map(|&c| vec![c]).collect()
}
fn c(v: u32) -> char {
    char::from_u32(v).unwrap()
}

/// cartesian product of lists of strings, concatenated
pub struct Prod {
    pub name: String,
    pub parts: Vec<Vec<W>>,
    pub weight: u64,
}
impl Prod {
    pub fn new(name: &str, parts: Vec<Vec<W>>) -> Box<Prod> {
        let avg: usize = parts
            .iter()
            .map(|p| p.iter().map(|w| w.len()).sum::<usize>() / p.len().max(1))
            .sum();
        Box::new(Prod { name: name.into(), parts, weight: (avg as u64 / 6).max(1) })
    }
}
impl Family<char> for Prod {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.parts.iter().map(|p| p.len() as u64).product()
    }
    fn fill(&self, mut i: u64, out: &mut W) {
        for p in &self.parts {
            let n = p.len() as u64;
            out.extend_from_slice(&p[(i % n) as usize]);
            i /= n;
        }
    }
    fn weight(&self) -> u64 {
        self.weight
    }
}

/// every scalar value in every (prefix, suffix) context
pub struct Scalars {
    pub name: String,
    pub pre: Vec<W>,
    pub suf: Vec<W>,
}
impl Scalars {
    pub fn new(name: &str, pre: Vec<W>, suf: Vec<W>) -> Box<Scalars> {
        Box::new(Scalars { name: name.into(), pre, suf })
    }
}
impl Family<char> for Scalars {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        SCALARS * self.pre.len() as u64 * self.suf.len() as u64
    }
    fn fill(&self, mut i: u64, out: &mut W) {
        let (p, q) = (self.pre.len() as u64, self.suf.len() as u64);
        out.extend_from_slice(&self.pre[(i % p) as usize]);
        i /= p;
        let suf = &self.suf[(i % q) as usize];
        i /= q;
        out.push(scalar(i));
        out.extend_from_slice(suf);
    }
    fn weight(&self) -> u64 {
        let a: usize = self.pre.iter().map(|w| w.len()).sum::<usize>() / self.pre.len();
        let b: usize = self.suf.iter().map(|w| w.len()).sum::<usize>() / self.suf.len();
        1 + (a + b) as u64 / 6
    }
}

/// all words of length 0..=depth over an alphabet of strings, shortest first
pub struct Words {
    pub name: String,
    pub alpha: Vec<W>,
    pub depth: u32,
}
impl Words {
    pub fn new(name: &str, alpha: Vec<W>, depth: u32) -> Box<Words> {
        Box::new(Words { name: format!("{} (all words up to {})", name, depth), alpha, depth })
    }
}
impl Family<char> for Words {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        (0..=self.depth).map(|d| (self.alpha.len() as u64).pow(d)).sum()
    }
    fn fill(&self, mut i: u64, out: &mut W) {
        let n = self.alpha.len() as u64;
        let mut d = 0;
        while i >= n.pow(d) {
            i -= n.pow(d);
            d += 1;
        }
        for _ in 0..d {
            out.extend_from_slice(&self.alpha[(i % n) as usize]);
            i /= n;
        }
    }
}

pub struct List {
    pub name: String,
    pub items: Vec<W>,
    pub weight: u64,
}
impl List {
    pub fn new(name: &str, items: Vec<W>) -> Box<List> {
        let tot: usize = items.iter().map(|w| w.len()).sum();
        let weight = (tot / items.len().max(1) / 6).max(1) as u64;
        Box::new(List { name: name.into(), items, weight })
    }
}
impl Family<char> for List {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.items.len() as u64
    }
    fn fill(&self, i: u64, out: &mut W) {
        out.extend_from_slice(&self.items[i as usize]);
    }
    fn weight(&self) -> u64 {
        self.weight
    }
}

/// pre + (pattern repeated to exactly n symbols) + suf, for all pre, patterns, lengths, suf
pub struct Runs {
    pub name: String,
    pub pre: Vec<W>,
    pub pats: Vec<W>,
    pub lens: Vec<usize>,
    pub suf: Vec<W>,
}
impl Family<char> for Runs {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        (self.pre.len() * self.pats.len() * self.lens.len() * self.suf.len()) as u64
    }
    fn fill(&self, i: u64, out: &mut W) {
        let mut i = i as usize;
        let pre = &self.pre[i % self.pre.len()];
        i /= self.pre.len();
        let suf = &self.suf[i % self.suf.len()];
        i /= self.suf.len();
        let pat = &self.pats[i % self.pats.len()];
        i /= self.pats.len();
        let n = self.lens[i];
        out.extend_from_slice(pre);
        for k in 0..n {
            out.push(pat[k % pat.len()]);
        }
        out.extend_from_slice(suf);
    }
    fn weight(&self) -> u64 {
        (self.lens.iter().sum::<usize>() / self.lens.len() / 6 + 1) as u64
    }
}

/// starter, run of i marks, starter, run of j marks, starter, run of k marks
pub struct Segments {
    pub name: String,
    pub starters: Vec<W>,
    pub pats: Vec<W>,
    pub lens: Vec<usize>,
    pub segs: u32,
}
impl Family<char> for Segments {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        (self.lens.len() as u64).pow(self.segs) * self.pats.len() as u64 * self.starters.len() as u64
    }
    fn fill(&self, i: u64, out: &mut W) {
        let mut i = i as usize;
        let st = &self.starters[i % self.starters.len()];
        i /= self.starters.len();
        let pat = &self.pats[i % self.pats.len()];
        i /= self.pats.len();
        let mut off = 0;
        for _ in 0..self.segs {
            let n = self.lens[i % self.lens.len()];
            i /= self.lens.len();
            out.extend_from_slice(st);
            for k in 0..n {
                out.push(pat[(k + off) % pat.len()]);
            }
            off += 1;
        }
    }
    fn weight(&self) -> u64 {
        (self.segs as usize * self.lens.iter().sum::<usize>() / self.lens.len() / 6 + 1) as u64
    }
}

/// a^i x b^j y d^k for all choices (stream-safe counting)
pub struct Counted {
    pub name: String,
    pub pre: Vec<W>,
    pub m: Vec<char>,
    pub i: Vec<usize>,
    pub x: Vec<W>,
    pub j: Vec<usize>,
    pub y: Vec<W>,
    pub k: Vec<usize>,
}
impl Family<char> for Counted {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        (self.pre.len() * self.m.len() * self.i.len() * self.j.len() * self.k.len()) as u64
            * self.x.len() as u64
            * self.y.len() as u64
    }
    fn fill(&self, mut n: u64, out: &mut W) {
        let mut pick = |l: usize| {
            let r = (n % l as u64) as usize;
            n /= l as u64;
            r
        };
        let p = pick(self.pre.len());
        let m = self.m[pick(self.m.len())];
        let (i, j, k) = (pick(self.i.len()), pick(self.j.len()), pick(self.k.len()));
        let y = pick(self.y.len());
        let x = pick(self.x.len());
        out.extend_from_slice(&self.pre[p]);
        out.extend(std::iter::repeat(m).take(self.i[i]));
        out.extend_from_slice(&self.x[x]);
        out.extend(std::iter::repeat(m).take(self.j[j]));
        out.extend_from_slice(&self.y[y]);
        out.extend(std::iter::repeat(m).take(self.k[k]));
    }
    fn weight(&self) -> u64 {
        8
    }
}

// ------------------------------------------------------------------ character sets

pub fn is_hangul(v: u32) -> bool {
    (0xAC00..0xAC00 + 11172).contains(&v)
}

/// every character with any normalization-relevant property, plus neighbours and plain ones
pub fn interesting() -> Vec<char> {
    let u = ucd();
    let mut set: BTreeSet<char> = BTreeSet::new();
    for i in 0..SCALARS {
        let ch = scalar(i);
        let v = ch as usize;
        if is_hangul(v as u32) {
            continue;
        }
        if u.ccc[v] != 0
            || u.can[v].1 != 0
            || u.compat[v].1 != 0
            || u.comp[v] != 0
            || u.is_second[v]
            || u.qc[v] != [0; 4]
            || u.cjk.contains_key(&(v as u32))
        {
            set.insert(ch);
        }
    }
    for v in 0x10FFu32..=0x1113 {
        set.insert(c(v));
    }
    for v in 0x1160u32..=0x1176 {
        set.insert(c(v));
    }
    for v in 0x11A6u32..=0x11C3 {
        set.insert(c(v));
    }
    for v in [
        0xABFF, 0xAC00, 0xAC01, 0xAC1B, 0xAC1C, 0xAC1D, 0xB000, 0xC8E0, 0xC8E1, 0xD788, 0xD789, 0xD7A3, 0xD7A4,
        0xD7A5, 0xD7FF,
    ] {
        set.insert(c(v));
    }
    for v in [
        0u32, 0x20, 0x41, 0x61, 0x7A, 0x7E, 0x7F, 0x80, 0x9F, 0xAD, 0x34F, 0x200C, 0x200D, 0xFE00, 0xFE0F, 0xE000,
        0xF8FF, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x20000, 0x2FA1E, 0x2FFFF, 0x30000, 0xE0100, 0xE01EF, 0xF0000,
        0x10FFFD, 0x10FFFF, 0x378, 0x4E00, 0x9FFF, 0xFDD0, 0x2FA1F, 0x1E94A, 0x7FF, 0x800, 0xFFFD,
    ] {
        set.insert(c(v));
    }
    set.into_iter().collect()
}

/// equivalence-class signature of a character for normalization purposes
fn signature(ch: char) -> Vec<u8> {
    let u = ucd();
    let v = ch as usize;
    let mut k = vec![u.ccc[v], u.is_mark(ch) as u8];
    k.extend_from_slice(&u.qc[v]);
    k.push((u.comp[v] != 0) as u8);
    k.push(u.is_second[v] as u8);
    k.push(u.cjk.contains_key(&(v as u32)) as u8);
    k.push(match v as u32 {
        0x1100..=0x1112 => 1,
        0x1161..=0x1175 => 2,
        0x11A8..=0x11C2 => 3,
        x if is_hangul(x) => 4 + ((x - 0xAC00) % 28 != 0) as u8,
        _ => 0,
    });
    k.push(ch.len_utf8() as u8);
    let mut t = Vec::new();
    for compat in [false, true] {
        t.clear();
        refmodel::decompose_char(u, ch, compat, &mut t);
        k.push(255);
        k.push(t.len().min(4) as u8);
        if t.len() > 1 || t[0] != ch {
            k.push(u.ccc(t[0]));
            k.push(u.ccc(*t.last().unwrap()));
            let st = t.iter().filter(|&&d| u.ccc(d) == 0).count();
            k.push(st.min(2) as u8);
        }
    }
    k
}

/// up to `per` representatives (first, last, second, ...) of every signature class
pub fn reps(per: usize) -> Vec<char> {
    let mut m: BTreeMap<Vec<u8>, Vec<char>> = BTreeMap::new();
    for i in 0..SCALARS {
        let ch = scalar(i);
        m.entry(signature(ch)).or_default().push(ch);
    }
    let mut out = Vec::new();
    for v in m.values() {
        let mut idx: Vec<usize> = Vec::new();
        for k in 0..per {
            let i = match k {
                0 => 0,
                1 => v.len() - 1,
                _ => (v.len() - 1) * (k - 1) / per,
            };
            if !idx.contains(&i) {
                idx.push(i);
            }
        }
        out.extend(idx.iter().map(|&i| v[i]));
    }
    out.sort();
    out.dedup();
    out
}

/// one character of every combining class (including 0), simplest first
pub fn ccc_reps(per: usize) -> Vec<char> {
    let u = ucd();
    let mut m: BTreeMap<u8, Vec<char>> = BTreeMap::new();
    for i in 0..SCALARS {
        let ch = scalar(i);
        if u.ccc(ch) != 0 {
            m.entry(u.ccc(ch)).or_default().push(ch);
        }
    }
    let mut out = vec!['a', CGJ];
    for v in m.values() {
        out.extend(v.iter().take(per));
    }
    out
}
pub const CGJ: char = '\u{34F}';

pub fn themes() -> Vec<(&'static str, Vec<W>)> {
    let t = |x: &str| singles(&x.chars().collect::<Vec<_>>());
    vec![
        (
            "latin",
            t("a\u{323}\u{302}\u{301}\u{308}\u{344}\u{1EA1}\u{E2}\u{1EAD}\u{31B}o\u{1A1}"),
        ),
        (
            "hangul",
            t("\u{1100}\u{1112}\u{1161}\u{1175}\u{11A7}\u{11A8}\u{11C2}\u{AC00}\u{AC01}\u{D788}\u{301}\u{3131}"),
        ),
        (
            "indic",
            t("\u{DD9}\u{DCF}\u{DCA}\u{DDC}\u{9C7}\u{9BE}\u{9D7}\u{CC6}\u{CC2}\u{CD5}\u{CCA}\u{93C}"),
        ),
        (
            "astral",
            t("\u{11099}\u{110BA}\u{1109A}\u{114B9}\u{114BA}\u{114B0}\u{11347}\u{1133E}\u{11930}\u{11935}\u{1D157}\u{1D165}"),
        ),
        (
            "kirat-gurung",
            t("\u{1611E}\u{16129}\u{1611F}\u{16120}\u{16D67}\u{16D63}\u{16D69}\u{16D6A}\u{16121}\u{113C2}\u{113C9}\u{301}"),
        ),
        (
            "compat",
            t("\u{FB01}\u{1E9B}\u{323}\u{307}\u{FF76}\u{FF9E}\u{30AB}\u{3099}\u{3D3}\u{345}\u{37A}\u{212B}"),
        ),
        (
            "excluded",
            t("\u{958}\u{915}\u{93C}\u{2ADC}\u{2ADD}\u{338}\u{FB1D}\u{F73}\u{F71}\u{F72}\u{F81}\u{301}"),
        ),
        (
            "greek",
            t("\u{3B1}\u{345}\u{301}\u{313}\u{300}\u{1F00}\u{1F84}\u{1FB4}\u{3AC}\u{390}\u{3B9}\u{308}"),
        ),
        (
            "marks",
            t("x\u{300}\u{301}\u{316}\u{317}\u{334}\u{335}\u{321}\u{345}\u{5B0}\u{64B}\u{34F}"),
        ),
        (
            "cjk",
            t("\u{F900}\u{8C48}\u{FE00}\u{FE01}\u{2F800}\u{4E3D}\u{FA0E}\u{FA10}\u{AC01}\u{301}a\u{2FA1D}"),
        ),
    ]
}

/// decompositions of every primary composite with 0, 1 or 2 blockers inserted at every gap
pub struct Chains {
    name: String,
    seqs: Vec<W>,
    nb: Vec<char>,
    two: bool,
    cum: Vec<u64>,
}
fn chain_seqs() -> Vec<W> {
    let u = ucd();
    let mut seqs: BTreeSet<W> = BTreeSet::new();
    for &(a, b, p) in &u.composites {
        seqs.insert(vec![c(a), c(b)]);
        let mut t = Vec::new();
        refmodel::decompose_char(u, c(p), false, &mut t);
        seqs.insert(t);
    }
    for a in [0x1100u32, 0x1112] {
        for b in [0x1161u32, 0x1175] {
            seqs.insert(vec![c(a), c(b)]);
            for d in [0x11A8u32, 0x11C2] {
                seqs.insert(vec![c(a), c(b), c(d)]);
            }
        }
    }
    for d in [0x11A8u32, 0x11C2] {
        seqs.insert(vec![c(0xAC00), c(d)]);
    }
    seqs.into_iter().collect()
}
impl Chains {
    pub fn new(name: &str, blockers: &[char], two: bool) -> Box<Chains> {
        let seqs = chain_seqs();
        let nb: Vec<char> = blockers.to_vec();
        let n = nb.len() as u64;
        let mut cum = vec![0u64];
        for q in &seqs {
            let g = q.len() as u64 + 1;
            // two blockers: gap i <= gap j
            let k = if two { g * (g + 1) / 2 * n * n } else { 1 + g * n };
            cum.push(cum.last().unwrap() + k);
        }
        Box::new(Chains { name: name.into(), seqs, nb, two, cum })
    }
}
impl Family<char> for Chains {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        *self.cum.last().unwrap()
    }
    fn fill(&self, i: u64, out: &mut W) {
        let k = self.cum.partition_point(|&x| x <= i) - 1;
        let mut r = (i - self.cum[k]) as usize;
        let q = &self.seqs[k];
        let n = self.nb.len();
        if !self.two {
            if r == 0 {
                out.extend_from_slice(q);
                return;
            }
            r -= 1;
            let (pos, x) = (r / n, self.nb[r % n]);
            out.extend_from_slice(&q[..pos]);
            out.push(x);
            out.extend_from_slice(&q[pos..]);
        } else {
            let (x, y) = (self.nb[r % n], self.nb[r / n % n]);
            r /= n * n;
            let mut p1 = 0;
            while r > q.len() - p1 {
                r -= q.len() - p1 + 1;
                p1 += 1;
            }
            let p2 = p1 + r;
            out.extend_from_slice(&q[..p1]);
            out.push(x);
            out.extend_from_slice(&q[p1..p2]);
            out.push(y);
            out.extend_from_slice(&q[p2..]);
        }
    }
}

/// de Bruijn sequence B(k, n) over an alphabet (every length-n window occurs once)
pub fn de_bruijn(alpha: &[char], n: usize) -> W {
    let k = alpha.len();
    let mut a = vec![0usize; k * n];
    let mut seq: Vec<usize> = Vec::new();
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, seq: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                seq.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, k, n, a, seq);
            for j in a[t - p] + 1..k {
                a[t] = j;
                db(t + 1, t, k, n, a, seq);
            }
        }
    }
    a.resize(k * n + n + 1, 0);
    db(1, 1, k, n, &mut a, &mut seq);
    let mut w: W = seq.iter().map(|&i| alpha[i]).collect();
    let head: W = w[..n - 1].to_vec();
    w.extend(head);
    w
}

pub fn mark_patterns() -> Vec<W> {
    // periodic mark patterns: same class (stability), ascending, descending, mixed, expanding
    let m: Vec<char> = "\u{301}\u{308}\u{316}\u{334}\u{345}\u{5B0}".chars().collect();
    let mut out: Vec<W> = Vec::new();
    for &a in &m {
        out.push(vec![a]);
        for &b in &m {
            if a != b {
                out.push(vec![a, b]);
            }
            for &d in &m {
                if !(a == b && b == d) {
                    out.push(vec![a, b, d]);
                }
            }
        }
    }
    out.push(s("\u{344}"));
    out.push(s("\u{344}\u{316}"));
    out.push(s("\u{F81}\u{F73}"));
    out.push(s("\u{F72}\u{F71}\u{301}\u{344}"));
    // a long non-periodic looking pattern: 37 distinct marks of several classes
    let long: W = (0..37u32).map(|i| c(0x300 + (i * 7) % 0x4D)).filter(|&x| x != CGJ).collect();
    out.push(long.clone());
    let mut d = long;
    d.sort_by_key(|&x| std::cmp::Reverse(ucd().ccc(x)));
    out.push(d);
    out
}

pub fn lens_all(to: usize) -> Vec<usize> {
    (0..=to).collect()
}
pub fn lens_thresholds() -> Vec<usize> {
    let mut v = Vec::new();
    for b in [80usize, 96, 100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000] {
        v.push(b);
    }
    v.extend([1023, 1024, 1025, 2048, 4095, 4096, 4097]);
    v
}
pub fn lens_huge() -> Vec<usize> {
    vec![16384, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 70000]
}

/// runs in canonical order except for one (or two) displaced marks, at every position of runs of every length
pub fn displaced_family(deep: bool) -> Box<dyn Family<char>> {
    let u = ucd();
    let mut asc: Vec<char> = interesting().into_iter().filter(|&x| u.ccc(x) != 0 && u.can[x as usize].1 == 0).collect();
    asc.sort_by_key(|&x| u.ccc(x));
    let k = asc.len() / 73;
    let ladder: W = asc.iter().step_by(k.max(1)).copied().collect();
    let flat = |x: char| -> W { std::iter::repeat(x).take(80).collect() };
    let bases: Vec<W> = vec![ladder, flat('\u{301}'), flat('\u{316}'), (0..80).map(|i| if i < 40 { '\u{316}' } else { '\u{301}' }).collect()];
    let odd = s("\u{334}\u{302}\u{317}\u{345}\u{344}\u{5B0}");
    let mut items = Vec::new();
    for b in &bases {
        for n in 1..=if deep { 72 } else { 40 } {
            let n = n.min(b.len());
            for p in 0..=n {
                for &o in &odd {
                    let mut w = vec!['a'];
                    w.extend_from_slice(&b[..p]);
                    w.push(o);
                    w.extend_from_slice(&b[p..n]);
                    w.push('b');
                    items.push(w);
                }
            }
        }
        for n in 1..=if deep { 30usize } else { 18 } {
            for p in 0..=n {
                for q in p..=n {
                    for (x, y) in [('\u{302}', '\u{303}'), ('\u{334}', '\u{335}'), ('\u{317}', '\u{334}')] {
                        let mut w = b[..p].to_vec();
                        w.push(x);
                        w.extend_from_slice(&b[p..q]);
                        w.push(y);
                        w.extend_from_slice(&b[q..n]);
                        items.push(w);
                    }
                }
            }
        }
    }
    List::new("ordered mark runs with one or two marks displaced, every position", items)
}

/// the states of the composition machine (last starter, class of the last mark kept behind it, or blocked
/// by a starter) times every character that composes with anything
pub fn compose_states(deep: bool) -> Vec<Box<dyn Family<char>>> {
    let u = ucd();
    let (mut firsts, mut seconds): (Vec<char>, Vec<char>) = (Vec::new(), Vec::new());
    for i in 0..SCALARS {
        let x = scalar(i);
        let v = x as u32;
        if (u.comp[v as usize] != 0 && !is_hangul(v)) || [0x1100, 0x1112, 0xAC00, 0xAC01, 0xAC1C, 0xD788, 0xD7A3].contains(&v) {
            firsts.push(x);
        }
        if (u.is_second[v as usize] && !(0x1160..0x1200).contains(&v)) || [0x1161, 0x1175, 0x11A7, 0x11A8, 0x11C2].contains(&v) {
            seconds.push(x);
        }
    }
    let cr = ccc_reps(1);
    let mut mid: Vec<W> = vec![vec![]];
    mid.extend(singles(&cr));
    mid.extend(["\u{334}\u{316}", "\u{316}\u{301}", "\u{301}\u{316}", "\u{30D}\u{30D}", "\u{1161}", "\u{AC00}"].iter().map(|x| s(x)));
    let mut v: Vec<Box<dyn Family<char>>> = vec![Prod::new(
        "every composing first x every class kept behind it x every composing second",
        vec![singles(&firsts), mid, singles(&seconds), vec![s(""), s("\u{301}b")]],
    )];
    // several marks of one class kept behind the starter
    let mut several: Vec<W> = Vec::new();
    for &m in &ccc_reps(2) {
        for n in if deep { vec![2, 3, 4, 5, 8, 9, 16, 17, 18, 32, 33] } else { vec![2, 3, 4, 5, 17] } {
            several.push(std::iter::repeat(m).take(n).collect());
        }
    }
    v.push(Prod::new(
        "every composing first x several marks of one class x every composing second",
        vec![singles(&firsts), several, singles(&seconds)],
    ));
    if deep {
        v.push(Prod::new(
            "every composing first x two marks of any classes x every composing second",
            vec![singles(&firsts), singles(&cr), singles(&cr), singles(&seconds)],
        ));
    }
    v
}

/// every class of the preceding mark x every scalar value
pub fn class_states() -> Box<dyn Family<char>> {
    Scalars::new("every scalar value after every combining class", singles(&ccc_reps(1)), vec![s("")])
}

/// every sequence of three (and four) combining classes behind a starter, composing marks included
pub fn class_sequences(deep: bool) -> Vec<Box<dyn Family<char>>> {
    let u = ucd();
    // one composing mark per class where there is one, else the first mark of the class
    let mut one: Vec<char> = ccc_reps(1).into_iter().filter(|&x| x != 'a').collect();
    for m in one.iter_mut() {
        let k = u.ccc(*m);
        if k != 0 {
            if let Some(&(_, b, _)) = u.composites.iter().find(|&&(a, b, _)| (a == 'o' as u32 || a == 'a' as u32) && u.ccc(c(b)) == k) {
                *m = c(b);
            }
        }
    }
    let mut many: Vec<char> = one.clone();
    many.extend(ccc_reps(if deep { 3 } else { 1 }));
    for &(_, b, _) in &u.composites {
        if u.ccc(c(b)) != 0 {
            many.push(c(b));
        }
    }
    many.extend("\u{344}\u{F73}\u{1161}b".chars());
    many.sort();
    many.dedup();
    many.retain(|&x| x != 'a');
    let st = vec![s("o"), s("\u{3B1}"), s("\u{1ED9}")];
    let mut v: Vec<Box<dyn Family<char>>> = vec![Prod::new(
        "starter x every sequence of three marks (every class, every composing mark)",
        vec![if deep { st } else { st[..2].to_vec() }, singles(&many), singles(&many), singles(&many)],
    )];
    let mut four = vec![vec![s("o")], singles(&one), singles(&one), singles(&one), singles(&one)];
    if deep {
        four.push(vec![s(""), s("e\u{316}\u{301}")]);
    }
    v.push(Prod::new("o x every sequence of four classes", four));
    v
}

/// long blocks of marks that end (and begin) with every pair of classes
pub fn block_family(deep: bool) -> Box<dyn Family<char>> {
    let cr = ccc_reps(1);
    let mut pre = Vec::new();
    let lens: &[usize] = if deep { &[9, 10, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 48, 63, 64, 65, 70, 100] } else { &[10, 17, 21, 33, 70] };
    for &n in lens {
        for m in ["\u{301}", "\u{316}"] {
            let mut w = s("a");
            for _ in 0..n {
                w.extend(s(m));
            }
            pre.push(w);
        }
    }
    Prod::new("long blocks of marks x every pair of classes", vec![pre, singles(&cr), singles(&cr), vec![s(""), s("\u{323}b")]])
}

/// two stretches of unremarkable text of every length with something in between
pub fn middle_family(deep: bool) -> Box<dyn Family<char>> {
    let n = if deep { 72 } else { 36 };
    let rep = |p: &str| -> Vec<W> { (0..=n).map(|k| s(p).into_iter().cycle().take(k).collect()).collect() };
    let mut items = Vec::new();
    for (p, q) in [("x", "y"), ("x", "\u{4E2D}"), ("\u{4E2D}", "x"), ("\u{E9}", "x"), ("x\u{30D}", "z")] {
        for a in rep(p) {
            for b in rep(q) {
                for m in ["\u{301}", "a\u{316}\u{30D}", "a\u{30D}\u{316}", "\u{344}\u{345}", "\u{FDFA}", "\u{AC00}", "\u{1100}\u{1161}", "\u{212B}\u{F900}", "\u{FF76}\u{FF9E}"] {
                    for e in ["", "\u{316}\u{11A8}"] {
                        let mut w = a.clone();
                        w.extend(s(m));
                        w.extend_from_slice(&b);
                        w.extend(s(e));
                        items.push(w);
                    }
                }
            }
        }
    }
    List::new("plain text of every length before and after every kind of middle", items)
}

/// ASCII text of every length around every kind of middle; its letter marks words to be placed at every alignment
pub fn placed_family(deep: bool) -> Box<dyn Family<char>> {
    let n = if deep { 48 } else { 20 };
    let m31 = "\u{301}".repeat(31);
    let mut items = Vec::new();
    for m in ["", "\u{301}", "e\u{301}", "\u{E9}", "a\u{316}\u{30D}", "a\u{30D}\u{316}", "\u{344}", "\u{212B}", "\u{AC00}", "\u{1100}\u{1161}", "\u{F900}", "\u{FB01}", "\u{1D15E}", &m31] {
        for a in 0..=n {
            for b in 0..=n {
                let mut w = vec!['w'; a];
                w.extend(s(m));
                w.extend(vec!['w'; b]);
                items.push(w);
            }
        }
    }
    List::new("ASCII text around every kind of middle, at every alignment", items)
}

/// a long stretch of unremarkable text, with something to do only at its far end (or at both ends)
pub fn far_end_family(deep: bool) -> Box<dyn Family<char>> {
    Box::new(Runs {
        name: "long plain text with every kind of ending".into(),
        pre: vec![s(""), s("e\u{301}"), s("a\u{344}\u{345}"), std::iter::once('a').chain(s("\u{301}\u{308}").into_iter().cycle().take(29)).collect()],
        pats: vec![s("x"), s("\u{4E2D}"), s("\u{E9}"), s("e\u{30D}"), s("\u{AC00}"), s("\u{10400}\u{30D}")],
        lens: (3..if deep { 140 } else { 70 })
            .chain([100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 10000])
            .chain(if deep { lens_huge() } else { vec![65536] })
            .collect(),
        suf: [
            "", "b", "\u{301}", "a\u{301}", "a\u{30D}\u{316}", "a\u{316}\u{30D}", "\u{FB01}", "\u{212B}", "\u{F900}", "\u{1100}\u{1161}", "\u{11A8}", "\u{344}", "\u{E9}\u{1161}",
            "\u{9C7}\u{9BE}", "\u{11131}\u{11127}", "a\u{301}b",
        ]
        .iter()
        .map(|x| s(x))
        .collect(),
    })
}

/// the run-structured words used by all word properties
pub fn run_families(deep: bool) -> Vec<Box<dyn Family<char>>> {
    let ctx_pre: Vec<W> = vec![s(""), s("a"), s("o\u{31B}"), s("\u{AC00}")];
    let ctx_suf: Vec<W> = vec![s(""), s("b"), s("\u{301}a\u{323}\u{302}"), s("\u{11A8}\u{344}\u{316}")];
    let few: Vec<W> = vec![
        s("\u{301}\u{316}"),
        s("\u{345}\u{301}\u{316}\u{334}"),
        s("\u{344}\u{316}"),
        s("\u{301}"),
        s("\u{334}\u{301}\u{308}"),
    ];
    let mut v: Vec<Box<dyn Family<char>>> = vec![
        Box::new(Runs {
            name: "mark runs, every length 0..=72".into(),
            pre: ctx_pre.clone(),
            pats: mark_patterns(),
            lens: lens_all(72),
            suf: ctx_suf.clone(),
        }),
        Box::new(Runs {
            name: "mark runs at thresholds 80..4097".into(),
            pre: vec![s("a")],
            pats: few.clone(),
            lens: lens_thresholds(),
            suf: vec![s(""), s("b\u{301}\u{316}")],
        }),
        Box::new(Runs {
            name: "mark runs at thresholds 16384..70000".into(),
            pre: vec![s("a")],
            pats: if deep { few.clone() } else { few[..2].to_vec() },
            lens: lens_huge(),
            suf: vec![s("b\u{301}\u{316}")],
        }),
        Box::new(Segments {
            name: "three consecutive runs, every length combination".into(),
            starters: vec![s("a"), s("\u{1EAD}"), s("\u{1100}\u{1161}")],
            pats: vec![s("\u{301}\u{316}"), s("\u{344}\u{334}\u{316}"), s("\u{316}\u{301}\u{308}\u{317}\u{334}")],
            lens: (0..=12).chain([16, 17, 18, 20, 21, 30, 31, 32, 33]).collect(),
            segs: 3,
        }),
        Box::new(Runs {
            name: "repeated segments".into(),
            pre: vec![s(""), s("\u{301}")],
            pats: vec![
                s("a"),
                s("a\u{301}"),
                s("a\u{302}\u{323}"),
                s("\u{1EAD}\u{301}"),
                s("\u{AC01}"),
                s("\u{1100}\u{1161}\u{11A8}"),
                s("\u{FDFA}"),
                s("a\u{316}\u{334}\u{316}\u{301}\u{345}\u{334}"),
                s("\u{3B1}\u{345}\u{301}\u{313}"),
                s("\u{344}b\u{F73}"),
            ],
            lens: (0..=140).chain([255, 256, 257, 1023, 1024, 1025, 4096, 65535, 65536, 65537]).collect(),
            suf: vec![s(""), s("\u{316}x")],
        }),
        far_end_family(deep),
        displaced_family(deep),
        middle_family(deep),
    ];
    if deep {
        v.push(Box::new(Segments {
            name: "four consecutive runs, every length combination".into(),
            starters: vec![s("a"), s("\u{1100}\u{1161}")],
            pats: vec![s("\u{344}\u{334}\u{316}"), s("\u{316}\u{301}\u{308}\u{317}\u{334}")],
            lens: (0..=14).chain([20, 21, 30, 31, 32, 33, 64, 65]).collect(),
            segs: 4,
        }));
    }
    v
}

/// long single streams covering every window of n symbols in one stream (state carried across segments)
pub fn stream_families(deep: bool) -> Vec<Box<dyn Family<char>>> {
    let r = reps(1);
    let mut items = Vec::new();
    items.push(de_bruijn(&r, 2));
    for (_, t) in themes() {
        let a: Vec<char> = t.iter().map(|w| w[0]).collect();
        items.push(de_bruijn(&a, if deep { 5 } else { 4 }));
    }
    if deep {
        let step = r.len() / 90 + 1;
        for k in 0..step {
            let a: Vec<char> = r.iter().skip(k).step_by(step).copied().collect();
            items.push(de_bruijn(&a, 3));
        }
    }
    vec![List::new("de Bruijn streams (every window in one stream)", items)]
}

pub fn hangul_family() -> Box<dyn Family<char>> {
    let l: Vec<W> = (0x10FFu32..=0x1113).map(|v| vec![c(v)]).collect();
    let v: Vec<W> = (0x1160u32..=0x1176).map(|v| vec![c(v)]).collect();
    let mut t: Vec<W> = vec![vec![]];
    t.extend((0x11A6u32..=0x11C3).map(|v| vec![c(v)]));
    t.push(s("\u{301}"));
    Prod::new("all Hangul L x V x T with neighbours", vec![l, v, t])
}

pub fn official_family() -> Box<dyn Family<char>> {
    let mut set: BTreeSet<W> = BTreeSet::new();
    for t in refmodel::official() {
        for w in t {
            set.insert(w);
        }
    }
    let items: Vec<W> = set.into_iter().collect();
    Prod::new(
        "official NormalizationTest strings in contexts",
        vec![vec![s(""), s("a"), s("\u{1100}"), s("e\u{323}"), s("\u{344}")], if items.is_empty() { vec![vec![]] } else { items }, vec![s(""), s("\u{301}"), s("\u{316}b"), s("\u{1161}"), s("\u{3099}")]],
    )
}

/// reduced context sets for "every scalar value" families
pub fn contexts() -> (Vec<W>, Vec<W>) {
    (
        vec![s(""), s("a"), s("a\u{301}"), s("\u{1100}"), s("\u{AC00}"), s("\u{345}")],
        vec![s(""), s("\u{301}"), s("\u{334}\u{308}"), s("\u{1161}"), s("\u{11A8}"), s("a")],
    )
}

/// the standard word families for the exact-output properties
pub fn word_families(deep: bool) -> Vec<Box<dyn Family<char>>> {
    let (pre, suf) = contexts();
    let inter = interesting();
    let r1 = reps(if deep { 2 } else { 1 });
    let mut v: Vec<Box<dyn Family<char>>> = vec![Words::new("simple letters and marks", singles(&s("ae\u{301}\u{316}\u{E9}\u{1100}\u{1161}\u{11A8}")), 4)];
    v.push(Scalars::new("every scalar value in 6x6 contexts", pre, suf));
    v.push(Prod::new("all pairs of normalization-relevant characters", vec![singles(&inter), singles(&inter)]));
    v.push(Prod::new("all triples of class representatives", vec![singles(&r1), singles(&r1), singles(&r1)]));
    v.push(hangul_family());
    let cr = ccc_reps(1);
    v.push(Chains::new("every composite with every class of blocker at every gap", &cr, false));
    let mks: Vec<char> = inter.iter().copied().filter(|&x| ucd().ccc(x) != 0).collect();
    v.push(Chains::new("every composite with every non-starter at every gap", &mks, false));
    if deep {
        v.push(Chains::new("every composite with two blockers of any class at any gaps", &cr, true));
    }
    for (n, t) in themes() {
        v.push(Words::new(&format!("theme {}", n), t, if deep { 6 } else { 5 }));
    }
    v.extend(compose_states(deep));
    v.extend(class_sequences(deep));
    v.push(block_family(deep));
    if deep {
        let fw = Prod::new(
            "all pairs of normalization-relevant characters inside text",
            vec![vec![s("a\u{345}"), s("\u{1100}")], singles(&inter), singles(&inter), vec![s("\u{334}"), s("\u{301}\u{11A8}")]],
        );
        v.push(fw);
        v.push(class_states());
    }
    v.push(official_family());
    v.extend(run_families(deep));
    v.extend(stream_families(deep));
    v
}

#[allow(dead_code)]
pub fn describe_sets() -> String {
    let _ = Form::Nfc;
    format!("interesting={} reps1={} reps2={} ccc={}", interesting().len(), reps(1).len(), reps(2).len(), ccc_reps(1).len())
}
