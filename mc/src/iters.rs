//! Properties of the adapters as iterators: C15 (contract), C16 (size_hint), C17 (Clone, Display),
//! C18 (lookahead).  Every case is an operation sequence on one adapter over one source.

use crate::engine::{hash_chars, Check, Cov, Family};
use crate::fam::{self, s};
use crate::refmodel::{self, Form};
use crate::ucd::ucd;
use crate::words::show;
use std::cell::Cell;
use std::fmt::Write as _;
use std::rc::Rc;
use unicode_normalization::{Decompositions, Recompositions, Replacements, StreamSafe};

pub const KINDS: [&str; 6] = ["nfd", "nfkd", "nfc", "nfkc", "cjk_compat_variants", "stream_safe"];

macro_rules! with_adapter {
    ($kind:expr, $src:expr, $it:ident, $body:block) => {
        match $kind {
            0 => { #[allow(unused_mut)] let mut $it = Decompositions::new_canonical($src); $body }
            1 => { #[allow(unused_mut)] let mut $it = Decompositions::new_compatible($src); $body }
            2 => { #[allow(unused_mut)] let mut $it = Recompositions::new_canonical($src); $body }
            3 => { #[allow(unused_mut)] let mut $it = Recompositions::new_compatible($src); $body }
            4 => { #[allow(unused_mut)] let mut $it = Replacements::new_cjk_compat_variants($src); $body }
            5 => { #[allow(unused_mut)] let mut $it = StreamSafe::new($src); $body }
            _ => unreachable!(),
        }
    };
}
macro_rules! with_clone_adapter {
    ($kind:expr, $src:expr, $it:ident, $body:block) => {
        match $kind {
            0 => { #[allow(unused_mut)] let mut $it = Decompositions::new_canonical($src); $body }
            1 => { #[allow(unused_mut)] let mut $it = Decompositions::new_compatible($src); $body }
            2 => { #[allow(unused_mut)] let mut $it = Recompositions::new_canonical($src); $body }
            3 => { #[allow(unused_mut)] let mut $it = Recompositions::new_compatible($src); $body }
            4 => { #[allow(unused_mut)] let mut $it = Replacements::new_cjk_compat_variants($src); $body }
            _ => unreachable!(),
        }
    };
}

/// Source: the word, counted; after its end it answers None (fused) or starts again (unfused).
#[derive(Clone)]
pub struct Src {
    w: Rc<Vec<char>>,
    pos: usize,
    ended: usize,
    unfused: bool,
    hint: (usize, Option<usize>),
    hint_exact: bool,
    infinite: bool,
    pub given: Rc<Cell<usize>>,
    pub nones: Rc<Cell<usize>>,
    pub polls_after_end: Rc<Cell<usize>>,
    cap: usize,
}
impl Src {
    pub fn new(w: &Rc<Vec<char>>) -> Src {
        Src {
            w: w.clone(),
            pos: 0,
            ended: 0,
            unfused: false,
            hint: (0, None),
            hint_exact: false,
            infinite: false,
            given: Rc::new(Cell::new(0)),
            nones: Rc::new(Cell::new(0)),
            polls_after_end: Rc::new(Cell::new(0)),
            cap: usize::MAX,
        }
    }
}
impl Iterator for Src {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        if self.ended > 0 {
            self.polls_after_end.set(self.polls_after_end.get() + 1);
            if self.unfused && self.ended < 50 {
                self.ended += 1;
                // comes back to life: a character that would be visible in any output
                return if self.ended % 3 == 0 { None } else { Some(['z', '\u{301}', '\u{E9}'][self.ended % 3]) };
            }
            return None;
        }
        if self.infinite {
            if self.given.get() >= self.cap {
                panic!("source read {} characters ahead of what was requested", self.cap);
            }
            let c = self.w[self.pos % self.w.len()];
            self.pos += 1;
            self.given.set(self.given.get() + 1);
            return Some(c);
        }
        if self.pos < self.w.len() {
            self.pos += 1;
            self.given.set(self.given.get() + 1);
            Some(self.w[self.pos - 1])
        } else {
            self.ended = 1;
            self.nones.set(self.nones.get() + 1);
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.hint_exact {
            let n = if self.ended > 0 { 0 } else { self.w.len() - self.pos };
            return (n, Some(n));
        }
        self.hint
    }
}

/// the sequence delivered by next() calls alone
fn sequence(kind: u32, w: &Rc<Vec<char>>) -> Result<Vec<char>, String> {
    let mut out = Vec::new();
    let lim = w.len() * 20 + 40;
    with_adapter!(kind, Src::new(w), it, {
        while let Some(c) = it.next() {
            out.push(c);
            if out.len() > lim {
                return Err("output does not end".into());
            }
        }
    });
    Ok(out)
}

/// the expected sequence from the reference model
fn reference(kind: u32, w: &[char]) -> Vec<char> {
    let mut o = Vec::new();
    let mut t = Vec::new();
    match kind {
        0 => refmodel::normalize(w, Form::Nfd, &mut o),
        1 => refmodel::normalize(w, Form::Nfkd, &mut o),
        2 => refmodel::normalize(w, Form::Nfc, &mut o),
        3 => refmodel::normalize(w, Form::Nfkc, &mut o),
        4 => refmodel::cjk_variants(w, &mut o),
        _ => refmodel::stream_safe(w, &mut o, &mut t),
    }
    o
}

// ---------------------------------------------------------------- words and op sequences

fn letters() -> Vec<Vec<char>> {
    ["a", "\u{301}", "\u{316}", "\u{1EAD}", "\u{1100}", "\u{1161}", "\u{11A8}", "\u{AC01}", "\u{F900}", "\u{344}", "\u{FB03}", "\u{345}"]
        .iter()
        .map(|x| s(x))
        .collect()
}

pub fn small_words(depth: u32) -> Vec<Vec<char>> {
    let f = fam::Words::new("", letters(), depth);
    let mut v = Vec::new();
    for i in 0..f.len() {
        let mut w = Vec::new();
        f.fill(i, &mut w);
        v.push(w);
    }
    v
}

pub fn run_words(deep: bool) -> Vec<Vec<char>> {
    let mut v = Vec::new();
    let pats = ["\u{301}\u{316}", "\u{301}", "\u{316}\u{301}\u{334}", "\u{344}", "\u{345}\u{F81}"];
    let mut lens: Vec<usize> = (4..=9).collect();
    lens.extend([15, 16, 17, 20, 21, 29, 30, 31, 32, 33, 40, 61, 62]);
    if deep {
        lens = (3..=70).chain([100, 127, 128, 129, 255, 256, 257]).collect();
    }
    for p in pats {
        for &n in &lens {
            for (pre, suf) in [("", ""), ("a", "b"), ("e\u{302}", "\u{1100}\u{1161}\u{11A8}\u{316}"), ("", "\u{F900}\u{301}\u{316}c")] {
                let mut w = s(pre);
                let pp: Vec<char> = s(p);
                for k in 0..n {
                    w.push(pp[k % pp.len()]);
                }
                w.extend(s(suf));
                v.push(w);
            }
        }
    }
    for x in [
        "\u{FDFA}\u{301}\u{FDFA}",
        "a\u{301}\u{316}b\u{316}\u{301}c\u{301}d",
        "\u{AC01}\u{AC00}\u{11A8}\u{1100}\u{1161}",
        "\u{F900}\u{F901}a\u{F902}",
        "\u{1E69}\u{323}\u{307}\u{1E9B}\u{323}",
        "abcdefghij",
        "\u{DD9}\u{DCF}\u{DCA}\u{DD9}\u{DCA}\u{DCF}",
        "\u{11131}\u{11127}\u{301}\u{11131}\u{11127}",
    ] {
        v.push(s(x));
    }
    v
}

/// all words up to a depth over a wider alphabet
fn wide_small(depth: u32) -> Vec<Vec<char>> {
    let mut a = letters();
    a.extend(
        ["\u{DD9}", "\u{DCF}", "\u{DCA}", "\u{34F}", "\u{FDFA}", "\u{212B}", "\u{958}", "\u{30AB}", "\u{FF9E}", "\u{1F600}", "\u{11131}", "\u{11127}", "\u{2F800}", "\u{1E9B}", "\u{FC5E}"]
            .iter()
            .map(|x| s(x)),
    );
    let f = fam::Words::new("", a, depth);
    (0..f.len())
        .map(|i| {
            let mut w = Vec::new();
            f.fill(i, &mut w);
            w
        })
        .collect()
}

/// every ordered pair of class representatives
fn rep_pairs() -> Vec<Vec<char>> {
    let r = fam::reps(1);
    r.iter().flat_map(|&a| r.iter().map(move |&b| vec![a, b])).collect()
}

/// every normalization-relevant character in a few contexts
fn in_contexts() -> Vec<Vec<char>> {
    let mut v = Vec::new();
    for c in fam::interesting() {
        v.push(vec![c]);
        v.push(vec!['a', c, '\u{301}', 'b']);
        v.push(vec!['\u{316}', c, c, '\u{1161}']);
    }
    v
}

/// long texts with unremarkable or busy middles
fn long_words(deep: bool) -> Vec<Vec<char>> {
    let mut v = Vec::new();
    let mut lens = vec![31usize, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512, 513, 1000, 1024];
    if deep {
        lens = (31..=140).chain([200, 255, 256, 257, 258, 300, 400, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2048, 4095, 4096, 4097]).collect();
    }
    for n in lens {
        for pat in ["x", "\u{E9}", "\u{4E2D}", "e\u{316}\u{301}", "\u{AC01}", "\u{1100}\u{1161}", "\u{F900}", "\u{1E69}\u{323}", "\u{301}\u{316}"] {
            for suf in ["", "a\u{30D}\u{316}", "\u{11A8}", "\u{344}b", "\u{F900}"] {
                let p = s(pat);
                let mut w: Vec<char> = (0..n).map(|k| p[k % p.len()]).collect();
                w.extend(s(suf));
                v.push(w);
            }
        }
    }
    v
}

/// positions given as sixteenths of the sequence, for long words: 17 inner points and the four last ones
const FRACTIONS: u32 = 21;
const FRACTION: u32 = 1_000_000;
fn position(v: u32, len: usize) -> usize {
    if v < FRACTION {
        return v as usize;
    }
    match (v - FRACTION) as usize {
        f @ 0..=16 => len * f / 16,
        f => len.saturating_sub(f - 16),
    }
}

/// case layout: [kind, nops, op.., word..]
struct OpFamily {
    name: String,
    words: Vec<Vec<char>>,
    kinds: u32,
    /// number of alternatives of each op position
    menu: Vec<u32>,
    /// added to the first operation
    base: u32,
}
impl OpFamily {
    fn new(name: &str, words: Vec<Vec<char>>, kinds: u32, menu: Vec<u32>) -> Box<dyn Family<u32>> {
        Box::new(OpFamily { name: name.into(), words, kinds, menu, base: 0 })
    }
    fn fractions(name: &str, words: Vec<Vec<char>>, kinds: u32, mut menu: Vec<u32>) -> Box<dyn Family<u32>> {
        menu.insert(0, FRACTIONS);
        Box::new(OpFamily { name: name.into(), words, kinds, menu, base: FRACTION })
    }
}
impl Family<u32> for OpFamily {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.words.len() as u64 * self.kinds as u64 * self.menu.iter().map(|&m| m as u64).product::<u64>()
    }
    fn fill(&self, mut i: u64, out: &mut Vec<u32>) {
        out.push((i % self.kinds as u64) as u32);
        i /= self.kinds as u64;
        out.push(self.menu.len() as u32);
        for (x, &m) in self.menu.iter().enumerate() {
            out.push((i % m as u64) as u32 + if x == 0 { self.base } else { 0 });
            i /= m as u64;
        }
        out.extend(self.words[i as usize].iter().map(|&c| c as u32));
    }
    fn weight(&self) -> u64 {
        4 + self.words.iter().map(|w| w.len() as u64).sum::<u64>() / self.words.len().max(1) as u64 / 2
    }
}

fn decode(case: &[u32]) -> (u32, &[u32], Rc<Vec<char>>) {
    let n = case[1] as usize;
    let w: Vec<char> = case[2 + n..].iter().map(|&v| char::from_u32(v).unwrap()).collect();
    (case[0], &case[2..2 + n], Rc::new(w))
}

// ---------------------------------------------------------------- C15

const MIDS: u32 = 11;
const TERMS: u32 = 11;
/// with the less common consuming methods
const ALL_TERMS: u32 = 24;

/// ops: [k, mid, mid, terminal]; mid 0 = nothing
fn c15(case: &[u32]) -> Result<Cov, String> {
    let (kind, ops, w) = decode(case);
    let e = sequence(kind, &w)?;
    let name = KINDS[kind as usize];
    let k = position(ops[0], e.len());
    if k > e.len() + 2 {
        return Ok(Cov::default());
    }
    let mut steps = e.len() as u64 + 1;
    if kind >= 4 {
        // these pass their source's end on when it first comes, whatever the source would say later
        let mut src = Src::new(&w);
        src.unfused = true;
        let (nones, after) = (src.nones.clone(), src.polls_after_end.clone());
        let mut got = Vec::new();
        with_adapter!(kind, src, it, {
            while let Some(c) = it.next() {
                got.push(c);
                if got.len() > e.len() {
                    break;
                }
            }
        });
        steps += got.len() as u64 + 1;
        if got != e || nones.get() != 1 || after.get() != 0 {
            return Err(format!(
                "{}(\"{}\") over a source that is not fused: \"{}\" before the first None ({} reads past the end), want \"{}\"",
                name, show(&w), show(&got), after.get(), show(&e)));
        }
    }
    let unfused = kind < 4; // the normalization adapters must be safe over any source
    let mut src = Src::new(&w);
    src.unfused = unfused;
    src.hint_exact = !unfused;
    let (nones, after) = (src.nones.clone(), src.polls_after_end.clone());
    let mut trace = format!("next x {}", k);
    with_adapter!(kind, src, it, {
        let mut p = 0usize;
        for i in 0..k {
            let got = it.next();
            if got != e.get(i).copied() {
                return Err(format!("{}(\"{}\"): call {} of next() gave {:?}, want {:?}", name, show(&w), i, got, e.get(i)));
            }
            steps += 1;
            p = (p + 1).min(e.len());
        }
        let n = ops.len();
        for &m in &ops[1..n - 1] {
            let rest = &e[p.min(e.len())..];
            let (got, want, adv): (Vec<char>, Vec<char>, usize) = match m {
                0 => (vec![], vec![], 0),
                1 => (it.nth(0).into_iter().collect(), rest.first().copied().into_iter().collect(), 1),
                2 => (it.nth(1).into_iter().collect(), rest.get(1).copied().into_iter().collect(), 2),
                3 => (it.nth(4).into_iter().collect(), rest.get(4).copied().into_iter().collect(), 5),
                4 => (it.by_ref().take(2).collect(), rest.iter().take(2).copied().collect(), 2),
                5 => {
                    // stop in the middle of an internal iteration
                    let mut seen = Vec::new();
                    let _ = it.try_for_each(|c| {
                        seen.push(c);
                        if seen.len() == 3 { Err(()) } else { Ok(()) }
                    });
                    (seen, rest.iter().take(3).copied().collect(), 3)
                }
                6 => {
                    let g = it.find(|&c| c > '\u{300}');
                    let q = rest.iter().position(|&c| c > '\u{300}');
                    (g.into_iter().collect(), q.map(|q| rest[q]).into_iter().collect(), q.map_or(rest.len(), |q| q + 1))
                }
                7 => {
                    let g: Vec<char> = it.by_ref().step_by(2).take(2).collect();
                    let v: Vec<char> = rest.iter().copied().step_by(2).take(2).collect();
                    // step_by may leave the position after the last taken item
                    (g, v, 3)
                }
                8 => {
                    let b = it.any(|c| c == '\u{316}' || c == 'b');
                    let q = rest.iter().position(|&c| c == '\u{316}' || c == 'b');
                    let f = |b: bool| if b { vec!['y'] } else { vec!['n'] };
                    (f(b), f(q.is_some()), q.map_or(rest.len(), |q| q + 1))
                }
                9 => {
                    let b = it.position(|c| c >= '\u{301}');
                    let q = rest.iter().position(|&c| c >= '\u{301}');
                    let f = |b: Option<usize>| vec!['#'; b.map_or(0, |x| x + 1)];
                    (f(b), f(q), q.map_or(rest.len(), |q| q + 1))
                }
                _ => {
                    // peekable / scan style adaptors on top, by reference
                    let mut pk = it.by_ref().peekable();
                    let a = pk.peek().copied();
                    let b = pk.next();
                    if a != b {
                        return Err(format!("{}: peek {:?} and next {:?} disagree", name, a, b));
                    }
                    (b.into_iter().collect(), rest.first().copied().into_iter().collect(), 1)
                }
            };
            steps += got.len() as u64 + 1;
            trace.push_str(&format!(", mid {}", m));
            if got != want {
                return Err(format!("{}(\"{}\") after [{}]: got \"{}\" want \"{}\"", name, show(&w), trace, show(&got), show(&want)));
            }
            p = (p + adv).min(e.len());
        }
        let rest = &e[p..];
        let t = ops[n - 1];
        trace.push_str(&format!(", terminal {}", t));
        let mut ended = true;
        let (got, want): (Vec<char>, Vec<char>) = match t {
            0 => (it.by_ref().collect(), rest.to_vec()),
            1 => (it.by_ref().fold(Vec::new(), |mut v, c| { v.push(c); v }), rest.to_vec()),
            2 => {
                let mut v = Vec::new();
                for c in it.by_ref() {
                    v.push(c);
                }
                (v, rest.to_vec())
            }
            3 => {
                let c = it.by_ref().count();
                (vec!['#'; c], vec!['#'; rest.len()])
            }
            4 => (it.by_ref().last().into_iter().collect(), rest.last().copied().into_iter().collect()),
            5 => {
                let mut v = Vec::new();
                while let Some(c) = it.next() {
                    v.push(c);
                }
                (v, rest.to_vec())
            }
            // consuming the adapter by value: an overridden fold / count / last is used
            6 => {
                ended = false;
                let v = it.fold(Vec::new(), |mut v, c| { v.push(c); v });
                if v != rest {
                    return Err(format!("{}(\"{}\") after [{}]: got \"{}\" want \"{}\"", name, show(&w), trace, show(&v), show(rest)));
                }
                return finish(&w, name, &trace, kind, &nones, &after, steps + v.len() as u64, &e, ended);
            }
            7 => {
                ended = false;
                let c = it.count();
                if c != rest.len() {
                    return Err(format!("{}(\"{}\") after [{}]: count {} want {}", name, show(&w), trace, c, rest.len()));
                }
                return finish(&w, name, &trace, kind, &nones, &after, steps + 1, &e, ended);
            }
            9 => {
                ended = false;
                let mut v = Vec::new();
                it.for_each(|c| v.push(c));
                if v != rest {
                    return Err(format!("{}(\"{}\") after [{}]: for_each saw \"{}\" want \"{}\"", name, show(&w), trace, show(&v), show(rest)));
                }
                return finish(&w, name, &trace, kind, &nones, &after, steps + v.len() as u64, &e, ended);
            }
            10 => {
                ended = false;
                let v = it.collect::<String>();
                if !v.chars().eq(rest.iter().copied()) {
                    return Err(format!("{}(\"{}\") after [{}]: collected \"{}\" want \"{}\"", name, show(&w), trace, show(&v.chars().collect::<Vec<_>>()), show(rest)));
                }
                return finish(&w, name, &trace, kind, &nones, &after, steps + rest.len() as u64, &e, ended);
            }
            11..=23 => {
                ended = false;
                let mut r = rest.iter().copied();
                let lo = |c: char| c < '\u{300}';
                let (ok, what) = match t {
                    11 => (it.eq(r), "eq"),
                    12 => (it.collect::<Vec<char>>() == rest, "collect"),
                    13 => (it.reduce(|a, b| if a as u32 % 7 > b as u32 % 5 { a } else { b }) == r.reduce(|a, b| if a as u32 % 7 > b as u32 % 5 { a } else { b }), "reduce"),
                    14 => (it.max() == r.max(), "max"),
                    15 => (it.min() == r.min(), "min"),
                    16 => (it.partition::<Vec<char>, _>(|&c| lo(c)) == r.partition::<Vec<char>, _>(|&c| lo(c)), "partition"),
                    17 => (it.cmp(r) == std::cmp::Ordering::Equal, "cmp"),
                    18 => {
                        let mut v = vec!['!'];
                        v.extend(it);
                        (v[1..] == *rest, "extend")
                    }
                    19 => {
                        let mut v = String::from("!");
                        v.extend(it);
                        (v[1..].chars().eq(r), "String::extend")
                    }
                    20 => (it.zip(0..).fold(0usize, |a, (c, i)| a.wrapping_mul(31).wrapping_add(c as usize * i)) == r.zip(0..).fold(0usize, |a, (c, i)| a.wrapping_mul(31).wrapping_add(c as usize * i)), "zip"),
                    21 => (it.skip(2).step_by(2).collect::<Vec<_>>() == r.skip(2).step_by(2).collect::<Vec<_>>(), "skip and step_by"),
                    22 => (it.chain(Some('!')).map(|c| c as usize).sum::<usize>() == r.map(|c| c as usize).sum::<usize>() + 33, "chain and sum"),
                    _ => (it.all(|c| c != '\u{301}') == r.all(|c| c != '\u{301}'), "all"),
                };
                if !ok {
                    return Err(format!("{}(\"{}\") after [{}]: {} disagrees with next() over \"{}\"", name, show(&w), trace, what, show(rest)));
                }
                return finish(&w, name, &trace, kind, &nones, &after, steps + rest.len() as u64, &e, ended);
            }
            _ => {
                ended = false;
                let c = it.last();
                if c != rest.last().copied() {
                    return Err(format!("{}(\"{}\") after [{}]: last {:?} want {:?}", name, show(&w), trace, c, rest.last()));
                }
                return finish(&w, name, &trace, kind, &nones, &after, steps + 1, &e, ended);
            }
        };
        steps += got.len() as u64 + 1;
        if got != want {
            return Err(format!("{}(\"{}\") after [{}]: got \"{}\" want \"{}\"", name, show(&w), trace, show(&got), show(&want)));
        }
        for _ in 0..3 {
            if let Some(c) = it.next() {
                return Err(format!("{}(\"{}\") after [{}]: yielded {:?} after it had returned None", name, show(&w), trace, c));
            }
        }
        if it.by_ref().count() != 0 || it.nth(2).is_some() {
            return Err(format!("{}(\"{}\") after [{}]: yielded items after it had returned None", name, show(&w), trace));
        }
        finish(&w, name, &trace, kind, &nones, &after, steps, &e, ended)
    })
}

fn finish(w: &[char], name: &str, trace: &str, kind: u32, nones: &Cell<usize>, after: &Cell<usize>, steps: u64, e: &[char], _ended: bool) -> Result<Cov, String> {
    if kind < 4 && (after.get() > 0 || nones.get() > 1) {
        return Err(format!(
            "{}(\"{}\") after [{}]: asked its source again {} times after the source's first None",
            name,
            show(w),
            trace,
            after.get()
        ));
    }
    Ok(Cov { transitions: steps, traces: 1, state: hash_chars(15 + kind as u64, e) })
}

// ---------------------------------------------------------------- C16

/// ops: [hint style]
fn c16(case: &[u32]) -> Result<Cov, String> {
    let (kind, ops, w) = decode(case);
    let name = KINDS[kind as usize];
    let style = ops[0];
    let total = sequence(kind, &w)?.len();
    let n = w.len();
    let mut steps = 0;
    if style >= 100 || (style >= 7 && style <= 9) {
        // infinite sources announcing the largest lower bounds
        if w.is_empty() {
            return Ok(Cov::default());
        }
        let mut src = Src::new(&w);
        src.infinite = true;
        src.cap = 100_000;
        src.hint = match style {
            7 => (usize::MAX, None),
            8 => (usize::MAX - 1, None),
            _ => (usize::MAX / 2 + 1, None),
        };
        // an infinite run of non-starters never yields a decomposed item
        if kind < 4 {
            let mut t = Vec::new();
            refmodel::decompose_all(&w, true, &mut t);
            let mut t2 = Vec::new();
            refmodel::decompose_all(&w, false, &mut t2);
            if !t.iter().any(|&c| ucd().ccc(c) == 0) || !t2.iter().any(|&c| ucd().ccc(c) == 0) || composes_forever(&w, kind) {
                return Ok(Cov::default());
            }
        }
        return with_adapter!(kind, src, it, {
            for k in 0..3 * n + 12 {
                let (_, hi) = it.size_hint();
                if let Some(h) = hi {
                    return Err(format!("{}: size_hint over an unending source claims at most {} items", name, h));
                }
                steps += 1;
                if it.next().is_none() {
                    return Err(format!("{}: ended at item {} of an unending source (\"{}\" repeated)", name, k, show(&w)));
                }
            }
            Ok(Cov { transitions: steps, traces: 1, state: hash_chars(16, &w) })
        });
    }
    let mut src = Src::new(&w);
    match style {
        0 => src.hint_exact = true,
        1 => src.hint = (0, None),
        2 => src.hint = (0, Some(usize::MAX)),
        3 => src.hint = (0, Some(n)),
        _ => src.hint_exact = false,
    }
    if style == 4 {
        src.hint = (0, Some(usize::MAX / 2 + 3));
    }
    let check = |k: usize, (lo, hi): (usize, Option<usize>)| -> Result<(), String> {
        let rem = total.saturating_sub(k);
        if lo > rem {
            return Err(format!("{}(\"{}\") after {} items: size_hint lower bound {} but only {} items remain", name, show(&w), k, lo, rem));
        }
        if let Some(h) = hi {
            if h < rem {
                return Err(format!("{}(\"{}\") after {} items: size_hint upper bound {} but {} items remain", name, show(&w), k, h, rem));
            }
        }
        Ok(())
    };
    if style == 5 {
        // a plain std source, by way of the standard exact-size iterators
        return with_adapter!(kind, w.iter().copied(), it, {
            for k in 0..=total + 2 {
                check(k, it.size_hint())?;
                it.next();
                steps += 2;
            }
            Ok(Cov { transitions: steps, traces: 1, state: hash_chars(16 + kind as u64, &w) })
        });
    }
    if style == 6 {
        let st: String = w.iter().collect();
        return with_adapter!(kind, st.chars(), it, {
            for k in 0..=total + 2 {
                check(k, it.size_hint())?;
                it.next();
                steps += 2;
            }
            Ok(Cov { transitions: steps, traces: 1, state: hash_chars(16 + kind as u64, &w) })
        });
    }
    with_adapter!(kind, src, it, {
        for k in 0..=total + 2 {
            check(k, it.size_hint())?;
            it.next();
            steps += 2;
        }
        Ok(Cov { transitions: steps, traces: 1, state: hash_chars(16 + kind as u64, &w) })
    })
}

/// would the repetition of w compose (or stay composable) without end, so that NFC may never emit?
fn composes_forever(w: &[char], kind: u32) -> bool {
    if kind < 2 || kind > 3 {
        return false;
    }
    let mut big = Vec::new();
    for _ in 0..8 {
        big.extend_from_slice(w);
    }
    let mut a = Vec::new();
    refmodel::normalize(&big, if kind == 2 { Form::Nfc } else { Form::Nfkc }, &mut a);
    a.iter().filter(|&&c| ucd().ccc(c) == 0).count() < 8
}

// ---------------------------------------------------------------- C17

struct Failing {
    left: usize,
    got: String,
}
impl std::fmt::Write for Failing {
    fn write_str(&mut self, x: &str) -> std::fmt::Result {
        for c in x.chars() {
            if self.left == 0 {
                return Err(std::fmt::Error);
            }
            self.left -= 1;
            self.got.push(c);
        }
        Ok(())
    }
}

/// ops: [k]: everything about clones and formatting after k items
fn c17(case: &[u32]) -> Result<Cov, String> {
    let (kind, ops, w) = decode(case);
    let name = KINDS[kind as usize];
    let e = sequence(kind, &w)?;
    let k = position(ops[0], e.len());
    if k > e.len() + 1 {
        return Ok(Cov::default());
    }
    let rest: Vec<char> = e[k.min(e.len())..].to_vec();
    let text: String = rest.iter().collect();
    let mut steps = 0u64;
    let mut traces = 0u64;
    with_clone_adapter!(kind, Src::new(&w), base, {
        let first = base.clone();
        for _ in 0..k {
            base.next();
        }
        // Display
        let shown = format!("{}", base);
        if shown != text {
            return Err(format!("Display of {}(\"{}\") after {} items writes \"{}\", want \"{}\"", name, show(&w), k, show(&shown.chars().collect::<Vec<_>>()), show(&rest)));
        }
        if base.to_string() != text || format!("{:>12}", base) != text || format!("{:.1}", base) != text || format!("{:#}", base) != text || format!("{:+<5}", base) != text || format!("{:04}", base) != text {
            return Err(format!("Display of {}(\"{}\") after {} items depends on how it is formatted", name, show(&w), k));
        }
        let maxj = rest.len().min(24);
        let mut js: Vec<usize> = (0..=maxj).collect();
        if rest.len() > 24 {
            js.extend([rest.len() - 1, rest.len()]);
        }
        for j in js {
            let mut f = Failing { left: j, got: String::new() };
            let r = write!(f, "{}", base);
            if r.is_err() != (rest.len() > j) {
                return Err(format!("Display of {}(\"{}\") after {} items into a writer failing after {} characters returned {:?}", name, show(&w), k, j, r));
            }
            if !text.starts_with(&f.got) {
                return Err(format!("Display of {}(\"{}\") wrote \"{}\" into a failing writer", name, show(&w), show(&f.got.chars().collect::<Vec<_>>())));
            }
            steps += 1;
        }
        // interleavings of the original and its clone; also clone of the clone
        let r = rest.len() + 1;
        let mut schedules: Vec<Vec<u8>> = Vec::new();
        if r <= 5 {
            // all interleavings of r steps each
            for m in 0u32..1 << (2 * r) {
                if m.count_ones() as usize == r {
                    schedules.push((0..2 * r).map(|i| (m >> i & 1) as u8).collect());
                }
            }
        } else {
            schedules.push([vec![0; r], vec![1; r]].concat());
            schedules.push([vec![1; r], vec![0; r]].concat());
            schedules.push((0..2 * r).map(|i| (i % 2) as u8).collect());
            schedules.push((0..2 * r).map(|i| 1 - (i % 2) as u8).collect());
            // bursts of three
            let mut v = Vec::new();
            let (mut a, mut b) = (r, r);
            while a + b > 0 {
                for _ in 0..3.min(a) { v.push(0); }
                a -= 3.min(a);
                for _ in 0..2.min(b) { v.push(1); }
                b -= 2.min(b);
            }
            schedules.push(v);
        }
        for sch in &schedules {
            let mut x = [base.clone(), base.clone()];
            let mut pos = [0usize; 2];
            traces += 1;
            for (step, &who) in sch.iter().enumerate() {
                let i = who as usize;
                let g = x[i].next();
                steps += 1;
                if g != rest.get(pos[i]).copied() {
                    return Err(format!(
                        "{}(\"{}\") cloned after {} items: {} gave {:?}, want {:?} at step {} of interleaving {:?}",
                        name, show(&w), k, ["first copy", "second copy"][i], g, rest.get(pos[i]), step, sch
                    ));
                }
                pos[i] += 1;
            }
        }
        // a copy made into an adapter that is in another state
        for j in [0usize, 1, 2, 3, e.len()] {
            let mut x = first.clone();
            for _ in 0..j {
                x.next();
            }
            x.clone_from(&base);
            let v: Vec<char> = x.collect();
            steps += v.len() as u64 + 1;
            if v != rest {
                return Err(format!("{}(\"{}\"): clone_from a copy at item {} into one at item {} continues with \"{}\"", name, show(&w), k, j, show(&v)));
            }
        }
        // the original after all that, with a clone taken at every step
        let mut i = 0;
        loop {
            let mut cl = base.clone();
            let g = base.next();
            let h = cl.next();
            steps += 2;
            if g != rest.get(i).copied() || h != g {
                return Err(format!("{}(\"{}\") after {} items: original gave {:?}, its clone {:?}, want {:?}", name, show(&w), k + i, g, h, rest.get(i)));
            }
            if i % 3 == 0 {
                let tail: Vec<char> = cl.collect();
                if tail[..] != rest[(i + 1).min(rest.len())..] {
                    return Err(format!("{}(\"{}\"): clone taken after {} items continues with \"{}\"", name, show(&w), k + i, show(&tail)));
                }
            }
            if g.is_none() {
                break;
            }
            i += 1;
        }
        Ok(Cov { transitions: steps, traces, state: hash_chars(17 + kind as u64, &rest) })
    })
}

// ---------------------------------------------------------------- C18

/// for each output item, the number of source characters that may have been read when it is returned
fn bounds(kind: u32, w: &[char]) -> (Vec<char>, Vec<usize>) {
    let u = ucd();
    let n = w.len();
    if kind >= 4 {
        let mut out = Vec::new();
        let mut b = Vec::new();
        let mut t = Vec::new();
        if kind == 4 {
            for (i, &c) in w.iter().enumerate() {
                refmodel::cjk_variants(&[c], &mut t);
                for &d in &t {
                    out.push(d);
                    b.push(i + 1);
                }
            }
        } else {
            refmodel::stream_safe(w, &mut out, &mut t);
            let mut i = 0;
            for &c in &out {
                if i < n && c == w[i] && !(c == refmodel::CGJ && false) {
                    i += 1;
                    b.push(i);
                } else {
                    b.push(i + 1);
                }
            }
        }
        return (out, b);
    }
    // decomposed items with the index of their source character
    let mut d: Vec<(char, usize)> = Vec::new();
    let mut t = Vec::new();
    for (i, &c) in w.iter().enumerate() {
        t.clear();
        refmodel::decompose_char(u, c, kind % 2 == 1, &mut t);
        for &x in &t {
            d.push((x, i));
        }
    }
    // stable order inside runs
    let mut i = 0;
    while i < d.len() {
        if u.ccc(d[i].0) == 0 {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < d.len() && u.ccc(d[j].0) != 0 {
            j += 1;
        }
        d[i..j].sort_by_key(|x| u.ccc(x.0));
        i = j;
    }
    let next_starter = |p: usize| -> usize { d[p..].iter().find(|x| u.ccc(x.0) == 0).map_or(n, |x| x.1 + 1) };
    let mut out = Vec::new();
    let mut b = Vec::new();
    if kind < 2 {
        for p in 0..d.len() {
            out.push(d[p].0);
            b.push(if u.ccc(d[p].0) == 0 { d[p].1 + 1 } else { next_starter(p) });
        }
        return (out, b);
    }
    // composition: (char, bound); the bound of a segment is set when its end is seen
    let mut seg_start = 0usize; // first output index of the open segment
    let mut starter: Option<usize> = None;
    let mut maxccc: Option<u8> = None;
    for p in 0..d.len() {
        let (c, src) = d[p];
        let cc = u.ccc(c);
        if let Some(k) = starter {
            let blocked = maxccc.map_or(false, |m| cc == 0 || m >= cc);
            if !blocked {
                if let Some(q) = refmodel::compose_pair(u, out[k], c) {
                    out[k] = q;
                    continue;
                }
            }
        }
        if cc == 0 {
            if starter.is_some() {
                for x in &mut b[seg_start..] {
                    *x = src + 1;
                }
            }
            seg_start = out.len();
            starter = Some(out.len());
            maxccc = None;
            out.push(c);
            b.push(n);
        } else {
            out.push(c);
            if starter.is_some() {
                maxccc = Some(maxccc.map_or(cc, |m| m.max(cc)));
                b.push(n);
            } else {
                b.push(next_starter(p));
            }
        }
    }
    (out, b)
}

/// ops: [0 = the word once, n = the word repeated n times without end]
fn c18(case: &[u32]) -> Result<Cov, String> {
    let (kind, ops, w) = decode(case);
    let name = KINDS[kind as usize];
    let mut steps = 0;
    let (word, infinite) = if ops[0] == 0 { (w.clone(), false) } else {
        if w.is_empty() {
            return Ok(Cov::default());
        }
        let mut v = Vec::new();
        for _ in 0..5 {
            v.extend_from_slice(&w);
        }
        (Rc::new(v), true)
    };
    let (out, b) = bounds(kind, &word);
    let mut src = Src::new(if infinite { &w } else { &word });
    src.infinite = infinite;
    src.cap = word.len() + 1;
    let given = src.given.clone();
    with_adapter!(kind, src, it, {
        for k in 0..out.len() {
            if infinite && b[k] >= word.len() {
                break; // beyond the unrolled part
            }
            let g = it.next();
            steps += 1;
            if g != Some(out[k]) {
                return Err(format!("{}(\"{}\"): item {} is {:?}, want {:?}", name, show(&word), k, g, out[k]));
            }
            if given.get() > b[k] {
                return Err(format!(
                    "{}(\"{}\"{}): had read {} source characters when returning item {} ({:?}); {} suffice",
                    name, show(&word), if infinite { " without end" } else { "" }, given.get(), k, out[k], b[k]
                ));
            }
        }
    });
    Ok(Cov { transitions: steps, traces: 1, state: hash_chars(18 + kind as u64, &out) })
}

/// the first read happens only when an item is requested
fn lazy(case: &[u32]) -> Result<(), String> {
    let (kind, _, w) = decode(case);
    let src = Src::new(&w);
    let (g, n) = (src.given.clone(), src.nones.clone());
    with_adapter!(kind, src, it, {
        let _ = it.size_hint();
        if g.get() + n.get() > 0 {
            return Err(format!("{}: reads its source before an item is requested", KINDS[kind as usize]));
        }
    });
    Ok(())
}

pub fn build(id: &str, deep: bool) -> Option<Check<'static, u32>> {
    let small = small_words(3);
    let mid = small_words(if deep { 4 } else { 3 });
    let runs = run_words(deep);
    let longest = |ws: &Vec<Vec<char>>, kinds: u32| -> u32 {
        ws.iter().map(|w| (0..kinds).map(|k| reference(k, w).len()).max().unwrap()).max().unwrap() as u32
    };
    let simple = |f: fn(&[u32]) -> Result<Cov, String>, families: Vec<Box<dyn Family<u32>>>| Check {
        families,
        make: Box::new(move || Box::new(f)),
        shrink: false,
    };
    Some(match id {
        "C15" => {
            let two = small_words(2);
            let mut f: Vec<Box<dyn Family<u32>>> = vec![
                OpFamily::new("words<=3 x consumed 0..12 x every consuming method", mid, 6, vec![12, ALL_TERMS]),
                OpFamily::new("words<=3 x consumed 0..5 x one partial operation x terminal", small, 6, vec![6, MIDS, TERMS]),
                OpFamily::new("words<=2 x consumed 0..3 x two partial operations x terminal", two, 6, vec![4, MIDS, MIDS, TERMS]),
                OpFamily::new("run words x consumed 0..40 x one partial operation x terminal", runs.clone(), 6, vec![if deep { 70 } else { 40 }, MIDS, TERMS]),
                OpFamily::new("run words x consumed 0..40 x every consuming method", runs.clone(), 6, vec![40, ALL_TERMS]),
                OpFamily::new("every relevant character in contexts x consumed 0..5 x every consuming method", in_contexts(), 6, vec![6, ALL_TERMS]),
                OpFamily::new("words<=3 over 27 letters x consumed 0..7 x terminal", wide_small(3), 6, vec![8, TERMS]),
                OpFamily::new("pairs of class representatives x consumed 0..4 x one partial operation x terminal", rep_pairs(), 6, vec![if deep { 8 } else { 5 }, MIDS, TERMS]),
                OpFamily::new("every relevant character in contexts x consumed 0..5 x one partial operation x terminal", in_contexts(), 6, vec![if deep { 12 } else { 6 }, MIDS, TERMS]),
                OpFamily::fractions("long words x position x one partial operation x terminal", long_words(deep), 6, vec![if deep { MIDS } else { 5 }, TERMS]),
            ];
            if deep {
                f.push(OpFamily::new("words<=4 over 27 letters x consumed 0..7 x terminal", wide_small(4), 6, vec![8, TERMS]));
                f.push(OpFamily::new("words<=3 x consumed 0..3 x three partial operations x terminal", small_words(3), 6, vec![4, MIDS, MIDS, MIDS, TERMS]));
            }
            simple(c15, f)
        }
        "C16" => simple(
            c16,
            vec![
                OpFamily::new("words x source hints, at every step", small_words(if deep { 6 } else { 5 }), 6, vec![10]),
                OpFamily::new("words over 27 letters x source hints, at every step", wide_small(if deep { 4 } else { 3 }), 6, vec![10]),
                OpFamily::new("pairs of class representatives x source hints, at every step", rep_pairs(), 6, vec![10]),
                OpFamily::new("every relevant character in contexts x source hints, at every step", in_contexts(), 6, vec![10]),
                OpFamily::new("long words x source hints, at every step", long_words(deep), 6, vec![10]),
                OpFamily::new("run words x source hints, at every step", runs, 6, vec![10]),
            ],
        ),
        "C17" => {
            let k = longest(&runs, 5).min(if deep { 300 } else { 80 }) + 2;
            simple(
                c17,
                vec![
                    OpFamily::new("words, cloned and formatted after every number of items", small_words(if deep { 5 } else { 4 }), 5, vec![20]),
                    OpFamily::new("words over 27 letters, cloned and formatted after 0..10 items", wide_small(if deep { 4 } else { 3 }), 5, vec![11]),
                    OpFamily::new("pairs of class representatives, cloned and formatted after 0..8 items", rep_pairs(), 5, vec![9]),
                    OpFamily::new("every relevant character in contexts, cloned and formatted after 0..8 items", in_contexts(), 5, vec![9]),
                    OpFamily::fractions("long words, cloned and formatted at 21 positions", long_words(deep), 5, vec![]),
                    OpFamily::new("run words, cloned and formatted after every number of items", runs, 5, vec![k]),
                ],
            )
        }
        "C18" => simple(
            |c: &[u32]| {
                lazy(c)?;
                c18(c)
            },
            vec![
                OpFamily::new("words, once and without end", small_words(if deep { 6 } else { 5 }), 6, vec![2]),
                OpFamily::new("words over 27 letters, once and without end", wide_small(if deep { 4 } else { 3 }), 6, vec![2]),
                OpFamily::new("every relevant character in contexts, once and without end", in_contexts(), 6, vec![2]),
                OpFamily::new("long words, once and without end", long_words(deep), 6, vec![2]),
                OpFamily::new("run words, once and without end", runs, 6, vec![2]),
                OpFamily::new(
                    "class representatives pairs and composing chains",
                    {
                        let r = fam::reps(1);
                        let mut v = Vec::new();
                        for &a in &r {
                            for &b in &r {
                                v.push(vec![a, b]);
                                if deep {
                                    for &c in r.iter().step_by(3) {
                                        v.push(vec![a, b, c]);
                                    }
                                }
                            }
                        }
                        for &(a, b, p) in &ucd().composites {
                            let (a, b, p) = (char::from_u32(a).unwrap(), char::from_u32(b).unwrap(), char::from_u32(p).unwrap());
                            for t in ["a", "\u{316}\u{301}b", "\u{1161}c", "\u{DCF}d", "\u{344}"] {
                                let mut w = vec![a, b];
                                w.extend(s(t));
                                v.push(w);
                                let mut w = vec![p];
                                w.extend(s(t));
                                v.push(w.clone());
                                w.insert(0, 'x');
                                v.push(w);
                            }
                        }
                        v
                    },
                    6,
                    vec![2],
                ),
            ],
        ),
        _ => return None,
    })
}
