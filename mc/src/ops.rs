//! Every public operation of the crate as a value, for the properties about the crate as a whole
//! (C20 isolation, C21 totality, C22 configurations).

use crate::imp::check_char;
use unicode_normalization::{self as un, IsNormalized, UnicodeNormalization};

pub const CHAR_OPS: u32 = 7;
pub const WORD_OPS: u32 = 23;

#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    /// 0 ccc, 1 mark, 2 assigned, 3 canonical, 4 compatible, 5 cjk, 6 the six adapters from a char
    Char(u32, char),
    Compose(char, char),
    /// see word_op
    Word(u32, Vec<char>),
}

pub struct Digest(pub u64, pub Option<String>);
impl Digest {
    pub fn new() -> Digest {
        Digest(0xcbf2_9ce4_8422_2325, None)
    }
    #[inline]
    pub fn put(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x0000_0100_0000_01b3);
        self.0 ^= self.0 >> 29;
    }
    #[inline]
    pub fn ch(&mut self, c: char) {
        if let Err(e) = check_char(c) {
            self.1 = Some(e);
        }
        self.put(c as u64 + 1);
    }
    #[inline]
    fn items<I: Iterator<Item = char>>(&mut self, it: I, limit: usize) {
        let mut it = it;
        let (lo, hi) = it.size_hint();
        self.put(lo as u64);
        self.put(hi.map_or(u64::MAX, |v| v as u64));
        let mut n = 0;
        while let Some(c) = it.next() {
            self.ch(c);
            n += 1;
            if n > limit {
                self.1 = Some("output does not end".into());
                break;
            }
        }
        self.put(0xFFFF_FFFF ^ n as u64);
    }
    fn qc(&mut self, q: IsNormalized) {
        self.put(match q {
            IsNormalized::Yes => 11,
            IsNormalized::No => 12,
            IsNormalized::Maybe => 13,
        });
    }
}

#[inline(never)]
pub fn char_op(k: u32, c: char, d: &mut Digest) {
    match k {
        0 => d.put(un::char::canonical_combining_class(c) as u64 + 7),
        1 => d.put(un::char::is_combining_mark(c) as u64 + 1),
        2 => d.put(un::char::is_public_assigned(c) as u64 + 3),
        3 => un::char::decompose_canonical(c, |x| d.ch(x)),
        4 => un::char::decompose_compatible(c, |x| d.ch(x)),
        5 => un::char::decompose_cjk_compat_variants(c, |x| d.ch(x)),
        _ => {
            d.items(c.nfd(), 64);
            d.items(c.nfkd(), 64);
            d.items(c.nfc(), 64);
            d.items(c.nfkc(), 64);
            d.items(c.cjk_compat_variants(), 64);
            d.items(c.stream_safe(), 64);
        }
    }
}

#[inline(never)]
pub fn compose_op(a: char, b: char, d: &mut Digest) {
    match un::char::compose(a, b) {
        Some(c) => d.ch(c),
        None => d.put(5),
    }
}

pub const WORD_NAMES: [&str; WORD_OPS as usize] = [
    "nfd", "nfkd", "nfc", "nfkc", "cjk_compat_variants", "stream_safe", "is_nfd", "is_nfkd", "is_nfc", "is_nfkc",
    "is_nfd_stream_safe", "is_nfc_stream_safe", "is_nfd_quick", "is_nfkd_quick", "is_nfc_quick", "is_nfkc_quick",
    "is_nfd_stream_safe_quick", "is_nfc_stream_safe_quick", "nfc abandoned midway", "nfkd abandoned midway",
    "format nfc", "clone nfd midway", "stream_safe then nfkc",
];

#[inline(never)]
pub fn word_op(k: u32, w: &[char], s: &str, d: &mut Digest) {
    let l = w.len() * 40 + 64;
    let it = w.iter().copied();
    match k {
        0 => d.items(it.nfd(), l),
        1 => d.items(s.nfkd(), l),
        2 => d.items(s.nfc(), l),
        3 => d.items(it.nfkc(), l),
        4 => d.items(it.cjk_compat_variants(), l),
        5 => d.items(it.stream_safe(), l),
        6 => d.put(un::is_nfd(s) as u64 + 1),
        7 => d.put(un::is_nfkd(s) as u64 + 3),
        8 => d.put(un::is_nfc(s) as u64 + 5),
        9 => d.put(un::is_nfkc(s) as u64 + 7),
        10 => d.put(un::is_nfd_stream_safe(s) as u64 + 9),
        11 => d.put(un::is_nfc_stream_safe(s) as u64 + 11),
        12 => d.qc(un::is_nfd_quick(it)),
        13 => d.qc(un::is_nfkd_quick(it)),
        14 => d.qc(un::is_nfc_quick(it)),
        15 => d.qc(un::is_nfkc_quick(it)),
        16 => d.qc(un::is_nfd_stream_safe_quick(it)),
        17 => d.qc(un::is_nfc_stream_safe_quick(it)),
        18 => d.items(it.nfc().take(w.len() / 2 + 1), l),
        19 => d.items(s.nfkd().take(w.len() / 2 + 1), l),
        20 => {
            use std::fmt::Write;
            struct H<'a>(&'a mut Digest);
            impl Write for H<'_> {
                fn write_str(&mut self, x: &str) -> std::fmt::Result {
                    for c in x.chars() {
                        self.0.ch(c);
                    }
                    Ok(())
                }
            }
            let r = write!(H(d), "{}", s.nfc());
            d.put(r.is_ok() as u64);
        }
        21 => {
            let mut a = it.nfd();
            for _ in 0..w.len() / 2 {
                a.next();
            }
            let b = a.clone();
            d.items(a, l);
            d.items(b, l);
        }
        _ => d.items(it.stream_safe().nfkc(), l),
    }
}

/// Further ways of using the adapters, for the properties that compare whole builds and look for panics (C21, C22).
pub const EXTRA_OPS: u32 = 3;
pub const EXTRA_NAMES: [&str; EXTRA_OPS as usize] =
    ["formatting with a writer that fails", "for_each, last and count after partial use", "nth, clone_from and formatting after partial use"];

/// a writer that takes so many characters and then fails
struct Failing<'a>(&'a mut Digest, usize);
impl std::fmt::Write for Failing<'_> {
    fn write_str(&mut self, x: &str) -> std::fmt::Result {
        for c in x.chars() {
            if self.1 == 0 {
                return Err(std::fmt::Error);
            }
            self.1 -= 1;
            self.0.ch(c);
        }
        Ok(())
    }
}

fn after<I: Iterator<Item = char>>(mut a: I, n: usize) -> I {
    for _ in 0..n {
        a.next();
    }
    a
}

fn shown<I: Iterator<Item = char> + Clone + std::fmt::Display>(fresh: &dyn Fn() -> I, k: u32, len: usize, d: &mut Digest) {
    use std::fmt::Write;
    match k {
        0 => {
            for n in [0, 1, len / 2 + 1] {
                let r = write!(Failing(d, n), "{}", fresh());
                d.put(r.is_ok() as u64 + 17);
            }
        }
        2 => {
            let a = after(fresh(), 2);
            let mut b = fresh();
            b.clone_from(&a);
            let r = write!(Failing(d, usize::MAX), "{}{}", a, b);
            d.put(r.is_ok() as u64 + 17);
        }
        _ => {}
    }
}

fn consumed<I: Iterator<Item = char>>(fresh: &dyn Fn() -> I, k: u32, len: usize, d: &mut Digest) {
    match k {
        1 => {
            after(fresh(), 1).for_each(|c| d.ch(c));
            after(fresh(), 2).for_each(|c| d.ch(c));
            d.put(after(fresh(), len / 2).count() as u64);
            d.put(after(fresh(), 1).last().map_or(3, |c| c as u64));
        }
        2 => {
            let mut a = after(fresh(), 1);
            d.put(a.nth(1).map_or(3, |c| c as u64));
            a.for_each(|c| d.ch(c));
        }
        _ => {}
    }
}

#[inline(never)]
pub fn extra_op(k: u32, w: &[char], s: &str, d: &mut Digest) {
    let l = w.len();
    macro_rules! one {
        ($($m:ident),*) => { $( shown(&|| s.$m(), k, l, d); consumed(&|| s.$m(), k, l, d); )* };
    }
    one!(nfd, nfkd, nfc, nfkc, cjk_compat_variants);
    consumed(&|| s.stream_safe(), k, l, d);
}

pub fn run_op(op: &Op, d: &mut Digest) {
    match op {
        Op::Char(k, c) => char_op(*k, *c, d),
        Op::Compose(a, b) => compose_op(*a, *b, d),
        Op::Word(k, w) => {
            let s: String = w.iter().collect();
            word_op(*k, w, &s, d)
        }
    }
}

pub fn describe(op: &Op) -> String {
    match op {
        Op::Char(k, c) => format!(
            "{}(U+{:04X})",
            ["canonical_combining_class", "is_combining_mark", "is_public_assigned", "decompose_canonical", "decompose_compatible", "decompose_cjk_compat_variants", "adapters of char"][*k as usize],
            *c as u32
        ),
        Op::Compose(a, b) => format!("compose(U+{:04X}, U+{:04X})", *a as u32, *b as u32),
        Op::Word(k, w) => format!("{}(\"{}\")", WORD_NAMES[*k as usize], crate::words::show(w)),
    }
}
