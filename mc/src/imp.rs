//! Thin access to the implementation under test (public API only).

use crate::refmodel::{Form, Qc};
use unicode_normalization::{self as un, IsNormalized, UnicodeNormalization};

/// pull at most `limit` items with next(); error if there are more
#[inline]
pub fn drain<I: Iterator<Item = char>>(mut it: I, out: &mut Vec<char>, limit: usize) -> Result<(), String> {
    out.clear();
    while let Some(c) = it.next() {
        check_char(c)?;
        out.push(c);
        if out.len() > limit {
            return Err(format!("output does not end: more than {} items", limit));
        }
    }
    Ok(())
}

/// pull `k` items with next() and the rest by internal iteration
#[inline]
pub fn drain_mixed<I: Iterator<Item = char>>(mut it: I, k: usize, out: &mut Vec<char>, limit: usize) -> Result<(), String> {
    out.clear();
    for _ in 0..k {
        match it.next() {
            Some(c) => out.push(c),
            None => break,
        }
    }
    it.for_each(|c| {
        if out.len() > limit {
            panic!("output does not end: more than {} items", limit);
        }
        out.push(c);
    });
    for &c in out.iter() {
        check_char(c)?;
    }
    Ok(())
}

/// the numbers of items to pull before switching over: all small ones for a short text
pub fn splits(len: usize) -> std::ops::RangeInclusive<usize> {
    if len <= 4 {
        0..=len.min(3)
    } else {
        let k = 1 + len % 4;
        k..=k
    }
}

#[inline]
pub fn check_char(c: char) -> Result<(), String> {
    // an invalid char can only come from broken unsafe code; look at the raw bits
    let v = unsafe { std::ptr::read_volatile(&c as *const char as *const u32) };
    if v > 0x10FFFF || (0xD800..0xE000).contains(&v) {
        return Err(format!("not a Unicode scalar value: {:#X}", v));
    }
    Ok(())
}

pub fn limit(w: &[char]) -> usize {
    w.len() * 40 + 64
}

pub fn norm(w: &[char], f: Form, out: &mut Vec<char>) -> Result<(), String> {
    let it = w.iter().copied();
    let l = limit(w);
    match f {
        Form::Nfd => drain(it.nfd(), out, l),
        Form::Nfkd => drain(it.nfkd(), out, l),
        Form::Nfc => drain(it.nfc(), out, l),
        Form::Nfkc => drain(it.nfkc(), out, l),
    }
}
/// normalize a string slice, switching to internal iteration after `k` items
pub fn norm_str(s: &str, f: Form, k: usize, out: &mut Vec<char>) -> Result<(), String> {
    let l = s.len() * 40 + 64;
    match f {
        Form::Nfd => drain_mixed(s.nfd(), k, out, l),
        Form::Nfkd => drain_mixed(s.nfkd(), k, out, l),
        Form::Nfc => drain_mixed(s.nfc(), k, out, l),
        Form::Nfkc => drain_mixed(s.nfkc(), k, out, l),
    }
}
/// Hand `f` the text as a slice that starts `off` bytes past a 16-byte boundary, with other text around it.
pub fn placed<R>(s: &str, off: usize, f: impl FnOnce(&str) -> R) -> R {
    thread_local!(static BUF: std::cell::Cell<String> = const { std::cell::Cell::new(String::new()) });
    let mut b = BUF.with(|c| c.take());
    b.clear();
    b.reserve(s.len() + 64);
    let pad = (16 - b.as_ptr() as usize % 16) % 16 + off % 16;
    for i in 0..pad {
        b.push((b'A' + i as u8 % 26) as char);
    }
    b.push_str(s);
    b.push_str("e\u{301}\u{AC00}");
    let r = f(&b[pad..pad + s.len()]);
    BUF.with(|c| c.set(b));
    r
}
/// where the text of a word is placed: everywhere if the word has the marker letter, at one place otherwise
pub fn offsets(w: &[char]) -> std::ops::Range<usize> {
    if w.len() <= 120 && w.contains(&'w') {
        return 0..16;
    }
    let h = w.iter().take(8).fold(w.len() as u32, |h, &c| h.wrapping_mul(31).wrapping_add(c as u32)) as usize % 16;
    h..h + 1
}
/// The characters of a word from an iterator with a true size hint: exact, unknown, or one side only.
pub struct Source<'a> {
    it: std::slice::Iter<'a, char>,
    kind: usize,
}
impl Iterator for Source<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        self.it.next().copied()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len();
        match self.kind {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(n)),
            3 => (n, None),
            _ => (n / 2, Some(2 * n + 1)),
        }
    }
}
/// all kinds of sources for a short word, one for a longer one
pub fn sources(w: &[char]) -> impl Iterator<Item = Source<'_>> {
    let (a, b) = if w.len() <= 2 { (0, 5) } else { let h = offsets_hash(w) % 5; (h, h + 1) };
    (a..b).map(move |kind| Source { it: w.iter(), kind })
}
fn offsets_hash(w: &[char]) -> usize {
    w.iter().take(8).fold(w.len() as u32, |h, &c| h.wrapping_mul(31).wrapping_add(c as u32)) as usize >> 1
}
pub fn is_norm(s: &str, f: Form) -> bool {
    match f {
        Form::Nfd => un::is_nfd(s),
        Form::Nfkd => un::is_nfkd(s),
        Form::Nfc => un::is_nfc(s),
        Form::Nfkc => un::is_nfkc(s),
    }
}
pub fn qc(q: IsNormalized) -> Qc {
    match q {
        IsNormalized::Yes => Qc::Yes,
        IsNormalized::No => Qc::No,
        IsNormalized::Maybe => Qc::Maybe,
    }
}
pub fn quick<I: Iterator<Item = char>>(it: I, f: Form) -> Qc {
    qc(match f {
        Form::Nfd => un::is_nfd_quick(it),
        Form::Nfkd => un::is_nfkd_quick(it),
        Form::Nfc => un::is_nfc_quick(it),
        Form::Nfkc => un::is_nfkc_quick(it),
    })
}
pub fn quick_ss<I: Iterator<Item = char>>(it: I, f: Form) -> Qc {
    qc(match f {
        Form::Nfd => un::is_nfd_stream_safe_quick(it),
        Form::Nfc => un::is_nfc_stream_safe_quick(it),
        _ => unreachable!(),
    })
}
pub fn is_ss(s: &str, f: Form) -> bool {
    match f {
        Form::Nfd => un::is_nfd_stream_safe(s),
        Form::Nfc => un::is_nfc_stream_safe(s),
        _ => unreachable!(),
    }
}
