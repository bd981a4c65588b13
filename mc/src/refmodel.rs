//! Reference model: a naive whole-string implementation of UAX #15 over the frozen UCD.

use crate::ucd::{ucd, Ucd};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    Nfd,
    Nfkd,
    Nfc,
    Nfkc,
}
pub const FORMS: [Form; 4] = [Form::Nfd, Form::Nfkd, Form::Nfc, Form::Nfkc];
impl Form {
    pub fn compat(self) -> bool {
        matches!(self, Form::Nfkd | Form::Nfkc)
    }
    pub fn composed(self) -> bool {
        matches!(self, Form::Nfc | Form::Nfkc)
    }
    pub fn name(self) -> &'static str {
        match self {
            Form::Nfd => "NFD",
            Form::Nfkd => "NFKD",
            Form::Nfc => "NFC",
            Form::Nfkc => "NFKC",
        }
    }
    /// column in Ucd::qc
    pub fn qc_col(self) -> usize {
        match self {
            Form::Nfc => 0,
            Form::Nfkc => 1,
            Form::Nfd => 2,
            Form::Nfkd => 3,
        }
    }
}

const SB: u32 = 0xAC00;
const LB: u32 = 0x1100;
const VB: u32 = 0x1161;
const TB: u32 = 0x11A7;

fn ch(v: u32) -> char {
    char::from_u32(v).unwrap()
}

/// full decomposition of one character (appended)
pub fn decompose_char(u: &Ucd, c: char, compat: bool, out: &mut Vec<char>) {
    let v = c as u32;
    if (SB..SB + 11172).contains(&v) {
        let s = v - SB;
        out.push(ch(LB + s / 588));
        out.push(ch(VB + (s % 588) / 28));
        if s % 28 != 0 {
            out.push(ch(TB + s % 28));
        }
        return;
    }
    let (off, len) = if compat { u.compat[v as usize] } else { u.can[v as usize] };
    if len == 0 {
        out.push(c);
    } else {
        out.extend_from_slice(&u.pool[off as usize..(off + len) as usize]);
    }
}

pub fn compose_pair(u: &Ucd, a: char, b: char) -> Option<char> {
    let (x, y) = (a as u32, b as u32);
    if (LB..LB + 19).contains(&x) && (VB..VB + 21).contains(&y) {
        return Some(ch(SB + ((x - LB) * 21 + (y - VB)) * 28));
    }
    if (SB..SB + 11172).contains(&x) && (x - SB) % 28 == 0 && (TB + 1..TB + 28).contains(&y) {
        return Some(ch(x + (y - TB)));
    }
    let k = u.comp[x as usize] as usize;
    if k == 0 {
        return None;
    }
    u.comp_lists[k].iter().find(|p| p.0 == y).map(|p| ch(p.1))
}

/// decomposition without reordering
pub fn decompose_all(w: &[char], compat: bool, out: &mut Vec<char>) {
    let u = ucd();
    out.clear();
    for &c in w {
        decompose_char(u, c, compat, out);
    }
}

/// canonical ordering: every maximal run of non-starters stably sorted by ccc
pub fn reorder(v: &mut [char]) {
    let u = ucd();
    let mut i = 0;
    while i < v.len() {
        if u.ccc(v[i]) == 0 {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < v.len() && u.ccc(v[j]) != 0 {
            j += 1;
        }
        if j - i > 1 {
            if j - i <= 24 {
                // insertion sort, stable
                for k in i + 1..j {
                    let mut m = k;
                    while m > i && u.ccc(v[m - 1]) > u.ccc(v[m]) {
                        v.swap(m - 1, m);
                        m -= 1;
                    }
                }
            } else {
                // bucket by class, stable
                let mut b: Vec<Vec<char>> = vec![Vec::new(); 256];
                for &c in &v[i..j] {
                    b[u.ccc(c) as usize].push(c);
                }
                let mut k = i;
                for l in b {
                    for c in l {
                        v[k] = c;
                        k += 1;
                    }
                }
            }
        }
        i = j;
    }
}

/// canonical composition (D117) of a canonically ordered string, in place
pub fn recompose(v: &mut Vec<char>) {
    let u = ucd();
    let mut w = 0usize; // write position
    let mut starter: Option<usize> = None; // index of the last starter kept
    let mut maxccc: Option<u8> = None; // greatest class kept since that starter
    for r in 0..v.len() {
        let c = v[r];
        let cc = u.ccc(c);
        if let Some(s) = starter {
            let blocked = match maxccc {
                None => false,
                Some(m) => cc == 0 || m >= cc,
            };
            if !blocked {
                if let Some(p) = compose_pair(u, v[s], c) {
                    v[s] = p;
                    continue;
                }
            }
        }
        v[w] = c;
        if cc == 0 {
            starter = Some(w);
            maxccc = None;
        } else if starter.is_some() {
            maxccc = Some(maxccc.map_or(cc, |m| m.max(cc)));
        }
        w += 1;
    }
    v.truncate(w);
}

pub fn normalize(w: &[char], f: Form, out: &mut Vec<char>) {
    decompose_all(w, f.compat(), out);
    reorder(out);
    if f.composed() {
        recompose(out);
    }
}

/// (leading non-starters, trailing non-starters, length) of the compatibility decomposition
pub fn ss_class(c: char, tmp: &mut Vec<char>) -> (usize, usize, usize) {
    let u = ucd();
    tmp.clear();
    decompose_char(u, c, true, tmp);
    let lead = tmp.iter().take_while(|&&d| u.ccc(d) != 0).count();
    let trail = tmp.iter().rev().take_while(|&&d| u.ccc(d) != 0).count();
    (lead, trail, tmp.len())
}

pub const CGJ: char = '\u{34F}';

/// The Stream-Safe Text Process, UAX #15 section 13
pub fn stream_safe(w: &[char], out: &mut Vec<char>, tmp: &mut Vec<char>) {
    out.clear();
    let mut count = 0;
    for &c in w {
        let (lead, trail, len) = ss_class(c, tmp);
        if count + lead > 30 {
            out.push(CGJ);
            count = 0;
        }
        out.push(c);
        if lead == len {
            count += len;
        } else {
            count = trail;
        }
    }
}

/// longest run of consecutive non-starters in the compatibility decomposition
pub fn longest_nonstarter_run(w: &[char], compat: bool, tmp: &mut Vec<char>) -> usize {
    let u = ucd();
    decompose_all(w, compat, tmp);
    let (mut best, mut cur) = (0, 0);
    for &c in tmp.iter() {
        if u.ccc(c) != 0 {
            cur += 1;
            best = best.max(cur);
        } else {
            cur = 0;
        }
    }
    best
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Qc {
    Yes,
    No,
    Maybe,
}

/// the UAX #15 section 9 quick-check algorithm
pub fn quick_check(w: &[char], f: Form) -> Qc {
    let u = ucd();
    let mut last = 0u8;
    let mut r = Qc::Yes;
    for &c in w {
        let cc = u.ccc(c);
        if last > cc && cc != 0 {
            return Qc::No;
        }
        match u.qc[c as usize][f.qc_col()] {
            0 => {}
            1 => return Qc::No,
            _ => r = Qc::Maybe,
        }
        last = cc;
    }
    r
}

pub fn cjk_variants(w: &[char], out: &mut Vec<char>) {
    let u = ucd();
    out.clear();
    for &c in w {
        match u.cjk.get(&(c as u32)) {
            Some(&(a, b)) => {
                out.push(ch(a));
                out.push(ch(b));
            }
            None => out.push(c),
        }
    }
}

/// official NormalizationTest vectors: (c1, c2, c3, c4, c5)
pub fn official() -> Vec<[Vec<char>; 5]> {
    let path = "/repo/tests/data/normalization_tests.rs";
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(_) => return Vec::new(),
    };
    let mut strs: Vec<Vec<char>> = Vec::new();
    let b = text.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    // every NormalizationTest literal has five string literals made of \u{..} escapes
    while let Some(p) = text[i..].find("NormalizationTest {") {
        let st = i + p;
        let en = match text[st..].find('}') {
            Some(_) => {
                // skip the braces of \u{..}: the literal ends at the first '}' outside quotes
                let mut k = st + "NormalizationTest {".len();
                let mut q = false;
                while k < b.len() {
                    if b[k] == b'"' {
                        q = !q;
                    }
                    if b[k] == b'}' && !q {
                        break;
                    }
                    k += 1;
                }
                k
            }
            None => break,
        };
        let body = &text[st..en];
        strs.clear();
        let mut rest = body;
        while let Some(q) = rest.find('"') {
            let r = &rest[q + 1..];
            let e = r.find('"').unwrap();
            let s = &r[..e];
            let mut w = Vec::new();
            let mut t = s;
            while let Some(k) = t.find("\\u{") {
                let z = t[k..].find('}').unwrap();
                w.push(char::from_u32(u32::from_str_radix(&t[k + 3..k + z], 16).unwrap()).unwrap());
                t = &t[k + z + 1..];
            }
            strs.push(w);
            rest = &r[e + 1..];
        }
        if strs.len() == 5 {
            out.push([
                strs[0].clone(),
                strs[1].clone(),
                strs[2].clone(),
                strs[3].clone(),
                strs[4].clone(),
            ]);
        }
        i = en;
    }
    out
}

/// Validate the reference model itself; any error is an error of the machinery, not a verdict.
pub fn self_check(off: &[[Vec<char>; 5]]) -> Result<u64, String> {
    let mut n = 0;
    let mut o = Vec::new();
    for t in off {
        for (k, s) in t.iter().enumerate() {
            let canon = if k < 3 { (1, 2) } else { (3, 4) };
            for (f, want) in [
                (Form::Nfc, canon.0),
                (Form::Nfd, canon.1),
                (Form::Nfkc, 3),
                (Form::Nfkd, 4),
            ] {
                normalize(s, f, &mut o);
                n += 1;
                if o != t[want] {
                    return Err(format!("reference model disagrees with NormalizationTest: {:?} {:?}", s, f));
                }
            }
        }
    }
    Ok(n)
}
