//! The frozen, independently obtained Unicode 16.0.0 data (see /verif/DESIGN.md, "Oracle").

use std::collections::HashMap;
use std::sync::OnceLock;

pub const N: usize = 0x110000;

pub struct Ucd {
    pub ccc: Vec<u8>,
    pub gc: Vec<[u8; 2]>,
    /// full decompositions: (offset, len) into `pool`; len 0 = none (Hangul not included)
    pub can: Vec<(u32, u32)>,
    pub compat: Vec<(u32, u32)>,
    pub pool: Vec<char>,
    /// single-level mapping from UnicodeData.txt: (is_compat, mapping)
    pub single: HashMap<u32, (bool, Vec<u32>)>,
    /// primary composites by first character
    pub comp: Vec<u16>,
    pub comp_lists: Vec<Vec<(u32, u32)>>,
    pub composites: Vec<(u32, u32, u32)>,
    /// quick check: NFC, NFKC, NFD, NFKD: 0 = Y, 1 = N, 2 = M
    pub qc: Vec<[u8; 4]>,
    pub cjk: HashMap<u32, (u32, u32)>,
    pub is_second: Vec<bool>,
}

fn hx(s: &str) -> u32 {
    u32::from_str_radix(s, 16).expect("hex")
}

impl Ucd {
    fn load() -> Ucd {
        let text = include_str!("../../ucd/ucd16.txt");
        let mut u = Ucd {
            ccc: vec![0; N],
            gc: vec![*b"Cn"; N],
            can: vec![(0, 0); N],
            compat: vec![(0, 0); N],
            pool: Vec::new(),
            single: HashMap::new(),
            comp: vec![0; N],
            comp_lists: vec![Vec::new()],
            composites: Vec::new(),
            qc: vec![[0; 4]; N],
            cjk: HashMap::new(),
            is_second: vec![false; N],
        };
        for line in text.lines() {
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let f: Vec<&str> = line.split_whitespace().collect();
            match f[0] {
                "G" => {
                    for c in hx(f[1])..=hx(f[2]) {
                        let b = f[3].as_bytes();
                        u.gc[c as usize] = [b[0], b[1]];
                    }
                }
                "C" => u.ccc[hx(f[1]) as usize] = f[2].parse().unwrap(),
                "D" => {
                    let m = f[3..].iter().map(|x| hx(x)).collect();
                    u.single.insert(hx(f[1]), (f[2] == "k", m));
                }
                "F" | "K" => {
                    let off = u.pool.len() as u32;
                    for x in &f[2..] {
                        u.pool.push(char::from_u32(hx(x)).unwrap());
                    }
                    let e = (off, (f.len() - 2) as u32);
                    let i = hx(f[1]) as usize;
                    if f[0] == "F" {
                        u.can[i] = e;
                    } else {
                        u.compat[i] = e;
                    }
                }
                "P" => {
                    let (a, b, c) = (hx(f[1]), hx(f[2]), hx(f[3]));
                    u.composites.push((a, b, c));
                    if u.comp[a as usize] == 0 {
                        u.comp[a as usize] = u.comp_lists.len() as u16;
                        u.comp_lists.push(Vec::new());
                    }
                    let k = u.comp[a as usize] as usize;
                    u.comp_lists[k].push((b, c));
                    u.is_second[b as usize] = true;
                }
                "Q" => {
                    let m: Vec<u8> = f[3]
                        .bytes()
                        .map(|b| match b {
                            b'Y' => 0,
                            b'N' => 1,
                            b'M' => 2,
                            _ => panic!("qc"),
                        })
                        .collect();
                    for c in hx(f[1])..=hx(f[2]) {
                        u.qc[c as usize] = [m[0], m[1], m[2], m[3]];
                    }
                }
                "V" => {
                    u.cjk.insert(hx(f[1]), (hx(f[2]), hx(f[3])));
                }
                _ => panic!("ucd line {}", line),
            }
        }
        assert_eq!(u.composites.len(), 961);
        assert_eq!(u.cjk.len(), 1002);
        u
    }
    #[inline]
    pub fn ccc(&self, c: char) -> u8 {
        self.ccc[c as usize]
    }
    pub fn is_mark(&self, c: char) -> bool {
        self.gc[c as usize][0] == b'M'
    }
    /// assigned and not private use (noncharacters are gc=Cn, private use gc=Co)
    pub fn is_public_assigned(&self, c: char) -> bool {
        let g = &self.gc[c as usize];
        g != b"Cn" && g != b"Co"
    }
}

pub fn ucd() -> &'static Ucd {
    static U: OnceLock<Ucd> = OnceLock::new();
    U.get_or_init(Ucd::load)
}

/// all scalar values, in order
pub fn scalar(i: u64) -> char {
    let v = if i < 0xD800 { i as u32 } else { i as u32 + 0x800 };
    char::from_u32(v).unwrap()
}
pub const SCALARS: u64 = 0x110000 - 0x800;
