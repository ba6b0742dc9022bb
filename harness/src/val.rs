//! Value generation and canonical tokens for every column type.
use oxyroot::{Marshaler, Slice, UnmarshalerInto};
use std::collections::{HashMap, HashSet};
use std::fmt::Write;

#[derive(Clone, Debug)]
pub struct Gen {
    pub seed: u64,
    pub edge: bool,
    pub zero: bool,
    /// strings of NULs
    pub nul: bool,
    pub lens: Vec<u64>,
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(b.wrapping_mul(0xD1B54A32D192ED03)).wrapping_add(0x2545F4914F6CDD1D);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Gen {
    fn r(&self, i: u64) -> u64 {
        mix(self.seed, i)
    }
    fn len(&self, i: u64) -> u64 {
        if self.lens.is_empty() {
            mix(self.seed ^ 77, i) % 6
        } else {
            self.lens[(i % self.lens.len() as u64) as usize]
        }
    }
}

pub trait Tok {
    fn tok(&self, s: &mut String);
}
pub trait GenV: Sized {
    fn gen(g: &Gen, i: u64) -> Self;
}
pub trait WVal: Tok + GenV + Marshaler + 'static {}
impl<T: Tok + GenV + Marshaler + 'static> WVal for T {}
pub trait RVal: Tok + UnmarshalerInto<Item = Self> + 'static {}
impl<T: Tok + UnmarshalerInto<Item = T> + 'static> RVal for T {}

macro_rules! ints {
    ($($t:ty),*) => {$(
        impl Tok for $t { fn tok(&self, s: &mut String) { write!(s, "{}", self).unwrap(); } }
        impl GenV for $t {
            fn gen(g: &Gen, i: u64) -> Self {
                if g.zero { return 0; }
                let r = g.r(i);
                if g.edge && r % 3 != 0 {
                    let e = [<$t>::MIN, <$t>::MAX, 0, 1, <$t>::MAX - 1, <$t>::MIN + 1, (0x40u64 << (8*(std::mem::size_of::<$t>()-1))) as $t,
                             64, 0x7f, (0xffu64) as $t, 0u8.wrapping_sub(1) as $t, (!0u64) as $t];
                    return e[((r >> 8) % e.len() as u64) as usize];
                }
                (r >> 3) as $t
            }
        }
    )*};
}
ints!(i8, u8, i16, u16, i32, u32, i64, u64);

impl Tok for f32 {
    fn tok(&self, s: &mut String) {
        write!(s, "f{:08x}", self.to_bits()).unwrap();
    }
}
impl GenV for f32 {
    fn gen(g: &Gen, i: u64) -> Self {
        if g.zero {
            return 0.0;
        }
        let r = g.r(i);
        if g.edge && r % 3 != 0 {
            let e = [0u32, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x7f7fffff, 0x00800000, 0x3f800000, 0xffc00001];
            return f32::from_bits(e[((r >> 8) % e.len() as u64) as usize]);
        }
        (r as i32) as f32 / 1024.0
    }
}
impl Tok for f64 {
    fn tok(&self, s: &mut String) {
        write!(s, "d{:016x}", self.to_bits()).unwrap();
    }
}
impl GenV for f64 {
    fn gen(g: &Gen, i: u64) -> Self {
        if g.zero {
            return 0.0;
        }
        let r = g.r(i);
        if g.edge && r % 3 != 0 {
            let e = [0u64, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 1, 0x7fefffffffffffff, 0x0010000000000000, 0x3ff0000000000001, 0xfff8000000000001];
            return f64::from_bits(e[((r >> 8) % e.len() as u64) as usize]);
        }
        (r as i64) as f64 / 65536.0
    }
}
impl Tok for bool {
    fn tok(&self, s: &mut String) {
        s.push(if *self { 'T' } else { 'F' });
    }
}
impl GenV for bool {
    fn gen(g: &Gen, i: u64) -> Self {
        !g.zero && g.r(i) & 8 != 0
    }
}
impl Tok for String {
    fn tok(&self, s: &mut String) {
        const ZERO: [u8; 4096] = [0; 4096];
        if self.len() > 8192 && self.as_bytes().chunks(4096).all(|c| c == &ZERO[..c.len()]) {
            write!(s, "#nul:{}", self.len()).unwrap();
            return;
        }
        write!(s, "{:?}", self).unwrap();
    }
}
impl GenV for String {
    fn gen(g: &Gen, i: u64) -> Self {
        let n = g.len(i) as usize;
        if g.nul {
            return String::from_utf8(vec![0; n]).unwrap();
        }
        let mut s = String::with_capacity(n);
        let uni = ["é", "ß", "漢", "😀", "\u{0}", "\n"];
        let mut k = 0u64;
        while s.len() < n {
            let r = mix(g.r(i), k);
            k += 1;
            let u = uni[(r >> 9) as usize % uni.len()];
            if g.edge && r % 4 == 0 && s.len() + u.len() <= n {
                s.push_str(u);
            } else if g.zero {
                s.push('0');
            } else {
                s.push((b'!' + ((r >> 20) % 90) as u8) as char);
            }
        }
        s
    }
}
impl<T: Tok> Tok for Vec<T> {
    fn tok(&self, s: &mut String) {
        s.push('[');
        for (i, v) in self.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            v.tok(s);
        }
        s.push(']');
    }
}
impl<T: GenV> GenV for Vec<T> {
    fn gen(g: &Gen, i: u64) -> Self {
        let n = g.len(i);
        let mut h = g.clone();
        h.seed = g.r(i) ^ 0x55;
        (0..n).map(|k| T::gen(&h, k)).collect()
    }
}
impl<T: Tok> Tok for Slice<T> {
    fn tok(&self, s: &mut String) {
        self.inner().tok(s);
    }
}
impl<T: Tok, const N: usize> Tok for [T; N] {
    fn tok(&self, s: &mut String) {
        s.push('[');
        for (i, v) in self.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            v.tok(s);
        }
        s.push(']');
    }
}
impl<T: GenV, const N: usize> GenV for [T; N] {
    fn gen(g: &Gen, i: u64) -> Self {
        let mut h = g.clone();
        h.seed = g.r(i) ^ 0x56;
        std::array::from_fn(|k| T::gen(&h, k as u64))
    }
}
impl<T: Tok> Tok for HashSet<T> {
    fn tok(&self, s: &mut String) {
        let mut v: Vec<String> = self.iter().map(token).collect();
        v.sort();
        write!(s, "{{{}}}", v.join(",")).unwrap();
    }
}
impl<K: Tok, V: Tok> Tok for HashMap<K, V> {
    fn tok(&self, s: &mut String) {
        let mut v: Vec<String> = self.iter().map(|(k, v)| format!("{}:{}", token(k), token(v))).collect();
        v.sort();
        write!(s, "{{{}}}", v.join(",")).unwrap();
    }
}

pub fn token<T: Tok>(v: &T) -> String {
    let mut s = String::new();
    v.tok(&mut s);
    s
}

/// shorten a token: keep it when small, otherwise length + 64-bit FNV digest
pub fn short(s: &str) -> String {
    if s.len() <= 28 {
        s.to_string()
    } else {
        format!("#{}:{:016x}", s.len(), fnv(FNV0, s.as_bytes()))
    }
}
pub const FNV0: u64 = 0xcbf29ce484222325;
pub fn fnv(mut h: u64, b: &[u8]) -> u64 {
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

#[macro_export]
macro_rules! with_num {
    ($s:expr, $T:ident => $e:expr, $($rest:tt)*) => {
        match $s {
            "i8" => { type $T = i8; $e } "u8" => { type $T = u8; $e }
            "i16" => { type $T = i16; $e } "u16" => { type $T = u16; $e }
            "i32" => { type $T = i32; $e } "u32" => { type $T = u32; $e }
            "i64" => { type $T = i64; $e } "u64" => { type $T = u64; $e }
            "f32" => { type $T = f32; $e } "f64" => { type $T = f64; $e }
            $($rest)*
        }
    };
}
#[macro_export]
macro_rules! vec_and_arrays {
    ($s:expr, $T:ident => $e:expr, [$($p:ident),*], $($rest:tt)*) => {
        match $s {
            $(
            concat!("Vec<", stringify!($p), ">") => { type $T = Vec<$p>; $e }
            concat!("[", stringify!($p), ";1]") => { type $T = [$p; 1]; $e }
            concat!("[", stringify!($p), ";3]") => { type $T = [$p; 3]; $e }
            concat!("[", stringify!($p), ";10]") => { type $T = [$p; 10]; $e }
            )*
            $($rest)*
        }
    };
}
/// Every type that can be written to a column (arrays above 32 elements have no `Default`, so
/// they are read back element by element).
#[macro_export]
macro_rules! with_wtype {
    ($s:expr, $T:ident => $e:expr) => {
        match $s {
            "[u8;4000]" => { type $T = [u8; 4000]; $e }
            "[f64;5000]" => { type $T = [f64; 5000]; $e }
            "[u32;257]" => { type $T = [u32; 257]; $e }
            other => $crate::with_rwtype!(other, $T => $e)
        }
    };
}
#[macro_export]
macro_rules! with_rwtype {
    ($s:expr, $T:ident => $e:expr) => {
        $crate::with_num!($s, $T => $e,
            "bool" => { type $T = bool; $e }
            "String" => { type $T = String; $e }
            "[bool;3]" => { type $T = [bool; 3]; $e }
            "[i16;17]" => { type $T = [i16; 17]; $e }
            other => $crate::vec_and_arrays!(other, $T => $e,
                [i8, u8, i16, u16, i32, u32, i64, u64, f32, f64],
                other => panic!("harness: unknown writable type {other}"))
        )
    };
}
/// Every type that can be read from a column.
#[macro_export]
macro_rules! with_rtype {
    ($s:expr, $T:ident => $e:expr) => {
        match $s {
            "Vec<bool>" => { type $T = Vec<bool>; $e }
            "Vec<String>" => { type $T = Vec<String>; $e }
            "Vec<Vec<i32>>" => { type $T = Vec<Vec<i32>>; $e }
            "Vec<Vec<i16>>" => { type $T = Vec<Vec<i16>>; $e }
            "Vec<Vec<f64>>" => { type $T = Vec<Vec<f64>>; $e }
            "Vec<Vec<u8>>" => { type $T = Vec<Vec<u8>>; $e }
            "Vec<Vec<u64>>" => { type $T = Vec<Vec<u64>>; $e }
            "Vec<Vec<u16>>" => { type $T = Vec<Vec<u16>>; $e }
            "Vec<Vec<i8>>" => { type $T = Vec<Vec<i8>>; $e }
            "Vec<Vec<i64>>" => { type $T = Vec<Vec<i64>>; $e }
            "Vec<Vec<u32>>" => { type $T = Vec<Vec<u32>>; $e }
            "Vec<Vec<f32>>" => { type $T = Vec<Vec<f32>>; $e }
            "Vec<HashSet<u8>>" => { type $T = Vec<HashSet<u8>>; $e }
            "Vec<HashSet<u64>>" => { type $T = Vec<HashSet<u64>>; $e }
            "HashSet<u16>" => { type $T = HashSet<u16>; $e }
            "HashSet<u32>" => { type $T = HashSet<u32>; $e }
            "Vec<Vec<Vec<i32>>>" => { type $T = Vec<Vec<Vec<i32>>>; $e }
            "Vec<Vec<Vec<f64>>>" => { type $T = Vec<Vec<Vec<f64>>>; $e }
            "HashMap<i32,f64>" => { type $T = HashMap<i32, f64>; $e }
            "HashMap<i32,i32>" => { type $T = HashMap<i32, i32>; $e }
            "HashMap<String,f64>" => { type $T = HashMap<String, f64>; $e }
            "HashMap<String,i32>" => { type $T = HashMap<String, i32>; $e }
            "HashMap<String,HashMap<i32,f64>>" => { type $T = HashMap<String, HashMap<i32, f64>>; $e }
            "Vec<Vec<bool>>" => { type $T = Vec<Vec<bool>>; $e }
            "Vec<Vec<String>>" => { type $T = Vec<Vec<String>>; $e }
            "Vec<HashSet<i32>>" => { type $T = Vec<HashSet<i32>>; $e }
            "Vec<HashSet<String>>" => { type $T = Vec<HashSet<String>>; $e }
            "Vec<HashSet<i16>>" => { type $T = Vec<HashSet<i16>>; $e }
            "Vec<Vec<Vec<i16>>>" => { type $T = Vec<Vec<Vec<i16>>>; $e }
            "HashSet<i8>" => { type $T = HashSet<i8>; $e }
            "HashSet<u8>" => { type $T = HashSet<u8>; $e }
            "HashSet<i64>" => { type $T = HashSet<i64>; $e }
            "HashSet<bool>" => { type $T = HashSet<bool>; $e }
            "HashMap<u8,u8>" => { type $T = HashMap<u8, u8>; $e }
            "HashMap<u64,u64>" => { type $T = HashMap<u64, u64>; $e }
            "HashMap<u64,f64>" => { type $T = HashMap<u64, f64>; $e }
            "HashMap<u64,Vec<u64>>" => { type $T = HashMap<u64, Vec<u64>>; $e }
            "HashMap<u64,Vec<f64>>" => { type $T = HashMap<u64, Vec<f64>>; $e }
            "HashMap<String,Vec<Vec<i16>>>" => { type $T = HashMap<String, Vec<Vec<i16>>>; $e }
            "HashMap<String,Vec<HashSet<i16>>>" => { type $T = HashMap<String, Vec<HashSet<i16>>>; $e }
            "HashSet<i32>" => { type $T = HashSet<i32>; $e }
            "HashSet<i16>" => { type $T = HashSet<i16>; $e }
            "HashSet<u64>" => { type $T = HashSet<u64>; $e }
            "HashSet<String>" => { type $T = HashSet<String>; $e }
            "HashMap<i32,i16>" => { type $T = HashMap<i32, i16>; $e }
            "HashMap<i32,Vec<i16>>" => { type $T = HashMap<i32, Vec<i16>>; $e }
            "HashMap<i32,Vec<String>>" => { type $T = HashMap<i32, Vec<String>>; $e }
            "HashMap<i32,HashSet<i16>>" => { type $T = HashMap<i32, HashSet<i16>>; $e }
            "HashMap<i32,HashSet<String>>" => { type $T = HashMap<i32, HashSet<String>>; $e }
            "HashMap<i32,String>" => { type $T = HashMap<i32, String>; $e }
            "HashMap<String,i16>" => { type $T = HashMap<String, i16>; $e }
            "HashMap<String,Vec<i16>>" => { type $T = HashMap<String, Vec<i16>>; $e }
            "HashMap<String,String>" => { type $T = HashMap<String, String>; $e }
            "HashMap<String,Vec<String>>" => { type $T = HashMap<String, Vec<String>>; $e }
            "HashMap<String,HashSet<i16>>" => { type $T = HashMap<String, HashSet<i16>>; $e }
            "HashMap<String,HashSet<String>>" => { type $T = HashMap<String, HashSet<String>>; $e }
            "HashMap<i32,Vec<Vec<i16>>>" => { type $T = HashMap<i32, Vec<Vec<i16>>>; $e }
            "HashMap<i32,Vec<HashSet<i16>>>" => { type $T = HashMap<i32, Vec<HashSet<i16>>>; $e }
            "HashMap<String,HashMap<String,String>>" => { type $T = HashMap<String, HashMap<String, String>>; $e }
            "Slice<i8>" => { type $T = Slice<i8>; $e }
            "Slice<u8>" => { type $T = Slice<u8>; $e }
            "Slice<i16>" => { type $T = Slice<i16>; $e }
            "Slice<u16>" => { type $T = Slice<u16>; $e }
            "Slice<i32>" => { type $T = Slice<i32>; $e }
            "Slice<u32>" => { type $T = Slice<u32>; $e }
            "Slice<i64>" => { type $T = Slice<i64>; $e }
            "Slice<u64>" => { type $T = Slice<u64>; $e }
            "Slice<f32>" => { type $T = Slice<f32>; $e }
            "Slice<f64>" => { type $T = Slice<f64>; $e }
            "Slice<bool>" => { type $T = Slice<bool>; $e }
            other => $crate::with_rwtype!(other, $T => $e)
        }
    };
}
