//! Test memory: deterministic pseudo-random background, byte overlay, refused ranges, access log.
use m68000::MemoryAccess;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct FastHasher(u64);
impl Hasher for FastHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x9E3779B97F4A7C15); } }
    fn write_u32(&mut self, i: u32) { self.0 = mix(self.0.rotate_left(17) ^ i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = mix(self.0.rotate_left(17) ^ i) }
}
pub type FMap<K, V> = HashMap<K, V, BuildHasherDefault<FastHasher>>;

#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub const BOUND_WORDS: [u16; 16] = [0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF, 0x00FE, 0x5555, 0xAAAA, 0x4000, 0xC000];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Range { pub lo: u32, pub len: u32, /// 0 = everything refused, 1 = writes refused, 2 = reads refused
    pub what: u8 }
impl Range {
    #[inline]
    fn hits(&self, a: u32, n: u32, write: bool) -> bool {
        if self.what == 1 && !write || self.what == 2 && write { return false; }
        (0..n).any(|i| a.wrapping_add(i).wrapping_sub(self.lo) < self.len)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Acc { pub addr: u32, pub size: u8, pub write: bool }

#[derive(Clone, Debug)]
pub struct Mem {
    pub seed: u64,
    /// 0 random, 1 zero, 2 all ones, 3 boundary words, 4 valid BCD, 5 literals of the code under test
    pub bg: u8,
    /// Vectors (0..0x400) are even addresses in 0..0x00FF_FFFE.
    pub vec_even: bool,
    pub over: FMap<u32, u8>,
    pub ranges: Vec<Range>,
    pub native_long: bool,
    pub resets: u32,
    pub odd: Option<Acc>,
    pub log_on: bool,
    pub log: Vec<Acc>,
    pub refused: u32,
    /// Accesses after which everything is refused (ends run loops).
    pub budget: u64,
    /// Undo journal of the reference interpreter.
    pub jr_on: bool,
    pub jr: Vec<(u32, Option<u8>)>,
}

impl Mem {
    pub fn new(seed: u64, bg: u8) -> Self {
        Mem { seed, bg, vec_even: true, over: FMap::default(), ranges: vec![], native_long: true, resets: 0, odd: None, log_on: false, log: vec![], refused: 0, budget: u64::MAX, jr_on: false, jr: vec![] }
    }
    #[inline]
    fn background(&self, a: u32) -> u8 {
        if a < 0x400 {
            let r = (mix(self.seed ^ 0x5EC7 ^ (a as u64) << 20) >> 8) as u8;
            return if !self.vec_even { r } else { match a & 3 { 0 => 0, 3 => r & !1, _ => r } };
        }
        match self.bg {
            1 => 0,
            2 => 0xFF,
            3 => {
                let w = BOUND_WORDS[(mix(self.seed ^ (a >> 1) as u64) & 15) as usize];
                if a & 1 == 0 { (w >> 8) as u8 } else { w as u8 }
            }
            4 => {
                let r = mix(self.seed ^ a as u64);
                let (h, l) = ((r >> 8) & 15, (r >> 16) & 15);
                // valid digits, 9 and 0 over-represented
                let d = |x: u64| match x { 0..=9 => x, 10..=12 => 9, _ => 0 } as u8;
                d(h) << 4 | d(l)
            }
            5 => {
                let d = crate::gen::dict();
                let w = d[(mix(self.seed ^ (a >> 2) as u64) % d.len() as u64) as usize];
                // long and word values both occur
                let w = if w <= 0xFFFF && mix(self.seed ^ (a >> 2) as u64) >> 60 < 12 { w << 16 | w } else { w };
                (w >> (8 * (3 - (a & 3)))) as u8
            }
            _ => (mix(self.seed ^ (a >> 3) as u64) >> ((a & 7) * 8)) as u8,
        }
    }
    #[inline]
    pub fn byte(&self, a: u32) -> u8 {
        match self.over.get(&a) { Some(b) => *b, None => self.background(a) }
    }
    pub fn peek16(&self, a: u32) -> u16 { (self.byte(a) as u16) << 8 | self.byte(a.wrapping_add(1)) as u16 }
    pub fn peek32(&self, a: u32) -> u32 { (self.peek16(a) as u32) << 16 | self.peek16(a.wrapping_add(2)) as u32 }
    pub fn poke8(&mut self, a: u32, v: u8) {
        let o = self.over.insert(a, v);
        if self.jr_on { self.jr.push((a, o)); }
    }
    /// Undoes every write since the journal was started.
    pub fn undo(&mut self) {
        while let Some((a, o)) = self.jr.pop() {
            match o { Some(v) => { self.over.insert(a, v); } None => { self.over.remove(&a); } }
        }
    }
    pub fn poke16(&mut self, a: u32, v: u16) { self.poke8(a, (v >> 8) as u8); self.poke8(a.wrapping_add(1), v as u8); }
    pub fn poke32(&mut self, a: u32, v: u32) { self.poke16(a, (v >> 16) as u16); self.poke16(a.wrapping_add(2), v as u16); }
    #[inline]
    fn acc(&mut self, addr: u32, size: u8, write: bool) -> Option<()> {
        if self.log_on { self.log.push(Acc { addr, size, write }); }
        if size > 1 && addr & 1 != 0 && self.odd.is_none() { self.odd = Some(Acc { addr, size, write }); }
        if self.budget == 0 { self.refused += 1; return None; }
        self.budget -= 1;
        if !self.ranges.is_empty() && self.ranges.iter().any(|r| r.hits(addr, size as u32, write)) {
            self.refused += 1;
            return None;
        }
        Some(())
    }
    /// First address whose effective content differs, ignoring `dont`.
    pub fn diff(&self, o: &Mem, dont: &[u32]) -> Option<(u32, u8, u8)> {
        let mut best: Option<(u32, u8, u8)> = None;
        for k in self.over.keys().chain(o.over.keys()) {
            let (x, y) = (self.byte(*k), o.byte(*k));
            if x != y && !dont.contains(k) && best.is_none_or(|b| *k < b.0) { best = Some((*k, x, y)); }
        }
        best
    }
    pub fn mapped(&self, a: u32, n: u32, write: bool) -> bool { !self.ranges.iter().any(|r| r.hits(a, n, write)) }
}

impl MemoryAccess for Mem {
    fn get_byte(&mut self, a: u32) -> Option<u8> { self.acc(a, 1, false)?; Some(self.byte(a)) }
    fn get_word(&mut self, a: u32) -> Option<u16> { self.acc(a, 2, false)?; Some(self.peek16(a)) }
    fn get_long(&mut self, a: u32) -> Option<u32> {
        if self.native_long { self.acc(a, 4, false)?; Some(self.peek32(a)) }
        else {
            if self.log_on { self.log.push(Acc { addr: a, size: 4, write: false }); }
            Some((self.get_word(a)? as u32) << 16 | self.get_word(a.wrapping_add(2))? as u32)
        }
    }
    fn set_byte(&mut self, a: u32, v: u8) -> Option<()> { self.acc(a, 1, true)?; self.poke8(a, v); Some(()) }
    fn set_word(&mut self, a: u32, v: u16) -> Option<()> { self.acc(a, 2, true)?; self.poke16(a, v); Some(()) }
    fn set_long(&mut self, a: u32, v: u32) -> Option<()> {
        if self.native_long { self.acc(a, 4, true)?; self.poke32(a, v); Some(()) }
        else { self.set_word(a, (v >> 16) as u16)?; self.set_word(a.wrapping_add(2), v as u16) }
    }
    fn reset_instruction(&mut self) { self.resets += 1; }
}
