//! Generators.
use crate::dec::{groups, K};
use crate::diff::{FaultPick, Init};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

pub const SPECIAL32: [u32; 28] = [
    0, 1, 2, 3, 7, 8, 0x7F, 0x80, 0x81, 0xFF, 0x100, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF, 0x10000, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_8000, 0xFFFF_7FFF, 0xFFFF_FF80,
    0xFFFF_FF7F, 0xFFFF_FFFE, 0xFFFF_FFFF, 0x5555_5555, 0xAAAA_AAAA,
];
pub const SPECIAL16: [u16; 16] = crate::mem::BOUND_WORDS;

/// Integer literals of the code under test, with their neighbours: values it may treat specially.
pub fn dict() -> &'static [u32] {
    static D: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut v = vec![];
        for dir in ["/repo/m68000/src", "/repo/m68000/src/interpreter", "/repo/m68000/src/cpu_details", "/repo/m68000-ffi/src"] {
            let Ok(rd) = std::fs::read_dir(dir) else { continue };
            for f in rd.flatten() {
                if f.path().extension().is_some_and(|e| e == "rs") { literals(&std::fs::read_to_string(f.path()).unwrap_or_default(), &mut v); }
            }
        }
        v.sort();
        v.dedup();
        let mut out: Vec<u32> = v.iter().filter(|x| **x > 8).flat_map(|x| [*x, x.wrapping_add(1), x.wrapping_sub(1)]).collect();
        out.sort();
        out.dedup();
        if out.is_empty() { out.extend(SPECIAL32); }
        out
    })
}
fn literals(src: &str, out: &mut Vec<u32>) {
    for line in src.lines() {
        let code = line.split("//").next().unwrap_or("");
        for tok in code.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')) {
            if !tok.starts_with(|c: char| c.is_ascii_digit()) { continue; }
            let t = tok.replace('_', "");
            let (radix, body) = match t.get(..2) { Some("0x") => (16, &t[2..]), Some("0b") => (2, &t[2..]), Some("0o") => (8, &t[2..]), _ => (10, &t[..]) };
            let body = body.split(['u', 'i']).next().unwrap_or("");
            if let Ok(x) = u64::from_str_radix(body, radix) { out.push(x as u32); }
        }
    }
}

/// Data values: boundaries, spliced boundaries, small counts, uniform.
pub fn data32() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => proptest::sample::select(&SPECIAL32[..]),
        2 => 0u32..70,
        2 => (proptest::sample::select(&SPECIAL16[..]), proptest::sample::select(&SPECIAL16[..])).prop_map(|(a, b)| (a as u32) << 16 | b as u32),
        1 => proptest::sample::select(dict()),
        5 => any::<u32>(),
    ]
    .boxed()
}
pub fn data16() -> BoxedStrategy<u16> {
    prop_oneof![8 => proptest::sample::select(&SPECIAL16[..]), 1 => proptest::sample::select(dict()).prop_map(|x| x as u16), 8 => any::<u16>()].boxed()
}
/// Addresses: a small window, anywhere, next to the wrap-around; some odd.
pub fn addr32() -> BoxedStrategy<u32> {
    prop_oneof![
        8 => (0x800u32..0x8000).prop_map(|x| x * 2),
        4 => any::<u32>().prop_map(|x| x & !1),
        1 => (0u32..24).prop_map(|x| 0u32.wrapping_sub(x)),
        1 => 0u32..0x420,
        1 => proptest::sample::select(dict()),
        2 => any::<u32>(),
    ]
    .boxed()
}
pub fn even_pc() -> BoxedStrategy<u32> {
    prop_oneof![8 => (0x800u32..0x8000).prop_map(|x| x * 2), 4 => any::<u32>().prop_map(|x| x & !1), 1 => (0u32..8).prop_map(|x| 0u32.wrapping_sub(x * 2))].boxed()
}
/// Opcodes of the given kinds: kind, then form, then encoding, each uniformly.
pub fn opcode(kinds: &[K]) -> BoxedStrategy<u16> {
    let g: Vec<&'static Vec<Vec<u16>>> = kinds.iter().map(|k| &groups().by_kind[k]).collect();
    (any::<prop::sample::Index>(), any::<prop::sample::Index>(), any::<prop::sample::Index>())
        .prop_map(move |(a, b, c)| {
            let v = g[a.index(g.len())];
            let w = &v[b.index(v.len())];
            w[c.index(w.len())]
        })
        .boxed()
}
pub fn all_kinds() -> Vec<K> { groups().by_kind.keys().copied().collect() }
pub fn known_kinds() -> Vec<K> { all_kinds().into_iter().filter(|k| *k != K::Unknown).collect() }

pub fn sr() -> BoxedStrategy<u16> {
    // user / supervisor, mask, ccr; trace is rare
    (any::<u16>(), 0u8..8).prop_map(|(v, t)| v & 0x271F | if t == 0 { 0x8000 } else { 0 }).boxed()
}

pub fn init_with(code: BoxedStrategy<Vec<u16>>) -> BoxedStrategy<Init> {
    let regs = (prop::array::uniform8(data32()), prop::array::uniform7(addr32()), addr32(), addr32());
    let misc = (0u8..4, sr(), even_pc(), any::<u64>(), prop_oneof![5 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 3 => Just(3u8), 1 => Just(4u8), 1 => Just(5u8)], any::<bool>(), prop::bool::weighted(0.9), any::<u32>());
    // now and then two registers hold (nearly) the same value
    let alias = prop_oneof![3 => Just(None), 2 => (0usize..17, 0usize..18, prop_oneof![2 => Just(0i8), 1 => -10i8..11]).prop_map(Some)];
    (code, regs, misc, alias)
        .prop_map(|(code, (d, a, usp, ssp), (cpu, sr, pc, mem_seed, bg, native, even, sel), alias)| {
            let mut i = Init { cpu, code, d, a, usp, ssp, sr, pc, mem_seed, bg, native, even, sel };
            if let Some((to, from, off)) = alias {
                let x = match from { 0..=7 => i.d[from], 8..=14 => i.a[from - 8], 15 => i.usp, 16 => i.ssp, _ => i.pc }.wrapping_add(off as u32);
                *match to { 0..=7 => &mut i.d[to], 8..=14 => &mut i.a[to - 8], 15 => &mut i.usp, _ => &mut i.ssp } = x;
            }
            i
        })
        .boxed()
}
pub fn code1(kinds: &[K]) -> BoxedStrategy<Vec<u16>> {
    (opcode(kinds), prop::array::uniform4(data16())).prop_map(|(o, e)| vec![o, e[0], e[1], e[2], e[3]]).boxed()
}
/// One instruction of the given kinds in a random state.
pub fn inst(kinds: &[K]) -> BoxedStrategy<Init> { init_with(code1(kinds)) }

pub fn fault() -> BoxedStrategy<FaultPick> {
    (any::<u8>(), 0u8..4, 0u8..4, 0u8..3).prop_map(|(idx, off, len, what)| FaultPick { idx, off, len, what }).boxed()
}
