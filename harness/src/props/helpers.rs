//! Memory slices and small helpers: C23, C24.
use super::Prop;
use crate::diff::{sr_of, sr_to};
use crate::exec::cond;
use crate::mem::mix;
use crate::run::{guard, Ctx, Res, Runner};
use m68000::addressing_modes::{AddressingMode as Am, BriefExtensionWord as Bew};
use m68000::exception::{Exception, Vector};
use m68000::instruction::{Direction, Size};
use m68000::status_register::StatusRegister;
#[cfg(feature = "internals")]
use m68000::utils::CarryingOps;
use m68000::{MemoryAccess, Registers};
use proptest::prelude::*;
use std::num::Wrapping;

// ---------------------------------------------------------------- C23

/// One access: 0-2 read byte/word/long, 3-5 write, 6 iterate.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, Hash)]
pub struct Op { op: u8, addr: u32, val: u32 }
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, Hash)]
pub struct Slice { kind: u8, init: Vec<u8>, ops: Vec<Op> }

const MARGIN: usize = 8;
const PAD: u8 = 0xE7;

fn slice_strat() -> BoxedStrategy<Slice> {
    (0u8..4, proptest::collection::vec(any::<u8>(), 0..40))
        .prop_flat_map(|(kind, init)| {
            let n = init.len() as u32;
            let addr = prop_oneof![8 => 0..n + 6, 3 => n.saturating_sub(5)..n + 5, 1 => (0u32..8).prop_map(|x| 0u32.wrapping_sub(x)), 1 => any::<u32>(), 1 => (0..n + 4).prop_map(|x| x | 0x8000_0000)];
            let op = (0u8..7, addr, any::<u32>()).prop_map(|(op, addr, val)| Op { op, addr, val });
            (Just(kind), Just(init), proptest::collection::vec(op, 1..24))
        })
        .prop_map(|(kind, init, ops)| Slice { kind, init, ops })
        .boxed()
}

/// Object-safe view of the access functions of unsized and sized implementations alike.
trait Acc {
    fn gb(&mut self, a: u32) -> Option<u32>;
    fn gw(&mut self, a: u32) -> Option<u32>;
    fn gl(&mut self, a: u32) -> Option<u32>;
    fn sb(&mut self, a: u32, v: u8) -> Option<()>;
    fn sw(&mut self, a: u32, v: u16) -> Option<()>;
    fn sl(&mut self, a: u32, v: u32) -> Option<()>;
    fn iter(&mut self, a: u32, n: usize) -> Vec<(Option<Result<u16, u8>>, u32)>;
    fn rst(&mut self);
}
struct View<'a, M: MemoryAccess + ?Sized>(&'a mut M);
impl<M: MemoryAccess + ?Sized> Acc for View<'_, M> {
    fn gb(&mut self, a: u32) -> Option<u32> { self.0.get_byte(a).map(u32::from) }
    fn gw(&mut self, a: u32) -> Option<u32> { self.0.get_word(a).map(u32::from) }
    fn gl(&mut self, a: u32) -> Option<u32> { self.0.get_long(a) }
    fn sb(&mut self, a: u32, v: u8) -> Option<()> { self.0.set_byte(a, v) }
    fn sw(&mut self, a: u32, v: u16) -> Option<()> { self.0.set_word(a, v) }
    fn sl(&mut self, a: u32, v: u32) -> Option<()> { self.0.set_long(a, v) }
    fn iter(&mut self, a: u32, n: usize) -> Vec<(Option<Result<u16, u8>>, u32)> {
        let mut it = self.0.iter_u16(a);
        (0..n).map(|_| { let v = it.next(); (v, it.next_addr) }).collect()
    }
    fn rst(&mut self) { self.0.reset_instruction() }
}

fn check_slice(s: &Slice, ctx: &mut Ctx) -> Res {
    let wide = s.kind >= 2;
    let mut model: Vec<u8> = s.init.clone();
    if wide && model.len() % 2 == 1 { model.pop(); }
    let n = model.len();
    let mut b8 = vec![PAD; n + 2 * MARGIN];
    b8[MARGIN..MARGIN + n].copy_from_slice(&model);
    let mut b16: Vec<u16> = b8.chunks(2).map(|c| if c.len() == 2 { (c[0] as u16) << 8 | c[1] as u16 } else { 0 }).collect();
    let (mut hits, mut misses) = (0, 0);
    for o in &s.ops {
        // read-only slices cannot be written; word slices are only given even word addresses by the emulator
        let op = if s.kind & 1 == 1 && (3..6).contains(&o.op) { o.op - 3 } else { o.op };
        let unaligned = wide && o.addr & 1 != 0 && matches!(op, 1 | 2 | 4 | 5);
        let len = match op { 0 | 3 => 1u64, 1 | 4 => 2, 2 | 5 => 4, _ => 0 };
        let inside = o.addr as u64 + len <= n as u64;
        let be = |k: usize| (0..k).fold(0u32, |v, j| v << 8 | model[o.addr as usize + j] as u32);
        let run = |m: &mut dyn Acc| -> Result<(), String> {
            m.rst();
            match op {
                0..=2 => {
                    let got = match op { 0 => m.gb(o.addr), 1 => m.gw(o.addr), _ => m.gl(o.addr) };
                    if unaligned { return Ok(()); }
                    let want = inside.then(|| be(len as usize));
                    if got != want { return Err(format!("reading {len} bytes at {:#X} of {n}: expected {want:X?}, got {got:X?}", o.addr)); }
                }
                3..=5 => {
                    let got = match op { 3 => m.sb(o.addr, o.val as u8), 4 => m.sw(o.addr, o.val as u16), _ => m.sl(o.addr, o.val) };
                    if unaligned { return Ok(()); }
                    if got.is_some() != inside { return Err(format!("writing {len} bytes at {:#X} of {n}: got {got:?}", o.addr)); }
                }
                _ => {
                    let k = 1 + (o.val & 7) as usize;
                    let items = m.iter(o.addr, k);
                    let mut a = o.addr;
                    for (it, next) in items {
                        if a & 1 != 0 {
                            if it != Some(Err(3)) { return Err(format!("iterating at odd {a:#X}: {it:?}")); }
                            break;
                        }
                        let want = if a as u64 + 2 <= n as u64 { Ok((model[a as usize] as u16) << 8 | model[a as usize + 1] as u16) } else { Err(2) };
                        if it != Some(want) { return Err(format!("iterating at {a:#X} of {n}: expected {want:X?}, got {it:X?}")); }
                        if want.is_err() { break; }
                        a = a.wrapping_add(2);
                        if next != a { return Err(format!("iterator at {next:#X} instead of {a:#X}")); }
                    }
                }
            }
            Ok(())
        };
        guard(|| match s.kind {
            0 => run(&mut View(&mut b8[MARGIN..MARGIN + n])),
            1 => { let mut m: &[u8] = &b8[MARGIN..MARGIN + n]; run(&mut View(&mut m)) }
            2 => run(&mut View(&mut b16[MARGIN / 2..(MARGIN + n) / 2])),
            _ => { let mut m: &[u16] = &b16[MARGIN / 2..(MARGIN + n) / 2]; run(&mut View(&mut m)) }
        }).map_err(|p| format!("operation {op} at {:#X} of {n} bytes panicked: {p}", o.addr))??;
        let all: Vec<u8> = if wide { b16.iter().flat_map(|w| w.to_be_bytes()).collect() } else { b8.clone() };
        let (pre, rest) = all.split_at(MARGIN);
        let (now, post) = rest.split_at(n);
        if pre.iter().chain(post.iter().take(MARGIN)).any(|b| *b != PAD) { return Err(format!("operation {op} at {:#X} changed memory outside of the slice", o.addr)); }
        if (3..6).contains(&op) && unaligned { model = now.to_vec(); continue; }
        if (3..6).contains(&op) && inside {
            for j in 0..len as usize { model[o.addr as usize + j] = (o.val >> (8 * (len as usize - 1 - j))) as u8; }
            hits += 1;
        } else if len > 0 { if inside { hits += 1 } else { misses += 1 } }
        for k in 0..n {
            // a refused long access may have stored the part that lies inside
            let part = (3..6).contains(&op) && !inside && (k as u64).wrapping_sub(o.addr as u64) < len;
            if now[k] != model[k] && !part { return Err(format!("operation {op} at {:#X} value {:#X}: byte {k:#X} expected {:02X}, got {:02X}", o.addr, o.val, model[k], now[k])); }
        }
        model = now.to_vec();
    }
    if !ctx.quiet {
        ctx.class(["[u8]", "&[u8]", "[u16]", "&[u16]"][s.kind as usize]);
        if misses > 0 { ctx.class("out of range"); }
    }
    ctx.nontrivial = hits > 0;
    Ok(())
}

thread_local! {
    /// Zeroed bytes and words, grown as needed and mostly never touched.
    static HUGE: std::cell::RefCell<(Vec<u8>, Vec<u16>)> = const { std::cell::RefCell::new((vec![], vec![])) };
}
const SIZES: [u64; 14] = [0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x1_0000, 0x80_0000, 0xFF_FFFF, 0x100_0000, 0x8000_0000, 0xFFFF_FFFF, 0x1_0000_0000];
/// Slices up to the whole address space (and more): (kind, size index, size offset, accesses).
fn check_large(p: &(u8, u8, i8, Vec<(u8, u8, i8, u32)>), ctx: &mut Ctx) -> Res {
    let (kind, ix, off, ops) = p;
    let n = (SIZES[*ix as usize % SIZES.len()] as i64 + *off as i64).max(0) as usize;
    let wide = *kind >= 2;
    let n = if wide { n & !1 } else { n };
    HUGE.with_borrow_mut(|(b8, b16)| {
        if wide { if b16.len() < n / 2 { *b16 = vec![0; n / 2]; } } else if b8.len() < n { *b8 = vec![0; n]; }
        let mut model: std::collections::BTreeMap<u64, u8> = Default::default();
        let (mut hits, mut res) = (0, Ok(()));
        for (op, at, d, val) in ops {
            let op = if kind & 1 == 1 { op % 3 } else { op % 6 };
            // around powers of two and around the end
            let addr = if at & 31 == 31 { (n as i64 + *d as i64) as u32 } else { (1u32 << (at & 31)).wrapping_add_signed(*d as i32) ^ if at >> 5 == 7 { n as u32 & !3 } else { 0 } };
            let addr = if wide && op % 3 != 0 { addr & !1 } else { addr };
            let len = [1u64, 2, 4][op as usize % 3];
            // past the end of the address space of a slice that covers all of it: open
            if n as u64 > u32::MAX as u64 && addr as u64 + len > 1 << 32 { continue; }
            let inside = addr as u64 + len <= n as u64;
            let want = inside.then(|| (0..len).fold(0u32, |v, k| v << 8 | *model.get(&(addr as u64 + k)).unwrap_or(&0) as u32));
            let run = |m: &mut dyn Acc| -> Res {
                match op {
                    0..=2 => {
                        let got = match op { 0 => m.gb(addr), 1 => m.gw(addr), _ => m.gl(addr) };
                        if got != want { return Err(format!("reading {len} bytes at {addr:#X} of {n:#X}: expected {want:X?}, got {got:X?}")); }
                        if op == 1 && addr & 1 == 0 {
                            let it = m.iter(addr, 1)[0];
                            let e = match want { Some(x) => (Some(Ok(x as u16)), addr.wrapping_add(2)), None => (Some(Err(2)), it.1) };
                            if it != e { return Err(format!("iterating at {addr:#X} of {n:#X}: {it:X?}, expected {e:X?}")); }
                        }
                    }
                    _ => {
                        let got = match op { 3 => m.sb(addr, *val as u8), 4 => m.sw(addr, *val as u16), _ => m.sl(addr, *val) };
                        if got.is_some() != inside { return Err(format!("writing {len} bytes at {addr:#X} of {n:#X}: got {got:?}")); }
                    }
                }
                Ok(())
            };
            res = guard(|| match kind {
                0 => run(&mut View(&mut b8[..n])),
                1 => { let mut m: &[u8] = &b8[..n]; run(&mut View(&mut m)) }
                2 => run(&mut View(&mut b16[..n / 2])),
                _ => { let mut m: &[u16] = &b16[..n / 2]; run(&mut View(&mut m)) }
            }).map_err(|p| format!("operation {op} at {addr:#X} of {n:#X} bytes panicked: {p}")).and_then(|r| r);
            if res.is_err() { break; }
            let get = |a: u64| if wide { b16.get(a as usize / 2).map(|w| (w >> if a & 1 == 0 { 8 } else { 0 }) as u8) } else { b8.get(a as usize).copied() };
            if op >= 3 {
                for k in 0..len {
                    let a = addr as u64 + k;
                    if inside { model.insert(a, (*val >> (8 * (len - 1 - k))) as u8); }
                    // a refused long write may have stored the part that lies inside
                    else if a < n as u64 { if let Some(b) = get(a) { model.insert(a, b); } }
                }
            }
            // the bytes around, and those at addresses that differ in one bit
            let near = (0..8).map(|k| (addr as u64 + k).wrapping_sub(2)).chain((12..32).map(|b| addr as u64 ^ 1 << b)).chain(model.keys().copied());
            for a in near {
                let Some(b) = get(a) else { continue };
                let e = model.get(&a).copied().unwrap_or(0);
                if b != e { res = Err(format!("operation {op} at {addr:#X} of {n:#X}: byte {a:#X} is {b:02X}, expected {e:02X}")); }
            }
            if res.is_err() { break; }
            hits += inside as u32;
        }
        if res.is_err() { *b8 = vec![]; *b16 = vec![]; return res; }
        for a in model.keys() { if wide { b16[*a as usize / 2] = 0 } else { b8[*a as usize] = 0 } }
        ctx.class(&format!("{} of {:#X} bytes and nearby", ["[u8]", "&[u8]", "[u16]", "&[u16]"][*kind as usize], SIZES[*ix as usize % SIZES.len()]));
        ctx.nontrivial = hits > 0;
        Ok(())
    })
}

/// A memory that only implements bytes and words: the default long accesses are two word accesses.
struct Words { m: Vec<u8>, log: Vec<(u32, bool)>, refuse: u32 }
impl MemoryAccess for Words {
    fn get_byte(&mut self, a: u32) -> Option<u8> { self.m.get(a as usize).copied() }
    fn get_word(&mut self, a: u32) -> Option<u16> { self.log.push((a, false)); if a == self.refuse { return None; } Some((self.m[a as usize & 63] as u16) << 8 | self.m[(a as usize + 1) & 63] as u16) }
    fn set_byte(&mut self, _: u32, _: u8) -> Option<()> { None }
    fn set_word(&mut self, a: u32, v: u16) -> Option<()> { self.log.push((a, true)); if a == self.refuse { return None; } self.m[a as usize & 63] = (v >> 8) as u8; self.m[(a as usize + 1) & 63] = v as u8; Some(()) }
    fn reset_instruction(&mut self) {}
}
fn check_default((seed, addr, val, refuse): &(u64, u32, u32, u8), ctx: &mut Ctx) -> Res {
    let addr = addr & !1;
    let m: Vec<u8> = (0..64).map(|k| mix(seed ^ k) as u8).collect();
    let refuse = match refuse % 3 { 0 => addr, 1 => addr.wrapping_add(2), _ => 1 };
    let hi = |v: &[u8], a: u32| (v[a as usize & 63] as u32) << 8 | v[(a as usize + 1) & 63] as u32;
    let mut w = Words { m: m.clone(), log: vec![], refuse };
    let g = w.get_long(addr);
    let want = (refuse == 1).then(|| hi(&m, addr) << 16 | hi(&m, addr.wrapping_add(2)));
    if g != want { return Err(format!("default long read at {addr:#X}: expected {want:X?}, got {g:X?}")); }
    if w.log.iter().any(|l| l.1 || l.0 != addr && l.0 != addr.wrapping_add(2)) { return Err(format!("default long read accessed {:X?}", w.log)); }
    w.log.clear();
    let s = w.set_long(addr, *val);
    if s.is_some() != (refuse == 1) { return Err(format!("default long write at {addr:#X} returned {s:?}")); }
    if w.log.iter().any(|l| !l.1 || l.0 != addr && l.0 != addr.wrapping_add(2)) { return Err(format!("default long write accessed {:X?}", w.log)); }
    if s.is_some() && (hi(&w.m, addr) << 16 | hi(&w.m, addr.wrapping_add(2))) != *val { return Err("default long write stored another value".into()); }
    ctx.nontrivial = true;
    Ok(())
}

pub const C23: Prop = Prop {
    id: "C23",
    rule: "a case is a slice kind, its contents and a sequence of accesses and iterations around its bounds (or one default long access); non-trivial when at least one access lies inside the slice",
    assumptions: &["odd word and long addresses on 16-bit slices are only required not to panic and to stay inside the slice (the emulator never issues them)", "an access that straddles the end of the address space is not specified for a slice of 4 GiB or more"],
    run: |r: &Runner| {
        r.rand("slices", 600_000, slice_strat, check_slice);
        // addresses with high bits set, in slices of every magnitude up to the whole address space
        r.rand("large-slices", 60_000, || (0u8..4, 0u8..14, -5i8..6, prop::collection::vec((0u8..6, any::<u8>(), -5i8..6, any::<u32>()), 1..16)).boxed(), check_large);
        // documented: a write through an immutable slice panics
        r.rand("read-only", 20_000, || (0u8..6, prop::collection::vec(any::<u16>(), 0..9), 0u32..24, any::<u32>()).boxed(), |(k, w, a, v), ctx| {
            let b: Vec<u8> = w.iter().flat_map(|w| w.to_be_bytes()).collect();
            let a = if k % 3 == 0 { *a } else { *a & !1 };
            let put = |m: &mut dyn Acc| match k % 3 { 0 => m.sb(a, *v as u8), 1 => m.sw(a, *v as u16), _ => m.sl(a, *v) };
            let got = guard(|| if *k < 3 { let mut m = &b[..]; put(&mut View(&mut m)) } else { let mut m = &w[..]; put(&mut View(&mut m)) });
            if let Ok(x) = got { return Err(format!("writing {v:X} at {a:#X} of an immutable slice of {} bytes returned {x:?}", b.len())); }
            ctx.nontrivial = (a as usize) < b.len();
            Ok(())
        });
        r.rand("default-long", 60_000, || (any::<u64>(), crate::gen::addr32(), any::<u32>(), any::<u8>()).boxed(), check_default);
    },
};

// ---------------------------------------------------------------- C24

const MASK: u16 = 0xA71F;

fn check_sr(n: u64, ctx: &mut Ctx) -> Res {
    let v = n as u16;
    let s = StatusRegister::from(v);
    if s != sr_to(v) { return Err(format!("SR from {v:04X} is {s:?}")); }
    if u16::from(s) != v & MASK { return Err(format!("SR from {v:04X} converts back to {:04X}", u16::from(s))); }
    for cc in 0..16u8 {
        let want = cond(cc as u16, v);
        if s.condition(cc) != want { return Err(format!("condition {cc} of SR {v:04X} is {}", !want)); }
    }
    // every canonical left operand
    for l in 0..1024u16 {
        let a = (l >> 9 & 1) << 15 | (l >> 8 & 1) << 13 | (l >> 5 & 7) << 8 | l & 31;
        let f = sr_to(a);
        let (mut x, mut y, mut z, mut w) = (f, f, f, f);
        x &= v;
        y |= v;
        z ^= v;
        w.set_ccr(v);
        if sr_of(x) != a & v { return Err(format!("{a:04X} &= {v:04X} gives {:04X}", sr_of(x))); }
        if sr_of(y) != (a | v) & MASK { return Err(format!("{a:04X} |= {v:04X} gives {:04X}", sr_of(y))); }
        if sr_of(z) != (a ^ v) & MASK { return Err(format!("{a:04X} ^= {v:04X} gives {:04X}", sr_of(z))); }
        if sr_of(w) != a & 0xFF00 | v & 0x1F { return Err(format!("{a:04X} with CCR set to {v:04X} gives {:04X}", sr_of(w))); }
    }
    ctx.nontrivial = true;
    Ok(())
}

fn check_regs((d, a, usp, ssp, sr, r, v): &([u32; 8], [u32; 7], u32, u32, u16, u8, u32), ctx: &mut Ctx) -> Res {
    let r = r & 7;
    let base = Registers { d: d.map(Wrapping), a: a.map(Wrapping), usp: Wrapping(*usp), ssp: Wrapping(*ssp), sr: sr_to(*sr), pc: Wrapping(0x1234) };
    let k = r as usize;
    let mut m = base;
    m.d_byte(r, *v as u8);
    let mut w = base;
    w.d[k].0 = w.d[k].0 & !0xFF | *v & 0xFF;
    if m != w { return Err(format!("d_byte({r}, {:02X}): expected {w:X?}, got {m:X?}", *v as u8)); }
    let mut m = base;
    m.d_word(r, *v as u16);
    let mut w = base;
    w.d[k].0 = w.d[k].0 & !0xFFFF | *v & 0xFFFF;
    if m != w { return Err(format!("d_word({r}, {:04X}): expected {w:X?}, got {m:X?}", *v as u16)); }
    let sp = if *sr & 0x2000 != 0 { *ssp } else { *usp };
    let want = if r == 7 { sp } else { a[k] };
    if base.a(r) != want || base.sp() != sp { return Err(format!("A{r} expected {want:X}, got {:X}; SP expected {sp:X}, got {:X}", base.a(r), base.sp())); }
    let mut w = base;
    if r == 7 { if *sr & 0x2000 != 0 { w.ssp.0 = *v } else { w.usp.0 = *v } } else { w.a[k].0 = *v }
    let mut m = base;
    m.a_mut(r).0 = *v;
    if m != w { return Err(format!("a_mut({r}) = {v:X}: expected {w:X?}, got {m:X?}")); }
    let mut m = base;
    m.sp_mut().0 = *v;
    let mut w = base;
    if *sr & 0x2000 != 0 { w.ssp.0 = *v } else { w.usp.0 = *v }
    if m != w { return Err(format!("sp_mut = {v:X}: expected {w:X?}, got {m:X?}")); }
    let s = Registers::with_sr(sr_to(*sr));
    let w = Registers { sr: sr_to(*sr), d: Default::default(), a: Default::default(), usp: Wrapping(0), ssp: Wrapping(0), pc: Wrapping(0) };
    if s != w { return Err(format!("with_sr: {s:X?}")); }
    ctx.nontrivial = *usp != *ssp;
    Ok(())
}

fn check_bew(n: u64, ctx: &mut Ctx) -> Res {
    let (reg, long, adr, disp) = ((n & 0xFF) as u8, n >> 8 & 1 != 0, n >> 9 & 1 != 0, (n >> 10) as u8 as i8);
    let got = guard(|| Bew::new(adr, reg, long, disp)).ok();
    let want = (reg < 8).then(|| Bew((adr as u16) << 15 | (reg as u16) << 12 | (long as u16) << 11 | disp as u8 as u16));
    if got != want { return Err(format!("BriefExtensionWord::new({adr}, {reg}, {long}, {disp}): expected {want:X?}, got {got:X?}")); }
    if let Some(b) = got {
        let t = format!("{}{reg}.{}", if adr { "A" } else { "D" }, if long { "L" } else { "W" });
        if b.disp() != disp || b.to_string() != t { return Err(format!("{b:X?}: displacement {} text {b}", b.disp())); }
        ctx.nontrivial = true;
    }
    Ok(())
}

fn check_size(n: u64, ctx: &mut Ctx) -> Res {
    const ALL: [Size; 3] = [Size::Byte, Size::Word, Size::Long];
    let v = n as u16;
    let want = |c: &[(u16, Size)]| c.iter().find(|x| x.0 == v).map(|x| x.1);
    let got = guard(|| Size::from(v)).ok();
    if got != want(&[(0, Size::Byte), (1, Size::Word), (2, Size::Long)]) { return Err(format!("Size::from({v}): {got:?}")); }
    let got = guard(|| Size::from_move(v)).ok();
    if got != want(&[(1, Size::Byte), (3, Size::Word), (2, Size::Long)]) { return Err(format!("Size::from_move({v}): {got:?}")); }
    if Size::from_bit(v & 1 != 0) != if v & 1 != 0 { Size::Long } else { Size::Word } { return Err("Size::from_bit".into()); }
    for (k, s) in ALL.iter().enumerate() {
        let ok = u16::from(*s) == k as u16 && s.into_move() == [1, 3, 2][k] && s.as_word_long() == [Size::Word, Size::Word, Size::Long][k] && s.is_byte() == (k == 0) && s.is_word() == (k == 1)
            && s.is_long() == (k == 2) && s.to_string() == ["B", "W", "L"][k] && *s as u32 == [1, 2, 4][k] && guard(|| s.into_bit()).ok() == [None, Some(0), Some(1)][k];
        if !ok { return Err(format!("a helper of {s:?} is wrong")); }
    }
    if Direction::Left.to_string() != "L" || Direction::Right.to_string() != "R" { return Err("Direction text".into()); }
    ctx.nontrivial = v < 4;
    Ok(())
}

fn check_am((class, reg, w, l, modes, regs): &(u8, u8, u16, u32, u8, u8), ctx: &mut Ctx) -> Res {
    let (c, r) = (*class % 12, *reg);
    let a = match c {
        0 => Am::Drd(r), 1 => Am::Ard(r), 2 => Am::Ari(r), 3 => Am::Ariwpo(r), 4 => Am::Ariwpr(r), 5 => Am::Ariwd(r, *w as i16), 6 => Am::Ariwi8(r, Bew(*w)), 7 => Am::AbsShort(*w), 8 => Am::AbsLong(*l),
        9 => Am::Pciwd(*l, *w as i16), 10 => Am::Pciwi8(*l, Bew(*w)), _ => Am::Immediate(*l),
    };
    let ok = a.register() == (c < 7).then_some(r) && a.is_drd() == (c == 0) && a.is_ard() == (c == 1) && a.is_dard() == (c < 2) && a.is_ariwpo() == (c == 3) && a.is_ariwpr() == (c == 4) && a.is_immediate() == (c == 11);
    if !ok { return Err(format!("a helper of {a:?} is wrong")); }
    let ms: Vec<u8> = (0..8).filter(|k| modes >> k & 1 != 0).collect();
    let rs: Vec<u8> = (0..5).filter(|k| regs >> k & 1 != 0).collect();
    let want = if c < 7 { r <= 7 && ms.contains(&c) } else { ms.contains(&7) && rs.contains(&(c - 7)) };
    if a.verify(&ms, &rs) != want { return Err(format!("{a:?}.verify({ms:?}, {rs:?}) is {}", !want)); }
    ctx.nontrivial = want;
    Ok(())
}

fn check_vector(n: u64, ctx: &mut Ctx) -> Res {
    use Vector::*;
    let v = n as u8;
    const NAMED: [(Vector, u8); 48] = [
        (ResetSspPc, 0), (AccessError, 2), (AddressError, 3), (IllegalInstruction, 4), (ZeroDivide, 5), (ChkInstruction, 6), (TrapVInstruction, 7), (PrivilegeViolation, 8), (Trace, 9), (LineAEmulator, 10), (LineFEmulator, 11),
        (FormatError, 14), (UninitializedInterrupt, 15), (SpuriousInterrupt, 24), (Level1Interrupt, 25), (Level2Interrupt, 26), (Level3Interrupt, 27), (Level4Interrupt, 28), (Level5Interrupt, 29), (Level6Interrupt, 30),
        (Level7Interrupt, 31), (Trap0Instruction, 32), (Trap1Instruction, 33), (Trap2Instruction, 34), (Trap3Instruction, 35), (Trap4Instruction, 36), (Trap5Instruction, 37), (Trap6Instruction, 38), (Trap7Instruction, 39),
        (Trap8Instruction, 40), (Trap9Instruction, 41), (Trap10Instruction, 42), (Trap11Instruction, 43), (Trap12Instruction, 44), (Trap13Instruction, 45), (Trap14Instruction, 46), (Trap15Instruction, 47),
        (Level1OnChipInterrupt, 57), (Level2OnChipInterrupt, 58), (Level3OnChipInterrupt, 59), (Level4OnChipInterrupt, 60), (Level5OnChipInterrupt, 61), (Level6OnChipInterrupt, 62), (Level7OnChipInterrupt, 63), (UserInterrupt, 64),
        (Trace, 9), (Trace, 9), (Trace, 9),
    ];
    for (x, k) in NAMED { if Exception::from(x).vector != k || Exception::from(x) != Exception::from(k) { return Err(format!("{x:?} is vector {}", Exception::from(x).vector)); } }
    let e = Exception::from(v);
    let irq = (25..=31).contains(&v) || (57..=63).contains(&v);
    if e.vector != v || e.is_interrupt() != irq { return Err(format!("Exception::from({v}): {e:?}, interrupt {}", e.is_interrupt())); }
    ctx.nontrivial = true;
    Ok(())
}

#[cfg(not(feature = "internals"))]
fn check_utils(_: &(Vec<u16>, u32, u8), _: &mut Ctx) -> Res { Ok(()) }
#[cfg(not(feature = "internals"))]
fn check_carry(_: &(u32, u32, bool), _: &mut Ctx) -> Res { Ok(()) }

/// Bit extraction, evenness and reading values from slices.
#[cfg(feature = "internals")]
fn check_utils((w, x, bit): &(Vec<u16>, u32, u8), ctx: &mut Ctx) -> Res {
    use m68000::utils::{bit as bit_of, bits, IsEven, Integer, SliceAs};
    let d = w[0];
    for k in 0..16u16 {
        if bit_of(d, k) != ((d >> k) % 2 == 1) { return Err(format!("bit({d:04X}, {k})")); }
        for e in k..16 {
            let want = (0..=e - k).fold(0u16, |acc, n| acc | (d >> (k + n) & 1) << n);
            let got = guard(|| bits(d, k, e));
            if got != Ok(want) { return Err(format!("bits({d:04X}, {k}, {e}): expected {want:04X}, got {got:X?}")); }
        }
    }
    let even = x % 2 == 0;
    let r = |v: Result<(), u8>| v == if even { Ok(()) } else { Err(3) };
    let ok = x.is_even() == even && Wrapping(*x).is_even() == even && (*x as usize).is_even() == even && r(x.even().map(|y| assert_eq!(y, *x))) && r(Wrapping(*x).even().map(|y| assert_eq!(y.0, *x)))
        && r((*x as usize).even().map(|y| assert_eq!(y, *x as usize)));
    if !ok { return Err(format!("evenness of {x:X}")); }
    let s: &[u16] = w;
    let l = (w[0] as u32) * 65536 + w[1] as u32;
    let mut it = s;
    let ok = s.u32_be() == l && s.i32_be_sized(Size::Byte) == w[0] as u8 as i8 as i32 && s.i32_be_sized(Size::Word) == w[0] as i16 as i32 && s.i32_be_sized(Size::Long) == l as i32 && it.get_next_word() == w[0] && it == &w[1..];
    if !ok { return Err(format!("values read from {w:X?}")); }
    macro_rules! int { ($($t:ty)*) => { $( if <$t as Integer>::ZERO != 0 || <$t as Integer>::SIGN_BIT_MASK.count_ones() != 1 || <$t as Integer>::SIGN_BIT_MASK.leading_zeros() != 0 { return Err(format!("constants of {}", stringify!($t))); } )* } }
    int!(i8 u8 i16 u16 i32 u32);
    ctx.nontrivial = d != 0 && *bit != 0;
    Ok(())
}

/// Carrying addition and borrowing subtraction equal wide arithmetic.
#[cfg(feature = "internals")]
fn check_carry((a, b, c): &(u32, u32, bool), ctx: &mut Ctx) -> Res {
    macro_rules! t {
        ($u:ty, $s:ty) => {{
            let (x, y) = (*a as $u, *b as $u);
            let (sx, sy) = (x as $s as i64, y as $s as i64);
            let (ux, uy, k) = (x as i64, y as i64, *c as i64);
            let u = |v: i64| (v as $u, !(0..=<$u>::MAX as i64).contains(&v));
            let s = |v: i64| (v as $s, !(<$s>::MIN as i64..=<$s>::MAX as i64).contains(&v));
            let ok = x.unsigned_carrying_add(y, *c) == u(ux + uy + k) && x.signed_carrying_add(y, *c) == s(sx + sy + k) && x.unsigned_borrowing_sub(y, *c) == u(ux - uy - k) && x.signed_borrowing_sub(y, *c) == s(sx - sy - k)
                && x.carryingadd(y, *c) == u(ux + uy + k) && x.borrowingsub(y, *c) == u(ux - uy - k)
                && (x as $s).carryingadd(y as $s, *c) == s(sx + sy + k) && (x as $s).borrowingsub(y as $s, *c) == s(sx - sy - k)
                && (x as $s).unsigned_carrying_add(y as $s, *c) == u(ux + uy + k) && (x as $s).signed_carrying_add(y as $s, *c) == s(sx + sy + k)
                && (x as $s).unsigned_borrowing_sub(y as $s, *c) == u(ux - uy - k) && (x as $s).signed_borrowing_sub(y as $s, *c) == s(sx - sy - k);
            if !ok { return Err(format!("carrying operations of {x:X} and {y:X} with {c} as {}", stringify!($u))); }
        }};
    }
    t!(u8, i8);
    t!(u16, i16);
    t!(u32, i32);
    ctx.nontrivial = true;
    Ok(())
}

pub const C24: Prop = Prop {
    id: "C24",
    rule: "a case is one status value (with every condition and every canonical left operand of the operators), one register set with a helper call, or one argument of a helper; non-trivial when the helper is defined for it (register cases: when the two stack pointers differ)",
    assumptions: &["a StatusRegister is only built with an interrupt mask of 0 to 7"],
    run: |r: &Runner| {
        r.exhaust("status-register", 65536, check_sr);
        r.rand("registers", 200_000, || (prop::array::uniform8(crate::gen::data32()), prop::array::uniform7(crate::gen::data32()), any::<u32>(), any::<u32>(), any::<u16>(), any::<u8>(), crate::gen::data32()).boxed(), check_regs);
        r.exhaust("brief-extension-word", 1 << 18, check_bew);
        r.exhaust("size", 65536, check_size);
        r.rand("addressing-mode-helpers", 100_000, || (any::<u8>(), prop_oneof![9 => 0u8..8, 1 => any::<u8>()], any::<u16>(), any::<u32>(), any::<u8>(), any::<u8>()).boxed(), check_am);
        r.rand("utils", 100_000, || (prop::collection::vec(crate::gen::data16(), 2..6), crate::gen::data32(), any::<u8>()).boxed(), check_utils);
        r.exhaust("vectors", 256, check_vector);
        r.exhaust("carry-bytes", 1 << 17, |n, c| check_carry(&((n & 0xFF) as u32, (n >> 8 & 0xFF) as u32, n >> 16 != 0), c));
        r.rand("carry-random", 300_000, || (crate::gen::data32(), crate::gen::data32(), any::<bool>()).boxed(), check_carry);
    },
};
