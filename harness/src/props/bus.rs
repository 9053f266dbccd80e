//! Which memory accesses are made, how often and how wide: what a device with side effects sees.
use super::hist::*;
use super::single::every_opcode;
use super::Prop;
use crate::dec::{Ins, K};
use crate::diff::*;
use crate::exec::{Out, St};
use crate::gen;
use crate::mem::{Acc, FMap, Mem};
use crate::run::{guard, Ctx, Res, Runner};
use crate::with_cpu;
use m68000::MemoryAccess;
use proptest::prelude::*;
use std::collections::BTreeMap;

/// Accesses of one byte, in order: read or write, as a byte or as part of a word.
type Trace = BTreeMap<u32, Vec<(bool, bool)>>;

fn trace(log: &[Acc], native: bool) -> Trace {
    let mut t = Trace::new();
    for a in log {
        // longs that come as two words are logged as those
        if a.size == 4 && !native { continue; }
        for k in 0..a.size as u32 { t.entry(a.addr.wrapping_add(k)).or_default().push((a.write, a.size > 1)); }
    }
    t
}
fn show(v: &[(bool, bool)]) -> String {
    if v.is_empty() { return "not accessed".into(); }
    v.iter().map(|(w, wide)| format!("{}{}", if *w { "write" } else { "read" }, if *wide { "" } else { " (byte)" })).collect::<Vec<_>>().join(", ")
}
/// Instruction words may be read any number of times, ahead too.
fn strip_code(t: &mut Trace, at: u32, len: u32) {
    for k in 0..len { if let Some(v) = t.get_mut(&at.wrapping_add(k)) { v.retain(|e| e.0); } }
}

pub fn same_accesses(im: &Mem, rm: &Mem, o: &Out, from: u32, next: u32) -> Res {
    if o.unspec || o.fault.as_ref().is_some_and(|f| f.fetch || !o.taken.is_empty()) || o.taken.iter().any(|v| matches!(v, 2 | 3)) { return Ok(()); }
    let mut got = trace(&im.log, im.native_long);
    let mut want = trace(&rm.log, rm.native_long);
    let mut at_most = false;
    if let Some(f) = &o.fault {
        // some of the accesses that would have been made
        want = trace(&f.mem_after.log, true);
        at_most = true;
    }
    if o.reset_taken { for a in 0..8 { want.entry(a).or_default().insert(0, (false, true)); } }
    for t in [&mut got, &mut want] {
        if let Some(i) = &o.ins { strip_code(t, i.pc.wrapping_sub(2), i.len + 6); }
        strip_code(t, from, 4);
        strip_code(t, next, 4);
    }
    // the MC68000 reads what it clears or sets; the words of a long frame may be looked at
    let reads_first = matches!(o.ins, Some(Ins { k: K::Clr | K::Scc | K::Movefsr, .. }));
    let frame = matches!(o.ins, Some(Ins { k: K::Rte, .. })).then(|| next);
    let what = || match &o.ins { Some(i) => format!("{:?} ({:04X} at {:08X})", i.k, i.op, i.pc), None => "no instruction".into() };
    let keys: std::collections::BTreeSet<u32> = got.keys().chain(want.keys()).copied().collect();
    let none = vec![];
    for a in keys {
        let (g, w) = (got.get(&a).unwrap_or(&none), want.get(&a).unwrap_or(&none));
        if g == w { continue; }
        if at_most && g.len() <= w.len() && *g == w[..g.len()] { continue; }
        if reads_first && w.len() == 1 && w[0].0 && (*g == [(false, w[0].1), w[0]] || at_most && *g == [(false, w[0].1)]) { continue; }
        if frame.is_some() && g.iter().all(|e| !e.0) && w.iter().all(|e| !e.0) && g.len() <= w.len() + 1 { continue; }
        return Err(format!("{}: address {a:08X}: {}; expected: {}{}", what(), show(g), if at_most { "at most " } else { "" }, show(w)));
    }
    Ok(())
}

fn check(i: &Init, fault: Option<&FaultPick>, ctx: &mut Ctx) -> Res {
    let (mut st, mut rm) = i.build();
    if let Some(f) = fault { place_fault(&st, &mut rm, i.tim(), f); }
    let t = i.tim();
    // refused extension words panic (a known finding of C15)
    if fault.is_some() && st.clone().step(&mut rm.clone(), t).fault.is_some_and(|f| f.ext_fetch) { return Ok(()); }
    rm.log_on = true;
    let mut im = rm.clone();
    with_cpu!(i.cpu, C => {
        let mut core = core_of::<C>(&st);
        let from = st.pc;
        if let Some(o) = step_both(&mut core, &mut im, &mut st, &mut rm, t, Opts::default(), ctx)? {
            same_accesses(&im, &rm, &o, from, core.regs.pc.0)?;
            note(&im, &o, ctx);
            ctx.nontrivial = ctx.nontrivial || data(&im, &o);
        }
        Ok(())
    })
}
/// Some data was accessed.
fn data(im: &Mem, o: &Out) -> bool { o.ins.as_ref().is_none_or(|i| im.log.iter().any(|a| a.write || a.addr.wrapping_sub(i.pc) >= i.len)) }
fn note(im: &Mem, o: &Out, ctx: &mut Ctx) {
    if ctx.quiet { return; }
    if let Some(i) = &o.ins {
        let r = im.log.iter().any(|a| !a.write && a.addr.wrapping_sub(i.pc) >= i.len);
        let w = im.log.iter().any(|a| a.write);
        ctx.class(&format!("{:?}: {}", i.k, match (r, w) { (false, false) => "no data", (true, false) => "reads", (false, true) => "writes", _ => "reads and writes" }));
    }
    if o.fault.is_some() { ctx.class("ends in a memory fault"); }
}

/// A device: every read gives another value, every write is kept in order.
#[derive(Clone)]
struct Device { mem: Mem, lo: u32, len: u32, reads: FMap<u32, u32>, writes: Vec<(u32, u8)> }
impl Device {
    fn hit(&self, a: u32) -> bool { a.wrapping_sub(self.lo) < self.len }
    fn rd(&mut self, a: u32) -> u8 {
        if !self.hit(a) { return self.mem.byte(a); }
        let n = self.reads.entry(a).or_insert(0);
        *n += 1;
        crate::mem::mix(self.mem.seed ^ a as u64 ^ (*n as u64) << 32) as u8
    }
    fn wr(&mut self, a: u32, v: u8) { if self.hit(a) { self.writes.push((a, v)); } else { self.mem.poke8(a, v); } }
}
impl MemoryAccess for Device {
    fn get_byte(&mut self, a: u32) -> Option<u8> { Some(self.rd(a)) }
    fn get_word(&mut self, a: u32) -> Option<u16> { Some((self.rd(a) as u16) << 8 | self.rd(a.wrapping_add(1)) as u16) }
    fn set_byte(&mut self, a: u32, v: u8) -> Option<()> { self.wr(a, v); Some(()) }
    fn set_word(&mut self, a: u32, v: u16) -> Option<()> { self.wr(a, (v >> 8) as u8); self.wr(a.wrapping_add(1), v as u8); Some(()) }
    fn reset_instruction(&mut self) { self.mem.resets += 1; }
}

/// A program that copies from a queue to a port, every way an instruction can: what arrives is what was sent, once, in order.
/// (form, source mode, destination mode, byte count, seed)
type Copy = (u8, u8, u8, u8, u64);
fn check_copy(p: &Copy, ctx: &mut Ctx) -> Res {
    let (form, sm, dm, n, seed) = p;
    let n = 1 + *n as u32 % 40;
    let sz = form % 3;
    let (bytes, szbits) = [(1u32, 1u16), (2, 3), (4, 2)][sz as usize];
    let (src, dst) = (0x9000u32, 0x9100u32);
    // MOVE with the addressing modes that stay in place; A0 source, A1 destination
    let mut code: Vec<u16> = vec![];
    let (se, sx): (u16, Vec<u16>) = match sm % 6 {
        0 => (0o20, vec![]), 1 => (0o50, vec![0x10]), 2 => (0o60, vec![0x2810]), 3 => (0o70, vec![0x9000]), 4 => (0o71, vec![0, 0x9000]), _ => (0o74, vec![]),
    };
    let (de, dx): (u16, Vec<u16>) = match dm % 5 {
        0 => (0o21, vec![]), 1 => (0o51, vec![0x10]), 2 => (0o61, vec![0x2810]), 3 => (0o70, vec![0x9100]), _ => (0o71, vec![0, 0x9100]),
    };
    let short = sm % 6 == 3 || dm % 5 == 3;
    // absolute short is sign extended: the device is there too
    let (src, dst) = if short { (0xFFFF_9000, 0xFFFF_9100) } else { (src, dst) };
    let sx = match sm % 6 { 4 if short => vec![0xFFFF, 0x9000], 5 => if sz == 2 { vec![0x1234, 0x5678] } else { vec![0x5678] }, _ => sx };
    let dx = if dm % 5 == 4 && short { vec![0xFFFF, 0x9100] } else { dx };
    code.push(szbits << 12 | (de & 7) << 9 | (de >> 3) << 6 | se);
    code.extend(&sx);
    code.extend(&dx);
    code.push(0x51CF); // DBF D7
    code.push((-2 * code.len() as i32) as u16);
    let mut m = Mem::new(*seed, 1);
    for (k, w) in code.iter().enumerate() { m.poke16(0x1000 + 2 * k as u32, *w); }
    let mut d = Device { mem: m, lo: src, len: 0x200, reads: FMap::default(), writes: vec![] };
    let twin = d.clone();
    let api = form / 3 % 4;
    with_cpu!(form / 12, C => {
        let mut core = m68000::M68000::<C>::new_no_reset();
        core.regs.pc.0 = 0x1000;
        core.regs.ssp.0 = 0x8000;
        core.regs.a[0].0 = if matches!(sm % 6, 1 | 2) { src - 0x10 } else { src };
        core.regs.a[1].0 = if matches!(dm % 5, 1 | 2) { dst - 0x10 } else { dst };
        core.regs.d[7].0 = n - 1;
        guard(|| for _ in 0..2 * n { match api {
            0 => { core.interpreter(&mut d); }
            1 => { core.interpreter_exception(&mut d); }
            2 => { core.disassembler_interpreter(&mut d); }
            _ => { core.disassembler_interpreter_exception(&mut d); }
        } })?;
        if core.regs.pc.0 != 0x1000 + 2 * code.len() as u32 { return Err(format!("the loop of {n} ended at {:08X}", core.regs.pc.0)); }
        let mut t = twin;
        let mut want = vec![];
        for _ in 0..n {
            let v: Vec<u8> = if sm % 6 == 5 { [0x12, 0x34, 0x56, 0x78][4 - bytes as usize..].to_vec() } else { (0..bytes).map(|k| t.rd(src.wrapping_add(k))).collect() };
            want.extend(v.iter().enumerate().map(|(k, x)| (dst.wrapping_add(k as u32), *x)));
        }
        // a long may be written low word first
        let per = |w: &[(u32, u8)], k: u32| w.iter().filter(|x| x.0 == dst.wrapping_add(k)).map(|x| x.1).collect::<Vec<_>>();
        if d.writes.len() != want.len() { return Err(format!("{} bytes arrived, {} expected", d.writes.len(), want.len())); }
        for k in 0..bytes { if per(&d.writes, k) != per(&want, k) { return Err(format!("byte {k} of the port received {:02X?}, expected {:02X?}", per(&d.writes, k), per(&want, k))); } }
        for (a, r) in &t.reads { if d.reads.get(a) != Some(r) { return Err(format!("the queue at {a:08X} was read {:?} times, expected {r}", d.reads.get(a))); } }
        if let Some((a, _)) = d.reads.iter().find(|(a, _)| !t.reads.contains_key(a)) { return Err(format!("{a:08X} was read")); }
        ctx.nontrivial = n > 1;
        ctx.class(["bytes", "words", "longs"][sz as usize]);
        Ok(())
    })
}

/// Exceptions and their handlers, with every stepping function.
fn check_hist(h: &Hist, ctx: &mut Ctx) -> Res {
    let mut any = false;
    let r = run_hist(h, ctx, HOpts { bus: true, ..HOpts::default() }, |o, _: &St, _| { any |= !o.taken.is_empty() || o.ins.is_some(); Ok(()) });
    ctx.nontrivial = any;
    r
}

pub const C30: Prop = Prop {
    id: "C30",
    rule: "a case is one instruction, history or device program whose memory accesses are logged; non-trivial when data (not only instruction words) is accessed, a history has a step, or a program moves more than one value",
    assumptions: &[
        "instruction words may be read any number of times and ahead of their execution (prefetch); CLR, Scc and MOVE from SR may read their destination first, as the MC68000 does; RTE may look at the words of a long frame",
        "a long access is the same as its two word accesses, in either order",
        "bus and address error frames are not compared access by access (C12 compares their contents)",
    ],
    run: |r: &Runner| {
        every_opcode(r, "every-opcode", &gen::all_kinds(), 4, |i, c| check(i, None, c));
        r.rand("random", 300_000, || gen::inst(&gen::known_kinds()), |i, c| check(i, None, c));
        r.rand("refused", 200_000, || (gen::inst(&gen::known_kinds()), gen::fault()).boxed(), |(i, f), c| check(i, Some(f), c));
        r.rand("histories", 30_000, || hist(init_prog(prog_kinds(), 4, 20), handlers(vector(), 16), acts(prop_oneof![8 => vector(), 1 => Just(0u8)].boxed(), 6, 2, 40, 5), no_ranges()), check_hist);
        r.rand("devices", 20_000, || any::<Copy>().boxed(), check_copy);
    },
};
