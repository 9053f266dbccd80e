//! Differential stepping: emulator against reference.
use crate::cpu::{Tim, TIMS};
use crate::dec::{decode, kind, Ea, Sz, K};
use crate::exec::{Out, St, SR_MASK};
use crate::mem::{Mem, Range};
use crate::run::{guard, Ctx};
use m68000::exception::Exception;
use m68000::status_register::StatusRegister;
use m68000::{CpuDetails, Registers, M68000};
use serde::{Deserialize, Serialize};
use std::num::Wrapping;

/// A complete starting point: registers, memory, code.
#[derive(Clone, Debug, Serialize, Deserialize, Hash, PartialEq, Eq)]
pub struct Init {
    pub cpu: u8,
    /// Words placed at PC.
    pub code: Vec<u16>,
    pub d: [u32; 8],
    pub a: [u32; 7],
    pub usp: u32,
    pub ssp: u32,
    pub sr: u16,
    pub pc: u32,
    pub mem_seed: u64,
    pub bg: u8,
    pub native: bool,
    /// Nudge operands of word and long accesses to even addresses.
    pub even: bool,
    pub sel: u32,
}

/// An access to refuse, picked from those the instruction performs.
#[derive(Clone, Debug, Serialize, Deserialize, Hash, PartialEq, Eq)]
pub struct FaultPick { pub idx: u8, pub off: u8, pub len: u8, pub what: u8 }

pub fn sr_of(s: StatusRegister) -> u16 {
    (s.t as u16) << 15 | (s.s as u16) << 13 | (s.interrupt_mask as u16) << 8 | (s.x as u16) << 4 | (s.n as u16) << 3 | (s.z as u16) << 2 | (s.v as u16) << 1 | s.c as u16
}
pub fn sr_to(v: u16) -> StatusRegister {
    let mut s = StatusRegister::default();
    s.t = v & 0x8000 != 0;
    s.s = v & 0x2000 != 0;
    s.interrupt_mask = (v >> 8 & 7) as u8;
    s.x = v & 16 != 0;
    s.n = v & 8 != 0;
    s.z = v & 4 != 0;
    s.v = v & 2 != 0;
    s.c = v & 1 != 0;
    s
}
pub fn regs_of(st: &St) -> Registers {
    let mut r = Registers::default();
    r.d = st.d.map(Wrapping);
    r.a = st.a.map(Wrapping);
    r.usp = Wrapping(st.usp);
    r.ssp = Wrapping(st.ssp);
    r.sr = sr_to(st.sr);
    r.pc = Wrapping(st.pc);
    r
}
pub fn load_regs(st: &mut St, r: &Registers) {
    st.d = r.d.map(|x| x.0);
    st.a = r.a.map(|x| x.0);
    st.usp = r.usp.0;
    st.ssp = r.ssp.0;
    st.sr = sr_of(r.sr);
    st.pc = r.pc.0;
}
pub fn core_of<C: CpuDetails>(st: &St) -> M68000<C> {
    let mut c = M68000::<C>::new_no_reset();
    c.regs = regs_of(st);
    c.stop = st.stop;
    for v in &st.pend { c.exception(Exception::from(*v)); }
    c.stop = st.stop;
    c
}

/// Number of extension words of an operand.
fn ext_words(e: Ea, sz: Sz) -> usize {
    match e.class() { 5 | 6 | 7 | 9 | 10 => 1, 8 => 2, 11 => if sz == Sz::L { 2 } else { 1 }, _ => 0 }
}

impl Init {
    pub fn tim(&self) -> &'static Tim { TIMS[(self.cpu & 3) as usize] }
    pub fn st(&self) -> St {
        St { d: self.d, a: self.a, usp: self.usp, ssp: self.ssp, sr: self.sr & SR_MASK, pc: self.pc, stop: false, pend: Default::default(), cur: None }
    }
    /// State and memory, after the adjustments that make accesses mostly legal.
    pub fn build(&self) -> (St, Mem) {
        let mut me = self.clone();
        if self.even && !self.code.is_empty() { me.evenize(); }
        let st = me.st();
        let mut m = Mem::new(me.mem_seed, me.bg);
        m.native_long = me.native;
        for (k, w) in me.code.iter().enumerate() { m.poke16(me.pc.wrapping_add(2 * k as u32), *w); }
        let k = kind(me.code.first().copied().unwrap_or(0));
        if me.even && matches!(k, K::Rte | K::Rts | K::Rtr | K::Unlk) {
            // return addresses are mostly even and SCC68070 frames have a valid format
            let sp = if st.s() { st.ssp } else { st.usp };
            match k {
                K::Rts => { let a = sp.wrapping_add(3); let v = m.byte(a) & 0xFE; m.poke8(a, v); }
                K::Unlk => {}
                _ => {
                    let a = sp.wrapping_add(5);
                    let v = m.byte(a) & 0xFE;
                    m.poke8(a, v);
                    if k == K::Rte {
                        let a = sp.wrapping_add(6);
                        let v = m.byte(a);
                        match me.sel & 7 { 0..=3 => m.poke8(a, v & 0x0F), 4..=6 => m.poke8(a, v | 0xF0), _ => {} }
                    }
                }
            }
        }
        (st, m)
    }
    fn evenize(&mut self) {
        self.pc &= !1;
        for a in self.a.iter_mut() { *a &= !1; }
        self.usp &= !1;
        self.ssp &= !1;
        let op = self.code[0];
        let pc = self.pc;
        let code = self.code.clone();
        let Ok(i) = decode(op, pc, |a| Ok::<u16, ()>(code.get((a.wrapping_sub(pc) / 2) as usize).copied().unwrap_or(0))) else { return };
        if i.sz == Sz::B && !matches!(i.k, K::Movep) { return; }
        let n = (i.len / 2) as usize;
        let nd = if i.k == K::Move { ext_words(i.dst, i.sz) } else { 0 };
        let ne = ext_words(i.ea, i.sz);
        let mut fix = |e: Ea, last: usize| {
            if matches!(e.class(), 5..=10) {
                if let Some(w) = self.code.get_mut(last) { *w &= !1; }
                if let Ea::Idx(_, w) | Ea::PcI(_, w) = e { if w & 0x8000 == 0 { self.d[(w >> 12 & 7) as usize] &= !1; } }
            }
        };
        if nd > 0 { fix(i.dst, n - 1); }
        if ne > 0 { fix(i.ea, n - 1 - nd); }
        if matches!(i.k, K::Link | K::Dbcc) || matches!(i.k, K::Bcc | K::Bra | K::Bsr) && op as u8 == 0 {
            if let Some(w) = self.code.get_mut(1) { *w &= !1; }
        }
        if matches!(i.k, K::Bcc | K::Bra | K::Bsr) { self.code[0] &= !1; }
    }
}

#[derive(Clone, Copy, Default)]
pub struct Opts { pub cycles: bool }

/// Compares one executed step and brings the reference's unspecified bits in line with the emulator.
#[allow(clippy::too_many_arguments)]
pub fn compare(regs: &Registers, stop: bool, got: (Option<usize>, Option<u8>), im: &mut Mem, st: &mut St, rm: &mut Mem, o: &Out, opts: Opts) -> Result<(), String> {
    let what = || match &o.ins { Some(i) => format!("{:?} (opcode {:04X} at {:08X})", i.k, i.op, i.pc), None => "fetch".to_string() };
    if let Some(a) = im.odd { return Err(format!("{}: the memory system was given an odd {}-byte access at {:08X}", what(), a.size, a.addr)); }
    let sr = sr_of(regs.sr);
    if let Some(f) = &o.fault {
        let v = got.1;
        if !v.is_some_and(|v| f.vectors.contains(&v)) { return Err(format!("{}: expected vector {:?}, got {:?}", what(), f.vectors, v)); }
        contained(regs, im, f, o).map_err(|e| format!("{}: fault not contained: {e}", what()))?;
        if stop { return Err(format!("{}: stopped by a faulting instruction", what())); }
        load_regs(st, regs);
        rm.over.clone_from(&im.over);
        return Ok(());
    }
    if got.1 != o.vector { return Err(format!("{}: expected vector {:?}, got {:?}", what(), o.vector, got.1)); }
    let mut g = st.clone();
    load_regs(&mut g, regs);
    if let Some((r, m)) = o.dc_dreg { let r = r as usize; st.d[r] = st.d[r] & !m | g.d[r] & m; }
    st.sr = st.sr & !o.undef_ccr | sr & o.undef_ccr;
    if g != *st {
        let mut s = format!("{}:", what());
        for k in 0..8 { if g.d[k] != st.d[k] { s += &format!(" D{k} expected {:08X} got {:08X};", st.d[k], g.d[k]); } }
        for k in 0..7 { if g.a[k] != st.a[k] { s += &format!(" A{k} expected {:08X} got {:08X};", st.a[k], g.a[k]); } }
        if g.usp != st.usp { s += &format!(" USP expected {:08X} got {:08X};", st.usp, g.usp); }
        if g.ssp != st.ssp { s += &format!(" SSP expected {:08X} got {:08X};", st.ssp, g.ssp); }
        if g.pc != st.pc { s += &format!(" PC expected {:08X} got {:08X};", st.pc, g.pc); }
        if g.sr != st.sr { s += &format!(" SR expected {:04X} got {:04X};", st.sr, g.sr); }
        return Err(s);
    }
    if stop != st.stop { return Err(format!("{}: stop flag expected {} got {}", what(), st.stop, stop)); }
    if im.resets != rm.resets { return Err(format!("{}: reset hook expected {} calls got {}", what(), rm.resets, im.resets)); }
    if let Some((a, g, e)) = im.diff(rm, &o.dc_mem) { return Err(format!("{}: memory byte {a:08X} expected {e:02X} got {g:02X}", what())); }
    for a in &o.dc_mem { let v = im.byte(*a); rm.poke8(*a, v); }
    if opts.cycles {
        if let (Some(e), Some(g)) = (o.cycles, got.0) {
            if e != g { return Err(format!("{}: expected {e} cycles, got {g}", what())); }
        }
    }
    Ok(())
}

fn contained(regs: &Registers, im: &Mem, f: &crate::exec::Fault, o: &Out) -> Result<(), String> {
    let ins = o.ins.as_ref();
    let mut g = f.before.clone();
    load_regs(&mut g, regs);
    let (b, a) = (&f.before, &f.after);
    if (g.sr ^ b.sr) & 0xFF00 != 0 { return Err(format!("SR changed from {:04X} to {:04X}", b.sr, g.sr)); }
    // registers that may have been loaded in part
    let multi: u16 = ins.map_or(0, |i| match i.k { K::Movem if i.op & 0x400 != 0 => i.imm as u16, K::Movep if i.op & 0x80 == 0 => 1 << i.rx, _ => 0 });
    for k in 0..8 {
        if g.d[k] != b.d[k] && multi >> k & 1 == 0 && g.d[k] != a.d[k] { return Err(format!("D{k} changed from {:08X} to {:08X}", b.d[k], g.d[k])); }
    }
    // address registers used with a side effect may have any intermediate value
    let mut side = 0u16;
    let mut sp = false;
    if let Some(i) = ins {
        for e in [i.ea, i.dst] { if let Ea::Post(r) | Ea::Pre(r) = e { side |= 1 << r; } }
        if matches!(i.k, K::Abcd | K::Sbcd | K::Addx | K::Subx | K::Cmpm) { side |= 1 << i.rx | 1 << i.ry; }
        if matches!(i.k, K::Link | K::Unlk) { side |= 1 << i.ry; }
        sp = matches!(i.k, K::Link | K::Unlk | K::Bsr | K::Jsr | K::Rts | K::Rtr | K::Rte | K::Pea);
    }
    for k in 0..7 {
        if g.a[k] != b.a[k] && b.a[k] == a.a[k] && side >> k & 1 == 0 { return Err(format!("A{k} changed from {:08X} to {:08X}", b.a[k], g.a[k])); }
    }
    let a7 = sp || side >> 7 & 1 != 0;
    if g.usp != b.usp && (b.s() && !ins.is_some_and(|i| i.k == K::Moveusp) || b.usp == a.usp && !a7) { return Err(format!("USP changed from {:08X} to {:08X}", b.usp, g.usp)); }
    if g.ssp != b.ssp && (!b.s() || b.ssp == a.ssp && !a7) { return Err(format!("SSP changed from {:08X} to {:08X}", b.ssp, g.ssp)); }
    let pc_ok = g.pc.wrapping_sub(b.pc) <= 10 || !f.fetch && g.pc == a.pc;
    if !pc_ok { return Err(format!("PC {:08X} is unrelated to the faulting instruction at {:08X}", g.pc, b.pc)); }
    if im.resets != f.mem_after.resets { return Err("reset hook called".into()); }
    // memory: only bytes the instruction was to write
    let mut orig = f.mem_after.clone();
    orig.undo();
    for k in im.over.keys().chain(orig.over.keys()) {
        if im.byte(*k) != orig.byte(*k) && !o.dc_mem.contains(k) && !f.mem_after.log.iter().any(|l| l.write && k.wrapping_sub(l.addr) < l.size as u32) {
            return Err(format!("memory byte {k:08X} changed from {:02X} to {:02X}", orig.byte(*k), im.byte(*k)));
        }
    }
    Ok(())
}

pub const KF_EXT: &str = "ext-word-fetch-refused-panics";

/// Runs one step of the emulator (vector returned, not queued).
pub fn emu_step<C: CpuDetails>(core: &mut M68000<C>, m: &mut Mem) -> Result<(usize, Option<u8>), String> {
    guard(|| core.interpreter_exception(m))
}

/// Steps both machines once and compares. Ok(None) when the case left the specified domain.
pub fn step_both<C: CpuDetails>(core: &mut M68000<C>, im: &mut Mem, st: &mut St, rm: &mut Mem, t: &Tim, opts: Opts, ctx: &mut Ctx) -> Result<Option<Out>, String> {
    let o = st.step(rm, t);
    let r = emu_step(core, im);
    if o.unspec { return Ok(None); }
    match r {
        Err(p) => {
            let msg = format!("emulator panicked: {p}");
            if o.fault.as_ref().is_some_and(|f| f.ext_fetch) { ctx.finding(KF_EXT, msg)?; return Ok(None); }
            Err(match &o.ins { Some(i) => format!("{:?} ({:04X}): {msg}", i.k, i.op), None => msg })
        }
        Ok((c, v)) => {
            compare(&core.regs, core.stop, (Some(c), v), im, st, rm, &o, opts)?;
            let mut o = o;
            // what was really raised (a fault may legitimately be of either kind)
            if o.fault.is_some() { o.vector = v; }
            Ok(Some(o))
        }
    }
}

/// Refuses one of the accesses that executing from (st, m) performs.
pub fn place_fault(st: &St, m: &mut Mem, t: &Tim, f: &FaultPick) {
    let mut s = st.clone();
    let mut mm = m.clone();
    mm.log_on = true;
    s.step(&mut mm, t);
    if mm.log.is_empty() { return; }
    // few distinct accesses: choose uniformly, extension words and opcode included
    let a = mm.log[f.idx as usize % mm.log.len()];
    let lo = a.addr.wrapping_add(f.off as u32 % a.size as u32);
    m.ranges.push(Range { lo, len: 1 + f.len as u32 % 4, what: f.what % 3 });
}
