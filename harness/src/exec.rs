//! Reference interpreter of the 68000 (architectural state, flags, exceptions, timing rules).
use crate::cpu::Tim;
use crate::dec::{decode, Ea, Ins, Sz, K};
use crate::mem::{Acc, Mem};
use m68000::MemoryAccess;
use std::collections::BTreeSet;

pub const XF: u16 = 16;
pub const NF: u16 = 8;
pub const ZF: u16 = 4;
pub const VF: u16 = 2;
pub const CF: u16 = 1;
pub const SR_MASK: u16 = 0xA71F;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct St {
    pub d: [u32; 8],
    pub a: [u32; 7],
    pub usp: u32,
    pub ssp: u32,
    pub sr: u16,
    pub pc: u32,
    pub stop: bool,
    pub pend: BTreeSet<u8>,
    /// Last opcode fetched (None: unknown).
    pub cur: Option<u16>,
}

/// What a step is expected to do.
#[derive(Clone, Debug, Default)]
pub struct Out {
    pub vector: Option<u8>,
    pub cycles: Option<usize>,
    /// CCR bits whose value the architecture leaves undefined.
    pub undef_ccr: u16,
    /// Memory bytes whose value is undefined.
    pub dc_mem: Vec<u32>,
    /// Data register bits whose value is undefined.
    pub dc_dreg: Option<(u8, u32)>,
    pub ins: Option<Ins>,
    pub fault: Option<Box<Fault>>,
    /// Behaviour from here on is not specified: stop comparing.
    pub unspec: bool,
    /// Exceptions processed at the start of the step.
    pub taken: Vec<u8>,
    pub reset_taken: bool,
    pub was_stopped: bool,
}

/// A memory fault: which vectors are acceptable and what the instruction may legitimately have touched.
#[derive(Clone, Debug)]
pub struct Fault {
    pub vectors: Vec<u8>,
    pub before: St,
    pub after: St,
    pub mem_after: Mem,
    pub fetch: bool,
    /// The refused access is an extension word.
    pub ext_fetch: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ex(pub u8);
type R<T> = Result<T, Ex>;

pub struct Bus<'a> { pub m: &'a mut Mem, pub lax: bool }
impl Bus<'_> {
    fn rd(&mut self, a: u32, sz: Sz) -> R<u32> {
        if self.lax {
            self.m.log.push(Acc { addr: a, size: sz.n() as u8, write: false });
            return Ok(match sz { Sz::B => self.m.byte(a) as u32, Sz::W => self.m.peek16(a) as u32, Sz::L => self.m.peek32(a) });
        }
        if sz != Sz::B && a & 1 != 0 { return Err(Ex(3)); }
        match sz { Sz::B => self.m.get_byte(a).map(u32::from), Sz::W => self.m.get_word(a).map(u32::from), Sz::L => self.m.get_long(a) }.ok_or(Ex(2))
    }
    fn wr(&mut self, a: u32, sz: Sz, v: u32) -> R<()> {
        if self.lax {
            self.m.log.push(Acc { addr: a, size: sz.n() as u8, write: true });
            match sz { Sz::B => self.m.poke8(a, v as u8), Sz::W => self.m.poke16(a, v as u16), Sz::L => self.m.poke32(a, v) }
            return Ok(());
        }
        if sz != Sz::B && a & 1 != 0 { return Err(Ex(3)); }
        match sz { Sz::B => self.m.set_byte(a, v as u8), Sz::W => self.m.set_word(a, v as u16), Sz::L => self.m.set_long(a, v) }.ok_or(Ex(2))
    }
}

pub fn cond(cc: u16, sr: u16) -> bool {
    let (n, z, v, c) = (sr & NF != 0, sr & ZF != 0, sr & VF != 0, sr & CF != 0);
    match cc & 15 {
        0 => true, 1 => false,
        2 => !c && !z, 3 => c || z,
        4 => !c, 5 => c,
        6 => !z, 7 => z,
        8 => !v, 9 => v,
        10 => !n, 11 => n,
        12 => n == v, 13 => n != v,
        14 => !z && n == v, _ => z || n != v,
    }
}

pub fn privileged(k: K) -> bool { matches!(k, K::Andisr | K::Eorisr | K::Orisr | K::Movesr | K::Moveusp | K::Reset | K::Rte | K::Stop) }

/// Priority class of a vector: lower runs first.
pub fn class(v: u8) -> u8 {
    match v { 3 => 0, 2 => 1, 9 => 2, 24..=31 | 57..=255 => 3, 4 => 4, 8 => 5, _ => 255 }
}
/// Interrupt level of a vector.
pub fn level(v: u8) -> Option<u8> { matches!(v, 25..=31 | 57..=63).then_some(v & 7) }

impl St {
    pub fn s(&self) -> bool { self.sr & 0x2000 != 0 }
    pub fn t(&self) -> bool { self.sr & 0x8000 != 0 }
    pub fn mask(&self) -> u8 { (self.sr >> 8 & 7) as u8 }
    pub fn ga(&self, r: u8) -> u32 { if r < 7 { self.a[r as usize] } else if self.s() { self.ssp } else { self.usp } }
    pub fn sa(&mut self, r: u8, v: u32) { if r < 7 { self.a[r as usize] = v } else if self.s() { self.ssp = v } else { self.usp = v } }
    fn sd(&mut self, r: u8, sz: Sz, v: u32) { let d = &mut self.d[r as usize]; *d = *d & !sz.mask() | v & sz.mask(); }
    fn f(&self, m: u16) -> bool { self.sr & m != 0 }
    fn set(&mut self, m: u16, on: bool) { if on { self.sr |= m } else { self.sr &= !m } }
    fn nz(&mut self, sz: Sz, v: u32) { self.set(NF, v & sz.msb() != 0); self.set(ZF, v & sz.mask() == 0); }
    fn logic(&mut self, sz: Sz, v: u32) { self.nz(sz, v); self.sr &= !(VF | CF); }

    fn idx(&self, w: u16) -> u32 {
        let r = (w >> 12 & 7) as u8;
        let v = if w & 0x8000 != 0 { self.ga(r) } else { self.d[r as usize] };
        if w & 0x800 != 0 { v } else { v as u16 as i16 as i32 as u32 }
    }
    /// Address of a memory operand, applying the register side effects for an operand of `n` bytes.
    fn addr(&mut self, ea: Ea, n: u32) -> u32 {
        let step = |r: u8| if r == 7 && n == 1 { 2 } else { n };
        match ea {
            Ea::Ind(r) => self.ga(r),
            Ea::Post(r) => { let v = self.ga(r); self.sa(r, v.wrapping_add(step(r))); v }
            Ea::Pre(r) => { let v = self.ga(r).wrapping_sub(step(r)); self.sa(r, v); v }
            Ea::Disp(r, d) => self.ga(r).wrapping_add(d as i32 as u32),
            Ea::Idx(r, w) => self.ga(r).wrapping_add(w as u8 as i8 as i32 as u32).wrapping_add(self.idx(w)),
            Ea::AbsW(w) => w as i16 as i32 as u32,
            Ea::AbsL(l) => l,
            Ea::PcD(b, d) => b.wrapping_add(d as i32 as u32),
            Ea::PcI(b, w) => b.wrapping_add(w as u8 as i8 as i32 as u32).wrapping_add(self.idx(w)),
            _ => unreachable!(),
        }
    }
    fn load(&mut self, b: &mut Bus, ea: Ea, sz: Sz) -> R<u32> {
        Ok(match ea {
            Ea::Dn(r) => self.d[r as usize] & sz.mask(),
            Ea::An(r) => self.ga(r) & sz.mask(),
            Ea::Imm(v) => v & sz.mask(),
            _ => { let a = self.addr(ea, sz.n()); b.rd(a, sz)? }
        })
    }
    fn store(&mut self, b: &mut Bus, ea: Ea, sz: Sz, v: u32) -> R<()> {
        match ea {
            Ea::Dn(r) => { self.sd(r, sz, v); Ok(()) }
            _ => { let a = self.addr(ea, sz.n()); b.wr(a, sz, v & sz.mask()) }
        }
    }
    /// Read-modify-write: the address is computed once.
    fn rmw(&mut self, b: &mut Bus, ea: Ea, sz: Sz, f: impl FnOnce(&mut St, u32) -> u32) -> R<()> {
        match ea {
            Ea::Dn(r) => { let o = self.d[r as usize] & sz.mask(); let v = f(self, o); self.sd(r, sz, v); Ok(()) }
            _ => { let a = self.addr(ea, sz.n()); let o = b.rd(a, sz)?; let v = f(self, o); b.wr(a, sz, v & sz.mask()) }
        }
    }
    fn push(&mut self, b: &mut Bus, sz: Sz, v: u32) -> R<()> { let a = self.addr(Ea::Pre(7), sz.n()); b.wr(a, sz, v) }
    fn pop(&mut self, b: &mut Bus, sz: Sz) -> R<u32> { let a = self.addr(Ea::Post(7), sz.n()); b.rd(a, sz) }

    /// d + s (+x), all flags; `ext` = extended form (Z only cleared).
    fn add(&mut self, sz: Sz, d: u32, s: u32, x: bool, ext: bool) -> u32 {
        let u = (d & sz.mask()) as u64 + (s & sz.mask()) as u64 + x as u64;
        let i = sz.sx(d) + sz.sx(s) + x as i64;
        self.arith(sz, u as u32, u > sz.mask() as u64, i, ext, true)
    }
    fn sub(&mut self, sz: Sz, d: u32, s: u32, x: bool, ext: bool, setx: bool) -> u32 {
        let u = (d & sz.mask()) as i64 - (s & sz.mask()) as i64 - x as i64;
        let i = sz.sx(d) - sz.sx(s) - x as i64;
        self.arith(sz, u as u32, u < 0, i, ext, setx)
    }
    fn arith(&mut self, sz: Sz, r: u32, carry: bool, exact: i64, ext: bool, setx: bool) -> u32 {
        let r = r & sz.mask();
        self.set(CF, carry);
        if setx { self.set(XF, carry); }
        self.set(VF, sz.sx(r) != exact);
        self.set(NF, r & sz.msb() != 0);
        if ext { if r != 0 { self.sr &= !ZF; } } else { self.set(ZF, r == 0); }
        r
    }
    /// Decimal d + s + x or d - s - x. None when a digit is not decimal.
    fn bcd(&mut self, d: u32, s: u32, sub: bool) -> Option<u32> {
        let val = |v: u32| { let (h, l) = (v >> 4 & 15, v & 15); (h < 10 && l < 10).then_some((h * 10 + l) as i32) };
        let (dv, sv) = (val(d)?, val(s)?);
        let x = self.f(XF) as i32;
        let r = if sub { dv - sv - x } else { dv + sv + x };
        let c = !(0..100).contains(&r);
        let r = r.rem_euclid(100) as u32;
        self.set(CF | XF, c);
        if r != 0 { self.sr &= !ZF; }
        Some(r / 10 << 4 | r % 10)
    }
    fn shift(&mut self, ty: u8, left: bool, sz: Sz, v: u32, count: u32) -> u32 {
        // one bit at a time, as the architecture defines it
        let (m, msb) = (sz.mask(), sz.msb());
        let mut v = v & m;
        let mut x = self.f(XF);
        let mut c = if ty == 2 { x } else { false };
        let mut ovf = false;
        for _ in 0..count {
            let out = if left { v & msb != 0 } else { v & 1 != 0 };
            let old = v;
            v = if left { v << 1 & m } else { v >> 1 };
            match ty {
                0 => { if !left { v |= old & msb; } else if (v ^ old) & msb != 0 { ovf = true; } x = out; }
                1 => x = out,
                2 => { if x { v |= if left { 1 } else { msb }; } x = out; }
                _ => if out { v |= if left { 1 } else { msb }; },
            }
            c = out;
        }
        self.nz(sz, v);
        self.set(VF, ovf);
        self.set(CF, c);
        self.set(XF, x);
        v
    }

    fn ea_time(t: &Tim, ea: Ea, sz: Sz) -> usize {
        let l = if sz == Sz::L { 4 } else { 0 };
        match ea {
            Ea::Dn(_) | Ea::An(_) => 0,
            Ea::Ind(_) => t.EA_ARI + l, Ea::Post(_) => t.EA_ARIWPO + l, Ea::Pre(_) => t.EA_ARIWPR + l, Ea::Disp(..) => t.EA_ARIWD + l, Ea::Idx(..) => t.EA_ARIWI8 + l,
            Ea::AbsW(_) => t.EA_ABSSHORT + l, Ea::AbsL(_) => t.EA_ABSLONG + l, Ea::PcD(..) => t.EA_PCIWD + l, Ea::PcI(..) => t.EA_PCIWI8 + l, Ea::Imm(_) => t.EA_IMMEDIATE + l,
        }
    }

    /// Executes a decoded instruction (PC already past it). Ok(cycles) or the vector it raises.
    fn exec(&mut self, b: &mut Bus, i: &Ins, t: &Tim, o: &mut Out) -> R<usize> {
        use K::*;
        let (sz, ea, rx, ry) = (i.sz, i.ea, i.rx, i.ry);
        let l = sz == Sz::L;
        let reg = ea.is_reg();
        let eat = Self::ea_time(t, ea, sz);
        let op = i.op;
        let b8 = op >> 8 & 1 != 0;
        let after = self.pc;
        macro_rules! four { ($rb:ident $rl:ident $mb:ident $ml:ident) => { eat + match (reg, l) { (true, false) => t.$rb, (true, true) => t.$rl, (false, false) => t.$mb, _ => t.$ml } }; }
        macro_rules! jt { ($a:ident $d:ident $x:ident $w:ident $l:ident $pd:ident $px:ident) => { match ea { Ea::Ind(_) => t.$a, Ea::Disp(..) => t.$d, Ea::Idx(..) => t.$x, Ea::AbsW(_) => t.$w, Ea::AbsL(_) => t.$l, Ea::PcD(..) => t.$pd, _ => t.$px } }; }
        // base time of the Dn <-> <ea> forms
        macro_rules! dyad { ($rb:ident $rl:ident $ri:ident $mb:ident $ml:ident) => { eat + if b8 { if l { t.$ml } else { t.$mb } } else if !l { t.$rb } else if ea.rdimm() { t.$ri } else { t.$rl } }; }
        if privileged(i.k) && !self.s() { return Err(Ex(8)); }
        Ok(match i.k {
            Unknown => return Err(Ex(match op >> 12 { 10 => 10, 15 => 11, _ => 4 })),
            Illegal => return Err(Ex(4)),
            Trap => return Err(Ex(32 + i.imm as u8)),
            Trapv => { if self.f(VF) { return Err(Ex(7)); } t.TRAPV_NO_TRAP }
            Nop => t.NOP,
            // ---- integer arithmetic
            Add | Sub | And | Or => {
                let f = |st: &mut St, d: u32, s: u32| match i.k {
                    Add => st.add(sz, d, s, false, false),
                    Sub => st.sub(sz, d, s, false, false, true),
                    And => { let r = d & s; st.logic(sz, r); r }
                    _ => { let r = d | s; st.logic(sz, r); r }
                };
                if b8 { let s = self.d[rx as usize]; self.rmw(b, ea, sz, |st, d| f(st, d, s))?; }
                else { let s = self.load(b, ea, sz)?; let d = self.d[rx as usize]; let r = f(self, d, s); self.sd(rx, sz, r); }
                match i.k {
                    Add => dyad!(ADD_REG_BW ADD_REG_L ADD_REG_L_RDIMM ADD_MEM_BW ADD_MEM_L),
                    Sub => dyad!(SUB_REG_BW SUB_REG_L SUB_REG_L_RDIMM SUB_MEM_BW SUB_MEM_L),
                    And => dyad!(AND_REG_BW AND_REG_L AND_REG_L_RDIMM AND_MEM_BW AND_MEM_L),
                    _ => dyad!(OR_REG_BW OR_REG_L OR_REG_L_RDIMM OR_MEM_BW OR_MEM_L),
                }
            }
            Eor => {
                let s = self.d[rx as usize];
                self.rmw(b, ea, sz, |st, d| { let r = d ^ s; st.logic(sz, r); r })?;
                four!(EOR_REG_BW EOR_REG_L EOR_MEM_BW EOR_MEM_L)
            }
            Cmp => { let s = self.load(b, ea, sz)?; self.sub(sz, self.d[rx as usize], s, false, false, false); eat + if l { t.CMP_L } else { t.CMP_BW } }
            Adda | Suba | Cmpa => {
                let s = sz.sx(self.load(b, ea, sz)?) as u32;
                let d = self.ga(rx);
                match i.k {
                    Adda => { self.sa(rx, d.wrapping_add(s)); eat + if !l { t.ADDA_WORD } else if ea.rdimm() { t.ADDA_LONG_RDIMM } else { t.ADDA_LONG } }
                    Suba => { self.sa(rx, d.wrapping_sub(s)); eat + if !l { t.SUBA_WORD } else if ea.rdimm() { t.SUBA_LONG_RDIMM } else { t.SUBA_LONG } }
                    _ => { self.sub(Sz::L, d, s, false, false, false); eat + t.CMPA }
                }
            }
            Addi | Subi | Andi | Ori | Eori => {
                let s = i.imm;
                self.rmw(b, ea, sz, |st, d| match i.k {
                    Addi => st.add(sz, d, s, false, false),
                    Subi => st.sub(sz, d, s, false, false, true),
                    Andi => { let r = d & s; st.logic(sz, r); r }
                    Ori => { let r = d | s; st.logic(sz, r); r }
                    _ => { let r = d ^ s; st.logic(sz, r); r }
                })?;
                match i.k {
                    Addi => four!(ADDI_REG_BW ADDI_REG_L ADDI_MEM_BW ADDI_MEM_L),
                    Subi => four!(SUBI_REG_BW SUBI_REG_L SUBI_MEM_BW SUBI_MEM_L),
                    Andi => four!(ANDI_REG_BW ANDI_REG_L ANDI_MEM_BW ANDI_MEM_L),
                    Ori => four!(ORI_REG_BW ORI_REG_L ORI_MEM_BW ORI_MEM_L),
                    _ => four!(EORI_REG_BW EORI_REG_L EORI_MEM_BW EORI_MEM_L),
                }
            }
            Cmpi => { let d = self.load(b, ea, sz)?; self.sub(sz, d, i.imm, false, false, false); four!(CMPI_REG_BW CMPI_REG_L CMPI_MEM_BW CMPI_MEM_L) }
            Addq | Subq => {
                let q = i.imm;
                if let Ea::An(r) = ea {
                    let v = self.ga(r);
                    self.sa(r, if i.k == Addq { v.wrapping_add(q) } else { v.wrapping_sub(q) });
                    match (i.k, l) { (Addq, false) => t.ADDQ_REG_BW, (Addq, true) => t.ADDQ_REG_L, (_, false) => t.SUBQ_AREG_BW, _ => t.SUBQ_REG_L }
                } else {
                    self.rmw(b, ea, sz, |st, d| if i.k == Addq { st.add(sz, d, q, false, false) } else { st.sub(sz, d, q, false, false, true) })?;
                    if i.k == Addq { four!(ADDQ_REG_BW ADDQ_REG_L ADDQ_MEM_BW ADDQ_MEM_L) } else { four!(SUBQ_DREG_BW SUBQ_REG_L SUBQ_MEM_BW SUBQ_MEM_L) }
                }
            }
            Addx | Subx => {
                let x = self.f(XF);
                let mem = op & 8 != 0;
                let f = |st: &mut St, d: u32, s: u32| if i.k == Addx { st.add(sz, d, s, x, true) } else { st.sub(sz, d, s, x, true, true) };
                if mem {
                    let s = self.load(b, Ea::Pre(ry), sz)?;
                    self.rmw(b, Ea::Pre(rx), sz, |st, d| f(st, d, s))?;
                } else { let s = self.d[ry as usize]; self.rmw(b, Ea::Dn(rx), sz, |st, d| f(st, d, s))?; }
                match (i.k, mem, l) {
                    (Addx, false, false) => t.ADDX_REG_BW, (Addx, false, true) => t.ADDX_REG_L, (Addx, true, false) => t.ADDX_MEM_BW, (Addx, true, true) => t.ADDX_MEM_L,
                    (_, false, false) => t.SUBX_REG_BW, (_, false, true) => t.SUBX_REG_L, (_, true, false) => t.SUBX_MEM_BW, _ => t.SUBX_MEM_L,
                }
            }
            Cmpm => {
                let s = self.load(b, Ea::Post(ry), sz)?;
                let d = self.load(b, Ea::Post(rx), sz)?;
                self.sub(sz, d, s, false, false, false);
                if l { t.CMPM_L } else { t.CMPM_BW }
            }
            Neg => { self.rmw(b, ea, sz, |st, d| st.sub(sz, 0, d, false, false, true))?; four!(NEG_REG_BW NEG_REG_L NEG_MEM_BW NEG_MEM_L) }
            Negx => { let x = self.f(XF); self.rmw(b, ea, sz, |st, d| st.sub(sz, 0, d, x, true, true))?; four!(NEGX_REG_BW NEGX_REG_L NEGX_MEM_BW NEGX_MEM_L) }
            Not => { self.rmw(b, ea, sz, |st, d| { let r = !d & sz.mask(); st.logic(sz, r); r })?; four!(NOT_REG_BW NOT_REG_L NOT_MEM_BW NOT_MEM_L) }
            Clr => { self.store(b, ea, sz, 0)?; self.logic(sz, 0); four!(CLR_REG_BW CLR_REG_L CLR_MEM_BW CLR_MEM_L) }
            Tst => { let v = self.load(b, ea, sz)?; self.logic(sz, v); four!(TST_REG_BW TST_REG_L TST_MEM_BW TST_MEM_L) }
            // ---- decimal
            Abcd | Sbcd | Nbcd => {
                o.undef_ccr |= NF | VF;
                let bad = std::cell::Cell::new(false);
                let (dst, s) = if i.k == Nbcd { (ea, 0) } else if op & 8 != 0 { (Ea::Pre(rx), self.load(b, Ea::Pre(ry), Sz::B)?) } else { (Ea::Dn(rx), self.d[ry as usize] & 0xFF) };
                self.rmw(b, dst, Sz::B, |st, d| {
                    let r = match i.k { Nbcd => st.bcd(0, d, true), Abcd => st.bcd(d, s, false), _ => st.bcd(d, s, true) };
                    r.unwrap_or_else(|| { bad.set(true); 0 })
                })?;
                if bad.get() {
                    o.undef_ccr |= XF | ZF | CF;
                    match dst { Ea::Dn(r) => o.dc_dreg = Some((r, 0xFF)), Ea::Pre(r) => o.dc_mem.push(self.ga(r)), _ => { if let Some(a) = b.m.log.last() { o.dc_mem.push(a.addr) } } }
                }
                match (i.k, op & 8 != 0) {
                    (Nbcd, _) => eat + if reg { t.NBCD_REG } else { t.NBCD_MEM },
                    (Abcd, false) => t.ABCD_REG, (Abcd, true) => t.ABCD_MEM, (_, false) => t.SBCD_REG, _ => t.SBCD_MEM,
                }
            }
            // ---- multiply, divide
            Muls | Mulu => {
                let s = self.load(b, ea, Sz::W)?;
                let d = self.d[rx as usize];
                let r = if i.k == Muls { (Sz::W.sx(s) * Sz::W.sx(d)) as u32 } else { (s & 0xFFFF) * (d & 0xFFFF) };
                self.d[rx as usize] = r;
                self.logic(Sz::L, r);
                eat + if i.k == Muls { t.MULS } else { t.MULU }
            }
            Divs | Divu => {
                let s = self.load(b, ea, Sz::W)?;
                let d = self.d[rx as usize];
                if s & 0xFFFF == 0 { o.undef_ccr |= NF | ZF | VF | CF; return Err(Ex(5)); }
                let (q, r, fits) = if i.k == Divs {
                    let (n, m) = (d as i32 as i64, Sz::W.sx(s));
                    (n / m, n % m, (-0x8000..=0x7FFF).contains(&(n / m)))
                } else {
                    let (n, m) = (d as i64, (s & 0xFFFF) as i64);
                    (n / m, n % m, n / m <= 0xFFFF)
                };
                self.sr &= !CF;
                if fits {
                    self.d[rx as usize] = (r as u16 as u32) << 16 | q as u16 as u32;
                    self.nz(Sz::W, q as u32);
                    self.sr &= !VF;
                } else {
                    self.sr |= VF;
                    o.undef_ccr |= NF | ZF;
                }
                eat + if i.k == Divs { t.DIVS } else { t.DIVU }
            }
            Chk => {
                let bound = Sz::W.sx(self.load(b, ea, Sz::W)?);
                let v = Sz::W.sx(self.d[rx as usize]);
                o.undef_ccr |= ZF | VF | CF;
                if v < 0 || v > bound { self.set(NF, v < 0); return Err(Ex(6)); }
                o.undef_ccr |= NF;
                eat + t.CHK_NO_TRAP
            }
            Ext => {
                let d = self.d[ry as usize];
                let r = if l { d as u16 as i16 as i32 as u32 } else { d as u8 as i8 as i16 as u16 as u32 };
                self.sd(ry, sz, r);
                self.logic(sz, r);
                t.EXT
            }
            // ---- status register immediates
            Andiccr => { self.sr &= 0xFF00 | i.imm as u16 & 0x1F; t.ANDICCR }
            Oriccr => { self.sr |= i.imm as u16 & 0x1F; t.ORICCR }
            Eoriccr => { self.sr ^= i.imm as u16 & 0x1F; t.EORICCR }
            Andisr => { self.sr &= i.imm as u16; t.ANDISR }
            Orisr => { self.sr |= i.imm as u16 & SR_MASK; t.ORISR }
            Eorisr => { self.sr ^= i.imm as u16 & SR_MASK; t.EORISR }
            // ---- bits
            Btst | Bchg | Bclr | Bset => {
                let n = if b8 { self.d[rx as usize] } else { i.imm };
                let bit = 1u32 << if reg { n & 31 } else { n & 7 };
                if i.k == Btst { let v = self.load(b, ea, sz)?; self.set(ZF, v & bit == 0); }
                else { self.rmw(b, ea, sz, |st, v| { st.set(ZF, v & bit == 0); match i.k { Bchg => v ^ bit, Bclr => v & !bit, _ => v | bit } })?; }
                // register forms have no effective address time, memory forms are bytes
                let e = if reg { 0 } else { Self::ea_time(t, ea, Sz::B) };
                e + match (i.k, b8, reg) {
                    (Btst, true, true) => t.BTST_DYN_REG, (Btst, true, false) => t.BTST_DYN_MEM, (Btst, false, true) => t.BTST_STA_REG, (Btst, false, false) => t.BTST_STA_MEM,
                    (Bchg, true, true) => t.BCHG_DYN_REG, (Bchg, true, false) => t.BCHG_DYN_MEM, (Bchg, false, true) => t.BCHG_STA_REG, (Bchg, false, false) => t.BCHG_STA_MEM,
                    (Bclr, true, true) => t.BCLR_DYN_REG, (Bclr, true, false) => t.BCLR_DYN_MEM, (Bclr, false, true) => t.BCLR_STA_REG, (Bclr, false, false) => t.BCLR_STA_MEM,
                    (_, true, true) => t.BSET_DYN_REG, (_, true, false) => t.BSET_DYN_MEM, (_, false, true) => t.BSET_STA_REG, _ => t.BSET_STA_MEM,
                }
            }
            Tas => { self.rmw(b, ea, Sz::B, |st, v| { st.logic(Sz::B, v); v | 0x80 })?; eat + if reg { t.TAS_REG } else { t.TAS_MEM } }
            Scc => {
                let c = cond(op >> 8, self.sr);
                self.store(b, ea, Sz::B, if c { 0xFF } else { 0 })?;
                eat + match (reg, c) { (true, false) => t.SCC_REG_FALSE, (true, true) => t.SCC_REG_TRUE, (false, false) => t.SCC_MEM_FALSE, _ => t.SCC_MEM_TRUE }
            }
            Swap => { let r = self.d[ry as usize].rotate_left(16); self.d[ry as usize] = r; self.logic(Sz::L, r); t.SWAP }
            Moveq => { self.d[rx as usize] = i.imm; self.logic(Sz::L, i.imm); t.MOVEQ }
            // ---- shifts
            Asm | Lsm | Roxm | Rom => {
                let ty = match i.k { Asm => 0, Lsm => 1, Roxm => 2, _ => 3 };
                self.rmw(b, ea, Sz::W, |st, v| st.shift(ty, b8, Sz::W, v, 1))?;
                eat + match ty { 0 => t.ASM, 1 => t.LSM, 2 => t.ROXM, _ => t.ROM }
            }
            Asr | Lsr | Roxr | Ror => {
                let ty = match i.k { Asr => 0, Lsr => 1, Roxr => 2, _ => 3 };
                let n = if op & 0x20 != 0 { self.d[rx as usize] & 63 } else if rx == 0 { 8 } else { rx as u32 };
                self.rmw(b, Ea::Dn(ry), sz, |st, v| st.shift(ty, b8, sz, v, n))?;
                let n = n as usize;
                match (ty, l) {
                    (0, false) => t.ASR_BW + n * t.ASR_COUNT, (0, true) => t.ASR_L + n * t.ASR_COUNT,
                    (1, false) => t.LSR_BW + n * t.LSR_COUNT, (1, true) => t.LSR_L + n * t.LSR_COUNT,
                    (2, false) => t.ROXR_BW + n * t.ROXR_COUNT, (2, true) => t.ROXR_L + n * t.ROXR_COUNT,
                    (_, false) => t.ROR_BW + n * t.ROR_COUNT, _ => t.ROR_L + n * t.ROR_COUNT,
                }
            }
            // ---- data movement
            Move => {
                let v = self.load(b, ea, sz)?;
                self.store(b, i.dst, sz, v)?;
                self.logic(sz, v);
                eat + Self::ea_time(t, i.dst, sz) + if matches!(i.dst, Ea::Pre(_)) { t.MOVE_DST_ARIWPR } else { t.MOVE_OTHER }
            }
            Movea => { let v = self.load(b, ea, sz)?; self.sa(rx, sz.sx(v) as u32); eat + t.MOVEA }
            Moveccr => { let v = self.load(b, ea, Sz::W)?; self.sr = self.sr & 0xFF00 | v as u16 & 0x1F; eat + t.MOVECCR }
            Movesr => { let v = self.load(b, ea, Sz::W)?; self.sr = v as u16 & SR_MASK; eat + t.MOVESR }
            Movefsr => { let v = self.sr as u32; self.store(b, ea, Sz::W, v)?; eat + if reg { t.MOVEFSR_REG } else { t.MOVEFSR_MEM } }
            Moveusp => { if op & 8 != 0 { let v = self.usp; self.sa(ry, v) } else { self.usp = self.ga(ry) } t.MOVEUSP }
            Movem => {
                let list = i.imm as u16;
                let n = sz.n();
                let count = list.count_ones() as usize;
                let to_regs = op >> 10 & 1 != 0;
                if let Ea::Pre(r) = ea {
                    // bit 0 is A7, bit 15 is D0; stored downwards, initial register values
                    let mut a = self.ga(r);
                    o.unspec |= list == 0 && a & 1 != 0;
                    for k in 0..16u8 {
                        if list >> k & 1 != 0 {
                            a = a.wrapping_sub(n);
                            let q = 15 - k;
                            let v = if q < 8 { self.d[q as usize] } else { self.ga(q - 8) };
                            b.wr(a, sz, v & sz.mask())?;
                        }
                    }
                    self.sa(r, a);
                } else {
                    let mut a = if let Ea::Post(r) = ea { self.ga(r) } else { self.addr(ea, n) };
                    // nothing is transferred: whether the odd address is noticed is not specified
                    o.unspec |= list == 0 && a & 1 != 0;
                    for q in 0..16u8 {
                        if list >> q & 1 != 0 {
                            if to_regs {
                                let v = sz.sx(b.rd(a, sz)?) as u32;
                                if q < 8 { self.d[q as usize] = v } else { self.sa(q - 8, v) }
                            } else {
                                let v = if q < 8 { self.d[q as usize] } else { self.ga(q - 8) };
                                b.wr(a, sz, v & sz.mask())?;
                            }
                            a = a.wrapping_add(n);
                        }
                    }
                    if let Ea::Post(r) = ea { self.sa(r, a); }
                }
                let base = match ea {
                    Ea::Ind(_) => t.MOVEM_ARI, Ea::Post(_) => t.MOVEM_ARIWPO, Ea::Pre(_) => t.MOVEM_ARIWPR, Ea::Disp(..) => t.MOVEM_ARIWD, Ea::Idx(..) => t.MOVEM_ARIWI8,
                    Ea::AbsW(_) => t.MOVEM_ABSSHORT, Ea::AbsL(_) => t.MOVEM_ABSLONG, Ea::PcD(..) => t.MOVEM_PCIWD, _ => t.MOVEM_PCIWI8,
                };
                base + count * if l { t.MOVEM_LONG } else { t.MOVEM_WORD } + if to_regs { t.MOVEM_MTR } else { 0 }
            }
            Movep => {
                let a = self.ga(ry).wrapping_add(i.disp as u32);
                let n = sz.n();
                if op & 0x80 != 0 {
                    for k in 0..n { b.wr(a.wrapping_add(2 * k), Sz::B, self.d[rx as usize] >> (8 * (n - 1 - k)) & 0xFF)?; }
                } else {
                    let mut v = 0;
                    for k in 0..n { v = v << 8 | b.rd(a.wrapping_add(2 * k), Sz::B)?; }
                    self.sd(rx, sz, v);
                }
                match (op & 0x80 != 0, l) { (true, false) => t.MOVEP_RTM_WORD, (true, true) => t.MOVEP_RTM_LONG, (false, false) => t.MOVEP_MTR_WORD, _ => t.MOVEP_MTR_LONG }
            }
            Lea => { let a = self.addr(ea, 4); self.sa(rx, a); jt!(LEA_ARI LEA_ARIWD LEA_ARIWI8 LEA_ABSSHORT LEA_ABSLONG LEA_PCIWD LEA_PCIWI8) }
            Pea => { let a = self.addr(ea, 4); self.push(b, Sz::L, a)?; jt!(PEA_ARI PEA_ARIWD PEA_ARIWI8 PEA_ABSSHORT PEA_ABSLONG PEA_PCIWD PEA_PCIWI8) }
            Exg => {
                let get = |st: &St, r: u8, addr: bool| if addr { st.ga(r) } else { st.d[r as usize] };
                let (xa, ya) = match op >> 3 & 0x1F { 0x08 => (false, false), 0x09 => (true, true), _ => (false, true) };
                let (x, y) = (get(self, rx, xa), get(self, ry, ya));
                if xa { self.sa(rx, y) } else { self.d[rx as usize] = y }
                if ya { self.sa(ry, x) } else { self.d[ry as usize] = x }
                t.EXG
            }
            Link => {
                let sp = self.addr(Ea::Pre(7), 4);
                let v = self.ga(ry);
                b.wr(sp, Sz::L, v)?;
                self.sa(ry, sp);
                self.sa(7, sp.wrapping_add(i.disp as u32));
                t.LINK
            }
            Unlk => {
                let v = self.ga(ry);
                self.sa(7, v);
                let v = self.pop(b, Sz::L)?;
                self.sa(ry, v);
                t.UNLK
            }
            // ---- control flow
            Bcc | Bra | Bsr => {
                let word = op as u8 == 0;
                let target = i.pc.wrapping_add(2).wrapping_add(i.disp as u32);
                match i.k {
                    Bcc => if cond(op >> 8, self.sr) { self.pc = target; t.BCC_BRANCH } else if word { t.BCC_NO_BRANCH_WORD } else { t.BCC_NO_BRANCH_BYTE },
                    Bra => { self.pc = target; if word { t.BRA_WORD } else { t.BRA_BYTE } }
                    _ => { self.push(b, Sz::L, after)?; self.pc = target; if word { t.BSR_WORD } else { t.BSR_BYTE } }
                }
            }
            Dbcc => {
                if cond(op >> 8, self.sr) { t.DBCC_TRUE }
                else {
                    let c = (self.d[ry as usize] as u16).wrapping_sub(1);
                    self.sd(ry, Sz::W, c as u32);
                    if c == 0xFFFF { t.DBCC_FALSE_NO_BRANCH } else { self.pc = i.pc.wrapping_add(2).wrapping_add(i.disp as u32); t.DBCC_FALSE_BRANCH }
                }
            }
            Jmp => { self.pc = self.addr(ea, 4); jt!(JMP_ARI JMP_ARIWD JMP_ARIWI8 JMP_ABSSHORT JMP_ABSLONG JMP_PCIWD JMP_PCIWI8) }
            Jsr => {
                let a = self.addr(ea, 4);
                self.push(b, Sz::L, after)?;
                self.pc = a;
                jt!(JSR_ARI JSR_ARIWD JSR_ARIWI8 JSR_ABSSHORT JSR_ABSLONG JSR_PCIWD JSR_PCIWI8)
            }
            Rts => { self.pc = self.pop(b, Sz::L)?; t.RTS }
            Rtr => {
                let c = self.pop(b, Sz::W)?;
                let p = self.pop(b, Sz::L)?;
                self.sr = self.sr & 0xFF00 | c as u16 & 0x1F;
                self.pc = p;
                t.RTR
            }
            Rte => {
                let sr = self.pop(b, Sz::W)?;
                let p = self.pop(b, Sz::L)?;
                let mut c = t.RTE;
                if t.scc_frames {
                    match self.pop(b, Sz::W)? >> 12 {
                        0 => {}
                        15 => { self.ssp = self.ssp.wrapping_add(26); c += 101; }
                        _ => { self.pc = p; return Err(Ex(14)); }
                    }
                }
                self.sr = sr as u16 & SR_MASK;
                self.pc = p;
                c
            }
            // ---- system
            Stop => {
                self.sr = i.imm as u16 & SR_MASK;
                // an unmasked interrupt that is already requested ends the stopped state at once
                self.stop = !self.pend.iter().any(|v| self.unmasked(*v));
                t.STOP
            }
            Reset => { b.m.reset_instruction(); t.RESET }
        })
    }

    /// A pending interrupt that the current mask lets through.
    pub fn unmasked(&self, v: u8) -> bool { level(v).is_some_and(|l| l == 7 || l > self.mask()) }

    /// Fetches and executes one instruction.
    pub fn one(&mut self, m: &mut Mem, t: &Tim) -> Out {
        let mut o = Out::default();
        let before = self.clone();
        m.jr.clear();
        m.jr_on = true;
        let mut log_on = true;
        std::mem::swap(&mut m.log_on, &mut log_on);
        let log_len = m.log.len();
        let t_bit = self.t();
        let r = (|| -> Result<(Ins, R<usize>), (u8, Option<u16>)> {
            let pc = self.pc;
            if pc & 1 != 0 { return Err((3, None)); }
            let op = m.get_word(pc).ok_or((2, None))?;
            let i = decode(op, pc, |a| m.get_word(a).ok_or(())).map_err(|_| (2u8, Some(op)))?;
            self.cur = Some(op);
            self.pc = pc.wrapping_add(i.len);
            let mut bus = Bus { m, lax: false };
            let r = self.exec(&mut bus, &i, t, &mut o);
            Ok((i, r))
        })();
        m.log_on = log_on;
        m.jr_on = false;
        match r {
            Err((v, op)) => {
                o.vector = Some(v);
                if op.is_some() { self.cur = op; } else { self.cur = None; }
                o.fault = Some(Box::new(Fault { vectors: vec![v], before: before.clone(), after: before, mem_after: m.clone(), fetch: true, ext_fetch: op.is_some() }));
            }
            Ok((i, Ok(c))) => {
                o.ins = Some(i);
                o.cycles = Some(c);
                if t_bit && !privileged(i.k) { o.vector = Some(9); }
            }
            Ok((i, Err(Ex(v)))) => {
                o.ins = Some(i);
                o.vector = Some(v);
                if v == 2 || v == 3 || v == 14 {
                    // what the instruction would have done had every access succeeded
                    let mut st = before.clone();
                    st.pc = st.pc.wrapping_add(i.len);
                    m.undo();
                    let mut ma = m.clone();
                    ma.log.clear();
                    let mut oo = Out::default();
                    let _ = st.exec(&mut Bus { m: &mut ma, lax: true }, &i, t, &mut oo);
                    let mut vs = vec![v];
                    if ma.log.iter().any(|a| a.size > 1 && a.addr & 1 != 0) && !vs.contains(&3) { vs.push(3); }
                    if ma.log.iter().any(|a| !ma.mapped(a.addr, a.size as u32, a.write)) && !vs.contains(&2) { vs.push(2); }
                    let cur = self.cur;
                    *self = before.clone();
                    self.cur = cur;
                    o.fault = Some(Box::new(Fault { vectors: vs, before, after: st, mem_after: ma, fetch: false, ext_fetch: false }));
                    o.undef_ccr = 0x1F;
                } else if matches!(v, 4 | 8 | 10 | 11) {
                    // offending instruction
                    self.pc = i.pc;
                }
            }
        }
        if !log_on { m.log.truncate(log_len); }
        o
    }

    /// Processes the pending exceptions. None when behaviour is outside the specification (fault while stacking).
    pub fn process(&mut self, m: &mut Mem, t: &Tim, o: &mut Out) -> Option<()> {
        if self.pend.contains(&0) {
            self.pend.clear();
            self.ssp = m.peek32(0);
            self.pc = m.peek32(4);
            self.sr = self.sr & !0x8000 | 0x2700;
            self.stop = false;
            o.cycles = o.cycles.map(|c| c + t.VECTOR_RESET);
            o.reset_taken = true;
            return m.mapped(0, 8, false).then_some(());
        }
        let mut v: Vec<u8> = self.pend.iter().copied().filter(|v| level(*v).is_none() || self.unmasked(*v)).collect();
        v.sort_by_key(|v| (255 - class(*v), level(*v).unwrap_or(0), *v));
        for x in v {
            self.pend.remove(&x);
            let mut b = Bus { m, lax: false };
            self.enter(&mut b, x, t, o).ok()?;
            o.cycles = match (o.cycles, t.vec_time(x)) { (Some(a), Some(b)) => Some(a + b), _ => None };
            o.taken.push(x);
        }
        Some(())
    }

    fn enter(&mut self, b: &mut Bus, v: u8, t: &Tim, o: &mut Out) -> R<()> {
        let sr = self.sr as u32;
        self.sr = self.sr & !0x8000 | 0x2000;
        if let Some(l) = level(v) { self.sr = self.sr & !0x700 | (l as u16) << 8; }
        let pc = self.pc;
        let opw = self.cur;
        let mut dc = |sp: u32| { if opw.is_none() { o.dc_mem.extend([sp, sp.wrapping_add(1)]); } };
        let op = opw.unwrap_or(0) as u32;
        if !t.scc_frames {
            self.push(b, Sz::L, pc)?;
            self.push(b, Sz::W, sr)?;
            if v == 2 || v == 3 {
                self.push(b, Sz::W, op)?;
                dc(self.ssp);
                self.push(b, Sz::L, 0)?;
                self.push(b, Sz::W, 0)?;
            }
        } else {
            if v == 2 || v == 3 {
                self.push(b, Sz::W, 0)?;
                self.push(b, Sz::W, op)?;
                dc(self.ssp);
                self.push(b, Sz::W, op)?;
                dc(self.ssp);
                for _ in 0..3 { self.push(b, Sz::L, 0)?; }
                for _ in 0..4 { self.push(b, Sz::W, 0)?; }
                self.push(b, Sz::W, 0xF000 | v as u32 * 4)?;
            } else {
                self.push(b, Sz::W, v as u32 * 4)?;
            }
            self.push(b, Sz::L, pc)?;
            self.push(b, Sz::W, sr)?;
        }
        self.pc = b.rd(v as u32 * 4, Sz::L)?;
        Ok(())
    }

    /// One interpreter step: pending exceptions, then one instruction. The raised vector is not queued.
    pub fn step(&mut self, m: &mut Mem, t: &Tim) -> Out {
        if self.stop { return Out { cycles: Some(0), was_stopped: true, ..Out::default() }; }
        let mut p = Out { cycles: Some(0), ..Out::default() };
        // frame words of unknown value: what reads them is not specified
        let watch = self.cur.is_none() && (self.pend.contains(&2) || self.pend.contains(&3));
        let (log_on, log_len) = (m.log_on, m.log.len());
        m.log_on |= watch;
        let ok = self.process(m, t, &mut p).is_some();
        let mut o = if ok { self.one(m, t) } else { Out { unspec: true, ..p.clone() } };
        if watch {
            o.unspec |= m.log[log_len..].iter().any(|l| !l.write && p.dc_mem.iter().any(|a| a.wrapping_sub(l.addr) < l.size as u32));
            m.log_on = log_on;
            if !log_on { m.log.truncate(log_len); }
        }
        if !ok { return o; }
        o.cycles = match (o.vector, o.cycles, p.cycles) {
            (_, Some(a), Some(b)) => Some(a + b),
            // an instruction that raises an exception reports its time through that exception
            (Some(v), None, b) if matches!(v, 4 | 8 | 10 | 11 | 7 | 32..=47) => b,
            _ => None,
        };
        o.taken = p.taken;
        o.reset_taken = p.reset_taken;
        o.dc_mem.extend(p.dc_mem);
        o
    }

    /// Queues a request as `M68000::exception` does.
    pub fn request(&mut self, v: u8) {
        if v == 0 || v == 9 || self.unmasked(v) { self.stop = false; }
        self.pend.insert(v);
    }
}
