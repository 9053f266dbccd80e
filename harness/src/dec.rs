//! Reference decoder, written from the M68000 programmer's reference manual.
#![allow(clippy::too_many_arguments)]

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    Unknown, Abcd, Add, Adda, Addi, Addq, Addx, And, Andi, Andiccr, Andisr, Asm, Asr, Bcc, Bchg, Bclr, Bra, Bset, Bsr, Btst, Chk, Clr,
    Cmp, Cmpa, Cmpi, Cmpm, Dbcc, Divs, Divu, Eor, Eori, Eoriccr, Eorisr, Exg, Ext, Illegal, Jmp, Jsr, Lea, Link, Lsm, Lsr, Move, Movea,
    Moveccr, Movefsr, Movesr, Moveusp, Movem, Movep, Moveq, Muls, Mulu, Nbcd, Neg, Negx, Nop, Not, Or, Ori, Oriccr, Orisr, Pea, Reset,
    Rom, Ror, Roxm, Roxr, Rte, Rtr, Rts, Sbcd, Scc, Stop, Sub, Suba, Subi, Subq, Subx, Swap, Tas, Trap, Trapv, Tst, Unlk,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sz { B, W, L }
impl Sz {
    pub fn n(self) -> u32 { match self { Sz::B => 1, Sz::W => 2, Sz::L => 4 } }
    pub fn bits(self) -> u32 { self.n() * 8 }
    pub fn mask(self) -> u32 { match self { Sz::B => 0xFF, Sz::W => 0xFFFF, Sz::L => !0 } }
    pub fn msb(self) -> u32 { match self { Sz::B => 0x80, Sz::W => 0x8000, Sz::L => 0x8000_0000 } }
    pub fn std(b: u16) -> Option<Sz> { match b & 3 { 0 => Some(Sz::B), 1 => Some(Sz::W), 2 => Some(Sz::L), _ => None } }
    pub fn sx(self, v: u32) -> i64 { match self { Sz::B => v as u8 as i8 as i64, Sz::W => v as u16 as i16 as i64, Sz::L => v as i32 as i64 } }
}

// Addressing mode categories as bit sets over the 12 modes
// 0 Dn 1 An 2 (An) 3 (An)+ 4 -(An) 5 d(An) 6 d(An,X) 7 abs.w 8 abs.l 9 d(PC) 10 d(PC,X) 11 #imm
pub const C_ALL: u16 = 0xFFF;
pub const C_DATA: u16 = 0xFFD;
pub const C_DATA_NOIMM: u16 = 0x7FD;
pub const C_ALT: u16 = 0x1FF;
pub const C_DATALT: u16 = 0x1FD;
pub const C_MEMALT: u16 = 0x1FC;
pub const C_CTRL: u16 = 0x7E4;
pub const C_CTRLALT: u16 = 0x1E4;

/// Index 0..=11 of an effective address field, 12 = invalid.
pub fn ea_class(mode: u16, reg: u16) -> u16 {
    match mode { 7 => if reg <= 4 { 7 + reg } else { 12 }, m => m }
}
fn ea_ok(op: u16, set: u16) -> bool { set >> ea_class(op >> 3 & 7, op & 7) & 1 != 0 }

/// The instruction an opcode word encodes on the 68000.
pub fn kind(op: u16) -> K {
    use K::*;
    let b = |n: u16| op >> n & 1 != 0;
    let sz = op >> 6 & 3;
    let mode = op >> 3 & 7;
    let ea = |set: u16, k: K| if ea_ok(op, set) { k } else { Unknown };
    match op >> 12 {
        0x0 => {
            match op { 0x003C => return Oriccr, 0x007C => return Orisr, 0x023C => return Andiccr, 0x027C => return Andisr, 0x0A3C => return Eoriccr, 0x0A7C => return Eorisr, _ => {} }
            if b(8) {
                if mode == 1 { return Movep; }
                return match sz { 0 => ea(C_DATA, Btst), 1 => ea(C_DATALT, Bchg), 2 => ea(C_DATALT, Bclr), _ => ea(C_DATALT, Bset) };
            }
            match op >> 9 & 7 {
                4 => match sz { 0 => ea(C_DATA_NOIMM, Btst), 1 => ea(C_DATALT, Bchg), 2 => ea(C_DATALT, Bclr), _ => ea(C_DATALT, Bset) },
                7 => Unknown,
                _ if sz == 3 => Unknown,
                0 => ea(C_DATALT, Ori), 1 => ea(C_DATALT, Andi), 2 => ea(C_DATALT, Subi), 3 => ea(C_DATALT, Addi), 5 => ea(C_DATALT, Eori),
                _ => ea(C_DATALT, Cmpi),
            }
        }
        1..=3 => {
            let byte = op >> 12 == 1;
            if !ea_ok(op, if byte { C_DATA } else { C_ALL }) { return Unknown; }
            let (dm, dr) = (op >> 6 & 7, op >> 9 & 7);
            if dm == 1 { return if byte { Unknown } else { Movea }; }
            if C_DATALT >> ea_class(dm, dr) & 1 != 0 { Move } else { Unknown }
        }
        4 => {
            if b(8) {
                return match sz { 3 => ea(C_CTRL, Lea), 2 => ea(C_DATA, Chk), _ => Unknown };
            }
            match op >> 9 & 7 {
                0 => if sz == 3 { ea(C_DATALT, Movefsr) } else { ea(C_DATALT, Negx) },
                1 => if sz == 3 { Unknown } else { ea(C_DATALT, Clr) },
                2 => if sz == 3 { ea(C_DATA, Moveccr) } else { ea(C_DATALT, Neg) },
                3 => if sz == 3 { ea(C_DATA, Movesr) } else { ea(C_DATALT, Not) },
                4 => match sz {
                    0 => ea(C_DATALT, Nbcd),
                    1 => if mode == 0 { Swap } else { ea(C_CTRL, Pea) },
                    _ => if mode == 0 { Ext } else { ea(C_CTRLALT | 1 << 4, Movem) },
                },
                5 => match sz { 3 => if op == 0x4AFC { Illegal } else { ea(C_DATALT, Tas) }, _ => ea(C_DATALT, Tst) },
                6 => if sz >= 2 { ea(C_CTRL | 1 << 3, Movem) } else { Unknown },
                _ => match sz {
                    2 => ea(C_CTRL, Jsr),
                    3 => ea(C_CTRL, Jmp),
                    0 => Unknown,
                    _ => match op & 0x3F {
                        0..=15 => Trap, 16..=23 => Link, 24..=31 => Unlk, 32..=47 => Moveusp,
                        48 => Reset, 49 => Nop, 50 => Stop, 51 => Rte, 53 => Rts, 54 => Trapv, 55 => Rtr, _ => Unknown,
                    },
                },
            }
        }
        5 => match sz {
            3 => if mode == 1 { Dbcc } else { ea(C_DATALT, Scc) },
            _ => ea(if sz == 0 { C_DATALT } else { C_ALT }, if b(8) { Subq } else { Addq }),
        },
        6 => match op >> 8 & 15 { 0 => Bra, 1 => Bsr, _ => Bcc },
        7 => if b(8) { Unknown } else { Moveq },
        8 => match (op >> 6 & 7, mode) {
            (3, _) => ea(C_DATA, Divu),
            (7, _) => ea(C_DATA, Divs),
            (4, 0 | 1) => Sbcd,
            (0..=2, _) => ea(C_DATA, Or),
            _ => ea(C_MEMALT, Or),
        },
        9 | 0xD => {
            let (p, x, a) = if op >> 12 == 9 { (Sub, Subx, Suba) } else { (Add, Addx, Adda) };
            match (op >> 6 & 7, mode) {
                (3 | 7, _) => ea(C_ALL, a),
                (4..=6, 0 | 1) => x,
                (0, _) => ea(C_DATA, p),
                (1 | 2, _) => ea(C_ALL, p),
                _ => ea(C_MEMALT, p),
            }
        }
        0xB => match (op >> 6 & 7, mode) {
            (3 | 7, _) => ea(C_ALL, Cmpa),
            (4..=6, 1) => Cmpm,
            (0, _) => ea(C_DATA, Cmp),
            (1 | 2, _) => ea(C_ALL, Cmp),
            _ => ea(C_DATALT, Eor),
        },
        0xC => match (op >> 6 & 7, mode) {
            (3, _) => ea(C_DATA, Mulu),
            (7, _) => ea(C_DATA, Muls),
            (4, 0 | 1) => Abcd,
            (5, 0 | 1) | (6, 1) => Exg,
            (0..=2, _) => ea(C_DATA, And),
            _ => ea(C_MEMALT, And),
        },
        0xE => {
            if sz == 3 {
                if b(11) { return Unknown; }
                return ea(C_MEMALT, match op >> 9 & 3 { 0 => Asm, 1 => Lsm, 2 => Roxm, _ => Rom });
            }
            match op >> 3 & 3 { 0 => Asr, 1 => Lsr, 2 => Roxr, _ => Ror }
        }
        _ => Unknown,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ea {
    Dn(u8), An(u8), Ind(u8), Post(u8), Pre(u8), Disp(u8, i16), Idx(u8, u16), AbsW(u16), AbsL(u32), PcD(u32, i16), PcI(u32, u16), Imm(u32),
}
impl Ea {
    pub fn class(self) -> usize {
        match self { Ea::Dn(_) => 0, Ea::An(_) => 1, Ea::Ind(_) => 2, Ea::Post(_) => 3, Ea::Pre(_) => 4, Ea::Disp(..) => 5, Ea::Idx(..) => 6, Ea::AbsW(_) => 7, Ea::AbsL(_) => 8, Ea::PcD(..) => 9, Ea::PcI(..) => 10, Ea::Imm(_) => 11 }
    }
    pub fn is_reg(self) -> bool { self.class() < 2 }
    pub fn rdimm(self) -> bool { matches!(self.class(), 0 | 1 | 11) }
    pub fn is_mem(self) -> bool { matches!(self.class(), 2..=10) }
}
pub const CLASS_NAMES: [&str; 12] = ["Dn", "An", "(An)", "(An)+", "-(An)", "d(An)", "d(An,X)", "abs.W", "abs.L", "d(PC)", "d(PC,X)", "#imm"];

/// A decoded instruction.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Ins {
    pub k: K,
    pub op: u16,
    /// Address of the opcode word.
    pub pc: u32,
    /// Length in bytes.
    pub len: u32,
    pub sz: Sz,
    /// The effective address operand (source operand of MOVE).
    pub ea: Ea,
    /// MOVE destination.
    pub dst: Ea,
    /// Register field in bits 11-9.
    pub rx: u8,
    /// Register field in bits 2-0.
    pub ry: u8,
    /// Immediate data, register list or bit number.
    pub imm: u32,
    /// Displacement.
    pub disp: i32,
}

/// True when `op`'s low six bits are an effective address field.
fn has_ea(k: K) -> bool {
    use K::*;
    matches!(k, Add | Adda | Addi | Addq | And | Andi | Asm | Bchg | Bclr | Bset | Btst | Chk | Clr | Cmp | Cmpa | Cmpi | Divs | Divu | Eor | Eori | Jmp | Jsr | Lea
        | Lsm | Move | Movea | Moveccr | Movefsr | Movesr | Movem | Muls | Mulu | Nbcd | Neg | Negx | Not | Or | Ori | Pea | Rom | Roxm | Scc | Sub | Suba | Subi
        | Subq | Tas | Tst)
}

pub fn op_size(k: K, op: u16) -> Sz {
    use K::*;
    match k {
        Move | Movea => match op >> 12 & 3 { 1 => Sz::B, 3 => Sz::W, _ => Sz::L },
        Movem | Ext | Movep => if op >> 6 & 1 != 0 { Sz::L } else { Sz::W },
        Adda | Suba | Cmpa => if op >> 8 & 1 != 0 { Sz::L } else { Sz::W },
        Add | Sub | And | Or | Eor | Cmp | Addi | Subi | Andi | Ori | Eori | Cmpi | Addq | Subq | Addx | Subx | Cmpm | Clr | Neg | Negx | Not | Tst | Asr | Lsr | Ror | Roxr => Sz::std(op >> 6).unwrap_or(Sz::B),
        Nbcd | Tas | Scc | Abcd | Sbcd => Sz::B,
        Bchg | Bclr | Bset | Btst => if op >> 3 & 7 == 0 { Sz::L } else { Sz::B },
        Chk | Divs | Divu | Muls | Mulu | Moveccr | Movefsr | Movesr | Asm | Lsm | Rom | Roxm | Stop | Andisr | Orisr | Eorisr | Andiccr | Oriccr | Eoriccr => Sz::W,
        _ => Sz::L,
    }
}

/// Decodes the instruction at `pc`; `next(addr)` fetches an extension word.
pub fn decode<E>(op: u16, pc: u32, mut next: impl FnMut(u32) -> Result<u16, E>) -> Result<Ins, E> {
    use K::*;
    let k = kind(op);
    let sz = op_size(k, op);
    let mut i = Ins { k, op, pc, len: 2, sz, ea: Ea::Dn(0), dst: Ea::Dn(0), rx: (op >> 9 & 7) as u8, ry: (op & 7) as u8, imm: 0, disp: 0 };
    let mut len = 2u32;
    let mut word = |len: &mut u32| -> Result<u16, E> {
        let w = next(pc.wrapping_add(*len))?;
        *len += 2;
        Ok(w)
    };
    // immediate data and single extension words come before the effective address extension
    match k {
        Addi | Subi | Andi | Ori | Eori | Cmpi => {
            i.imm = match sz {
                Sz::B => word(&mut len)? as u32 & 0xFF,
                Sz::W => word(&mut len)? as u32,
                Sz::L => (word(&mut len)? as u32) << 16 | word(&mut len)? as u32,
            };
        }
        Andiccr | Oriccr | Eoriccr | Andisr | Orisr | Eorisr | Stop => i.imm = word(&mut len)? as u32,
        Movem => i.imm = word(&mut len)? as u32,
        Movep | Dbcc | Link => i.disp = word(&mut len)? as i16 as i32,
        Bchg | Bclr | Bset | Btst if op >> 8 & 1 == 0 => i.imm = word(&mut len)? as u32,
        Bcc | Bra | Bsr => {
            let d = op as u8 as i8 as i32;
            i.disp = if d == 0 { word(&mut len)? as i16 as i32 } else { d };
        }
        Moveq => i.imm = op as u8 as i8 as i32 as u32,
        Trap => i.imm = (op & 15) as u32,
        Addq | Subq => i.imm = if op >> 9 & 7 == 0 { 8 } else { (op >> 9 & 7) as u32 },
        _ => {}
    }
    let mut get_ea = |mode: u16, reg: u16, len: &mut u32| -> Result<Ea, E> {
        let r = reg as u8;
        Ok(match ea_class(mode, reg) {
            0 => Ea::Dn(r), 1 => Ea::An(r), 2 => Ea::Ind(r), 3 => Ea::Post(r), 4 => Ea::Pre(r),
            5 => Ea::Disp(r, word(len)? as i16),
            6 => Ea::Idx(r, word(len)?),
            7 => Ea::AbsW(word(len)?),
            8 => Ea::AbsL((word(len)? as u32) << 16 | word(len)? as u32),
            9 => { let b = pc.wrapping_add(*len); Ea::PcD(b, word(len)? as i16) }
            10 => { let b = pc.wrapping_add(*len); Ea::PcI(b, word(len)?) }
            _ => Ea::Imm(match sz {
                Sz::L => (word(len)? as u32) << 16 | word(len)? as u32,
                // byte immediates occupy the low half of their word
                Sz::B | Sz::W => word(len)? as u32,
            }),
        })
    };
    if has_ea(k) {
        i.ea = get_ea(op >> 3 & 7, op & 7, &mut len)?;
        if k == Move { i.dst = get_ea(op >> 6 & 7, op >> 9 & 7, &mut len)?; }
    }
    i.len = len;
    Ok(i)
}

/// All opcodes of each kind, grouped further by size, direction bit and addressing classes so that a
/// uniform choice of group covers every form.
pub struct Groups { pub by_kind: std::collections::BTreeMap<K, Vec<Vec<u16>>> }
pub fn groups() -> &'static Groups {
    static G: std::sync::OnceLock<Groups> = std::sync::OnceLock::new();
    G.get_or_init(|| {
        let mut m: std::collections::BTreeMap<(K, u16, u16, u16, u16), Vec<u16>> = Default::default();
        for op in 0..=0xFFFFu16 {
            let k = kind(op);
            let c1 = if has_ea(k) { ea_class(op >> 3 & 7, op & 7) } else { op >> 3 & 1 };
            let c2 = if k == K::Move { ea_class(op >> 6 & 7, op >> 9 & 7) } else { 0 };
            let extra = match k {
                K::Move | K::Movea => 0,
                K::Bcc | K::Bra | K::Bsr => (op as u8 == 0) as u16,
                K::Unknown => op >> 12,
                _ => op >> 8 & 1 | (op >> 4 & 0x6 & if has_ea(k) { 0 } else { 6 }) | if matches!(k, K::Movem) { op >> 10 & 1 } else { 0 } << 3,
            };
            m.entry((k, op_size(k, op) as u16, c1, c2, extra)).or_default().push(op);
        }
        let mut by_kind: std::collections::BTreeMap<K, Vec<Vec<u16>>> = Default::default();
        for ((k, ..), v) in m { by_kind.entry(k).or_default().push(v); }
        Groups { by_kind }
    })
}
