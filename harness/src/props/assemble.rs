//! The assembler: C20, C21.
use super::code::{am_of, norm, operands, Code};
use super::Prop;
use crate::dec::{decode, Ea, Ins, Sz, C_ALL, C_ALT, C_CTRL, C_CTRLALT, C_DATA, C_DATALT, C_DATA_NOIMM, C_MEMALT, K};
use crate::gen;
use crate::mem::Mem;
use crate::run::{guard, Ctx, Res, Runner};
use m68000::addressing_modes::{AddressingMode as Am, BriefExtensionWord as Bew};
use m68000::assembler as asm;
use m68000::assembler::Condition;
use m68000::instruction::{Direction as D, Instruction, Operands as O, Size};
use m68000::MemoryAccess;
use proptest::prelude::*;
use K::*;

pub const KF_BTST: &str = "btst-static-immediate-is-assembled";

const SIZES: [Size; 3] = [Size::Byte, Size::Word, Size::Long];
const SZ: [Sz; 3] = [Sz::B, Sz::W, Sz::L];
const DIRS: [D; 13] = [
    D::RegisterToMemory, D::MemoryToRegister, D::DstReg, D::DstEa, D::Left, D::Right, D::RegisterToUsp, D::UspToRegister, D::RegisterToRegister, D::MemoryToMemory, D::ExchangeData, D::ExchangeAddress,
    D::ExchangeDataAddress,
];
const CONDS: [Condition; 16] = [
    Condition::T, Condition::F, Condition::HI, Condition::LS, Condition::CC, Condition::CS, Condition::NE, Condition::EQ, Condition::VC, Condition::VS, Condition::PL, Condition::MI, Condition::GE, Condition::LT,
    Condition::GT, Condition::LE,
];

/// An addressing mode argument.
#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize, Hash)]
pub struct A { c: u8, r: u8, w: u16, l: u32 }
impl A {
    fn am(&self) -> Am {
        match self.c % 12 {
            0 => Am::Drd(self.r), 1 => Am::Ard(self.r), 2 => Am::Ari(self.r), 3 => Am::Ariwpo(self.r), 4 => Am::Ariwpr(self.r), 5 => Am::Ariwd(self.r, self.w as i16), 6 => Am::Ariwi8(self.r, Bew(self.w)),
            7 => Am::AbsShort(self.w), 8 => Am::AbsLong(self.l), 9 => Am::Pciwd(self.l, self.w as i16), 10 => Am::Pciwi8(self.l, Bew(self.w)), _ => Am::Immediate(self.l),
        }
    }
    fn of(a: Am) -> A {
        let z = A { c: 0, r: 0, w: 0, l: 0 };
        match a {
            Am::Drd(r) => A { c: 0, r, ..z }, Am::Ard(r) => A { c: 1, r, ..z }, Am::Ari(r) => A { c: 2, r, ..z }, Am::Ariwpo(r) => A { c: 3, r, ..z }, Am::Ariwpr(r) => A { c: 4, r, ..z },
            Am::Ariwd(r, d) => A { c: 5, r, w: d as u16, ..z }, Am::Ariwi8(r, b) => A { c: 6, r, w: b.0, ..z }, Am::AbsShort(w) => A { c: 7, w, ..z }, Am::AbsLong(l) => A { c: 8, l, ..z },
            Am::Pciwd(l, d) => A { c: 9, w: d as u16, l, ..z }, Am::Pciwi8(l, b) => A { c: 10, w: b.0, l, ..z }, Am::Immediate(l) => A { c: 11, l, ..z },
        }
    }
    fn ea(&self) -> Ea {
        match self.c % 12 {
            0 => Ea::Dn(self.r), 1 => Ea::An(self.r), 2 => Ea::Ind(self.r), 3 => Ea::Post(self.r), 4 => Ea::Pre(self.r), 5 => Ea::Disp(self.r, self.w as i16), 6 => Ea::Idx(self.r, self.w),
            7 => Ea::AbsW(self.w), 8 => Ea::AbsL(self.l), 9 => Ea::PcD(0, self.w as i16), 10 => Ea::PcI(0, self.w), _ => Ea::Imm(self.l),
        }
    }
    fn ok(&self, set: u16) -> bool { let c = self.c % 12; set >> c & 1 != 0 && (c > 6 || self.r < 8) }
}

/// A call of one assembler function.
#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize, Hash)]
pub struct Ask { k: u8, a: A, b: A, size: u8, dir: u8, r1: u16, r2: u16, cond: u8, flag: bool, disp: i16, imm: u32 }
/// Functions whose register and count arguments are 16 bits wide.
fn wide_args(k: K) -> bool { matches!(k, Asr | Lsr | Ror | Roxr) }

pub fn kinds() -> &'static Vec<K> {
    static V: std::sync::OnceLock<Vec<K>> = std::sync::OnceLock::new();
    V.get_or_init(gen::known_kinds)
}

fn call(q: &Ask) -> Vec<u16> {
    let (a, b, s, d, r, r2, c, f, disp, imm) = (q.a.am(), q.b.am(), SIZES[q.size as usize % 3], DIRS[q.dir as usize % 13], q.r1 as u8, q.r2 as u8, CONDS[q.cond as usize & 15], q.flag, q.disp, q.imm);
    let (ra, rb) = (q.r1, q.r2);
    match kinds()[q.k as usize % kinds().len()] {
        Unknown => unreachable!(),
        Abcd => vec![asm::abcd(r, d, r2)],
        Add => asm::add(r, d, s, a), Adda => asm::adda(r, s, a), Addi => asm::addi(s, a, imm), Addq => asm::addq(r, s, a), Addx => vec![asm::addx(r, s, d, r2)],
        And => asm::and(r, d, s, a), Andi => asm::andi(s, a, imm), Andiccr => asm::andiccr(imm as u16).to_vec(), Andisr => asm::andisr(imm as u16).to_vec(),
        Asm => asm::asm(d, a), Asr => vec![asm::asr(ra, d, s, f, rb)], Bcc => asm::bcc(c, disp),
        Bchg => if f { asm::bchg_static(a, imm as u8) } else { asm::bchg_dynamic(r, a) },
        Bclr => if f { asm::bclr_static(a, imm as u8) } else { asm::bclr_dynamic(r, a) },
        Bset => if f { asm::bset_static(a, imm as u8) } else { asm::bset_dynamic(r, a) },
        Btst => if f { asm::btst_static(a, imm as u8) } else { asm::btst_dynamic(r, a) },
        Bra => asm::bra(disp), Bsr => asm::bsr(disp), Chk => asm::chk(r, a), Clr => asm::clr(s, a), Cmp => asm::cmp(r, s, a), Cmpa => asm::cmpa(r, s, a), Cmpi => asm::cmpi(s, a, imm), Cmpm => vec![asm::cmpm(r, s, r2)],
        Dbcc => asm::dbcc(c, r, disp).to_vec(), Divs => asm::divs(r, a), Divu => asm::divu(r, a), Eor => asm::eor(r, s, a), Eori => asm::eori(s, a, imm), Eoriccr => asm::eoriccr(imm as u16).to_vec(),
        Eorisr => asm::eorisr(imm as u16).to_vec(), Exg => vec![asm::exg(r, d, r2)], Ext => vec![asm::ext(f, r)], Illegal => vec![asm::illegal()], Jmp => asm::jmp(a), Jsr => asm::jsr(a), Lea => asm::lea(r, a),
        Link => asm::link(r, disp).to_vec(), Lsm => asm::lsm(d, a), Lsr => vec![asm::lsr(ra, d, s, f, rb)], Move => asm::r#move(s, b, a), Movea => asm::movea(s, r, a), Moveccr => asm::moveccr(a), Movefsr => asm::movefsr(a),
        Movesr => asm::movesr(a), Moveusp => vec![asm::moveusp(d, r)], Movem => asm::movem(d, s, a, imm as u16), Movep => asm::movep(r, d, s, r2, disp).to_vec(), Moveq => vec![asm::moveq(r, imm as i8)], Muls => asm::muls(r, a),
        Mulu => asm::mulu(r, a), Nbcd => asm::nbcd(a), Neg => asm::neg(s, a), Negx => asm::negx(s, a), Nop => vec![asm::nop()], Not => asm::not(s, a), Or => asm::or(r, d, s, a), Ori => asm::ori(s, a, imm),
        Oriccr => asm::oriccr(imm as u16).to_vec(), Orisr => asm::orisr(imm as u16).to_vec(), Pea => asm::pea(a), Reset => vec![asm::reset()], Rom => asm::rom(d, a), Ror => vec![asm::ror(ra, d, s, f, rb)], Roxm => asm::roxm(d, a),
        Roxr => vec![asm::roxr(ra, d, s, f, rb)], Rte => vec![asm::rte()], Rtr => vec![asm::rtr()], Rts => vec![asm::rts()], Sbcd => vec![asm::sbcd(r, d, r2)], Scc => asm::scc(c, a), Stop => asm::stop(imm as u16).to_vec(),
        Sub => asm::sub(r, d, s, a), Suba => asm::suba(r, s, a), Subi => asm::subi(s, a, imm), Subq => asm::subq(r, s, a), Subx => vec![asm::subx(r, s, d, r2)], Swap => vec![asm::swap(r)], Tas => asm::tas(a),
        Trap => vec![asm::trap(r)], Trapv => vec![asm::trapv()], Tst => asm::tst(s, a), Unlk => vec![asm::unlk(r)],
    }
}

fn allowed_dirs(k: K) -> &'static [u8] {
    match k {
        Abcd | Sbcd | Addx | Subx => &[8, 9],
        Add | And | Or | Sub => &[2, 3],
        Asm | Lsm | Rom | Roxm | Asr | Lsr | Ror | Roxr => &[4, 5],
        Movem | Movep => &[0, 1],
        Moveusp => &[6, 7],
        Exg => &[10, 11, 12],
        _ => &[0],
    }
}
/// The addressing modes the function's main operand may have.
fn modes(k: K, q: &Ask) -> u16 {
    let byte = q.size % 3 == 0;
    let dir = DIRS[q.dir as usize % 13];
    let src = |b: bool| if b { C_DATA } else { C_ALL };
    match k {
        Add | Sub => if dir == D::DstEa { C_MEMALT } else { src(byte) },
        And | Or => if dir == D::DstEa { C_MEMALT } else { C_DATA },
        Cmp | Move => src(byte),
        Adda | Suba | Cmpa | Movea => C_ALL,
        Addq | Subq => if byte { C_DATALT } else { C_ALT },
        Btst => if q.flag { C_DATA_NOIMM } else { C_DATA },
        Chk | Divs | Divu | Muls | Mulu | Moveccr | Movesr => C_DATA,
        Asm | Lsm | Rom | Roxm => C_MEMALT,
        Jmp | Jsr | Lea | Pea => C_CTRL,
        Movem => if dir == D::MemoryToRegister { C_CTRL | 1 << 3 } else { C_CTRLALT | 1 << 4 },
        _ => C_DATALT,
    }
}
const U_A: u8 = 1;
const U_B: u8 = 2;
const U_S: u8 = 4;
const U_D: u8 = 8;
const U_R1: u8 = 16;
const U_R2: u8 = 32;
const U_C: u8 = 64;
const U_F: u8 = 128;
/// Which arguments the function has.
fn uses(k: K) -> u8 {
    match k {
        Abcd | Sbcd | Exg => U_R1 | U_D | U_R2,
        Add | And | Or | Sub => U_R1 | U_D | U_S | U_A,
        Adda | Suba | Cmpa | Cmp | Eor | Addq | Subq | Movea => U_R1 | U_S | U_A,
        Addi | Andi | Cmpi | Eori | Ori | Subi | Clr | Neg | Negx | Not | Tst => U_S | U_A,
        Addx | Subx | Movep => U_R1 | U_R2 | U_S | U_D,
        Asm | Lsm | Rom | Roxm => U_D | U_A,
        Asr | Lsr | Ror | Roxr => U_R1 | U_R2 | U_D | U_S | U_F,
        Bcc => U_C,
        Bchg | Bclr | Bset | Btst => U_F | U_A | U_R1,
        Chk | Divs | Divu | Lea | Muls | Mulu => U_R1 | U_A,
        Cmpm => U_R1 | U_S | U_R2,
        Dbcc => U_C | U_R1,
        Ext => U_F | U_R1,
        Jmp | Jsr | Moveccr | Movefsr | Movesr | Nbcd | Pea | Tas => U_A,
        Link | Moveq | Swap | Trap | Unlk => U_R1,
        Move => U_S | U_A | U_B,
        Moveusp => U_D | U_R1,
        Movem => U_D | U_S | U_A,
        Scc => U_C | U_A,
        _ => 0,
    }
}

/// The operands asked for, when the arguments name a valid instruction (PC bases cleared).
fn expected(q: &Ask) -> Option<(K, Sz, O)> {
    let k = kinds()[q.k as usize % kinds().len()];
    let u = uses(k);
    let (s, d) = (SIZES[q.size as usize % 3], DIRS[q.dir as usize % 13]);
    let (w1, w2) = if wide_args(k) { (q.r1, q.r2) } else { (q.r1 & 255, q.r2 & 255) };
    if w1 > 255 || u & U_R2 != 0 && w2 > 255 { return None; }
    let (r, r2, c) = (w1 as u8, w2 as u8, q.cond & 15);
    if u & U_D != 0 && !allowed_dirs(k).contains(&(q.dir % 13)) { return None; }
    let r1max = match k { Trap => 15, Addq | Subq => 8, _ => 7 };
    let uses_r1 = u & U_R1 != 0 && !(matches!(k, Bchg | Bclr | Bset | Btst) && q.flag);
    if uses_r1 && (r > r1max || r1max == 8 && r == 0) { return None; }
    if u & U_R2 != 0 && r2 > 7 { return None; }
    if u & U_A != 0 && !q.a.ok(modes(k, q)) { return None; }
    if u & U_B != 0 && !q.b.ok(C_DATALT) { return None; }
    let byte = s == Size::Byte;
    if byte && matches!(k, Adda | Suba | Cmpa | Movea | Movem | Movep) { return None; }
    if k == Bcc && c < 2 { return None; }
    let sz = match k {
        Nbcd | Tas | Scc | Abcd | Sbcd => Sz::B,
        Bchg | Bclr | Bset | Btst => if q.a.c % 12 == 0 { Sz::L } else { Sz::B },
        Chk | Divs | Divu | Muls | Mulu | Moveccr | Movefsr | Movesr | Asm | Lsm | Rom | Roxm => Sz::W,
        _ if u & U_S != 0 => SZ[q.size as usize % 3],
        _ => Sz::L,
    };
    let (a, b) = (am_of(q.a.ea(), sz), am_of(q.b.ea(), sz));
    let dd = q.disp;
    Some((k, sz, match k {
        Unknown => return None,
        Illegal | Nop | Reset | Rte | Rtr | Rts | Trapv => O::NoOperands,
        Andiccr | Oriccr | Eoriccr => O::Immediate(q.imm as u16 & 0xFF),
        Andisr | Orisr | Eorisr | Stop => O::Immediate(q.imm as u16),
        Addi | Andi | Cmpi | Eori | Ori | Subi => O::SizeEffectiveAddressImmediate(s, a, q.imm & sz.mask()),
        Bchg | Bclr | Bset | Btst => O::EffectiveAddressCount(a, if q.flag { q.imm as u8 } else { r }),
        Jmp | Jsr | Moveccr | Movefsr | Movesr | Nbcd | Pea | Tas => O::EffectiveAddress(a),
        Clr | Neg | Negx | Not | Tst => O::SizeEffectiveAddress(s, a),
        Chk | Divs | Divu | Lea | Muls | Mulu => O::RegisterEffectiveAddress(r, a),
        Movep => O::RegisterDirectionSizeRegisterDisplacement(r, d, s, r2, dd),
        Movea => O::SizeRegisterEffectiveAddress(s, r, a),
        Move => O::SizeEffectiveAddressEffectiveAddress(s, b, a),
        Exg => O::RegisterOpmodeRegister(r, d, r2),
        Ext => O::OpmodeRegister(if q.flag { 3 } else { 2 }, r),
        Trap => O::Vector(r),
        Link => O::RegisterDisplacement(r, dd),
        Swap | Unlk => O::Register(r),
        Moveusp => O::DirectionRegister(d, r),
        Movem => O::DirectionSizeEffectiveAddressList(d, s, a, q.imm as u16),
        Addq | Subq => O::DataSizeEffectiveAddress(r & 7, s, a),
        Scc => O::ConditionEffectiveAddress(c, a),
        Dbcc => O::ConditionRegisterDisplacement(c, r, dd),
        Bra | Bsr => O::Displacement(dd),
        Bcc => O::ConditionDisplacement(c, dd),
        Moveq => O::RegisterData(r, q.imm as i8),
        Add | And | Or | Sub => O::RegisterDirectionSizeEffectiveAddress(r, d, s, a),
        Cmp => O::RegisterDirectionSizeEffectiveAddress(r, D::DstReg, s, a),
        Eor => O::RegisterDirectionSizeEffectiveAddress(r, D::DstEa, s, a),
        Adda | Cmpa | Suba => O::RegisterSizeEffectiveAddress(r, s, a),
        Abcd | Sbcd => O::RegisterSizeModeRegister(r, Size::Byte, d, r2),
        Addx | Subx => O::RegisterSizeModeRegister(r, s, d, r2),
        Cmpm => O::RegisterSizeRegister(r, s, r2),
        Asm | Lsm | Rom | Roxm => O::DirectionEffectiveAddress(d, a),
        Asr | Lsr | Ror | Roxr => O::RotationDirectionSizeModeRegister(r, d, s, q.flag, r2),
    }))
}

fn zero_pc(o: O) -> O {
    let z = |a: Am| match a { Am::Pciwd(_, d) => Am::Pciwd(0, d), Am::Pciwi8(_, b) => Am::Pciwi8(0, b), a => a };
    match o {
        O::SizeEffectiveAddressImmediate(s, e, i) => O::SizeEffectiveAddressImmediate(s, z(e), i),
        O::EffectiveAddressCount(e, c) => O::EffectiveAddressCount(z(e), c),
        O::EffectiveAddress(e) => O::EffectiveAddress(z(e)),
        O::SizeEffectiveAddress(s, e) => O::SizeEffectiveAddress(s, z(e)),
        O::RegisterEffectiveAddress(r, e) => O::RegisterEffectiveAddress(r, z(e)),
        O::SizeRegisterEffectiveAddress(s, r, e) => O::SizeRegisterEffectiveAddress(s, r, z(e)),
        O::SizeEffectiveAddressEffectiveAddress(s, a, b) => O::SizeEffectiveAddressEffectiveAddress(s, z(a), z(b)),
        O::DirectionSizeEffectiveAddressList(d, s, e, l) => O::DirectionSizeEffectiveAddressList(d, s, z(e), l),
        O::DataSizeEffectiveAddress(d, s, e) => O::DataSizeEffectiveAddress(d, s, z(e)),
        O::ConditionEffectiveAddress(c, e) => O::ConditionEffectiveAddress(c, z(e)),
        O::RegisterDirectionSizeEffectiveAddress(r, d, s, e) => O::RegisterDirectionSizeEffectiveAddress(r, d, s, z(e)),
        O::RegisterSizeEffectiveAddress(r, s, e) => O::RegisterSizeEffectiveAddress(r, s, z(e)),
        O::DirectionEffectiveAddress(d, e) => O::DirectionEffectiveAddress(d, z(e)),
        o => o,
    }
}
fn words_ins(w: &[u16]) -> Option<Ins> {
    if w.is_empty() || w.len() > 5 { return None; }
    let i = decode(w[0], 0x1000, |a| w.get((a as usize - 0x1000) / 2).copied().ok_or(())).ok()?;
    (i.len as usize == 2 * w.len()).then_some(i)
}
fn ccr_mask(k: K, o: O) -> O { match (k, o) { (Andiccr | Oriccr | Eoriccr, O::Immediate(v)) => O::Immediate(v & 0xFF), (_, o) => o } }

/// Checks emitted words against what was asked, with the reference decoder and with the library's.
fn check_words(q: &Ask, w: &[u16], want: &(K, Sz, O)) -> Res {
    let (k, sz, ops) = want;
    let Some(i) = words_ins(w) else { return Err(format!("{k:?} assembled to {w:04X?}, which is not one instruction: {q:?}")) };
    let got = zero_pc(ccr_mask(i.k, operands(&i)));
    if i.k != *k || got != *ops { return Err(format!("{k:?} {ops:?} assembled to {w:04X?}, which is {:?} {got:?}", i.k)); }
    let mut m = Mem::new(1, 0);
    for (n, x) in w.iter().enumerate() { m.poke16(0x1000 + 2 * n as u32, *x); }
    let (ins, end) = guard(|| { let mut it = m.iter_u16(0x1000); let r = Instruction::from_memory(&mut it); (r, it.next_addr) })?;
    let ins = ins.map_err(|v| format!("decoding gave vector {v}"))?;
    if zero_pc(norm(ccr_mask(*k, ins.operands), *sz)) != *ops || end != 0x1000 + 2 * w.len() as u32 { return Err(format!("{k:?} {ops:?} assembled to {w:04X?}, which the library decodes as {:?} of {} bytes", ins.operands, end - 0x1000)); }
    Ok(())
}

fn check_accepted(q: &Ask, ctx: &mut Ctx) -> Res {
    let Some(want) = expected(q) else { return Ok(()) };
    let w = guard(|| call(q)).map_err(|p| format!("{:?} {:?} is a valid instruction but the assembler panicked: {p}", want.0, want.2))?;
    check_words(q, &w, &want)?;
    ctx.class(&format!("{:?}", want.0));
    ctx.nontrivial = true;
    Ok(())
}
fn check_refused(q: &Ask, ctx: &mut Ctx) -> Res {
    let k = kinds()[q.k as usize % kinds().len()];
    let r = guard(|| call(q));
    match (expected(q), r) {
        (Some(want), Ok(w)) => check_words(q, &w, &want),
        (Some(_), Err(_)) => Ok(()),
        (None, Err(_)) => { ctx.class(&format!("{k:?} refused")); ctx.nontrivial = true; Ok(()) }
        (None, Ok(w)) => {
            let msg = format!("{k:?} with arguments that name no instruction ({q:?}) assembled to {w:04X?}, which is {:?}", words_ins(&w).map(|i| (i.k, operands(&i))));
            if k == Btst && q.flag && q.a.c % 12 == 11 && w.first() == Some(&0x083C) { ctx.finding(KF_BTST, msg) } else { Err(msg) }
        }
    }
}

/// A random call; most arguments are in range.
fn ask(invalid: bool) -> BoxedStrategy<Ask> {
    let reg = || if invalid { prop_oneof![8 => 0u8..8, 1 => 8u8..18, 1 => any::<u8>()].boxed() } else { prop_oneof![9 => 0u8..8, 1 => 0u8..16].boxed() };
    let a = move || (any::<u8>(), reg(), gen::data16(), gen::data32()).prop_map(|(c, r, w, l)| A { c: c % 12, r, w, l });
    let wide = move || (reg(), prop_oneof![40 => Just(0u16), 1 => (0u16..8).prop_map(move |b| if invalid { 0x100 << b } else { 0 })]).prop_map(|(r, h)| r as u16 | h);
    let good = if invalid { 0.8 } else { 0.97 };
    (0..kinds().len() as u8, a(), a(), any::<u8>(), (any::<u8>(), prop::bool::weighted(good)), wide(), wide(), any::<u8>(), any::<bool>(), gen::data16(), (gen::data32(), prop::bool::weighted(good)))
        .prop_map(|(k, mut a, b, size, (dir, dv), mut r1, r2, cond, flag, disp, (imm, mv))| {
            let kk = kinds()[k as usize];
            let dir = if dv { let v = allowed_dirs(kk); v[dir as usize % v.len()] } else { dir % 13 };
            if matches!(kk, Addq | Subq) && r1 < 8 && dv { r1 += 1; }
            let mut q = Ask { k, a, b, size: size % 3, dir, r1, r2, cond: cond & 15, flag, disp: disp as i16, imm };
            if mv {
                let set: Vec<u8> = (0..12).filter(|c| modes(kk, &q) >> c & 1 != 0).collect();
                a.c = set[a.c as usize % set.len()];
                q.a = a;
            }
            q
        })
        .boxed()
}

/// The product of the arguments a function has, immediates and displacements derived.
fn product() -> Vec<(u8, u64)> {
    kinds().iter().enumerate().map(|(n, k)| {
        let u = uses(*k);
        let mut s = 1u64;
        for (bit, c) in [(U_A, 120), (U_B, 120), (U_S, 3), (U_D, 13), (U_R1, if u & U_B != 0 { 1 } else { 18 }), (U_R2, 10), (U_C, 16), (U_F, 2)] { if u & bit != 0 { s *= c; } }
        (n as u8, s.max(24))
    }).collect()
}
fn product_at(p: &[(u8, u64)], mut n: u64) -> Ask {
    let seed = crate::mem::mix(n);
    let mut it = p.iter();
    let mut e = *it.next().unwrap();
    while n >= e.1 { n -= e.1; e = *it.next().unwrap(); }
    let u = uses(kinds()[e.0 as usize]);
    let mut take = |bit: u8, c: u64| if u & bit != 0 { let v = n % c; n /= c; v } else { 0 };
    let w = (seed >> 8) as u16;
    let l = (seed >> 24) as u32;
    let mk = |v: u64| A { c: (v / 10) as u8, r: (v % 10) as u8, w, l };
    let a = mk(take(U_A, 120));
    let b = mk(take(U_B, 120));
    Ask { k: e.0, a, b, size: take(U_S, 3) as u8, dir: take(U_D, 13) as u8, r1: take(U_R1, 18) as u16, r2: take(U_R2, 10) as u16, cond: take(U_C, 16) as u8, flag: take(U_F, 2) != 0, disp: gen::SPECIAL16[(seed & 15) as usize] as i16, imm: gen::SPECIAL32[(seed >> 40) as usize % 28] }
}

/// The call that re-assembles a decoded instruction.
fn ask_of(k: K, ins: &Instruction) -> Ask {
    let z = A { c: 0, r: 0, w: 0, l: 0 };
    let dn = |d: D| DIRS.iter().position(|x| *x == d).unwrap() as u8;
    let sn = |s: Size| SIZES.iter().position(|x| *x == s).unwrap() as u8;
    let mut q = Ask { k: kinds().iter().position(|x| *x == k).unwrap() as u8, a: z, b: z, size: 0, dir: allowed_dirs(k)[0], r1: 0, r2: 0, cond: 0, flag: false, disp: 0, imm: 0 };
    match ins.operands {
        O::NoOperands => {}
        O::Immediate(i) => q.imm = i as u32,
        O::SizeEffectiveAddressImmediate(s, e, i) => { q.size = sn(s); q.a = A::of(e); q.imm = i; }
        O::EffectiveAddressCount(e, c) => { q.a = A::of(e); q.flag = ins.opcode & 0x100 == 0; if q.flag { q.imm = c as u32 } else { q.r1 = c as u16 } }
        O::EffectiveAddress(e) => q.a = A::of(e),
        O::SizeEffectiveAddress(s, e) => { q.size = sn(s); q.a = A::of(e); }
        O::RegisterEffectiveAddress(r, e) => { q.r1 = r as u16; q.a = A::of(e); }
        O::RegisterDirectionSizeRegisterDisplacement(r, d, s, a, x) => { q.r1 = r as u16; q.dir = dn(d); q.size = sn(s); q.r2 = a as u16; q.disp = x; }
        O::SizeRegisterEffectiveAddress(s, r, e) => { q.size = sn(s); q.r1 = r as u16; q.a = A::of(e); }
        O::SizeEffectiveAddressEffectiveAddress(s, d, e) => { q.size = sn(s); q.b = A::of(d); q.a = A::of(e); }
        O::RegisterOpmodeRegister(r, d, y) => { q.r1 = r as u16; q.dir = dn(d); q.r2 = y as u16; }
        O::OpmodeRegister(o, r) => { q.flag = o == 3; q.r1 = r as u16; }
        O::Vector(v) => q.r1 = v as u16,
        O::RegisterDisplacement(r, d) => { q.r1 = r as u16; q.disp = d; }
        O::Register(r) => q.r1 = r as u16,
        O::DirectionRegister(d, r) => { q.dir = dn(d); q.r1 = r as u16; }
        O::DirectionSizeEffectiveAddressList(d, s, e, l) => { q.dir = dn(d); q.size = sn(s); q.a = A::of(e); q.imm = l as u32; }
        O::DataSizeEffectiveAddress(d, s, e) => { q.r1 = if d == 0 { 8 } else { d as u16 }; q.size = sn(s); q.a = A::of(e); }
        O::ConditionEffectiveAddress(c, e) => { q.cond = c; q.a = A::of(e); }
        O::ConditionRegisterDisplacement(c, r, d) => { q.cond = c; q.r1 = r as u16; q.disp = d; }
        O::Displacement(d) => q.disp = d,
        O::ConditionDisplacement(c, d) => { q.cond = c; q.disp = d; }
        O::RegisterData(r, d) => { q.r1 = r as u16; q.imm = d as u8 as u32; }
        O::RegisterDirectionSizeEffectiveAddress(r, d, s, e) => { q.r1 = r as u16; q.dir = dn(d); q.size = sn(s); q.a = A::of(e); }
        O::RegisterSizeEffectiveAddress(r, s, e) => { q.r1 = r as u16; q.size = sn(s); q.a = A::of(e); }
        O::RegisterSizeModeRegister(r, s, d, y) => { q.r1 = r as u16; q.size = sn(s); q.dir = dn(d); q.r2 = y as u16; }
        O::RegisterSizeRegister(r, s, y) => { q.r1 = r as u16; q.size = sn(s); q.r2 = y as u16; }
        O::DirectionEffectiveAddress(d, e) => { q.dir = dn(d); q.a = A::of(e); }
        O::RotationDirectionSizeModeRegister(c, d, s, f, r) => { q.r1 = c as u16; q.dir = dn(d); q.size = sn(s); q.flag = f; q.r2 = r as u16; }
    }
    q
}
fn check_reassemble(c: &Code, ctx: &mut Ctx) -> Res {
    let i = c.ins();
    if i.k == Unknown { return Ok(()); }
    let mut m = c.mem();
    let ins = guard(|| Instruction::from_memory(&mut m.iter_u16(c.pc)))?.map_err(|v| format!("decoding gave vector {v}"))?;
    let q = ask_of(i.k, &ins);
    let w = guard(|| call(&q)).map_err(|p| format!("{:?} {:04X} {:04X?} decodes to {:?} which the assembler refuses: {p}", i.k, c.op, c.e, ins.operands))?;
    let n = i.len as usize / 2;
    let orig: Vec<u16> = std::iter::once(c.op).chain(c.e).take(n).collect();
    // don't-care bits: clear what the reference decoder ignores
    let Some(j) = words_ins(&w) else { return Err(format!("{:?} {orig:04X?} re-assembles to {w:04X?}", i.k)) };
    let a = zero_pc(ccr_mask(i.k, operands(&i)));
    let b = zero_pc(ccr_mask(j.k, operands(&j)));
    let branch = matches!(i.k, Bcc | Bra | Bsr);
    if i.k != j.k || a != b || w.len() != n && !branch { return Err(format!("{:?} {orig:04X?} re-assembles to {w:04X?}", i.k)); }
    if w[0] != c.op && !branch { return Err(format!("{:?} {orig:04X?} re-assembles to {w:04X?} (different opcode word)", i.k)); }
    if branch && (w.len() > n || w.len() == 1 && w[0] as u8 == 0) { return Err(format!("{:?} {orig:04X?} re-assembles to {w:04X?}", i.k)); }
    ctx.class(&format!("{:?} again", i.k));
    ctx.nontrivial = true;
    Ok(())
}

pub const C20: Prop = Prop {
    id: "C20",
    rule: "a case is one call of an assembler function, or one encoded instruction that is decoded and re-assembled; non-trivial when the arguments name a valid instruction (the word is one)",
    assumptions: &["immediate data wider than the operation is truncated to the operation size", "Bcc, BRA and BSR choose the short form whenever the displacement fits"],
    run: |r: &Runner| {
        let p = product();
        let n: u64 = p.iter().map(|x| x.1).sum();
        r.exhaust("argument-product", n, |n, c| check_accepted(&product_at(&p, n), c));
        r.rand("calls", 600_000, || ask(false), check_accepted);
        let per: u64 = if r.tier == crate::run::Tier::Thorough { 64 } else { 8 };
        let seed = r.seed;
        r.exhaust("reassemble-every-opcode", 65536 * per, |n, c| check_reassemble(&Code::derived(crate::mem::mix(n ^ seed << 40), (n / per) as u16), c));
        r.exhaust("every-displacement", 65536 * 6, |n, c| {
            let (f, v) = (n / 65536, n as u16);
            let k = [Bcc, Bra, Bsr, Dbcc, Link, Movep][f as usize];
            let z = A { c: 0, r: 0, w: 0, l: 0 };
            let q = Ask { k: kinds().iter().position(|x| *x == k).unwrap() as u8, a: z, b: z, size: 1 + (v & 1) as u8, dir: (v >> 1 & 1) as u8, r1: v >> 4 & 7, r2: v >> 8 & 7, cond: 2 + (v % 14) as u8, flag: false, disp: v as i16, imm: 0 };
            check_accepted(&q, c)
        });
    },
};
pub const C21: Prop = Prop {
    id: "C21",
    rule: "a case is one call of an assembler function with arbitrary arguments; non-trivial when the arguments name no valid instruction and the function refuses them",
    assumptions: &["immediate data wider than the operation is not an invalid argument (it is truncated)"],
    run: |r: &Runner| {
        let p = product();
        let n: u64 = p.iter().map(|x| x.1).sum();
        r.exhaust("argument-product", n, |n, c| check_refused(&product_at(&p, n), c));
        r.rand("calls", 600_000, || ask(true), check_refused);
        r.exhaust("register-values", kinds().len() as u64 * 256 * 4, |n, c| {
            // every 8-bit value of one register, count or vector argument, the others in range
            let k = (n / 1024) as u8;
            let kk = kinds()[k as usize];
            let (v, f) = ((n & 255) as u8, n >> 8 & 3);
            let mut q = Ask { k, a: A { c: 2, r: 1, w: 0x1234, l: 5 }, b: A { c: 2, r: 2, w: 0x10, l: 6 }, size: 1, dir: allowed_dirs(kk)[0], r1: 1, r2: 2, cond: 4, flag: v & 1 != 0, disp: 4, imm: 3 };
            match f { 0 => q.r1 = v as u16, 1 => q.r2 = v as u16, 2 => q.a.r = v, _ => q.b.r = v }
            if f >= 2 { let set: Vec<u8> = (0..7).filter(|c| modes(kk, &q) >> c & 1 != 0).collect(); if !set.is_empty() { q.a.c = set[v as usize / 8 % set.len()]; } }
            check_refused(&q, c)
        });
        // every value of the 16-bit arguments
        r.exhaust("wide-register-values", 4 * 2 * 2 * 65536, |n, c| {
            let (v, k) = (n as u16, [Asr, Lsr, Ror, Roxr][(n >> 18) as usize]);
            let z = A { c: 2, r: 1, w: 0x1234, l: 5 };
            let mut q = Ask { k: kinds().iter().position(|x| *x == k).unwrap() as u8, a: z, b: z, size: (v >> 3) as u8 % 3, dir: 4 + (v >> 4 & 1) as u8, r1: 1, r2: 2, cond: 4, flag: n >> 17 & 1 != 0, disp: 4, imm: 3 };
            if n >> 16 & 1 == 0 { q.r1 = v } else { q.r2 = v }
            check_refused(&q, c)
        });
    },
};
