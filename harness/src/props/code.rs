//! Decoding and disassembly: C02, C22.
use super::Prop;
use crate::dec::{decode, kind, Ea, Ins, Sz, K};
use crate::diff::*;
use crate::exec::privileged;
use crate::gen;
use crate::mem::{mix, Mem, Range, BOUND_WORDS};
use crate::run::{guard, Ctx, Res, Runner};
use crate::with_cpu;
use m68000::addressing_modes::{AddressingMode as Am, BriefExtensionWord as Bew};
use m68000::instruction::{Direction as Dir, Instruction, Operands, Size};
use m68000::{MemoryAccess, M68000};
use proptest::prelude::*;
use K::*;

pub fn size(s: Sz) -> Size { match s { Sz::B => Size::Byte, Sz::W => Size::Word, Sz::L => Size::Long } }

/// The library's addressing mode for a reference operand; don't-care bits cleared.
pub fn am_of(e: Ea, sz: Sz) -> Am {
    match e {
        Ea::Dn(r) => Am::Drd(r), Ea::An(r) => Am::Ard(r), Ea::Ind(r) => Am::Ari(r), Ea::Post(r) => Am::Ariwpo(r), Ea::Pre(r) => Am::Ariwpr(r),
        Ea::Disp(r, d) => Am::Ariwd(r, d),
        Ea::Idx(r, w) => Am::Ariwi8(r, Bew(w & 0xF8FF)),
        Ea::AbsW(a) => Am::AbsShort(a),
        Ea::AbsL(a) => Am::AbsLong(a),
        Ea::PcD(b, d) => Am::Pciwd(b, d),
        Ea::PcI(b, w) => Am::Pciwi8(b, Bew(w & 0xF8FF)),
        Ea::Imm(v) => Am::Immediate(v & sz.mask()),
    }
}
/// The significant bits of a decoded immediate: all but the unused high byte of the extension word of a byte immediate.
fn imm_mask(sz: Sz) -> u32 { if sz == Sz::B { 0xFFFF_00FF } else { 0xFFFF_FFFF } }
/// Clears the don't-care bits of a decoded addressing mode.
fn norm_am(a: Am, sz: Sz) -> Am {
    match a {
        Am::Ariwi8(r, w) => Am::Ariwi8(r, Bew(w.0 & 0xF8FF)),
        Am::Pciwi8(b, w) => Am::Pciwi8(b, Bew(w.0 & 0xF8FF)),
        Am::Immediate(v) => Am::Immediate(v & imm_mask(sz)),
        a => a,
    }
}
/// Clears the don't-care bits of decoded operands (unused high byte of byte immediates, bits 10-8 of brief extension words).
pub fn norm(o: Operands, sz: Sz) -> Operands {
    use Operands::*;
    match o {
        SizeEffectiveAddressImmediate(s, e, i) => SizeEffectiveAddressImmediate(s, norm_am(e, sz), i & imm_mask(sz)),
        EffectiveAddressCount(e, c) => EffectiveAddressCount(norm_am(e, sz), c),
        EffectiveAddress(e) => EffectiveAddress(norm_am(e, sz)),
        SizeEffectiveAddress(s, e) => SizeEffectiveAddress(s, norm_am(e, sz)),
        RegisterEffectiveAddress(r, e) => RegisterEffectiveAddress(r, norm_am(e, sz)),
        SizeRegisterEffectiveAddress(s, r, e) => SizeRegisterEffectiveAddress(s, r, norm_am(e, sz)),
        SizeEffectiveAddressEffectiveAddress(s, a, b) => SizeEffectiveAddressEffectiveAddress(s, norm_am(a, sz), norm_am(b, sz)),
        DirectionSizeEffectiveAddressList(d, s, e, l) => DirectionSizeEffectiveAddressList(d, s, norm_am(e, sz), l),
        DataSizeEffectiveAddress(d, s, e) => DataSizeEffectiveAddress(d, s, norm_am(e, sz)),
        ConditionEffectiveAddress(c, e) => ConditionEffectiveAddress(c, norm_am(e, sz)),
        RegisterDirectionSizeEffectiveAddress(r, d, s, e) => RegisterDirectionSizeEffectiveAddress(r, d, s, norm_am(e, sz)),
        RegisterSizeEffectiveAddress(r, s, e) => RegisterSizeEffectiveAddress(r, s, norm_am(e, sz)),
        DirectionEffectiveAddress(d, e) => DirectionEffectiveAddress(d, norm_am(e, sz)),
        o => o,
    }
}
/// The operands the reference decoder says the instruction has, in the library's vocabulary.
pub fn operands(i: &Ins) -> Operands {
    use Operands as O;
    let (op, s) = (i.op, size(i.sz));
    let b = |n: u16| op >> n & 1 != 0;
    let cc = (op >> 8 & 15) as u8;
    let ea = am_of(i.ea, i.sz);
    match i.k {
        Unknown | Illegal | Nop | Reset | Rte | Rtr | Rts | Trapv => O::NoOperands,
        Andiccr | Andisr | Oriccr | Orisr | Eoriccr | Eorisr | Stop => O::Immediate(i.imm as u16),
        Addi | Andi | Cmpi | Eori | Ori | Subi => O::SizeEffectiveAddressImmediate(s, ea, i.imm),
        Bchg | Bclr | Bset | Btst => O::EffectiveAddressCount(ea, if b(8) { i.rx } else { i.imm as u8 }),
        Jmp | Jsr | Moveccr | Movefsr | Movesr | Nbcd | Pea | Tas => O::EffectiveAddress(ea),
        Clr | Neg | Negx | Not | Tst => O::SizeEffectiveAddress(s, ea),
        Chk | Divs | Divu | Lea | Muls | Mulu => O::RegisterEffectiveAddress(i.rx, ea),
        Movep => O::RegisterDirectionSizeRegisterDisplacement(i.rx, if b(7) { Dir::RegisterToMemory } else { Dir::MemoryToRegister }, s, i.ry, i.disp as i16),
        Movea => O::SizeRegisterEffectiveAddress(s, i.rx, ea),
        Move => O::SizeEffectiveAddressEffectiveAddress(s, am_of(i.dst, i.sz), ea),
        Exg => O::RegisterOpmodeRegister(i.rx, match op >> 3 & 31 { 8 => Dir::ExchangeData, 9 => Dir::ExchangeAddress, _ => Dir::ExchangeDataAddress }, i.ry),
        Ext => O::OpmodeRegister((op >> 6 & 7) as u8, i.ry),
        Trap => O::Vector(i.imm as u8),
        Link => O::RegisterDisplacement(i.ry, i.disp as i16),
        Swap | Unlk => O::Register(i.ry),
        Moveusp => O::DirectionRegister(if b(3) { Dir::UspToRegister } else { Dir::RegisterToUsp }, i.ry),
        Movem => O::DirectionSizeEffectiveAddressList(if b(10) { Dir::MemoryToRegister } else { Dir::RegisterToMemory }, s, ea, i.imm as u16),
        Addq | Subq => O::DataSizeEffectiveAddress(i.rx, s, ea),
        Scc => O::ConditionEffectiveAddress(cc, ea),
        Dbcc => O::ConditionRegisterDisplacement(cc, i.ry, i.disp as i16),
        Bra | Bsr => O::Displacement(i.disp as i16),
        Bcc => O::ConditionDisplacement(cc, i.disp as i16),
        Moveq => O::RegisterData(i.rx, op as i8),
        Add | And | Cmp | Eor | Or | Sub => O::RegisterDirectionSizeEffectiveAddress(i.rx, if b(8) { Dir::DstEa } else { Dir::DstReg }, s, ea),
        Adda | Cmpa | Suba => O::RegisterSizeEffectiveAddress(i.rx, s, ea),
        Abcd | Addx | Sbcd | Subx => O::RegisterSizeModeRegister(i.rx, s, if b(3) { Dir::MemoryToMemory } else { Dir::RegisterToRegister }, i.ry),
        Cmpm => O::RegisterSizeRegister(i.rx, s, i.ry),
        Asm | Lsm | Rom | Roxm => O::DirectionEffectiveAddress(if b(8) { Dir::Left } else { Dir::Right }, ea),
        Asr | Lsr | Ror | Roxr => O::RotationDirectionSizeModeRegister(i.rx, if b(8) { Dir::Left } else { Dir::Right }, s, b(5), i.ry),
    }
}

/// An instruction in memory.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, Hash)]
pub struct Code { pub op: u16, pub e: [u16; 4], pub pc: u32 }
impl Code {
    pub fn derived(s: u64, op: u16) -> Code {
        let w = |k: u64| { let x = mix(s ^ k << 50); if x & 3 == 0 { BOUND_WORDS[(x >> 8 & 15) as usize] } else { (x >> 16) as u16 } };
        let x = mix(s ^ 0xC0DE);
        let pc = match x & 7 { 0 => 0u32.wrapping_sub(2 * (1 + (x >> 8 & 7) as u32)), 1 => (x >> 8 & 0xE) as u32, 2..=4 => 0x1000 + ((x >> 8) as u32 & 0xFFFE), _ => (x >> 16) as u32 & !1 };
        Code { op, e: [w(1), w(2), w(3), w(4)], pc }
    }
    pub fn ins(&self) -> Ins { decode(self.op, self.pc, |a| Ok::<u16, ()>(self.e[(a.wrapping_sub(self.pc) / 2 - 1) as usize])).unwrap() }
    pub fn mem(&self) -> Mem {
        let mut m = Mem::new(mix(self.pc as u64 ^ 77), 0);
        m.poke16(self.pc, self.op);
        for (k, w) in self.e.iter().enumerate() { m.poke16(self.pc.wrapping_add(2 + 2 * k as u32), *w); }
        m
    }
    pub fn strat(kinds: Vec<K>) -> BoxedStrategy<Code> {
        (gen::opcode(&kinds), prop::array::uniform4(gen::data16()), gen::even_pc()).prop_map(|(op, e, pc)| Code { op, e, pc }).boxed()
    }
}

fn check_decode(c: &Code, ctx: &mut Ctx) -> Res {
    let i = c.ins();
    let want = operands(&i);
    let what = || format!("{:?} {:04X} {:04X?} at {:08X}", i.k, c.op, c.e, c.pc);
    let mut m = c.mem();
    m.log_on = true;
    let (ins, next) = guard(|| { let mut it = m.iter_u16(c.pc); let r = Instruction::from_memory(&mut it); (r, it.next_addr) }).map_err(|p| format!("{}: from_memory panicked: {p}", what()))?;
    let ins = ins.map_err(|e| format!("{}: from_memory returned Err({e})", what()))?;
    if ins.opcode != c.op || ins.pc != c.pc { return Err(format!("{}: opcode {:04X} and pc {:08X} returned", what(), ins.opcode, ins.pc)); }
    if norm(ins.operands, i.sz) != want { return Err(format!("{}: expected operands {want:?}, got {:?}", what(), ins.operands)); }
    if next != c.pc.wrapping_add(i.len) { return Err(format!("{}: expected a length of {} bytes, the iterator advanced by {}", what(), i.len, next.wrapping_sub(c.pc))); }
    for a in &m.log {
        let off = a.addr.wrapping_sub(c.pc);
        if a.write || off.wrapping_add(a.size as u32) > i.len || off >= i.len { return Err(format!("{}: the decoder accessed {} bytes at offset {}", what(), a.size, off as i32)); }
    }
    // the same with the opcode already fetched
    let (ins2, next2) = guard(|| { let mut it = m.iter_u16(c.pc.wrapping_add(2)); let r = Instruction::from_opcode(c.op, c.pc, &mut it); (r, it.next_addr) }).map_err(|p| format!("{}: from_opcode panicked: {p}", what()))?;
    if ins2 != ins || next2 != next { return Err(format!("{}: from_opcode gives {ins2:?} / {next2:08X}, from_memory {ins:?} / {next:08X}", what())); }
    ctx.class(&format!("{:?} length {}", i.k, i.len));
    ctx.nontrivial = i.k != Unknown;
    Ok(())
}

/// Executes with everything behind the instruction refused: reading past its end shows as a fault.
fn check_executed_length(i: &Init, ctx: &mut Ctx) -> Res {
    let (mut st, mut rm) = i.build();
    let words: Vec<u16> = (0..5).map(|k| rm.peek16(st.pc.wrapping_add(2 * k))).collect();
    let ins = Code { op: words[0], e: [words[1], words[2], words[3], words[4]], pc: st.pc }.ins();
    let end = st.pc.wrapping_add(ins.len);
    rm.ranges.push(Range { lo: end, len: 8, what: 0 });
    let mut im = rm.clone();
    let mut im2 = rm.clone();
    let t = i.tim();
    let seq = !matches!(ins.k, Bcc | Bra | Bsr | Dbcc | Jmp | Jsr | Rts | Rtr | Rte);
    with_cpu!(i.cpu, C => {
        let mut core = core_of::<C>(&st);
        let mut core2 = core_of::<C>(&st);
        let Some(o) = step_both(&mut core, &mut im, &mut st, &mut rm, t, Opts::default(), ctx)? else { return Ok(()) };
        let (pc, _, _, v) = guard(|| core2.disassembler_interpreter_exception(&mut im2))?;
        if v != o.vector || core2.regs != core.regs || pc != ins.pc { return Err(format!("{:?} {:04X}: the disassembling front end gives vector {v:?} pc {:08X}, the plain one {:?} {:08X}", ins.k, ins.op, core2.regs.pc.0, o.vector, core.regs.pc.0)); }
        if o.fault.is_none() && seq {
            let done = !(ins.k == Unknown || ins.k == Illegal || privileged(ins.k) && i.sr & 0x2000 == 0);
            let want = if done { end } else { ins.pc };
            // without the trap's own processing PC is that of the following instruction
            if done && core.regs.pc.0 != want { return Err(format!("{:?} {:04X} at {:08X} is {} bytes long, PC after it {:08X}", ins.k, ins.op, ins.pc, ins.len, core.regs.pc.0)); }
            ctx.nontrivial = done;
            ctx.class(&format!("executed {:?}", ins.k));
        }
        Ok(())
    })
}

pub type Fetch = (u64, u32, Vec<u8>, Option<u8>);
pub fn fetch() -> BoxedStrategy<Fetch> {
    (any::<u64>(), prop_oneof![gen::even_pc(), gen::addr32()], proptest::collection::vec(any::<u8>(), 1..8), proptest::option::weighted(0.3, 0u8..16)).boxed()
}

/// The fetch helpers of the core read at PC and advance it.
pub fn check_fetch((seed, pc, ops, hole): &Fetch, ctx: &mut Ctx) -> Res {
    let mut m = Mem::new(*seed, 0);
    if let Some(h) = hole { m.ranges.push(Range { lo: pc.wrapping_add(*h as u32), len: 2, what: 0 }); }
    let mut core = M68000::<m68000::cpu_details::Mc68000>::new_no_reset();
    core.regs.pc.0 = *pc;
    let before = core.regs;
    let mut at = *pc;
    for o in ops {
        let word = |m: &mut Mem, a: u32| if a & 1 != 0 { Err(3u8) } else { m.get_word(a).ok_or(2u8) };
        let (got, want, mut n) = match o % 3 {
            0 => (guard(|| core.get_next_word(&mut m))?.map(|v| v as u32), word(&mut m, at).map(|v| v as u32), 2),
            1 => (guard(|| core.peek_next_word(&mut m))?.map(|v| v as u32), word(&mut m, at).map(|v| v as u32), 0),
            _ => {
                let w = if at & 1 != 0 { Err(3) } else { m.get_long(at).ok_or(2u8) };
                (guard(|| core.get_next_long(&mut m))?, w, 4)
            }
        };
        if got != want { return Err(format!("helper {} at {at:08X}: expected {want:X?}, got {got:X?}", o % 3)); }
        if let Some(a) = m.odd { return Err(format!("helper {}: the memory received an odd access {a:X?}", o % 3)); }
        // a refused fetch may have advanced PC or not
        if got.is_err() { ctx.class("fault"); if core.regs.pc.0 != at.wrapping_add(n) { n = 0; } }
        at = at.wrapping_add(n);
        if core.regs.pc.0 != at { return Err(format!("helper {}: expected PC {at:08X}, got {:08X}", o % 3, core.regs.pc.0)); }
        let mut r = core.regs;
        r.pc = before.pc;
        if r != before { return Err("a fetch helper changed another register".into()); }
    }
    ctx.nontrivial = ops.len() > 1;
    Ok(())
}

/// The accessor of each operand form returns its fields.
fn check_accessors(c: &Code, ctx: &mut Ctx) -> Res {
    use Operands::*;
    let mut m = c.mem();
    let o = guard(|| Instruction::from_memory(&mut m.iter_u16(c.pc)))?.map_err(|e| format!("from_memory: {e}"))?.operands;
    ctx.nontrivial = true;
    let ok = match o {
        NoOperands => { ctx.nontrivial = false; true }
        Immediate(a) => guard(|| o.immediate()) == Ok(a),
        SizeEffectiveAddressImmediate(a, b, c) => guard(|| o.size_effective_address_immediate()) == Ok((a, b, c)),
        EffectiveAddressCount(a, b) => guard(|| o.effective_address_count()) == Ok((a, b)),
        EffectiveAddress(a) => guard(|| o.effective_address()) == Ok(a),
        SizeEffectiveAddress(a, b) => guard(|| o.size_effective_address()) == Ok((a, b)),
        RegisterEffectiveAddress(a, b) => guard(|| o.register_effective_address()) == Ok((a, b)),
        RegisterDirectionSizeRegisterDisplacement(a, b, c, d, e) => guard(|| o.register_direction_size_register_displacement()) == Ok((a, b, c, d, e)),
        SizeRegisterEffectiveAddress(a, b, c) => guard(|| o.size_register_effective_address()) == Ok((a, b, c)),
        SizeEffectiveAddressEffectiveAddress(a, b, c) => guard(|| o.size_effective_address_effective_address()) == Ok((a, b, c)),
        RegisterOpmodeRegister(a, b, c) => guard(|| o.register_opmode_register()) == Ok((a, b, c)),
        OpmodeRegister(a, b) => guard(|| o.opmode_register()) == Ok((a, b)),
        Vector(a) => guard(|| o.vector()) == Ok(a),
        RegisterDisplacement(a, b) => guard(|| o.register_displacement()) == Ok((a, b)),
        Register(a) => guard(|| o.register()) == Ok(a),
        DirectionRegister(a, b) => guard(|| o.direction_register()) == Ok((a, b)),
        DirectionSizeEffectiveAddressList(a, b, c, d) => guard(|| o.direction_size_effective_address_list()) == Ok((a, b, c, d)),
        DataSizeEffectiveAddress(a, b, c) => guard(|| o.data_size_effective_address()) == Ok((a, b, c)),
        ConditionEffectiveAddress(a, b) => guard(|| o.condition_effective_address()) == Ok((a, b)),
        ConditionRegisterDisplacement(a, b, c) => guard(|| o.condition_register_displacement()) == Ok((a, b, c)),
        Displacement(a) => guard(|| o.displacement()) == Ok(a),
        ConditionDisplacement(a, b) => guard(|| o.condition_displacement()) == Ok((a, b)),
        RegisterData(a, b) => guard(|| o.register_data()) == Ok((a, b)),
        RegisterDirectionSizeEffectiveAddress(a, b, c, d) => guard(|| o.register_direction_size_effective_address()) == Ok((a, b, c, d)),
        RegisterSizeEffectiveAddress(a, b, c) => guard(|| o.register_size_effective_address()) == Ok((a, b, c)),
        RegisterSizeModeRegister(a, b, c, d) => guard(|| o.register_size_mode_register()) == Ok((a, b, c, d)),
        RegisterSizeRegister(a, b, c) => guard(|| o.register_size_register()) == Ok((a, b, c)),
        DirectionEffectiveAddress(a, b) => guard(|| o.direction_effective_address()) == Ok((a, b)),
        RotationDirectionSizeModeRegister(a, b, c, d, e) => guard(|| o.rotation_direction_size_mode_register()) == Ok((a, b, c, d, e)),
    };
    if !ok { return Err(format!("opcode {:04X}: the accessor does not return the fields of {o:?}", c.op)); }
    Ok(())
}

fn every(r: &Runner, sub: &str, per: u64, ok: impl Fn(&Code, &mut Ctx) -> Res + Sync) {
    let per = if r.tier == crate::run::Tier::Thorough { per * 16 } else { per };
    let seed = r.seed;
    r.exhaust(sub, 65536 * per, |n, c| {
        let code = Code::derived(mix(n ^ seed << 40), (n / per) as u16);
        ok(&code, c)
    });
}

pub const C02: Prop = Prop {
    id: "C02",
    rule: "a case is one opcode with extension words at one address (decoded), one executed instruction with everything behind it refused, or a run of fetch-helper calls; non-trivial when the opcode is a known instruction, the instruction completes, or the run has several calls",
    assumptions: &["reference decoder written from the M68000 programmer's reference manual", "bits 10-8 of brief extension words and the high byte of byte immediates are don't-care"],
    run: |r: &Runner| {
        every(r, "decode-every-opcode", 24, check_decode);
        r.rand("decode-random", 200_000, || Code::strat(gen::all_kinds()), check_decode);
        every(r, "accessors", 1, check_accessors);
        r.rand("executed-length", 400_000, || gen::inst(&gen::all_kinds()), check_executed_length);
        r.rand("fetch-helpers", 40_000, fetch, check_fetch);
    },
};

// ---------------------------------------------------------------- text

const CC: [&str; 16] = ["T", "F", "HI", "LS", "CC", "CS", "NE", "EQ", "VC", "VS", "PL", "MI", "GE", "LT", "GT", "LE"];

fn ea_text(e: Ea, sz: Sz) -> String {
    let x = |w: u16| format!("{}{}.{}", if w & 0x8000 != 0 { "A" } else { "D" }, w >> 12 & 7, if w & 0x800 != 0 { "L" } else { "W" });
    match e {
        Ea::Dn(r) => format!("D{r}"), Ea::An(r) => format!("A{r}"), Ea::Ind(r) => format!("(A{r})"), Ea::Post(r) => format!("(A{r})+"), Ea::Pre(r) => format!("-(A{r})"),
        Ea::Disp(r, d) => format!("({d}, A{r})"),
        Ea::Idx(r, w) => format!("({}, A{r}, {})", w as u8 as i8, x(w)),
        Ea::AbsW(a) => format!("({a}).W"),
        Ea::AbsL(a) => format!("({a}).L"),
        Ea::PcD(_, d) => format!("({d}, PC)"),
        Ea::PcI(_, w) => format!("({}, PC, {})", w as u8 as i8, x(w)),
        Ea::Imm(v) => format!("#{}", v & sz.mask()),
    }
}
/// The documented text of an instruction, from the reference decoder's operands.
pub fn text(i: &Ins) -> String {
    let s = match i.sz { Sz::B => "B", Sz::W => "W", Sz::L => "L" };
    let ea = ea_text(i.ea, i.sz);
    let (x, y, op) = (i.rx, i.ry, i.op);
    let b = |n: u16| op >> n & 1 != 0;
    let cc = CC[(op >> 8 & 15) as usize];
    let target = i.pc.wrapping_add(2).wrapping_add(i.disp as u32);
    let lr = if b(8) { "L" } else { "R" };
    let mn = format!("{:?}", i.k).to_uppercase();
    match i.k {
        Unknown => format!("Unknown instruction 0x{op:04X} at 0x{:X}", i.pc),
        Illegal | Nop | Reset | Rte | Rtr | Rts | Trapv => mn,
        Abcd | Sbcd => if b(3) { format!("{mn} -(A{y}), -(A{x})") } else { format!("{mn} D{y}, D{x}") },
        Addx | Subx => if b(3) { format!("{mn}.{s} -(A{y}), -(A{x})") } else { format!("{mn}.{s} D{y}, D{x}") },
        Add | And | Or | Sub => if b(8) { format!("{mn}.{s} D{x}, {ea}") } else { format!("{mn}.{s} {ea}, D{x}") },
        Cmp => format!("CMP.{s} {ea}, D{x}"),
        Eor => format!("EOR.{s} D{x}, {ea}"),
        Adda | Suba | Cmpa | Movea => format!("{mn}.{s} {ea}, A{x}"),
        Addi | Andi | Cmpi | Eori | Ori | Subi => format!("{mn}.{s} #{}, {ea}", i.imm),
        Addq | Subq => format!("{mn}.{s} #{}, {ea}", i.imm),
        Andiccr => format!("ANDI {}, CCR", i.imm),
        Oriccr => format!("ORI {}, CCR", i.imm),
        Eoriccr => format!("EORI {}, CCR", i.imm),
        Andisr => format!("ANDI {}, SR", i.imm),
        Orisr => format!("ORI {}, SR", i.imm),
        Eorisr => format!("EORI {}, SR", i.imm),
        Asm => format!("AS{lr} {ea}"),
        Lsm => format!("LS{lr} {ea}"),
        Rom => format!("RO{lr} {ea}"),
        Roxm => format!("ROX{lr} {ea}"),
        Asr | Lsr | Ror | Roxr => {
            let n = match i.k { Asr => "AS", Lsr => "LS", Ror => "RO", _ => "ROX" };
            let c = if b(5) { format!("D{x}") } else { format!("#{}", if x == 0 { 8 } else { x }) };
            format!("{n}{lr}.{s} {c}, D{y}")
        }
        Bcc => format!("B{cc} {} <{target}>", i.disp),
        Bra | Bsr => format!("{mn} {} <{target}>", i.disp),
        Dbcc => format!("DB{cc} D{y}, {} <{target}>", i.disp),
        Bchg | Bclr | Bset | Btst => if b(8) { format!("{mn} D{x}, {ea}") } else { format!("{mn} #{}, {ea}", i.imm & 0xFF) },
        Chk | Divs | Divu | Muls | Mulu => format!("{mn}.W {ea}, D{x}"),
        Clr | Neg | Negx | Not | Tst => format!("{mn}.{s} {ea}"),
        Cmpm => format!("CMPM.{s} (A{y})+, (A{x})+"),
        Exg => match op >> 3 & 31 { 8 => format!("EXG D{x}, D{y}"), 9 => format!("EXG A{x}, A{y}"), _ => format!("EXG D{x}, A{y}") },
        Ext => format!("EXT.{s} D{y}"),
        Jmp | Jsr | Nbcd | Pea | Tas => format!("{mn} {ea}"),
        Lea => format!("LEA {ea}, A{x}"),
        Link => format!("LINK.W A{y}, #{}", i.disp),
        Move => format!("MOVE.{s} {ea}, {}", ea_text(i.dst, i.sz)),
        Moveccr => format!("MOVE {ea}, CCR"),
        Movesr => format!("MOVE {ea}, SR"),
        Movefsr => format!("MOVE SR, {ea}"),
        Moveusp => if b(3) { format!("MOVE USP, A{y}") } else { format!("MOVE A{y}, USP") },
        Movem => if b(10) { format!("MOVEM.{s} {ea}, {}", i.imm) } else { format!("MOVEM.{s} {}, {ea}", i.imm) },
        Movep => if b(7) { format!("MOVEP.{s} D{x}, ({}, A{y})", i.disp) } else { format!("MOVEP.{s} ({}, A{y}), D{x}", i.disp) },
        Moveq => format!("MOVEQ.L #{}, D{x}", op as i8),
        Scc => format!("S{cc} {ea}"),
        Stop => format!("STOP #{}", i.imm),
        Swap => format!("SWAP D{y}"),
        Trap => format!("TRAP #{}", i.imm),
        Unlk => format!("UNLK A{y}"),
    }
}

/// Splits a text into words, numbers (radix ignored) and punctuation.
pub fn tokens(s: &str, byte_imm: bool) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < c.len() {
        let st = i;
        if c[i].is_whitespace() { i += 1; continue; }
        if c[i].is_ascii_alphanumeric() || c[i] == '$' {
            i += 1;
            while i < c.len() && c[i].is_ascii_alphanumeric() { i += 1; }
            let w: String = c[st..i].iter().collect();
            let u = w.to_uppercase();
            let num = if let Some(h) = u.strip_prefix("0X").or(u.strip_prefix('$')) { i64::from_str_radix(h, 16).ok() } else { u.parse::<i64>().ok() };
            match num {
                Some(mut n) => {
                    if out.last().is_some_and(|t| t == "-") { out.pop(); n = -n; }
                    // the high byte of a byte immediate is unused
                    if byte_imm && out.last().is_some_and(|t| t == "#") { n &= 0xFF; }
                    out.push(format!("n{n}"));
                }
                None => out.push(u),
            }
            continue;
        }
        out.push(c[i].to_string());
        i += 1;
    }
    out
}
pub fn same_text(i: &Ins, got: &str) -> Res {
    let want = text(i);
    if i.k == Unknown {
        // the value may be printed without a radix prefix
        let u = got.to_uppercase();
        let ok = u.contains("UNKNOWN") && u.contains(&format!("{:04X}", i.op)) && u.contains(&format!("{:X}", i.pc));
        return if ok { Ok(()) } else { Err(format!("unknown word {:04X} at {:08X} prints {got:?}", i.op, i.pc)) };
    }
    let bi = i.sz == Sz::B;
    if tokens(&want, bi) != tokens(got, bi) { return Err(format!("{:?} {:04X} at {:08X}: expected {want:?}, got {got:?}", i.k, i.op, i.pc)); }
    Ok(())
}

fn check_text(c: &Code, ctx: &mut Ctx) -> Res {
    let i = c.ins();
    let mut m = c.mem();
    let ins = guard(|| Instruction::from_memory(&mut m.iter_u16(c.pc)))?.map_err(|e| format!("from_memory: {e}"))?;
    let t = guard(|| ins.disassemble()).map_err(|p| format!("{:?} {:04X}: disassemble panicked: {p}", i.k, c.op))?;
    same_text(&i, &t)?;
    if format!("{ins}") != t { return Err(format!("Display prints {ins}, disassemble {t}")); }
    #[cfg(feature = "internals")]
    let d = m68000::disassembler::DLUT[m68000::decoder::DECODER[c.op as usize] as usize](&ins);
    #[cfg(feature = "internals")]
    if d != t { return Err(format!("the disassembler table prints {d}, disassemble {t}")); }
    ctx.class(&format!("{:?}", i.k));
    ctx.nontrivial = i.k != Unknown;
    Ok(())
}
/// Every addressing mode by itself: plain, and with hexadecimal immediates.
fn check_operand_text((k, r, v, w): &(u8, u8, u32, u16), ctx: &mut Ctx) -> Res {
    let r = *r & 7;
    let e = match k % 12 {
        0 => Ea::Dn(r), 1 => Ea::An(r), 2 => Ea::Ind(r), 3 => Ea::Post(r), 4 => Ea::Pre(r), 5 => Ea::Disp(r, *w as i16), 6 => Ea::Idx(r, w & 0xF8FF), 7 => Ea::AbsW(*w), 8 => Ea::AbsL(*v),
        9 => Ea::PcD(*v, *w as i16), 10 => Ea::PcI(*v, w & 0xF8FF), _ => Ea::Imm(*v),
    };
    let (a, t) = (am_of(e, Sz::L), ea_text(e, Sz::L));
    for s in [format!("{a}"), format!("{a:#}")] { if tokens(&s, false) != tokens(&t, false) { return Err(format!("{a:?} prints {s:?}, expected {t:?}")); } }
    for (s, up) in [(format!("{a:x}"), false), (format!("{a:X}"), true), (format!("{a:#x}"), false), (format!("{a:#X}"), true)] {
        if tokens(&s, false) != tokens(&t, false) { return Err(format!("{a:?} prints {s:?} in hexadecimal, expected {t:?}")); }
        if let Ea::Imm(v) = e {
            let want = if up { format!("{v:X}") } else { format!("{v:x}") };
            if s.trim_start_matches(['#', '$']).trim_start_matches("0x") != want { return Err(format!("{a:?} prints {s:?} in hexadecimal, expected digits {want}")); }
        }
    }
    ctx.nontrivial = true;
    Ok(())
}
/// Two instructions that differ in an operand differ in text.
fn check_distinct((c, word, bit): &(Code, u8, u8), ctx: &mut Ctx) -> Res {
    let mut o = c.clone();
    let k = *word as usize % 5;
    if k == 0 { o.op ^= 1 << (bit & 15); } else { o.e[k - 1] ^= 1 << (bit & 15); }
    let (a, b) = (c.ins(), o.ins());
    let (wa, wb) = (operands(&a), operands(&b));
    let same = a.k == b.k && wa == wb || a.k == Ext && b.k == Ext && a.sz == b.sz && a.ry == b.ry;
    let dis = |c: &Code| { let mut m = c.mem(); guard(|| Instruction::from_memory(&mut m.iter_u16(c.pc)).unwrap().disassemble()) };
    let (ta, tb) = (dis(c)?, dis(&o)?);
    if !same && ta == tb { return Err(format!("{:04X} {:04X?} and {:04X} {:04X?} both print {ta:?}", c.op, c.e, o.op, o.e)); }
    ctx.nontrivial = !same;
    Ok(())
}
/// The text returned by the disassembling interpreter, whatever the CPU state.
fn check_interp_text(i: &Init, ctx: &mut Ctx) -> Res {
    let (st, mut m) = i.build();
    let words: Vec<u16> = (0..5).map(|k| m.peek16(st.pc.wrapping_add(2 * k))).collect();
    let ins = Code { op: words[0], e: [words[1], words[2], words[3], words[4]], pc: st.pc }.ins();
    with_cpu!(i.cpu, C => {
        let mut core = core_of::<C>(&st);
        let (pc, t, _, _) = guard(|| core.disassembler_interpreter_exception(&mut m))?;
        if pc != ins.pc { return Err(format!("executed at {:08X}, address returned {pc:08X}", ins.pc)); }
        same_text(&ins, &t)?;
        ctx.nontrivial = ins.k != Unknown;
        Ok(())
    })
}

pub const C22: Prop = Prop {
    id: "C22",
    rule: "a case is one opcode with extension words at one address, a pair of encodings differing in one bit, or a step of the disassembling interpreter; non-trivial when the opcode is a known instruction (pair: when the two instructions differ in meaning)",
    assumptions: &["texts are compared token by token: radix, letter case and spacing of numbers and words are free", "MOVEM lists are printed as the encoded 16-bit mask"],
    run: |r: &Runner| {
        every(r, "every-opcode", 16, check_text);
        r.rand("random", 200_000, || Code::strat(gen::all_kinds()), check_text);
        r.rand("operand-text", 20_000, || (0u8..12, 0u8..8, gen::data32(), gen::data16()).boxed(), check_operand_text);
        r.rand("one-bit-apart", 300_000, || (Code::strat(gen::known_kinds()), 0u8..5, 0u8..16).boxed(), check_distinct);
        r.rand("interpreter-text", 100_000, || gen::inst(&gen::all_kinds()), check_interp_text);
    },
};

