# Seventh round: accesses seen by devices, and others.
I = "m68000/src/interpreter.rs"
F = "m68000/src/interpreter_fast.rs"
D = "m68000/src/interpreter_disassembler.rs"
E = "m68000/src/exception.rs"
A = "m68000/src/addressing_modes.rs"
N = "m68000/src/instruction.rs"
X = "m68000/src/assembler.rs"
S = "m68000/src/disassembler.rs"
M = "m68000/src/memory_access.rs"
R = "m68000/src/status_register.rs"
L = "m68000/src/lib.rs"
U = "m68000/src/utils.rs"
FL = "m68000-ffi/src/lib.rs"
DEV = r"""
/// Memory that keeps a list of the data accesses.
struct Dev(Vec<u8>, Vec<(char, u32)>);
impl m68000::MemoryAccess for Dev {
    fn get_byte(&mut self, a: u32) -> Option<u8> { self.1.push(('r', a)); self.0[..].get_byte(a) }
    fn get_word(&mut self, a: u32) -> Option<u16> { if a & 0xF000 != 0x1000 { self.1.push(('R', a)); } self.0[..].get_word(a) }
    fn set_byte(&mut self, a: u32, v: u8) -> Option<()> { self.1.push(('w', a)); self.0[..].set_byte(a, v) }
    fn set_word(&mut self, a: u32, v: u16) -> Option<()> { self.1.push(('W', a)); self.0[..].set_word(a, v) }
    fn reset_instruction(&mut self) {}
}
"""
BUGS = [
dict(id="c30_bset_only_if_clear", property="C30",
  edits=[(I, "            data |= 1 << count;\n            self.set_byte(memory, &mut ea, &mut exec_time, data)?;\n        }\n\n        Ok(exec_time)\n    }\n\n    pub(super) fn execute_bsr", "            data |= 1 << count;\n            if self.regs.sr.z {\n                self.set_byte(memory, &mut ea, &mut exec_time, data)?;\n            }\n        }\n\n        Ok(exec_time)\n    }\n\n    pub(super) fn execute_bsr")],
  needs="BSET on a device register whose bit reads as set",
  breaks="The register is not written.",
  demo=DEV + r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x08D0, 3]); // BSET #3,(A0)
    mem[0x7000] = 8;
    cpu.regs.a[0].0 = 0x7000;
    let mut m = Dev(mem, vec![]);
    cpu.interpreter(&mut m);
    check(m.1 == [('r', 0x7000), ('w', 0x7000)], "one read and one write");
}"""),

dict(id="c30_cmpm_same_place_once", property="C30",
  edits=[(I, "                let src = memory.get_byte(addry).ok_or(ACCESS_ERROR)?;\n                let dst = memory.get_byte(addrx).ok_or(ACCESS_ERROR)?;\n\n                self.sub::<u8, i8, false, true>(dst, src);\n\n                Ok(CPU::CMPM_BW)", "                let src = memory.get_byte(addry).ok_or(ACCESS_ERROR)?;\n                let dst = if addrx == addry { src } else { memory.get_byte(addrx).ok_or(ACCESS_ERROR)? };\n\n                self.sub::<u8, i8, false, true>(dst, src);\n\n                Ok(CPU::CMPM_BW)")],
  needs="CMPM.B with both registers on the same device",
  breaks="The device is read once instead of twice.",
  demo=DEV + r"""
fn main() {
    let (mut cpu, mem) = setup::<m68000::cpu_details::Mc68000>(&[0xB308]); // CMPM.B (A0)+,(A1)+
    cpu.regs.a[0].0 = 0x7000;
    cpu.regs.a[1].0 = 0x7000;
    let mut m = Dev(mem, vec![]);
    cpu.interpreter(&mut m);
    check(m.1 == [('r', 0x7000), ('r', 0x7000)], "two reads");
}"""),

dict(id="c30_movep_reads_pairs", property="C30",
  edits=[(I, "                let d = memory.get_byte(addr.0).ok_or(ACCESS_ERROR)? as u32;\n                self.regs.d[data as usize] |= d << shift;", "                // The peripheral is on the high half of the bus at even addresses.\n                let d = if addr.0 & 1 == 0 {\n                    memory.get_word(addr.0).ok_or(ACCESS_ERROR)? as u32 >> 8\n                } else {\n                    memory.get_byte(addr.0).ok_or(ACCESS_ERROR)? as u32\n                };\n                self.regs.d[data as usize] |= d << shift;")],
  needs="MOVEP from an even address, and a device at the odd addresses",
  breaks="The bytes in between are read as well.",
  demo=DEV + r"""
fn main() {
    let (mut cpu, mem) = setup::<m68000::cpu_details::Mc68000>(&[0x0108, 0]); // MOVEP.W 0(A0),D0
    cpu.regs.a[0].0 = 0x7000;
    let mut m = Dev(mem, vec![]);
    cpu.interpreter(&mut m);
    check(m.1 == [('r', 0x7000), ('r', 0x7002)], "two bytes are read");
}"""),

dict(id="c30_ori_nothing_to_write", property="C30",
  edits=[(I, "                let res = self.or(data, imm as u16);\n\n                self.set_word(memory, &mut ea, &mut exec_time, res)?;", "                let res = self.or(data, imm as u16);\n\n                if res != data || !matches!(am, AddressingMode::Ari(_)) {\n                    self.set_word(memory, &mut ea, &mut exec_time, res)?;\n                }")],
  needs="ORI.W #x,(An) whose bits are set already",
  breaks="The word is not written back.",
  demo=DEV + r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x0050, 0x0100]); // ORI.W #$100,(A0)
    mem[0x7000] = 3;
    cpu.regs.a[0].0 = 0x7000;
    let mut m = Dev(mem, vec![]);
    cpu.interpreter(&mut m);
    check(m.1 == [('R', 0x7000), ('W', 0x7000)], "one read and one write");
}"""),

dict(id="c30_vector_checked_first", property="C30",
  edits=[(E, "        match CPU::STACK_FORMAT {\n            StackFormat::MC68000 => {\n                self.push_long(memory, self.regs.pc.0)?;", "        if vector >= 64 {\n            // A user vector that cannot be read is reported before anything is stacked.\n            memory.get_word(vector as u32 * 4).ok_or(ACCESS_ERROR)?;\n        }\n\n        match CPU::STACK_FORMAT {\n            StackFormat::MC68000 => {\n                self.push_long(memory, self.regs.pc.0)?;")],
  needs="a user interrupt whose vector is in a device (or whose stack meets it)",
  breaks="The upper word of the vector is read twice.",
  demo=DEV + r"""
fn main() {
    let (mut cpu, mem) = setup::<m68000::cpu_details::Mc68000>(&[0x4E71]);
    cpu.exception(Exception::from(70));
    let mut m = Dev(mem, vec![]);
    cpu.interpreter(&mut m);
    check(m.1.iter().filter(|a| **a == ('R', 280)).count() == 1, "the vector is read once");
}"""),

dict(id="c30_move_onto_itself", property="C30",
  edits=[(I, "                let d = self.get_word(memory, &mut src, &mut exec_time)?;\n                self.set_word(memory, &mut dst, &mut exec_time, d)?;\n                self.regs.sr.n = d & SIGN_BIT_16 != 0;", "                let d = self.get_word(memory, &mut src, &mut exec_time)?;\n                // Nothing moves when both addresses are the same.\n                if amsrc.is_ariwpo() && matches!(amdst, AddressingMode::Ari(_)) && dst.mode.register() != src.mode.register() && src.address == Some(self.regs.a(amdst.register().unwrap())) {\n                    exec_time += CPU::EA_ARI;\n                } else {\n                    self.set_word(memory, &mut dst, &mut exec_time, d)?;\n                }\n                self.regs.sr.n = d & SIGN_BIT_16 != 0;")],
  needs="MOVE.W (Am)+,(An) with both on the same word",
  breaks="The word is not written.",
  demo=DEV + r"""
fn main() {
    let (mut cpu, mem) = setup::<m68000::cpu_details::Mc68000>(&[0x3298]); // MOVE.W (A0)+,(A1)
    cpu.regs.a[0].0 = 0x7000;
    cpu.regs.a[1].0 = 0x7000;
    let mut m = Dev(mem, vec![]);
    cpu.interpreter(&mut m);
    check(m.1 == [('R', 0x7000), ('W', 0x7000)], "one read and one write");
}"""),

dict(id="c30_long_pop_rereads", property="C30",
  edits=[(I, "    pub(super) fn execute_rts<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> InterpreterResult {\n        self.regs.pc.0 = self.pop_long(memory)?;", "    pub(super) fn execute_rts<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> InterpreterResult {\n        // An address error for an odd return address is raised before the return.\n        let sp = self.regs.sp();\n        if sp & 2 != 0 && sp & 1 == 0 {\n            memory.get_word(sp.wrapping_add(2)).ok_or(ACCESS_ERROR)?;\n        }\n        self.regs.pc.0 = self.pop_long(memory)?;")],
  needs="RTS with a stack pointer that is not a multiple of four",
  breaks="The lower word of the return address is read twice.",
  demo=DEV + r"""
fn main() {
    let (mut cpu, mut mem) = setup::<m68000::cpu_details::Mc68000>(&[0x4E75]);
    put(&mut mem, 0x3002, &[0, 0x2000]);
    cpu.regs.ssp.0 = 0x3002;
    let mut m = Dev(mem, vec![]);
    cpu.interpreter(&mut m);
    check(m.1 == [('R', 0x3002), ('R', 0x3004)], "two words are read");
}"""),

dict(id="c30_tas_free_written_twice", property="C30",
  edits=[(I, "        self.regs.sr.n = data & SIGN_BIT_8 != 0;\n        self.regs.sr.z = data == 0;\n        self.regs.sr.v = false;\n        self.regs.sr.c = false;\n\n        data |= SIGN_BIT_8;\n        self.set_byte(memory, &mut ea, &mut exec_time, data)?;", "        self.regs.sr.n = data & SIGN_BIT_8 != 0;\n        self.regs.sr.z = data == 0;\n        self.regs.sr.v = false;\n        self.regs.sr.c = false;\n\n        if self.regs.sr.z && !am.is_drd() {\n            // The locked value is visible at once.\n            self.set_byte(memory, &mut ea, &mut exec_time, SIGN_BIT_8)?;\n        }\n        data |= SIGN_BIT_8;\n        self.set_byte(memory, &mut ea, &mut exec_time, data)?;")],
  needs="TAS of a free semaphore in a device",
  breaks="It is written twice.",
  demo=DEV + r"""
fn main() {
    let (mut cpu, mem) = setup::<m68000::cpu_details::Mc68000>(&[0x4AD0]); // TAS (A0)
    cpu.regs.a[0].0 = 0x7000;
    let mut m = Dev(mem, vec![]);
    cpu.interpreter(&mut m);
    check(m.1 == [('r', 0x7000), ('w', 0x7000)], "one read and one write");
}"""),
]
