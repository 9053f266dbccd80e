BUGS=[
dict(id="c31_retry_remembers_opcode", property="C31",
  edits=[("m68000/src/lib.rs", "    current_opcode: u16,\n", "    current_opcode: u16,\n    /// Address of the last instruction that could not be executed (its opcode is still in `current_opcode`).\n    retry: Option<u32>,\n"),
   ("m68000/src/lib.rs", "            current_opcode: 0xFFFF,\n", "            current_opcode: 0xFFFF,\n            retry: None,\n"),
   ("m68000/src/interpreter_fast.rs", """        let opcode = match self.get_next_word(memory) {
            Ok(op) => op,
            Err(e) => return (cycle_count, Some(e)),
        };
        self.current_opcode = opcode;
        let isa = Isa::from(opcode);

        let trace""", """        let opcode = if self.retry.take() == Some(pc.0) {
            // The host has dealt with the exception and tries the instruction again, its opcode has already been fetched.
            self.regs.pc += 2;
            self.current_opcode
        } else {
            match self.get_next_word(memory) {
                Ok(op) => op,
                Err(e) => return (cycle_count, Some(e)),
            }
        };
        self.current_opcode = opcode;
        let isa = Isa::from(opcode);

        let trace"""),
   ("m68000/src/interpreter_fast.rs", """                    self.regs.pc = pc;
""", """                    self.regs.pc = pc;
                    self.retry = Some(pc.0);
""")],
  needs="a host that puts another instruction in the place of an illegal, privileged or line A/F one after its exception, as debuggers do to remove a breakpoint, and resumes there",
  breaks="The breakpoint is hit again although it has been removed.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x7005, 0x4AFC, 0x4E40]);
    check(cpu.loop_until_exception_stop(&mut mem[..]).1 == Some(4), "breakpoint");
    check(cpu.regs.pc.0 == CODE + 2, "PC of the breakpoint");
    put(&mut mem, CODE + 2, &[0x5280]);
    check(cpu.loop_until_exception_stop(&mut mem[..]).1 == Some(32), "the instruction that was there is executed");
    check(cpu.regs.d[0].0 == 6, "D0 incremented");
}'''),

dict(id="c31_budget_queues_exception", property="C31",
  edits=[("m68000/src/interpreter_fast.rs", """            let (c, v) = self.interpreter_exception(memory);
            total += c;

            if v.is_some() || self.stop {
                return (total, v);
            }
        }

        (total, None)""", """            let (c, v) = self.interpreter_exception(memory);
            total += c;

            if let Some(v) = v {
                if total >= cycles {
                    // The budget is used up: the exception is taken when the program is continued.
                    self.exception(Exception::from(v));
                }
                return (total, Some(v));
            }

            if self.stop {
                return (total, None);
            }
        }

        (total, None)""")],
  needs="cycle_until_exception with a budget that is used up by an instruction that is traced, and a host that services it and goes on",
  breaks="The exception that the host has serviced is taken by the program as well.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x7005, 0x7207]);
    cpu.regs.sr = m68000::status_register::StatusRegister::from(0x8000);
    let (_, v) = cpu.cycle_until_exception(&mut mem[..], 1);
    check(v == Some(9), "trace");
    let (_, v) = cpu.cycle_until_exception(&mut mem[..], 1);
    check(v == Some(9) && cpu.regs.pc.0 == CODE + 4 && cpu.regs.d[1].0 == 7, "the program goes on after the first instruction");
}'''),

dict(id="c31_traced_stop_violation_pc", property="C31",
  edits=[("m68000/src/interpreter_disassembler.rs", """                if saves_instruction_pc(e) {
                    self.regs.pc.0 = instruction.pc;
                }
                Some(e)""", """                if saves_instruction_pc(e) && !(trace && isa == Isa::Stop) {
                    self.regs.pc.0 = instruction.pc;
                }
                Some(e)""")],
  needs="a traced user program that executes STOP, run with disassembler_interpreter_exception",
  breaks="The host finds the PC after the STOP instruction instead of at it.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E72, 0x2000, 0x4E71]);
    cpu.regs.sr = m68000::status_register::StatusRegister::from(0x8000);
    let v = cpu.disassembler_interpreter_exception(&mut mem[..]).3;
    check(v == Some(8), "privilege violation");
    check(cpu.regs.pc.0 == CODE, "PC of the instruction");
}'''),

dict(id="c31_trap15_ends_tracing", property="C31",
  edits=[("m68000/src/interpreter.rs", "        Err(Vector::Trap0Instruction as u8 + vector)\n", "        // A system call always ends with tracing off: the call is not single-stepped.\n        if self.regs.sr.t && !self.regs.sr.s && vector == 15 {\n            self.regs.sr.t = false;\n        }\n\n        Err(Vector::Trap0Instruction as u8 + vector)\n")],
  needs="TRAP #15 in a traced user program whose exceptions the host services",
  breaks="Single stepping ends at the system call.",
  demo=r'''
fn main() {
    let (mut cpu, mut mem) = setup::<Mc68000>(&[0x4E4F, 0x4E71]);
    cpu.regs.sr = m68000::status_register::StatusRegister::from(0x8000);
    check(cpu.interpreter_exception(&mut mem[..]).1 == Some(47), "system call");
    check(cpu.interpreter_exception(&mut mem[..]).1 == Some(9), "the next instruction is traced");
}'''),
]
