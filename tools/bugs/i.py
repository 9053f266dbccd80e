I = "m68000/src/interpreter.rs"
FL = "m68000-ffi/src/lib.rs"
IN = "m68000/src/instruction.rs"
AM = "m68000/src/addressing_modes.rs"
BUGS = [
dict(id="c25_direction_values", property="C25",
  edits=[(IN, "    /// Left shift or rotation.\n    Left,\n    /// Right shift or rotation.\n    Right,\n", "    /// Right shift or rotation.\n    Right,\n    /// Left shift or rotation.\n    Left,\n")],
  needs="a C program that looks at the direction of a decoded shift",
  breaks="Left and Right are numbered the other way round in the published header.",
  demo=r"""
fn main() {
    use m68000::instruction::Direction::*;
    check(RegisterToMemory as u32 == 0 && Left as u32 == 4 && Right as u32 == 5 && RegisterToUsp as u32 == 6, "the values of the header");
}"""),

dict(id="c25_mode_tags", property="C25", ffi=True,
  edits=[(AM, "    /// Address Register Indirect With POstincrement.\n    Ariwpo(u8),\n    /// Address Register Indirect With PRedecrement.\n    Ariwpr(u8),\n", "    /// Address Register Indirect With PRedecrement.\n    Ariwpr(u8),\n    /// Address Register Indirect With POstincrement.\n    Ariwpo(u8),\n")],
  needs="a C program that looks at the addressing mode of a decoded instruction",
  breaks="The tags of (An)+ and -(An) are exchanged against the published header.",
  demo=r"""
fn main() {
    use m68000::addressing_modes::AddressingMode::*;
    let tag = |a: m68000::addressing_modes::AddressingMode| unsafe { *(&a as *const _ as *const u32) };
    check(tag(Drd(1)) == 0 && tag(Ariwpo(1)) == 3 && tag(Ariwpr(1)) == 4, "the tags of the header");
}"""),

dict(id="c25_peek_not_exported", property="C25", ffi=True,
  edits=[(FL, "            /// Returns the 16-bits word at the current PC value of the given core.\n            #[no_mangle]\n", "            /// Returns the 16-bits word at the current PC value of the given core.\n")],
  needs="a C program that calls m68000_*_peek_next_word",
  breaks="The function is not exported under the name the header declares, the program does not link.",
  demo=r"""
fn main() {
    println!("{:?}", m68000_ffi::scc68070::m68000_scc68070_peek_next_word as *const std::ffi::c_void);
    let o = std::process::Command::new("nm").arg("-P").arg(std::env::current_exe().unwrap()).output().unwrap();
    let names = String::from_utf8_lossy(&o.stdout).into_owned();
    check(names.lines().any(|l| l.starts_with("m68000_scc68070_peek_next_word ")), "the linker finds the function under its name");
}"""),

dict(id="c25_reset_request_ignored", property="C25", ffi=True,
  edits=[(FL, "                unsafe {\n                    (*m68000).exception(Exception::from(vector))", "                unsafe {\n                    if vector == Vector::ResetSspPc && (*m68000).stop {\n                        return; // 0 means no exception.\n                    }\n\n                    (*m68000).exception(Exception::from(vector))")],
  needs="a reset requested through the C interface while the processor is stopped",
  breaks="The reset is ignored.",
  demo=r"""
use m68000_ffi::*;
use std::ffi::c_void;
extern "C" fn get(_: u32, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0x4E71_4E70, exception: 0 } }
extern "C" fn sb(_: u32, _: u8, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 0 } }
extern "C" fn sw(_: u32, _: u16, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 0 } }
extern "C" fn sl(_: u32, _: u32, _: *mut c_void) -> m68000_memory_result_t { m68000_memory_result_t { data: 0, exception: 0 } }
extern "C" fn ri(_: *mut c_void) {}
fn main() {
    let mut m = m68000_callbacks_t { get_byte: get, get_word: get, get_long: get, set_byte: sb, set_word: sw, set_long: sl, reset_instruction: ri, user_data: std::ptr::null_mut() };
    unsafe {
        let c = mc68000::m68000_mc68000_new_no_reset();
        (*c).stop = true;
        mc68000::m68000_mc68000_exception(c, m68000::exception::Vector::ResetSspPc);
        mc68000::m68000_mc68000_interpreter(c, &mut m);
        check((*mc68000::m68000_mc68000_registers(c)).ssp.0 == 0x4E71_4E70, "the reset is done");
    }
}"""),

dict(id="c27_last_opcode_shared", property="C27",
  edits=[("m68000/src/isa.rs", "        DECODER[opcode as usize]\n", """        // Most programs execute the same instruction several times.
        use std::sync::atomic::{AtomicU16, AtomicU8, Ordering};
        static OPCODE: AtomicU16 = AtomicU16::new(0);
        static ISA: AtomicU8 = AtomicU8::new(0);

        let last = ISA.load(Ordering::Relaxed);
        if OPCODE.load(Ordering::Relaxed) == opcode && last != 0 {
            return ISAS[last as usize];
        }

        let isa = DECODER[opcode as usize];
        OPCODE.store(opcode, Ordering::Relaxed);
        ISA.store(isa as u8, Ordering::Relaxed);
        isa
"""),
   ("m68000/src/isa.rs", "impl From<u16> for Isa {", """/// The instructions by number.
static ISAS: [Isa; Isa::_Size as usize] = {
    let mut isas = [Isa::Unknown; Isa::_Size as usize];
    let mut opcode = 0;
    while opcode < 0x10000 {
        isas[DECODER[opcode] as usize] = DECODER[opcode];
        opcode += 1;
    }
    isas
};

impl From<u16> for Isa {""")],
  needs="two cores that execute different instructions on two threads at the same moment",
  breaks="One core executes its opcode as the other core's instruction.",
  demo=r"""
fn main() {
    use m68000::isa::Isa;
    let t: Vec<_> = [(0x4E71u16, Isa::Nop), (0xD081, Isa::Add), (0x4E75, Isa::Rts), (0xC0C1, Isa::Mulu)].into_iter().map(|(op, isa)| std::thread::spawn(move || {
        for k in 0..30_000_000u32 {
            let o = if k % 3 == 0 { op } else { 0x7001 };
            let want = if k % 3 == 0 { isa } else { Isa::Moveq };
            if Isa::from(std::hint::black_box(o)) as u8 != want as u8 { return false; }
        }
        true
    })).collect();
    check(t.into_iter().all(|x| x.join().unwrap()), "every opcode is its own instruction");
}"""),
]
