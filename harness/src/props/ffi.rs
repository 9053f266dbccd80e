//! C25: the C interface against the Rust methods, called directly and from C through the published headers.
use super::hist::{init_prog, place_handlers, prog_kinds, vector, handlers};
use super::Prop;
use crate::diff::*;
use crate::gen;
use crate::mem::{mix, Mem, Range};
use crate::run::{guard, Ctx, Res, Runner};
use m68000::cpu_details::{Mc68000, Scc68070};
use m68000::exception::{Exception, Vector};
use m68000::addressing_modes::AddressingMode;
use m68000::instruction::{Direction, Instruction, Operands, Size};
use m68000::{Registers, M68000};
use m68000_ffi::{m68000_callbacks_t, m68000_memory_result_t};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ffi::{c_char, c_int, c_void, CString};
use std::sync::OnceLock;

/// Where the callbacks of both faces end: a memory, and junk for the bits that must be ignored.
pub struct Ud { pub m: Mem, pub junk: u64 }
impl Ud {
    fn junk(&mut self) -> u32 { self.junk = mix(self.junk); self.junk as u32 }
}
fn read(u: &mut Ud, a: u32, n: i32) -> (u32, u8) {
    use m68000::MemoryAccess;
    let j = u.junk();
    let r = match n { 1 => u.m.get_byte(a).map(|v| j << 8 | v as u32), 2 => u.m.get_word(a).map(|v| j << 16 | v as u32), _ => u.m.get_long(a) };
    match r { Some(v) => (v, 0), None => (j, 2) }
}
fn write(u: &mut Ud, a: u32, n: i32, d: u32) -> u8 {
    use m68000::MemoryAccess;
    let r = match n { 1 => u.m.set_byte(a, d as u8), 2 => u.m.set_word(a, d as u16), _ => u.m.set_long(a, d) };
    if r.is_some() { 0 } else { 2 }
}
macro_rules! cb_get { ($n:ident $k:literal) => { extern "C" fn $n(a: u32, u: *mut c_void) -> m68000_memory_result_t { let (data, exception) = read(unsafe { &mut *(u as *mut Ud) }, a, $k); m68000_memory_result_t { data, exception } } } }
macro_rules! cb_set { ($n:ident $t:ty, $k:literal) => { extern "C" fn $n(a: u32, d: $t, u: *mut c_void) -> m68000_memory_result_t { let u = unsafe { &mut *(u as *mut Ud) }; let exception = write(u, a, $k, d as u32); m68000_memory_result_t { data: u.junk(), exception } } } }
cb_get!(gb 1); cb_get!(gw 2); cb_get!(gl 4);
cb_set!(sb u8, 1); cb_set!(sw u16, 2); cb_set!(sl u32, 4);
extern "C" fn rst(u: *mut c_void) { unsafe { (*(u as *mut Ud)).m.resets += 1 } }
pub fn callbacks(u: *mut Ud) -> m68000_callbacks_t {
    m68000_callbacks_t { get_byte: gb, get_word: gw, get_long: gl, set_byte: sb, set_word: sw, set_long: sl, reset_instruction: rst, user_data: u as *mut c_void }
}

#[repr(C)]
struct Ops { rd: extern "C" fn(*mut c_void, u32, c_int, *mut u32) -> c_int, wr: extern "C" fn(*mut c_void, u32, c_int, u32) -> c_int, rst: extern "C" fn(*mut c_void), ud: *mut c_void }
extern "C" fn ops_rd(u: *mut c_void, a: u32, n: c_int, out: *mut u32) -> c_int { let (d, e) = read(unsafe { &mut *(u as *mut Ud) }, a, n); unsafe { *out = d; } e as c_int }
extern "C" fn ops_wr(u: *mut c_void, a: u32, n: c_int, d: u32) -> c_int { write(unsafe { &mut *(u as *mut Ud) }, a, n, d) as c_int }

type ShimCall = unsafe extern "C" fn(c_int, c_int, *mut c_void, *mut Ops, u64, *mut c_char, usize, *mut u32, *mut u64);
type ShimInstruction = unsafe extern "C" fn(*const c_void, *mut u32) -> usize;
pub struct Shim { call: ShimCall, instruction: ShimInstruction, sizes: Vec<u32>, pub vectors: Vec<u8> }
const SHIM_C: &str = include_str!("../../c/shim.c");
extern "C" {
    fn dlopen(p: *const c_char, f: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
}

macro_rules! table {
    ($k:ident) => { paste::paste! {{
        use m68000_ffi::$k::*;
        [[<m68000_ $k _new>] as *const c_void, [<m68000_ $k _new_no_reset>] as _, [<m68000_ $k _delete>] as _, [<m68000_ $k _cycle>] as _, [<m68000_ $k _cycle_until_exception>] as _,
         [<m68000_ $k _loop_until_exception_stop>] as _, [<m68000_ $k _interpreter>] as _, [<m68000_ $k _interpreter_exception>] as _, [<m68000_ $k _disassembler_interpreter>] as _,
         [<m68000_ $k _disassembler_interpreter_exception>] as _, [<m68000_ $k _exception>] as _, [<m68000_ $k _get_next_word>] as _, [<m68000_ $k _get_next_long>] as _,
         [<m68000_ $k _peek_next_word>] as _, [<m68000_ $k _registers>] as _, [<m68000_ $k _registers_mut>] as _, [<m68000_ $k _get_registers>] as _, [<m68000_ $k _set_registers>] as _]
    }}};
}

/// Compiles the C side against the headers of the repository.
pub fn shim() -> &'static Result<Shim, String> {
    static S: OnceLock<Result<Shim, String>> = OnceLock::new();
    S.get_or_init(|| {
        let dir = std::env::current_exe().unwrap().parent().unwrap().to_path_buf();
        let (src, so) = (dir.join(format!("shim-{}.c", std::process::id())), dir.join(format!("shim-{}.so", std::process::id())));
        std::fs::write(&src, SHIM_C).expect("writing the C source");
        let o = std::process::Command::new("gcc").args(["-std=gnu11", "-O1", "-shared", "-fPIC", "-I", "/repo/include/m68000", "-o"]).arg(&so).arg(&src).output();
        let _ = std::fs::remove_file(&src);
        let o = match o { Ok(o) => o, Err(e) => { eprintln!("gcc could not be run: {e}"); std::process::exit(2) } };
        if !o.status.success() { return Err(format!("a C program that includes m68000-ffi.h and uses the interface does not compile: {}", String::from_utf8_lossy(&o.stderr).chars().take(800).collect::<String>())); }
        let p = CString::new(so.to_str().unwrap()).unwrap();
        let h = unsafe { dlopen(p.as_ptr(), 2) };
        let _ = std::fs::remove_file(&so);
        if h.is_null() { eprintln!("dlopen failed"); std::process::exit(2); }
        unsafe {
            let init: unsafe extern "C" fn(*const *const c_void, *const *const c_void) = std::mem::transmute(dlsym(h, c"shim_init".as_ptr()));
            let call: ShimCall = std::mem::transmute(dlsym(h, c"shim_call".as_ptr()));
            let vs: unsafe extern "C" fn(*mut *const u8) -> usize = std::mem::transmute(dlsym(h, c"shim_vectors".as_ptr()));
            let (a, b) = (table!(mc68000), table!(scc68070));
            init(a.as_ptr(), b.as_ptr());
            let mut p = std::ptr::null();
            let n = vs(&mut p);
            let instruction: ShimInstruction = std::mem::transmute(dlsym(h, c"shim_instruction".as_ptr()));
            let sizes: unsafe extern "C" fn(*mut u32) -> usize = std::mem::transmute(dlsym(h, c"shim_sizes".as_ptr()));
            let mut sz = vec![0u32; 16];
            let k = sizes(sz.as_mut_ptr());
            sz.truncate(k);
            Ok(Shim { call, instruction, sizes: sz, vectors: std::slice::from_raw_parts(p, n).to_vec() })
        }
    })
}

fn f_dir(d: Direction) -> u32 {
    use Direction::*;
    match d {
        RegisterToMemory => 0, MemoryToRegister => 1, DstReg => 2, DstEa => 3, Left => 4, Right => 5, RegisterToUsp => 6, UspToRegister => 7,
        RegisterToRegister => 8, MemoryToMemory => 9, ExchangeData => 10, ExchangeAddress => 11, ExchangeDataAddress => 12,
    }
}
fn f_size(s: Size) -> u32 { match s { Size::Byte => 0, Size::Word => 1, Size::Long => 2 } }
fn f_mode(a: AddressingMode, o: &mut Vec<u32>) {
    use AddressingMode::*;
    match a {
        Drd(r) => o.extend([0, r as u32]), Ard(r) => o.extend([1, r as u32]), Ari(r) => o.extend([2, r as u32]), Ariwpo(r) => o.extend([3, r as u32]), Ariwpr(r) => o.extend([4, r as u32]),
        Ariwd(r, d) => o.extend([5, r as u32, d as u32]), Ariwi8(r, b) => o.extend([6, r as u32, b.0 as u32]), AbsShort(x) => o.extend([7, x as u32]), AbsLong(x) => o.extend([8, x]),
        Pciwd(p, d) => o.extend([9, p, d as u32]), Pciwi8(p, b) => o.extend([10, p, b.0 as u32]), Immediate(x) => o.extend([11, x]),
    }
}
/// An instruction as a list of numbers, in the way `shim_instruction` of the C side lists it.
fn f_inst(i: &Instruction) -> Vec<u32> {
    use Operands::*;
    let mut o = vec![i.opcode as u32, i.pc];
    macro_rules! put {
        ($($k:ident $v:expr),*) => {{ $( put!(@ $k $v); )* }};
        (@ n $v:expr) => { o.push($v as u32) };
        (@ d $v:expr) => { o.push(f_dir($v)) };
        (@ s $v:expr) => { o.push(f_size($v)) };
        (@ a $v:expr) => { f_mode($v, &mut o) };
    }
    match i.operands {
        NoOperands => put!(n 0),
        Immediate(v) => put!(n 1, n v),
        SizeEffectiveAddressImmediate(s, a, v) => put!(n 2, s s, a a, n v),
        EffectiveAddressCount(a, v) => put!(n 3, a a, n v),
        EffectiveAddress(a) => put!(n 4, a a),
        SizeEffectiveAddress(s, a) => put!(n 5, s s, a a),
        RegisterEffectiveAddress(r, a) => put!(n 6, n r, a a),
        RegisterDirectionSizeRegisterDisplacement(r, d, s, q, v) => put!(n 7, n r, d d, s s, n q, n v),
        SizeRegisterEffectiveAddress(s, r, a) => put!(n 8, s s, n r, a a),
        SizeEffectiveAddressEffectiveAddress(s, a, b) => put!(n 9, s s, a a, a b),
        RegisterOpmodeRegister(r, d, q) => put!(n 10, n r, d d, n q),
        OpmodeRegister(v, r) => put!(n 11, n v, n r),
        Vector(v) => put!(n 12, n v),
        RegisterDisplacement(r, v) => put!(n 13, n r, n v),
        Register(r) => put!(n 14, n r),
        DirectionRegister(d, r) => put!(n 15, d d, n r),
        DirectionSizeEffectiveAddressList(d, s, a, v) => put!(n 16, d d, s s, a a, n v),
        DataSizeEffectiveAddress(v, s, a) => put!(n 17, n v, s s, a a),
        ConditionEffectiveAddress(v, a) => put!(n 18, n v, a a),
        ConditionRegisterDisplacement(v, r, w) => put!(n 19, n v, n r, n w),
        Displacement(v) => put!(n 20, n v),
        ConditionDisplacement(v, w) => put!(n 21, n v, n w),
        RegisterData(r, v) => put!(n 22, n r, n v),
        RegisterDirectionSizeEffectiveAddress(r, d, s, a) => put!(n 23, n r, d d, s s, a a),
        RegisterSizeEffectiveAddress(r, s, a) => put!(n 24, n r, s s, a a),
        RegisterSizeModeRegister(r, s, d, q) => put!(n 25, n r, s s, d d, n q),
        RegisterSizeRegister(r, s, q) => put!(n 26, n r, s s, n q),
        DirectionEffectiveAddress(d, a) => put!(n 27, d d, a a),
        RotationDirectionSizeModeRegister(v, d, s, b, r) => put!(n 28, n v, d d, s s, n b, n r),
    }
    o
}

/// A decoded instruction read by a C program that knows the published headers.
fn check_layout(op: u16, ext: [u16; 4], pc: u32, c: &mut Ctx) -> Res {
    let s = shim().as_ref().map_err(|e| e.clone())?;
    let mut m = Mem::new(1, 1);
    for (k, w) in [op, ext[0], ext[1], ext[2], ext[3]].into_iter().enumerate() { m.poke16(pc.wrapping_add(2 * k as u32), w); }
    let i = guard(|| { use m68000::MemoryAccess; Instruction::from_memory(&mut m.iter_u16(pc)) }).map_err(|e| format!("panic: {e}"))?.map_err(|e| format!("vector {e}"))?;
    let mut buf = [0u64; 32];
    if std::mem::size_of::<Instruction>() > 256 { return Err("an instruction has more than 256 bytes".into()); }
    unsafe { std::ptr::copy_nonoverlapping(&i as *const Instruction as *const u8, buf.as_mut_ptr() as *mut u8, std::mem::size_of::<Instruction>()); }
    let mut out = [0u32; 32];
    let n = unsafe { (s.instruction)(buf.as_ptr() as *const c_void, out.as_mut_ptr()) };
    let want = f_inst(&i);
    c.nontrivial = want.len() > 4;
    if out[..n] != want[..] { return Err(format!("opcode {op:04X}: {i:?} is {want:X?}, but read from C with the published headers it is {:X?}", &out[..n])); }
    Ok(())
}

pub fn flat(r: &Registers) -> [u32; 19] {
    let mut f = [0; 19];
    for k in 0..8 { f[k] = r.d[k].0; }
    for k in 0..7 { f[8 + k] = r.a[k].0; }
    f[15] = r.usp.0; f[16] = r.ssp.0; f[17] = r.pc.0; f[18] = sr_of(r.sr) as u32;
    f
}
fn unflat(f: &[u32; 19]) -> Registers {
    let mut r = Registers::default();
    for k in 0..8 { r.d[k].0 = f[k]; }
    for k in 0..7 { r.a[k].0 = f[8 + k]; }
    r.usp.0 = f[15]; r.ssp.0 = f[16]; r.pc.0 = f[17]; r.sr = sr_to(f[18] as u16);
    r
}

/// The functions of the headers.
const FUNCTIONS: [&str; 18] = ["new", "new_no_reset", "delete", "cycle", "cycle_until_exception", "loop_until_exception_stop", "interpreter", "interpreter_exception", "disassembler_interpreter",
    "disassembler_interpreter_exception", "exception", "get_next_word", "get_next_long", "peek_next_word", "registers", "registers_mut", "get_registers", "set_registers"];

/// The vectors that have a name, which are the ones the C interface can request.
pub const NAMED: [u8; 45] = [0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 57, 58, 59, 60, 61, 62, 63, 64];
fn named(v: u8) -> Vector {
    use Vector::*;
    const T: [Vector; 45] = [
        ResetSspPc, AccessError, AddressError, IllegalInstruction, ZeroDivide, ChkInstruction, TrapVInstruction, PrivilegeViolation, Trace, LineAEmulator, LineFEmulator, FormatError,
        UninitializedInterrupt, SpuriousInterrupt, Level1Interrupt, Level2Interrupt, Level3Interrupt, Level4Interrupt, Level5Interrupt, Level6Interrupt, Level7Interrupt,
        Trap0Instruction, Trap1Instruction, Trap2Instruction, Trap3Instruction, Trap4Instruction, Trap5Instruction, Trap6Instruction, Trap7Instruction, Trap8Instruction, Trap9Instruction,
        Trap10Instruction, Trap11Instruction, Trap12Instruction, Trap13Instruction, Trap14Instruction, Trap15Instruction, Level1OnChipInterrupt, Level2OnChipInterrupt, Level3OnChipInterrupt,
        Level4OnChipInterrupt, Level5OnChipInterrupt, Level6OnChipInterrupt, Level7OnChipInterrupt, UserInterrupt,
    ];
    T[NAMED.iter().position(|x| *x == v).unwrap()]
}

/// One call of the C interface, made from Rust.
macro_rules! direct {
    ($k:ident, $op:expr, $core:expr, $cb:expr, $arg:expr, $str:expr, $len:expr, $f:expr, $out:expr) => { paste::paste! { unsafe {
        use m68000_ffi::$k::*;
        let core = $core as *mut _;
        match $op {
            0 => $out[0] = [<m68000_ $k _new>]() as usize as u64,
            1 => $out[0] = [<m68000_ $k _new_no_reset>]() as usize as u64,
            2 => [<m68000_ $k _delete>](core),
            3 => $out[0] = [<m68000_ $k _cycle>](core, $cb, $arg as usize) as u64,
            4 => { let r = [<m68000_ $k _cycle_until_exception>](core, $cb, $arg as usize); $out[0] = r.cycles as u64; $out[1] = r.exception as u64; }
            5 => { let r = [<m68000_ $k _loop_until_exception_stop>](core, $cb); $out[0] = r.cycles as u64; $out[1] = r.exception as u64; }
            6 => $out[0] = [<m68000_ $k _interpreter>](core, $cb) as u64,
            7 => { let r = [<m68000_ $k _interpreter_exception>](core, $cb); $out[0] = r.cycles as u64; $out[1] = r.exception as u64; }
            8 => { let r = [<m68000_ $k _disassembler_interpreter>](core, $cb, $str, $len); $out[0] = r.cycles as u64; $out[2] = r.pc as u64; }
            9 => { let r = [<m68000_ $k _disassembler_interpreter_exception>](core, $cb, $str, $len); $out[0] = r.cycles as u64; $out[1] = r.exception as u64; $out[2] = r.pc as u64; }
            10 => [<m68000_ $k _exception>](core, named($arg as u8)),
            11 => { let r = [<m68000_ $k _get_next_word>](core, $cb); $out[0] = r.data as u64; $out[1] = r.exception as u64; }
            12 => { let r = [<m68000_ $k _get_next_long>](core, $cb); $out[0] = r.data as u64; $out[1] = r.exception as u64; }
            13 => { let r = [<m68000_ $k _peek_next_word>](core, $cb); $out[0] = r.data as u64; $out[1] = r.exception as u64; }
            14 => $out[0] = [<m68000_ $k _registers>](core) as usize as u64,
            15 => $out[0] = [<m68000_ $k _registers_mut>](core) as usize as u64,
            16 => *$f = flat(&[<m68000_ $k _get_registers>](core)),
            17 => [<m68000_ $k _set_registers>](core, unflat($f)),
            18 => *($arg as usize as *mut Registers) = unflat($f),
            _ => *$f = flat(&*($arg as usize as *const Registers)),
        }
    }}};
}

/// One call through either face.
#[allow(clippy::too_many_arguments)]
fn call(c_side: bool, scc: bool, op: i32, core: usize, ud: *mut Ud, arg: u64, buf: &mut [u8], len: usize, f: &mut [u32; 19]) -> Result<[u64; 3], String> {
    let mut out = [0u64; 3];
    let s = buf.as_mut_ptr() as *mut c_char;
    if c_side {
        let sh = shim().as_ref().map_err(|e| e.clone())?;
        let mut ops = Ops { rd: ops_rd, wr: ops_wr, rst, ud: ud as *mut c_void };
        unsafe { (sh.call)(scc as c_int, op, core as *mut c_void, &mut ops, arg, s, len, f.as_mut_ptr(), out.as_mut_ptr()) };
    } else {
        let mut cb = callbacks(ud);
        if scc { direct!(scc68070, op, core, &mut cb, arg, s, len, f, out) } else { direct!(mc68000, op, core, &mut cb, arg, s, len, f, out) }
    }
    Ok(out)
}

enum Core { A(M68000<Mc68000>), B(M68000<Scc68070>) }
macro_rules! both { ($c:expr, $x:ident => $e:expr) => { match $c { Core::A($x) => $e, Core::B($x) => $e } } }

/// Whether a run of that many cycles ends, and whether it ends because the processor stopped.
fn progresses(c: &Core, m: &Mem, cycles: usize) -> (bool, bool) {
    let mut m = m.clone();
    m.log_on = false;
    fn go<C: m68000::CpuDetails + Clone>(c: &M68000<C>, m: &mut Mem, cycles: usize) -> (bool, bool) {
        let mut c = c.clone();
        let (mut t, mut zero) = (0, 0);
        while t < cycles && !c.stop && zero < 40 {
            let n = c.interpreter(m);
            if n == 0 { zero += 1; } else { zero = 0; }
            t += n;
        }
        (zero < 40, zero < 40 && t > 0 && c.stop)
    }
    guard(|| match c { Core::A(c) => go(c, &mut m, cycles), Core::B(c) => go(c, &mut m, cycles) }).unwrap_or((true, false))
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Call { op: u8, core: u8, arg: u16, v: u8, len: u8 }
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct FCase { init: Init, handlers: Vec<(u8, Vec<u16>)>, ranges: Vec<(u32, u32, u8)>, c_side: bool, calls: Vec<Call> }

struct Pair { rust: Core, scc: bool, ptr: usize, regs: usize, regs_mut: usize }

/// Bytes after the caller's buffer, which nothing may touch.
const CANARY: usize = 80;

fn check_ffi(p: &FCase, ctx: &mut Ctx) -> Res {
    let (st, mut m) = p.init.build();
    place_handlers(&mut m, &p.handlers);
    // resets lead to the program
    m.poke32(0, st.ssp);
    m.poke32(4, st.pc);
    m.ranges = p.ranges.iter().map(|(lo, len, what)| Range { lo: *lo, len: *len, what: *what }).collect();
    m.log_on = true;
    let mut ud = Box::new(Ud { m: m.clone(), junk: p.init.mem_seed });
    let up: *mut Ud = &mut *ud;
    let mut cores: Vec<Pair> = vec![];
    let regs0 = flat(&regs_of(&st));
    let mut none = [0u8; 0];
    let open = |scc: bool, reset: bool, n: u32| -> Result<Pair, String> {
        let mut f = [0; 19];
        let mut none = [0u8; 0];
        let mut rust = match (scc, reset) { (false, true) => Core::A(M68000::new()), (false, false) => Core::A(M68000::new_no_reset()), (true, true) => Core::B(M68000::new()), _ => Core::B(M68000::new_no_reset()) };
        let ptr = call(p.c_side, scc, !reset as i32, 0, up, 0, &mut none, 0, &mut f)?[0] as usize;
        call(p.c_side, scc, 16, ptr, up, 0, &mut none, 0, &mut f)?;
        if f != both!(&rust, c => flat(&c.regs)) { return Err(format!("registers of a new core are {f:X?}")); }
        let regs = call(p.c_side, scc, 14, ptr, up, 0, &mut none, 0, &mut f)?[0] as usize;
        let regs_mut = call(p.c_side, scc, 15, ptr, up, 0, &mut none, 0, &mut f)?[0] as usize;
        f = regs0;
        f[0] = f[0].wrapping_add(n);
        f[17] = f[17].wrapping_add(2 * n);
        call(p.c_side, scc, 17, ptr, up, 0, &mut none, 0, &mut f)?;
        both!(&mut rust, c => c.regs = unflat(&f));
        Ok(Pair { rust, scc, ptr, regs, regs_mut })
    };
    cores.push(open(p.init.cpu & 1 != 0, p.init.cpu & 2 != 0, 0)?);
    let mut result = Ok(());
    'calls: for (n, c) in p.calls.iter().enumerate() {
        let at = |what: String| Err(format!("call {n} ({c:?}): {what}"));
        let ncores = cores.len();
        let mut f = [0u32; 19];
        // opening and deleting cores
        if c.op == 20 { if ncores < 4 { match open(c.arg & 1 != 0, c.arg & 2 != 0, n as u32 & 3) { Ok(x) => cores.push(x), Err(e) => { result = at(e); break; } } } continue; }
        if c.op == 2 { if ncores > 1 { let x = cores.remove(c.core as usize % ncores); call(p.c_side, x.scc, 2, x.ptr, up, 0, &mut none, 0, &mut f)?; } continue; }
        let x = &mut cores[c.core as usize % ncores];
        let len = c.len as usize;
        let mut buf = vec![0xA5u8; len + CANARY];
        let v = NAMED[c.v as usize % NAMED.len()];
        let mut op = c.op as i32;
        let mut arg = c.arg as u64;
        // a processor that faults without end consumes no cycles (a real one halts): no run for a number of cycles
        if (op == 3 || op == 4) && c.len >= 24 && progresses(&x.rust, &m, 3000).1 {
            // a stopped processor reaches any number of cycles
            arg = super::hist::BUDGETS[c.len as usize & 15] as u64;
            ctx.class("number of cycles of any width");
        } else if op == 3 && !progresses(&x.rust, &m, arg as usize).0 { op = 6; arg = 0; ctx.class("cycle replaced: no progress"); }
        if op == 5 { m.budget = 4000; ud.m.budget = 4000; }
        // the Rust method first: when it panics (a refused extension word does) the history ends
        let e = |v: Option<u8>| v.unwrap_or(0) as u64;
        let mut text: Option<String> = None;
        let r = guard(|| both!(&mut x.rust, k => match op {
            3 => [k.cycle(&mut m, arg as usize) as u64, 0, 0],
            4 => { let (c, v) = k.cycle_until_exception(&mut m, arg as usize); [c as u64, e(v), 0] }
            5 => { let (c, v) = k.loop_until_exception_stop(&mut m); [c as u64, e(v), 0] }
            6 => [k.interpreter(&mut m) as u64, 0, 0],
            7 => { let (c, v) = k.interpreter_exception(&mut m); [c as u64, e(v), 0] }
            8 => { let (a, t, c) = k.disassembler_interpreter(&mut m); text = Some(t); [c as u64, 0, a as u64] }
            9 => { let (a, t, c, v) = k.disassembler_interpreter_exception(&mut m); text = Some(t); [c as u64, e(v), a as u64] }
            10 => { k.exception(Exception::from(v)); [0, 0, 0] }
            11 => match k.get_next_word(&mut m) { Ok(d) => [d as u64, 0, 0], Err(v) => [0, v as u64, 0] },
            12 => match k.get_next_long(&mut m) { Ok(d) => [d as u64, 0, 0], Err(v) => [0, v as u64, 0] },
            13 => match k.peek_next_word(&mut m) { Ok(d) => [d as u64, 0, 0], Err(v) => [0, v as u64, 0] },
            _ => [0, 0, 0],
        }));
        let Ok(want) = r else { ctx.class("ended by a panic of the Rust method"); break 'calls };
        match op {
            10 => arg = v as u64,
            14 => arg = x.regs as u64,
            15 | 18 => { arg = x.regs_mut as u64; }
            _ => {}
        }
        // changes of a few registers, by pointer or by value
        if matches!(op, 17 | 18) {
            f = both!(&x.rust, k => flat(&k.regs));
            f[c.v as usize % 18] ^= (c.arg as u32) << (c.len & 8);
            f[18] = f[18] & 0x8000 | mix(c.arg as u64) as u32 & 0x271F;
            f[17] &= !1;
            both!(&mut x.rust, k => k.regs = unflat(&f));
        }
        if op == 16 {
            // a copy: changing it changes nothing
            call(p.c_side, x.scc, 16, x.ptr, up, 0, &mut none, 0, &mut f)?;
            f[0] = !f[0];
        }
        if matches!(op, 14 | 15) { op = 14 + (c.arg & 1) as i32; }
        let got = call(p.c_side, x.scc, op, x.ptr, up, arg, &mut buf, len, &mut f)?;
        match op {
            14 => if got[0] as usize != x.regs { result = at("the register pointer moved".into()); break },
            15 => if got[0] as usize != x.regs_mut || got[0] as usize != x.regs { result = at("the mutable register pointer moved".into()); break },
            3..=9 | 11..=13 => {
                // the data of a refused read is not defined
                let got = if op >= 11 && got[1] != 0 { [0, got[1], 0] } else { got };
                if got != want { result = at(format!("returned {got:X?}, the Rust method {want:X?}")); break; }
            }
            _ => {}
        }
        if let Some(t) = text {
            if buf[len..].iter().any(|b| *b != 0xA5) { result = at("wrote after the end of the caller's buffer".into()); break; }
            if len > 0 {
                let keep = t.len().min(len - 1);
                if buf[..keep] != t.as_bytes()[..keep] || buf[keep] != 0 { result = at(format!("text {:?} instead of {:?} cut at {len} bytes", String::from_utf8_lossy(&buf[..len]), t)); break; }
                ctx.class(if keep < t.len() { "text cut" } else { "text complete" });
            } else { ctx.class("empty buffer"); }
        }
        // state: through the pointer, by copy, memory, memory traffic
        for y in &cores {
            let want = both!(&y.rust, k => flat(&k.regs));
            let mut f = [0; 19];
            call(p.c_side, y.scc, 19, y.ptr, up, y.regs as u64, &mut none, 0, &mut f)?;
            if f != want { result = at(format!("registers through the pointer {f:X?}, Rust {want:X?}")); break 'calls; }
            call(p.c_side, y.scc, 16, y.ptr, up, 0, &mut none, 0, &mut f)?;
            if f != want { result = at(format!("registers by copy {f:X?}, Rust {want:X?}")); break 'calls; }
        }
        if m.log != ud.m.log { let k = m.log.iter().zip(&ud.m.log).position(|(a, b)| a != b).unwrap_or(m.log.len().min(ud.m.log.len())); result = at(format!("memory traffic differs at access {k}: Rust {:X?}, C {:X?}", m.log.get(k), ud.m.log.get(k))); break; }
        if let Some((a, e, g)) = m.diff(&ud.m, &[]) { result = at(format!("memory byte {a:08X} is {g:02X}, Rust {e:02X}")); break; }
        if m.resets != ud.m.resets { result = at(format!("reset callback called {} times, Rust {}", ud.m.resets, m.resets)); break; }
        if m.log.len() > 8 || want[1] != 0 { ctx.nontrivial = true; }
        if want[1] != 0 { ctx.class(if want[1] == 2 { "access error returned" } else { "vector returned" }); }
        m.log.clear();
        ud.m.log.clear();
        if op == 5 { if m.budget == 0 { ctx.class("endless loop cut"); break; } m.budget = u64::MAX; ud.m.budget = u64::MAX; }
        ctx.class(["new", "new", "delete", "cycle", "cycle_until_exception", "loop_until_exception_stop", "interpreter", "interpreter_exception", "disassembler_interpreter", "disassembler_interpreter_exception", "exception", "get_next_word", "get_next_long", "peek_next_word", "registers", "registers_mut", "get_registers", "set_registers", "write through pointer"][op as usize]);
    }
    for x in cores { let mut f = [0; 19]; call(p.c_side, x.scc, 2, x.ptr, up, 0, &mut none, 0, &mut f)?; }
    drop(ud);
    result
}

pub const C25: Prop = Prop {
    id: "C25",
    rule: "a case is a history of calls of the C interface, made from Rust or from C through the published headers, next to the same history of Rust methods; non-trivial when a call made more than 8 memory accesses or returned a vector",
    assumptions: &[
        "callbacks report a refused access with 2, the documented value; vectors are requested by their named values (others are not values of the enumeration)",
        "the data member of a refused get_next/peek result and the bytes of the caller's buffer after the terminator are open; a Rust method that panics ends the history (see C15)",
    ],
    run: |r: &Runner| {
        r.exhaust("headers", NAMED.len() as u64, |n, c| {
            let s = shim().as_ref().map_err(|e| e.clone())?;
            c.nontrivial = true;
            if s.vectors.get(n as usize) != Some(&NAMED[n as usize]) { return Err(format!("vector {} has value {:?} in the header", NAMED[n as usize], s.vectors.get(n as usize))); }
            if named(NAMED[n as usize]) as u8 != NAMED[n as usize] { return Err(format!("vector {} has value {} in the enumeration", NAMED[n as usize], named(NAMED[n as usize]) as u8)); }
            Ok(())
        });
        // the names a linker finds: this program contains the interface
        r.exhaust("symbols", 2 * FUNCTIONS.len() as u64, |n, c| {
            static NM: OnceLock<Vec<String>> = OnceLock::new();
            let names = NM.get_or_init(|| match std::process::Command::new("nm").arg("-P").arg(std::env::current_exe().unwrap()).output() {
                Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).lines().filter_map(|l| { let mut f = l.split(' '); let n = f.next()?; matches!(f.next()?, "T" | "t").then(|| n.to_string()) }).collect(),
                o => { eprintln!("nm could not be run: {o:?}"); std::process::exit(2) }
            });
            let name = format!("m68000_{}_{}", ["mc68000", "scc68070"][n as usize % 2], FUNCTIONS[n as usize / 2]);
            c.nontrivial = true;
            if !names.contains(&name) { return Err(format!("no function of the library has the name {name}, which the header declares")); }
            Ok(())
        });
        r.exhaust("layouts", 9, |n, c| {
            use std::mem::size_of;
            let s = shim().as_ref().map_err(|e| e.clone())?;
            c.nontrivial = true;
            let want = [size_of::<Instruction>(), size_of::<Operands>(), size_of::<AddressingMode>(), size_of::<m68000::addressing_modes::BriefExtensionWord>(), size_of::<Registers>(),
                size_of::<m68000::status_register::StatusRegister>(), size_of::<Size>(), size_of::<Direction>(), u16::from(m68000::status_register::StatusRegister::default()) as usize];
            if s.sizes[n as usize] as usize != want[n as usize] { return Err(format!("size or constant {n} is {} in the headers and {} in the library", s.sizes[n as usize], want[n as usize])); }
            Ok(())
        });
        r.exhaust("instructions", 0x40000, |n, c| {
            let x = mix(n ^ 0x6C61_796F_7574);
            let ext = match n >> 16 { 0 => [0x8001, 0x7FFE, 0x9234, 0x0106], 1 => [0x7FFE, 0xFFFF, 0x18F0, 0x8000], _ => [x as u16, (x >> 16) as u16, (x >> 32) as u16, (x >> 48) as u16] };
            check_layout(n as u16, ext, mix(x) as u32 & !1, c)
        });
        let case = || {
            let op = prop_oneof![3 => Just(3u8), 3 => Just(4u8), 2 => Just(5u8), 4 => Just(6u8), 4 => Just(7u8), 4 => Just(8u8), 4 => Just(9u8), 4 => Just(10u8), 1 => 11u8..14, 2 => 14u8..19, 1 => Just(20u8), 1 => Just(2u8)];
            let len = prop_oneof![3 => 0u8..4, 6 => 4u8..24, 3 => 24u8..80];
            let arg = prop_oneof![1 => Just(0u16), 4 => 1u16..60, 2 => 60u16..3000];
            let calls = prop::collection::vec((op, any::<u8>(), arg, any::<u8>(), len).prop_map(|(op, core, arg, v, len)| Call { op, core, arg, v, len }), 2..24);
            let ranges = prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec((gen::addr32(), 1u32..0x400, 0u8..3), 0..3)];
            (init_prog(prog_kinds(), 4, 24), handlers(vector(), 20), ranges, any::<bool>(), calls).prop_map(|(init, handlers, ranges, c_side, calls)| FCase { init, handlers, ranges, c_side, calls }).boxed()
        };
        r.rand("histories", 120_000, case, check_ffi);
        // every text, every buffer length around its own
        r.rand("texts", 120_000, || (gen::inst(&gen::all_kinds()), any::<bool>(), 0u8..3, 0u8..70, any::<bool>()).prop_map(|(init, c_side, d, l, ex)| (init, c_side, d, l, ex)).boxed(), |(i, c_side, d, l, ex), c| {
            let (st, mut m) = i.build();
            let t = guard(|| { use m68000::MemoryAccess; m68000::instruction::Instruction::from_memory(&mut m.iter_u16(st.pc)).map(|x| x.disassemble().len()) });
            let len = match t { Ok(Ok(n)) if *l < 40 => (n as u8).wrapping_add(*d), _ => *l };
            let mut init = i.clone();
            init.cpu &= 1;
            check_ffi(&FCase { init, handlers: vec![], ranges: vec![], c_side: *c_side, calls: vec![Call { op: 8 + *ex as u8, core: 0, arg: 0, v: 0, len }] }, c)?;
            c.nontrivial = true;
            Ok(())
        });
    },
};
