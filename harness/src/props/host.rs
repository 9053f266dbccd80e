//! C31: programs whose exceptions the host services itself.
use super::hist::{ambiguous, init_prog, place_handlers, prog_kinds, ranges, no_ranges};
use super::Prop;
use crate::dec::K::*;
use crate::diff::*;
use crate::gen;
use crate::mem::Range;
use crate::run::{guard, Ctx, Res, Runner};
use crate::with_cpu;
use m68000::{exception::Exception, M68000};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// One run until something happens, and what the host does about it.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Service {
    /// How the program is run: 0 loop_until_exception_stop, 1 cycle_until_exception, 2 interpreter_exception, 3 disassembler_interpreter_exception.
    api: u8,
    /// The host's answer, with a register number and a value.
    how: u8,
    reg: u8,
    x: u32,
    /// Steps at most (for the budget of cycle_until_exception).
    steps: u8,
    /// The host switches single stepping on or off.
    trace: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Hosted { init: Init, handlers: Vec<(u8, Vec<u16>)>, ranges: Vec<(u32, u32, u8)>, services: Vec<Service> }

fn check_hosted(p: &Hosted, ctx: &mut Ctx) -> Res {
    let (mut st, mut rm) = p.init.build();
    place_handlers(&mut rm, &p.handlers);
    rm.ranges = p.ranges.iter().map(|(lo, len, what)| Range { lo: *lo, len: *len, what: *what }).collect();
    let (mut m, mut m2) = (rm.clone(), rm.clone());
    let t = p.init.tim();
    let start = st.pc;
    let mut serviced = 0;
    // other programs the host has suspended
    let mut suspended = vec![];
    // breakpoints: ILLEGAL in place of an instruction
    let mut breakpoints: Vec<(u32, u16)> = vec![];
    with_cpu!(p.init.cpu, C => {
        let mut core: M68000<C> = core_of(&st);
        let mut twin = core.clone();
        for (n, s) in p.services.iter().enumerate() {
            // what must happen: single steps, each against the reference
            let limit = match s.api % 4 { 0 => 120, 1 => s.steps as usize % 64 + 1, _ => 1 };
            let (mut total, mut before, mut vec, mut steps) = (0usize, 0, None, 0);
            let mut ended = false;
            while steps < limit {
                let at = |e: String| format!("run {n}, step {steps}: {e}");
                if ambiguous(&st) { return Ok(()); }
                let out = st.step(&mut rm, t);
                if out.unspec { return Ok(()); }
                let (c, v) = match guard(|| twin.interpreter_exception(&mut m2)) {
                    Ok(x) => x,
                    Err(e) if out.fault.as_ref().is_some_and(|f| f.ext_fetch) => { ctx.finding(KF_EXT, at(e))?; return Ok(()); }
                    Err(e) => return Err(at(e)),
                };
                compare(&twin.regs, twin.stop, (Some(c), v), &mut m2, &mut st, &mut rm, &out, Opts::default()).map_err(at)?;
                before = total;
                total += c;
                vec = v;
                steps += 1;
                if v.is_some() || st.stop { ended = true; break; }
            }
            // the same in one call
            let at = |e: String| format!("run {n} ({steps} steps): {e}");
            let got = match s.api % 4 {
                0 if ended => guard(|| core.loop_until_exception_stop(&mut m)),
                // a run that ends at its budget (an instruction that takes no time cannot be told apart)
                0 | 1 => {
                    let budget = match s.x >> 12 & 3 {
                        // a run that ends at its budget
                        _ if !ended => total,
                        // the last step uses up the budget
                        0 if total > before => total,
                        1 if total > before => before + 1,
                        _ => total + (s.x as usize & 0xFFF) + 1,
                    };
                    guard(|| core.cycle_until_exception(&mut m, budget))
                }
                2 => guard(|| core.interpreter_exception(&mut m)),
                _ => guard(|| { let (_, _, c, v) = core.disassembler_interpreter_exception(&mut m); (c, v) }),
            }.map_err(at)?;
            if got != (total, vec) { return Err(at(format!("returned {got:?}, single steps {:?}", (total, vec)))); }
            if core.regs != twin.regs || core.stop != twin.stop { return Err(at(format!("state {:X?} stop {}, single steps {:X?} stop {}", core.regs, core.stop, twin.regs, twin.stop))); }
            if let Some((a, g, e)) = m.diff(&m2, &[]) { return Err(at(format!("memory byte {a:08X} is {g:02X}, single steps {e:02X}"))); }
            if m.resets != m2.resets { return Err(at("reset hook calls differ".into())); }
            // the host's turn
            match vec {
                Some(v) => {
                    serviced += 1;
                    if !ctx.quiet { ctx.class(&format!("vector {v} serviced by the host")); }
                    match v {
                        // the program cannot be resumed where it is: somewhere else
                        2 | 3 => st.pc = start.wrapping_add(2 * (s.reg as u32 & 15)),
                        // a breakpoint: the instruction is put back and executed
                        4 if breakpoints.iter().any(|b| b.0 == st.pc) => {
                            let k = breakpoints.iter().rposition(|b| b.0 == st.pc).unwrap();
                            let (pc, word) = breakpoints.remove(k);
                            for mem in [&mut rm, &mut m, &mut m2] { mem.poke16(pc, word); }
                            ctx.class("breakpoint removed and resumed");
                        }
                        // emulated, skipped or tried again
                        4 | 8 | 10 | 11 => match s.how % 4 { 0 if n % 3 != 0 => {} 1 => { st.pc = st.pc.wrapping_add(4); st.sr ^= s.x as u16 & 0x1F; } _ => { st.pc = st.pc.wrapping_add(2); st.d[s.reg as usize & 7] = s.x; } },
                        9 => {}
                        // the identifier of the call follows the TRAP
                        32..=47 if s.how & 4 != 0 => {
                            let (a, b) = (guard(|| core.peek_next_word(&mut m)).map_err(at)?, guard(|| twin.peek_next_word(&mut m2)).map_err(at)?);
                            let long = s.how & 8 != 0;
                            let (a2, b2) = if long {
                                (guard(|| core.get_next_long(&mut m)).map_err(at)?, guard(|| twin.get_next_long(&mut m2)).map_err(at)?)
                            } else {
                                (guard(|| core.get_next_word(&mut m)).map_err(at)?.map(u32::from), guard(|| twin.get_next_word(&mut m2)).map_err(at)?.map(u32::from))
                            };
                            if a != b || a2 != b2 { return Err(at(format!("the word after the TRAP: {a:X?} {a2:X?}, after single steps {b:X?} {b2:X?}"))); }
                            let (Ok(peeked), Ok(got)) = (a, a2) else { return Ok(()) };
                            let want = if long { rm.peek32(st.pc) } else { rm.peek16(st.pc) as u32 };
                            if peeked != rm.peek16(st.pc) || got != want { return Err(at(format!("what follows the TRAP: peeked {peeked:X}, got {got:X}, in memory {want:X}"))); }
                            st.pc = st.pc.wrapping_add(if long { 4 } else { 2 });
                            if core.regs.pc.0 != st.pc { return Err(at(format!("PC is {:X} after what follows the TRAP, {:X} expected", core.regs.pc.0, st.pc))); }
                            st.d[0] = got;
                            ctx.class("word or long after the TRAP read by the host");
                        }
                        _ => match s.how % 4 { 0 => {} 1 => st.d[0] = s.x, 2 => { st.d[s.reg as usize & 7] ^= s.x; st.sr = st.sr & !1 | s.reg as u16 & 1; } _ => st.pc = st.pc.wrapping_add(2) },
                    }
                }
                None => if st.stop { ctx.class("STOP ended the run"); st.stop = false; } else { ctx.class("the budget ended the run"); }
            }
            match s.how >> 4 {
                // a result stored for the program
                1 | 2 => { let a = st.a[s.reg as usize % 7] & !1; for mem in [&mut rm, &mut m, &mut m2] { mem.poke16(a, s.x as u16); mem.poke16(a.wrapping_add(2), (s.x >> 16) as u16); } }
                // suspended, and another program started
                3 if st.pend.is_empty() => { suspended.push(st.clone()); st.pc = start.wrapping_add(2 * (s.reg as u32 & 15)); st.d = st.d.map(|d| d.rotate_left(7) ^ s.x); st.usp = st.usp.wrapping_sub(0x100); ctx.class("context switch"); }
                // the oldest suspended program goes on
                4 => if !suspended.is_empty() && st.pend.is_empty() { suspended.push(st.clone()); st = suspended.remove(0); ctx.class("context switch"); },
                5 => st.d[s.reg as usize & 7] = s.x,
                // a breakpoint here or a few words on
                6 | 7 | 8 => {
                    let at = st.pc.wrapping_add(2 * (s.reg as u32 & 3));
                    if at & 1 == 0 && breakpoints.len() < 3 {
                        breakpoints.push((at, rm.peek16(at)));
                        for mem in [&mut rm, &mut m, &mut m2] { mem.poke16(at, 0x4AFC); }
                    }
                }
                // an interrupt, which the program services
                10 | 11 => {
                    let v = if s.reg & 8 == 0 { 25 + s.reg % 7 } else { 64 + s.reg % 8 };
                    for c in [&mut core, &mut twin] { c.regs = regs_of(&st); c.stop = st.stop; c.exception(Exception::from(v)); }
                    st.request(v);
                    if core.stop != st.stop { return Err(at(format!("stop is {} after requesting vector {v}", core.stop))); }
                    ctx.class("interrupt for the program");
                }
                // the next instruction is replaced by one that does nothing
                9 => if st.pc & 1 == 0 { for mem in [&mut rm, &mut m, &mut m2] { mem.poke16(st.pc, 0x4E71); } },
                _ => {}
            }
            match s.trace % 8 { 0 => st.sr |= 0x8000, 1 | 2 => st.sr &= 0x7FFF, _ => {} }
            for c in [&mut core, &mut twin] { c.regs = regs_of(&st); c.stop = st.stop; }
        }
        ctx.nontrivial = serviced > 1;
        Ok(())
    })
}

pub const C31: Prop = Prop {
    id: "C31",
    rule: "a case is a program run until it raises an exception or stops, serviced by the host and run on, several times; non-trivial when the host serviced more than one exception",
    assumptions: &[
        "runs of more than 120 steps without exception are cut by a cycle budget",
        "after an access or address error the host does not resume the program at the saved PC, which the architecture leaves open",
    ],
    run: |r: &Runner| {
        let case = |sys: bool, rg: bool| {
            let mut k = prog_kinds();
            // system calls, checks and emulated instructions; user mode mostly
            k.extend([Trap, Trap, Trap, Trapv, Chk, Divu, Divs, Unknown, Unknown, Illegal, Stop]);
            let one = (prop_oneof![4 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)], any::<u8>(), any::<u8>(), gen::data32(), any::<u8>(), any::<u8>()).prop_map(|(api, how, reg, x, steps, trace)| Service { api, how, reg, x, steps, trace });
            (init_prog(k, 4, 24), super::hist::handlers((2u8..48).boxed(), 6), if rg { ranges() } else { no_ranges() }, prop::collection::vec(one, 2..16))
                .prop_map(move |(mut init, handlers, ranges, services)| { if !sys { init.sr &= !0x2000; } Hosted { init, handlers, ranges, services } })
                .boxed()
        };
        r.rand("user-programs", 16_000, || case(false, false), check_hosted);
        r.rand("any-mode", 8_000, || case(true, false), check_hosted);
        r.rand("memory-holes", 10_000, || case(false, true), check_hosted);
    },
};
