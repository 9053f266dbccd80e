//! Histories: programs, interrupt schedules, faults, run loops.
use super::single::{check_state, derived};
use super::Prop;
use crate::dec::{decode, kind, K};
use crate::diff::*;
use crate::exec::{class, level, Out, St};
use crate::gen;
use crate::mem::{mix, Mem, Range};
use crate::run::{guard, Ctx, Res, Runner};
use crate::with_cpu;
use m68000::exception::Exception;
use m68000::instruction::Instruction;
use m68000::{CpuDetails, MemoryAccess, M68000};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use K::*;

#[derive(Clone, Debug, Serialize, Deserialize, Hash, PartialEq, Eq)]
pub struct Act {
    /// 0 interpreter_exception, 1 interpreter, 2 disassembler_interpreter_exception, 3 disassembler_interpreter,
    /// 4 interpreter_exception without queueing the vector.
    pub api: u8,
    /// Exceptions requested before the step.
    pub reqs: Vec<u8>,
    /// What the host does to registers and memory before the step: (what, which, value).
    #[serde(default)]
    pub host: Vec<(u8, u8, u32)>,
}
impl Act { pub fn new(api: u8, reqs: Vec<u8>) -> Act { Act { api, reqs, host: vec![] } } }

/// The host's action on the reference state; the emulator's public fields are set from it.
fn host_act(st: &mut St, rm: &mut Mem, im: &mut Mem, start: u32, h: &(u8, u8, u32)) {
    let (what, k, x) = *h;
    let mut poke = |a: u32, v: u16| { rm.poke16(a, v); im.poke16(a, v); };
    match what % 10 {
        // code at and after the program counter, or of the program as it was loaded
        0 | 1 => poke(st.pc.wrapping_add(2 * (k as u32 & 7)), x as u16),
        2 => poke(start.wrapping_add(2 * (k as u32 & 63)), x as u16),
        // elsewhere: what an address register points to
        3 => { let a = st.a[k as usize % 7] & !1; poke(a, x as u16); poke(a.wrapping_add(2), (x >> 16) as u16); }
        // back to a place in the program
        4 | 5 => st.pc = start.wrapping_add(2 * (k as u32 & 15)),
        6 => st.d[k as usize & 7] = x,
        7 => match k % 9 { 7 => st.usp = x, 8 => st.ssp = x & !1, n => st.a[n as usize] = x },
        8 => if !st.stop { st.sr = x as u16 & 0xA71F },
        _ => st.stop = false,
    }
}
pub fn hosts() -> BoxedStrategy<(u8, u8, u32)> {
    (0u8..10, any::<u8>(), prop_oneof![2 => gen::data32(), 2 => gen::opcode(&prog_kinds()).prop_map(|o| o as u32), 1 => gen::addr32()]).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash, PartialEq, Eq)]
pub struct Hist {
    pub init: Init,
    pub handlers: Vec<(u8, Vec<u16>)>,
    pub acts: Vec<Act>,
    /// Refused areas: (start, length, kind).
    pub ranges: Vec<(u32, u32, u8)>,
}

pub fn place_handlers(m: &mut Mem, hs: &[(u8, Vec<u16>)]) {
    for (v, code) in hs {
        let a = m.peek32(*v as u32 * 4);
        for (k, w) in code.iter().enumerate() { m.poke16(a.wrapping_add(2 * k as u32), *w); }
    }
}

/// Exceptions that would be taken together in an order the architecture leaves open.
pub fn ambiguous(st: &St) -> bool {
    if st.stop || st.pend.contains(&0) { return false; }
    let v: Vec<_> = st.pend.iter().filter(|v| level(**v).is_none() || st.unmasked(**v)).map(|v| (class(*v), level(*v))).collect();
    // spurious and user interrupts have no level: their rank among interrupts is open
    let open = v.iter().filter(|x| x.0 == 3 && x.1.is_none()).count();
    if open > 0 && v.iter().filter(|x| x.0 == 3).count() > 1 { return true; }
    (0..v.len()).any(|i| v[i + 1..].contains(&v[i]))
}

#[derive(Clone, Copy, Default)]
pub struct HOpts { pub opts: Opts, pub only_api: Option<u8>, /// Compare the accesses made (C30).
    pub bus: bool }

const STEPS: [u32; 12] = [0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 1024, 2048];
pub const KF_ENTRY: &str = "entry-fault-runs-stale-instruction";

/// Runs a history on the emulator and on the reference.
pub fn run_hist(h: &Hist, ctx: &mut Ctx, o: HOpts, mut seen: impl FnMut(&Out, &St, &mut Ctx) -> Res) -> Res {
    let (mut st, mut rm) = h.init.build();
    place_handlers(&mut rm, &h.handlers);
    rm.ranges = h.ranges.iter().map(|(lo, len, what)| Range { lo: *lo, len: *len, what: *what }).collect();
    let mut im = rm.clone();
    let t = h.init.tim();
    let start = st.pc;
    let mut done = 0;
    with_cpu!(h.init.cpu, C => {
        let mut core = core_of::<C>(&st);
        for (n, a) in h.acts.iter().enumerate() {
            let at = |e: String| format!("step {n}: {e}");
            for v in &a.reqs {
                core.exception(Exception::from(*v));
                st.request(*v);
                if core.stop != st.stop { return Err(at(format!("after requesting vector {v} with SR {:04X}: stop expected {} got {}", st.sr, st.stop, core.stop))); }
            }
            for x in &a.host { host_act(&mut st, &mut rm, &mut im, start, x); }
            if !a.host.is_empty() { core.regs = regs_of(&st); core.stop = st.stop; ctx.class("host changed the state"); }
            if ambiguous(&st) { break; }
            if o.bus { for m in [&mut rm, &mut im] { m.log_on = true; m.log.clear(); } }
            let from = st.pc;
            let out = st.step(&mut rm, t);
            let mut api = o.only_api.unwrap_or(a.api) % 5;
            if out.fault.as_ref().is_some_and(|f| f.vectors.len() != 1) && api != 4 { api = 0; }
            let res: Result<(usize, Option<u8>), String> = match api {
                1 => guard(|| (core.interpreter(&mut im), None)),
                2 | 3 => dis_step(&mut core, &mut im, &out, api == 3),
                _ => guard(|| core.interpreter_exception(&mut im)),
            };
            if out.unspec { break; }
            let (c, mut v) = match res {
                Ok(x) => x,
                Err(p) => {
                    if out.fault.as_ref().is_some_and(|f| f.ext_fetch) { ctx.finding(KF_EXT, at(p))?; break; }
                    return Err(at(match &out.ins { Some(i) => format!("{:?} ({:04X} at {:08X}): {p}", i.k, i.op, i.pc), None => p }));
                }
            };
            let queued = api == 1 || api == 3;
            if queued { v = out.vector; }
            compare(&core.regs, core.stop, (Some(c), v), &mut im, &mut st, &mut rm, &out, o.opts).map_err(at)?;
            if o.bus { super::bus::same_accesses(&im, &rm, &out, from, st.pc).map_err(at)?; }
            if let Some(x) = v {
                if api != 4 {
                    if !queued { core.exception(Exception::from(x)); }
                    st.request(x);
                }
            }
            done += 1;
            if !ctx.quiet {
                for x in &out.taken { ctx.class(&format!("exception {} taken", if *x >= 64 { "64+".into() } else { x.to_string() })); }
                if out.was_stopped { ctx.class("step while stopped"); }
                if out.reset_taken { ctx.class("reset"); }
                if out.fault.is_some() { ctx.class("memory fault"); }
            }
            seen(&out, &st, ctx)?;
        }
        ctx.class(&format!("history of {}+ steps", STEPS[(0..STEPS.len()).rev().find(|k| done >= STEPS[*k]).unwrap_or(0)]));
        Ok(())
    })
}

/// One disassembling step; checks address and text against the reference's view of memory.
fn dis_step<C: CpuDetails>(core: &mut M68000<C>, im: &mut Mem, out: &Out, queue: bool) -> Result<(usize, Option<u8>), String> {
    // the text of the instruction as it is before it executes
    let want = out.ins.as_ref().filter(|_| !out.unspec);
    let mut probe = im.clone();
    let stopped = core.stop;
    let (addr, text, c, v) = if queue {
        let (a, t, c) = guard(|| core.disassembler_interpreter(im))?;
        (a, t, c, None)
    } else { guard(|| core.disassembler_interpreter_exception(im))? };
    if stopped && !text.is_empty() { return Err(format!("text {text:?} while stopped")); }
    if let Some(i) = want {
        if addr != i.pc { return Err(format!("address {addr:08X} returned for the instruction at {:08X}", i.pc)); }
        // exception processing may have written the stack over the code: only compare when the bytes are still the same
        if out.taken.is_empty() {
            probe.ranges.clear();
            let e = Instruction::from_memory(&mut probe.iter_u16(i.pc)).map_err(|e| format!("decode error {e}"))?.disassemble();
            if e != text { return Err(format!("text {text:?} instead of {e:?}")); }
        }
        if text.is_empty() { return Err("empty text for an executed instruction".into()); }
    } else if !out.unspec && out.fault.as_ref().is_some_and(|f| f.fetch) && !text.is_empty() {
        return Err(format!("text {text:?} although no instruction was fetched"));
    }
    Ok((c, v))
}

// ---------------------------------------------------------------- generators

/// A program: complete instructions in sequence, branches mostly short, operands mostly even.
pub fn program(kinds: Vec<K>, lo: usize, hi: usize) -> BoxedStrategy<Vec<u16>> {
    prop::collection::vec((gen::opcode(&kinds), prop::array::uniform4(gen::data16()), any::<u8>()), lo..hi)
        .prop_map(|v| {
            let mut out = vec![];
            for (op, ext, how) in v {
                let mut op = op;
                let k = kind(op);
                let mut ext = ext;
                if how & 3 != 0 {
                    let near = ((how >> 2) as i16 % 24 - 10) * 2;
                    match k {
                        Bcc | Bra | Bsr => if op as u8 == 0 { ext[0] = near as u16 } else { op = op & 0xFF00 | if near == 0 { 4 } else { near as u8 as u16 } },
                        Dbcc => ext[0] = near as u16,
                        _ => for e in ext.iter_mut() { *e &= !1; },
                    }
                }
                let n = (decode(op, 0, |a| Ok::<u16, ()>(ext[(a as usize / 2 - 1) & 3])).unwrap().len / 2) as usize;
                out.push(op);
                out.extend_from_slice(&ext[..n - 1]);
            }
            out
        })
        .boxed()
}
/// Kinds weighted towards instructions that keep a program running.
pub fn prog_kinds() -> Vec<K> {
    let mut k = gen::known_kinds();
    k.extend([Move, Move, Move, Moveq, Moveq, Add, Addq, Subq, Lea, Lea, Movea, Bcc, Bcc, Bsr, Rts, Dbcc, Nop, Cmp, Movem, Trap, Movesr, Andisr, Orisr, Stop, Rte, Unknown]);
    k
}
pub fn init_prog(kinds: Vec<K>, lo: usize, hi: usize) -> BoxedStrategy<Init> {
    (gen::init_with(program(kinds, lo, hi)), any::<[bool; 3]>())
        .prop_map(|(mut i, [near, sup, t])| {
            // most programs live in a small area so that pointers meet code and stacks
            if near { i.pc = 0x1000 + (i.pc & 0x1FFE); i.ssp = 0x8000 + (i.ssp & 0x1FFE); i.usp = 0xA000 + (i.usp & 0x1FFE); }
            if sup { i.sr |= 0x2000; }
            if t { i.sr &= 0x7FFF; }
            i
        })
        .boxed()
}
pub fn vector() -> BoxedStrategy<u8> {
    prop_oneof![6 => 25u8..32, 3 => 57u8..64, 1 => Just(9u8), 1 => 2u8..12, 1 => 32u8..48, 1 => any::<u8>().prop_filter("no reset", |v| *v != 0)].boxed()
}
pub fn irq() -> BoxedStrategy<u8> { prop_oneof![2 => 25u8..32, 1 => 57u8..64].boxed() }
pub fn handlers(vs: BoxedStrategy<u8>, n: usize) -> BoxedStrategy<Vec<(u8, Vec<u16>)>> {
    let body = prop_oneof![3 => Just(vec![]), 2 => program(vec![Move, Moveq, Addq, Subq, Lea, Swap, Movem, Andisr, Orisr, Nop, Movefsr], 1, 4)];
    let end = prop_oneof![8 => Just(vec![0x4E73u16]), 1 => Just(vec![0x4E72, 0x2000, 0x4E73]), 1 => Just(vec![0x60FE]), 1 => Just(vec![0x508F, 0x4E73])];
    prop::collection::vec((vs, body, end).prop_map(|(v, mut b, e)| { b.extend(e); (v, b) }), 0..n).boxed()
}
pub fn acts(reqs: BoxedStrategy<u8>, rate: u32, lo: usize, hi: usize, apis: u8) -> BoxedStrategy<Vec<Act>> {
    let r = prop_oneof![20 => Just(vec![]), rate => prop::collection::vec(reqs, 1..3)];
    prop::collection::vec((0..apis, r).prop_map(|(api, reqs)| Act::new(api, reqs)), lo..hi).boxed()
}
pub fn ranges() -> BoxedStrategy<Vec<(u32, u32, u8)>> {
    prop::collection::vec((gen::addr32(), 1u32..0x400, 0u8..3), 0..3).boxed()
}
pub fn hist(init: BoxedStrategy<Init>, hs: BoxedStrategy<Vec<(u8, Vec<u16>)>>, a: BoxedStrategy<Vec<Act>>, rg: BoxedStrategy<Vec<(u32, u32, u8)>>) -> BoxedStrategy<Hist> {
    (init, hs, a, rg).prop_map(|(init, handlers, acts, ranges)| Hist { init, handlers, acts, ranges }).boxed()
}
pub fn no_ranges() -> BoxedStrategy<Vec<(u32, u32, u8)>> { Just(vec![]).boxed() }

// ---------------------------------------------------------------- C12

/// Requests `v`, whose handler is an RTE: the interrupted state comes back.
fn entry_rte(i: &Init, v: u8, ctx: &mut Ctx) -> Res {
    let mut i = i.clone();
    i.ssp &= !1;
    let (mut st, mut m) = i.build();
    if level(v).is_some_and(|l| l != 7 && l <= st.mask()) { st.sr &= !0x700; }
    let (scc, fault) = (i.tim().scc_frames, v == 2 || v == 3);
    let h = m.peek32(v as u32 * 4);
    let size: u32 = match (scc, fault) { (false, false) => 6, (false, true) => 14, (true, false) => 8, _ => 34 };
    let (lo, hi) = (st.ssp.wrapping_sub(size), st.ssp);
    if h.wrapping_sub(lo.wrapping_sub(4)) < size + 8 || (v as u32 * 4).wrapping_sub(lo.wrapping_sub(4)) < size + 8 { return Ok(()); }
    if h & 1 != 0 || h.wrapping_sub(i.pc.wrapping_sub(4)) < 8 { return Ok(()); }
    // the handler must not overwrite its own vector
    if h.wrapping_sub((v as u32 * 4).wrapping_sub(2)) < 8 { return Ok(()); }
    m.poke16(h, 0x4E73);
    let m0 = m.clone();
    with_cpu!(i.cpu, C => {
        let mut core: M68000<C> = core_of(&st);
        core.exception(Exception::from(v));
        let (_, r) = guard(|| core.interpreter_exception(&mut m))?;
        if r.is_some() { return Err(format!("vector {v}: RTE raised {r:?}")); }
        let mut e = regs_of(&st);
        // the MC68000's bus and address error frame has eight bytes more than RTE removes
        if fault && !scc {
            e.ssp.0 = e.ssp.0.wrapping_sub(8);
            e.pc = core.regs.pc;
            e.sr = core.regs.sr;
            let (sr, pc) = (m.peek16(lo.wrapping_add(8)), m.peek32(lo.wrapping_add(10)));
            if sr != st.sr || pc != st.pc { return Err(format!("vector {v}: frame holds SR {sr:04X} PC {pc:08X} instead of {:04X} {:08X}", st.sr, st.pc)); }
        }
        if e != core.regs { return Err(format!("vector {v} then RTE: expected {e:X?} got {:X?}", core.regs)); }
        for (k, _) in m.over.iter() { if m.byte(*k) != m0.byte(*k) && k.wrapping_sub(lo) >= hi.wrapping_sub(lo) { return Err(format!("vector {v}: byte {k:08X} outside of the frame {lo:08X}-{hi:08X} changed")); } }
        ctx.nontrivial = true;
        Ok(())
    })
}

pub const C12: Prop = Prop {
    id: "C12",
    rule: "a case is one exception (requested, or raised by an instruction) from one machine state, followed by its handler; non-trivial when the exception is taken",
    assumptions: &["access address, function code, instruction register and internal words of bus and address error frames beyond the opcode are zero (the implementation documents them as not emulated)"],
    run: |r: &Runner| {
        // every vector on every CPU
        let seed = r.seed;
        r.exhaust("entry", 255 * 4 * 60, |n, c| {
            let v = 1 + (n % 255) as u8;
            let x = n / 255;
            let mut i = derived(n ^ seed << 40, &[0x4E71]);
            i.cpu = x as u8 & 3;
            if x & 4 != 0 { i.sr |= 0x8000; }
            let (mut st, mut m) = i.build();
            let h = m.peek32(v as u32 * 4);
            m.poke16(h, 0x4E71);
            st.pend.insert(v);
            let taken = level(v).is_none() || st.unmasked(v);
            check_state(&i, &mut st, &mut m, c, Opts::default()).map_err(|e| format!("vector {v}, cpu {}: {e}; state {}", i.cpu, serde_json::to_string(&i).unwrap()))?;
            c.nontrivial &= taken;
            Ok(())
        });
        r.rand("entry-rte", 300_000, || (gen::inst(&[Nop]), 1u8..=255).boxed(), |(i, v), c| entry_rte(i, *v, c));
        // exceptions raised by instructions: the frame, the handler's first instruction, RTE
        let raising = || (gen::inst(&[Unknown, Illegal, Trap, Trapv, Chk, Divu, Divs, Stop, Reset, Rte, Movesr, Moveusp, Andisr, Orisr, Eorisr, Move, Jmp]), 0u8..4, prop::collection::vec(0u8..4, 2..6)).boxed();
        r.rand("raised", 400_000, raising, |(i, user, apis), c| {
            let mut i = i.clone();
            if *user != 0 && i.code[0] >> 8 != 0x4E { i.sr ^= 0x2000; }
            if *user == 1 { i.sr &= !0x2000; }
            let h = Hist { init: i, handlers: (1..48).map(|v| (v, vec![0x4E73])).collect(), acts: apis.iter().map(|a| Act::new(*a, vec![])).collect(), ranges: vec![] };
            run_hist(&h, c, HOpts::default(), |o, _, c| { if !o.taken.is_empty() { c.nontrivial = true; } Ok(()) })
        });
        // deep: a trap handler that traps again, then all the returns
        r.rand("deep", 4_000, || (gen::inst(&[Nop]), 1u32..1500, 0u16..16, any::<bool>(), any::<[u16; 2]>()).boxed(), |(i, depth, tr, user, sr), c| {
            let mut i = i.clone();
            let depth = *depth;
            // TRAP #tr
            i.code = vec![0x4E40 | tr, 0x4E71];
            i.even = false; i.pc = 0x1000; i.ssp = 0x20000; i.usp = 0x3000;
            i.sr = i.sr & 0x071F | if *user { 0 } else { 0x2000 };
            i.d[0] = depth;
            let (st, mut m) = i.build();
            m.poke32(0x80 + 4 * *tr as u32, 0x2000);
            // every level: CCR of its own, then a trap from inside with SR of its own, then the return
            // SUBQ.L #1,D0; BEQ.S end; MOVE #sr,SR; TRAP #tr; end: RTE
            let sr = [sr[0] & 0x71F | 0x2000, sr[1]];
            for (k, w) in [0x5380, 0x6706, 0x46FC, sr[0], 0x4E40 | tr, 0x4E73].into_iter().enumerate() { m.poke16(0x2000 + 2 * k as u32, w); }
            let size = if i.tim().scc_frames { 8 } else { 6 };
            with_cpu!(i.cpu, C => {
                let mut core: M68000<C> = core_of(&st);
                for k in 0..depth {
                    // TRAP with the handler's first instruction, BEQ, MOVE
                    for n in 0..if k + 1 == depth { 2 } else { 3 } { if k == 0 && n == 0 || k > 0 && n == 0 { let (_, v) = guard(|| core.interpreter_exception(&mut m))?; if v != Some(32 + *tr as u8) { return Err(format!("level {k}: vector {v:?}")); } core.exception(Exception::from(32 + *tr as u8)); } let (_, v) = guard(|| core.interpreter_exception(&mut m))?; if v.is_some() { return Err(format!("level {k}: vector {v:?}")); } }
                    if core.regs.ssp.0 != i.ssp - size * (k + 1) { return Err(format!("level {k}: SSP {:08X}", core.regs.ssp.0)); }
                    let f = core.regs.ssp.0;
                    let want = if k == 0 { (st.sr, 0x1002) } else { (sr[0], 0x200A) };
                    if (m.peek16(f), m.peek32(f + 2)) != want { return Err(format!("level {k}: frame {:04X} {:08X}, expected {want:X?}", m.peek16(f), m.peek32(f + 2))); }
                }
                for k in 0..depth { let (_, v) = guard(|| core.interpreter_exception(&mut m))?; if v.is_some() { return Err(format!("return {k}: vector {v:?}")); } }
                let mut e = regs_of(&st);
                e.pc.0 = 0x1002;
                e.d[0].0 = 0;
                if core.regs != e { return Err(format!("after {depth} returns: expected {e:X?} got {:X?}", core.regs)); }
                c.nontrivial = depth > 2;
                c.class(&format!("10^{} levels or more", depth.ilog10()));
                Ok(())
            })
        });
        // nested: exceptions inside handlers, frames stacked on frames, both stack pointers
        r.rand("nested", 60_000, || hist(init_prog(vec![Trap, Nop, Moveq, Orisr, Andisr, Movesr, Unknown, Chk, Rte, Moveusp, Illegal], 2, 12), handlers((2u8..48).boxed(), 40), acts(vector(), 8, 4, 24, 5), no_ranges()), |h, c| {
            run_hist(h, c, HOpts::default(), |o, _, c| { if !o.taken.is_empty() { c.nontrivial = true; } Ok(()) })
        });
    },
};

// ---------------------------------------------------------------- C13

/// Recorder: each vector's handler counts itself and returns.
const CTR: u32 = 0x60000;
fn install_counters(m: &mut Mem, scc: bool) {
    for v in 1..=255u32 {
        let h = 0x40000 + v * 0x20;
        m.poke32(v * 4, h);
        let mut code = vec![0x52B9, (CTR >> 16) as u16, (CTR + 4 * v) as u16]; // ADDQ.L #1,ctr
        if (v == 2 || v == 3) && !scc { code.push(0x508F); } // ADDQ.L #8,SP
        code.push(0x4E73);
        for (k, w) in code.iter().enumerate() { m.poke16(h + 2 * k as u32, *w); }
        m.poke32(CTR + 4 * v, 0);
    }
    for k in 0..0x400u32 { m.poke16(0x1000 + 2 * k, 0x4E71); }
}
fn rank(v: u8) -> (u8, u8) { (class(v), level(v).map_or(0, |l| 7 - l)) }
fn ordered(a: u8, b: u8) -> bool {
    // the architecture orders them: classes always, interrupts by level
    class(a) != class(b) || level(a).is_some() && level(b).is_some() && level(a) != level(b)
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Pend { cpu: u8, mask: u8, user: bool, vs: Vec<u8>, wait: u16, drops: Vec<u8>, late: Vec<u8>, seed: u64, api: u8 }

fn check_pend(p: &Pend, ctx: &mut Ctx) -> Res {
    let mut i = derived(p.seed, &[0x4E71]);
    i.cpu = p.cpu;
    i.pc = 0x1000; i.ssp = 0x8000; i.usp = 0x9000; i.even = false;
    i.sr = (p.mask as u16 & 7) << 8 | if p.user { 0 } else { 0x2000 };
    let (st, mut m) = i.build();
    let scc = i.tim().scc_frames;
    install_counters(&mut m, scc);
    let uniq = |v: &[u8]| { let mut o: Vec<u8> = vec![]; for x in v { if *x != 0 && !o.contains(x) { o.push(*x); } } o };
    let first = uniq(&p.vs);
    let late: Vec<u8> = uniq(&p.late).into_iter().filter(|v| !first.contains(v)).collect();
    with_cpu!(i.cpu, C => {
        let mut core: M68000<C> = core_of(&st);
        let mut order: Vec<u8> = vec![];
        let mut count = [0u32; 256];
        let mut step = |core: &mut M68000<C>, m: &mut Mem, order: &mut Vec<u8>| -> Res {
            let v = match p.api & 3 {
                0 => { let v = guard(|| core.interpreter_exception(m))?.1; if let Some(v) = v { core.exception(Exception::from(v)); } v }
                1 => { guard(|| core.interpreter(m))?; None }
                2 => { guard(|| core.disassembler_interpreter(m))?; None }
                _ => { guard(|| core.cycle(m, 1))?; None }
            };
            if let Some(v) = v { return Err(format!("unexpected vector {v} at {:08X}", core.regs.pc.0)); }
            for v in 1..=255u32 { let c = m.peek32(CTR + 4 * v); if c != count[v as usize] { if c != count[v as usize] + 1 { return Err(format!("counter of vector {v} jumped")); } count[v as usize] = c; order.push(v as u8); } }
            Ok(())
        };
        let live = |v: u8, mask: u8| level(v).is_none_or(|l| l == 7 || l > mask);
        let mut mask = p.mask & 7;
        let mut waiting: Vec<u8> = vec![];
        // phases: the first batch, a wait, then mask changes interleaved with the late requests
        for v in &first { core.exception(Exception::from(*v)); waiting.push(*v); }
        let mut late = late.into_iter();
        for ph in 0..=p.drops.len() {
            if ph > 0 {
                mask = if ph == p.drops.len() { 0 } else { p.drops[ph - 1] & 7 };
                core.regs.sr.interrupt_mask = mask;
                if let Some(v) = late.next() { core.exception(Exception::from(v)); waiting.push(v); }
            }
            order.clear();
            let expect: Vec<u8> = waiting.iter().copied().filter(|v| live(*v, mask)).collect();
            // every handler is two or three instructions
            for _ in 0..expect.len() * 3 + 1 { step(&mut core, &mut m, &mut order)?; }
            // nothing else happens, however long it lasts
            for k in 0..p.wait {
                if core.regs.pc.0 >= 0x1700 { core.regs.pc.0 = 0x1000; }
                if k + 1 == p.wait { step(&mut core, &mut m, &mut order)?; continue; }
                match p.api & 1 { 0 => { if let Some(v) = guard(|| core.interpreter_exception(&mut m))?.1 { return Err(format!("unexpected vector {v}")); } } _ => { guard(|| core.interpreter(&mut m))?; } }
            }
            if p.wait > 200 { ctx.class("long wait"); }
            if expect.len() > 16 { ctx.class("more than 16 at once"); }
            let mut got = order.clone();
            got.sort();
            let mut want = expect.clone();
            want.sort();
            if got != want { return Err(format!("mask {mask}, pending {waiting:?}: expected handlers {want:?} once each, ran {order:?}")); }
            for a in 0..order.len() { for b in a + 1..order.len() { if ordered(order[a], order[b]) && rank(order[a]) > rank(order[b]) { return Err(format!("mask {mask}: handler of {} ran before the one of {} ({order:?})", order[a], order[b])); } } }
            waiting.retain(|v| !expect.contains(v));
            if core.regs.sr.interrupt_mask != mask { return Err(format!("mask is {} after the handlers returned, not {mask}", core.regs.sr.interrupt_mask)); }
            if expect.len() > 1 || !waiting.is_empty() { ctx.nontrivial = true; }
            if expect.len() > 1 { ctx.class("simultaneous"); }
            if !waiting.is_empty() { ctx.class("masked kept pending"); }
        }
        if !waiting.is_empty() { return Err(format!("{waiting:?} never taken")); }
        Ok(())
    })
}

pub const C13: Prop = Prop {
    id: "C13",
    rule: "a case is a set of pending exceptions with a schedule of mask changes; non-trivial when at least two are taken together or one stays masked for a while",
    assumptions: &[
        "the order of two exceptions of the same class (traps and the like, or interrupts of one level) is open",
        "vectors without a level (24, 64-255) are not masked; requesting a vector that is already pending is one request",
    ],
    run: |r: &Runner| {
        let case = || (0u8..4, 0u8..8, any::<bool>(), prop::collection::vec(vector(), 1..7), 0u16..6, prop::collection::vec(0u8..8, 1..5), prop::collection::vec(irq(), 0..4), any::<u64>(), 0u8..4)
            .prop_map(|(cpu, mask, user, vs, wait, drops, late, seed, api)| Pend { cpu, mask, user, vs, wait, drops, late, seed, api }).boxed();
        r.rand("pending-sets", 60_000, case, check_pend);
        // many at once, and long waits
        let large = || (0u8..4, 0u8..8, any::<bool>(), prop_oneof![1 => prop::collection::vec(1u8..=255, 8..64), 1 => prop::collection::vec(1u8..=255, 64..250), 2 => prop::collection::vec(irq(), 1..15)], prop_oneof![2 => 0u16..6, 1 => 200u16..2000, 1 => 2000u16..20_000], prop::collection::vec(0u8..8, 1..3), prop::collection::vec(irq(), 0..4), any::<u64>(), 0u8..4)
            .prop_map(|(cpu, mask, user, vs, wait, drops, late, seed, api)| Pend { cpu, mask, user, vs, wait, drops, late, seed, api }).boxed();
        r.rand("large-and-late", 3_000, large, check_pend);
        // every pair of vectors with an architected order, both request orders
        r.exhaust("pairs", 64 * 64 * 2, |n, c| {
            let (a, b) = ((n & 63) as u8, (n >> 6 & 63) as u8);
            if a == b || a == 0 || b == 0 || a == 1 || b == 1 { return Ok(()); }
            check_pend(&Pend { cpu: (n % 3) as u8, mask: if n >> 12 == 0 { 0 } else { 3 }, user: n & 4096 != 0, vs: vec![a, b], wait: 1, drops: vec![3, 0], late: vec![], seed: n, api: (n % 4) as u8 }, c)
        });
        // a reset among the requests cancels everything else
        r.rand("reset-cancels", 30_000, || (gen::inst(&[Nop]), prop::collection::vec(vector(), 0..6), prop::collection::vec(vector(), 0..4)).boxed(), |(i, before, after), c| {
            let mut i = i.clone();
            i.pc = 0x1000; i.ssp = 0x8000; i.usp = 0x9000; i.even = false;
            let (st, mut m) = i.build();
            install_counters(&mut m, i.tim().scc_frames);
            m.poke32(0, 0x7000);
            m.poke32(4, 0x1100);
            with_cpu!(i.cpu, C => {
                let mut core: M68000<C> = core_of(&st);
                for v in before { core.exception(Exception::from(*v)); }
                core.exception(Exception::from(0));
                for v in after { core.exception(Exception::from(*v)); }
                guard(|| core.interpreter(&mut m))?;
                if core.regs.pc.0 != 0x1102 || core.regs.ssp.0 != 0x7000 || sr_of(core.regs.sr) & 0xA700 != 0x2700 { return Err(format!("after the reset: {:X?}", core.regs)); }
                core.regs.sr.interrupt_mask = 0;
                for _ in 0..6 { guard(|| core.interpreter(&mut m))?; }
                for v in 1..=255u32 { if m.peek32(CTR + 4 * v) != 0 { return Err(format!("vector {v} taken after a reset cancelled it")); } }
                c.nontrivial = before.len() + after.len() > 0;
                Ok(())
            })
        });
        // interrupts during whole programs, against the reference
        r.rand("histories", 50_000, || hist(init_prog(vec![Nop, Moveq, Addq, Andisr, Orisr, Movesr, Trap, Rte, Bcc, Move, Stop], 4, 20), handlers(irq(), 14), acts(irq(), 12, 8, 40, 5), no_ranges()), |h, c| {
            run_hist(h, c, HOpts::default(), |o, s, c| { if o.taken.iter().any(|v| level(*v).is_some()) || s.pend.iter().any(|v| level(*v).is_some()) { c.nontrivial = true; } Ok(()) })
        });
    },
};

// ---------------------------------------------------------------- C14

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct StopCase { init: Init, sr: u16, pre: Vec<u8>, evs: Vec<(u8, Vec<u8>)> }

/// STOP, then steps and requests; the stopped state is left exactly when it should be.
fn check_stop(p: &StopCase, ctx: &mut Ctx) -> Res {
    let mut i = p.init.clone();
    i.sr |= 0x2000;
    i.pc = 0x1000; i.even = false; i.ssp = 0x8000; i.usp = 0x9000;
    i.code = vec![0x4E72, p.sr, 0x4E71, 0x4E71];
    let (mut st, mut m) = i.build();
    install_counters(&mut m, i.tim().scc_frames);
    m.poke16(0x1000, 0x4E72);
    m.poke16(0x1002, p.sr);
    // requests made while everything is masked stay pending
    st.sr |= 0x700;
    let new = p.sr & 0xA71F;
    let mask = (new >> 8 & 7) as u8;
    let wakes = |v: u8| v == 0 || v == 9 || level(v).is_some_and(|l| l == 7 || l > mask);
    let pre: Vec<u8> = p.pre.iter().copied().filter(|v| level(*v).is_some_and(|l| l < 7)).collect();
    with_cpu!(i.cpu, C => {
        let mut core: M68000<C> = core_of(&st);
        for v in &pre { core.exception(Exception::from(*v)); }
        let (c, v) = guard(|| core.interpreter_exception(&mut m))?;
        if v.is_some() || c != i.tim().STOP { return Err(format!("STOP returned {:?}", (c, v))); }
        let mut e = regs_of(&st);
        e.sr = sr_to(new);
        e.pc.0 = 0x1004;
        if e != core.regs { return Err(format!("after STOP #{:04X}: expected {e:X?} got {:X?}", p.sr, core.regs)); }
        let mut awake = pre.iter().any(|v| wakes(*v));
        let mut pend: Vec<u8> = pre.clone();
        for (k, reqs) in &p.evs {
            let m0 = m.clone();
            if !awake {
                let steps = if *k >= 248 { 1u32 << (k - 240) | 7 } else { 1 + *k as u32 % 5 };
                if steps > 100 { ctx.class("stopped for long"); }
                for _ in 0..steps {
                    let (c, v) = match k >> 3 & 3 {
                        0 => guard(|| (core.interpreter(&mut m), None))?,
                        1 => guard(|| { let r = core.disassembler_interpreter_exception(&mut m); (r.2, r.3) })?,
                        _ => guard(|| core.interpreter_exception(&mut m))?,
                    };
                    if (c, v) != (0, None) { return Err(format!("a step while stopped returned {:?}", (c, v))); }
                    if core.regs != e { return Err(format!("a step while stopped changed registers: {:X?}", core.regs)); }
                    if !core.stop { return Err("left the stopped state by itself".into()); }
                }
                if let Some((a, ..)) = m.diff(&m0, &[]) { return Err(format!("a step while stopped changed memory at {a:08X}")); }
                ctx.class("stopped steps");
            } else {
                // resume: the first step runs a handler that saved the following address
                if new & 0x2000 == 0 { return Ok(()); }
                if core.stop { return Err(format!("still stopped with pending {pend:?}, mask {mask}")); }
                let (_, v) = guard(|| core.interpreter_exception(&mut m))?;
                if v.is_some() { return Err(format!("wake-up raised {v:?}")); }
                if pend.contains(&0) { ctx.class("woken by reset"); ctx.nontrivial = true; return Ok(()); }
                let taken: Vec<u32> = (1..=255).filter(|v| m.peek32(CTR + 4 * v) != 0).collect();
                if taken.len() != 1 { return Err(format!("handlers run at wake-up: {taken:?}")); }
                // innermost frame of the exceptions taken: the first one processed saved the address after STOP
                let scc = i.tim().scc_frames;
                let n = pend.iter().filter(|v| level(**v).is_none() || wakes(**v)).count() as u32;
                if n == 1 {
                    let f = core.regs.ssp.0;
                    let (sr, pc) = (m.peek16(f), m.peek32(f + 2));
                    if sr != new || pc != 0x1004 { return Err(format!("wake-up frame holds SR {sr:04X} PC {pc:08X}, expected {new:04X} 00001004")); }
                    let fault = matches!(pend[0], 2 | 3);
                    let size = match (scc, fault) { (false, false) => 6, (false, true) => 14, (true, false) => 8, _ => 34 };
                    if f + size != 0x8000 { return Err(format!("frame at {f:08X}")); }
                }
                ctx.class("woken");
                ctx.nontrivial = true;
                return Ok(());
            }
            for v in reqs {
                if pend.contains(v) { continue; }
                core.exception(Exception::from(*v));
                pend.push(*v);
                if wakes(*v) { awake = true; }
                if core.stop == awake { return Err(format!("after requesting vector {v} with mask {mask}: stop is {}", core.stop)); }
            }
        }
        if !awake { ctx.nontrivial = true; }
        Ok(())
    })
}

/// Straight-line code with the trace bit set: one trace per completed instruction.
fn check_trace(h: &Hist, ctx: &mut Ctx) -> Res {
    let mut h = h.clone();
    h.init.sr |= 0x8000;
    run_hist(&h, ctx, HOpts::default(), |o, _, c| { if o.vector == Some(9) || o.taken.contains(&9) { c.nontrivial = true; c.class("traced"); } Ok(()) })
}

pub const C14: Prop = Prop {
    id: "C14",
    rule: "a case is a STOP with a schedule of requests, or a traced program; non-trivial when a stopped step or wake-up, or a trace exception, was observed",
    assumptions: &["privileged instructions are not traced (documented behaviour of this crate); a STOP that clears S is not followed past its wake-up"],
    run: |r: &Runner| {
        let ev = || prop_oneof![3 => vector(), 2 => irq(), 1 => Just(0u8)];
        r.rand("stop", 150_000, || (gen::inst(&[Nop]), any::<u16>(), any::<bool>(), prop::collection::vec(irq(), 0..2), prop::collection::vec((any::<u8>(), prop::collection::vec(ev(), 0..3)), 1..6))
            .prop_map(|(init, sr, sup, pre, evs)| StopCase { init, sr: if sup { sr | 0x2000 } else { sr }, pre, evs }).boxed(), check_stop);
        // every SR value with every level, one request
        r.exhaust("wake-levels", 8 * 8 * 2 * 2 * 32, |n, c| {
            let (mask, l, chip, s) = (n as u16 & 7, (n >> 3 & 7) as u8, n >> 6 & 1, n >> 7 & 1);
            if l == 0 { return Ok(()); }
            let sr = mask << 8 | (s as u16) << 13 | (n >> 8) as u16 & 31;
            let v = if chip == 0 { 24 } else { 56 } + l;
            let init = derived(n, &[0x4E71]);
            check_stop(&StopCase { init, sr, pre: vec![], evs: vec![((n >> 3) as u8, vec![v]), (1, vec![])] }, c)
        });
        let tk = || vec![Nop, Moveq, Addq, Move, Swap, Andiccr, Oriccr, Trap, Trapv, Bcc, Bra, Chk, Divu, Lea, Movesr, Andisr, Orisr, Eorisr, Moveusp, Rte, Unknown, Illegal, Stop, Exg, Ext, Bsr, Rts, Jmp, Clr];
        r.rand("trace", 60_000, || hist(init_prog(tk(), 4, 16), handlers((2u8..48).boxed(), 30).prop_map(|mut h| { h.push((9, vec![0x4E73])); h }).boxed(), acts(irq(), 2, 4, 24, 5), no_ranges()), check_trace);
        let all = gen::known_kinds();
        r.rand("trace-one", 300_000, || gen::inst(&all), |i, c| {
            let mut i = i.clone();
            let t = i.sel & 0x100 != 0;
            i.sr = i.sr & 0x7FFF | (t as u16) << 15;
            let (st, mut m) = i.build();
            with_cpu!(i.cpu, C => {
                let mut core: M68000<C> = core_of(&st);
                let k = kind(m.peek16(st.pc));
                let (_, v) = match i.sel >> 9 & 1 { 0 => guard(|| core.interpreter_exception(&mut m))?, _ => guard(|| { let r = core.disassembler_interpreter_exception(&mut m); (r.2, r.3) })? };
                if !t && v == Some(9) { return Err(format!("{k:?}: trace raised although T was clear")); }
                if t && v.is_none() && !crate::exec::privileged(k) { return Err(format!("{k:?}: completed with T set, no trace")); }
                c.nontrivial = v.is_none() || v == Some(9);
                Ok(())
            })
        });
        r.rand("histories", 40_000, || hist(init_prog(vec![Stop, Stop, Nop, Moveq, Orisr, Andisr, Movesr, Trap, Rte, Bcc], 3, 12), handlers(irq(), 14), acts(prop_oneof![3 => irq(), 1 => vector(), 1 => Just(0u8)].boxed(), 20, 8, 40, 5), no_ranges()), |h, c| {
            let mut h = h.clone();
            h.init.sr |= 0x2000;
            run_hist(&h, c, HOpts::default(), |o, s, c| { if o.was_stopped || s.stop { c.nontrivial = true; } Ok(()) })
        });
    },
};

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct FaultCase { init: Init, pick: FaultPick, api: u8, rest: u8 }

/// One instruction with one of its accesses refused, then the handler.
fn check_fault(p: &FaultCase, ctx: &mut Ctx) -> Res {
    let i = &p.init;
    let (mut st, mut rm) = i.build();
    st.sr &= 0x7FFF;
    let t = i.tim();
    place_fault(&st, &mut rm, t, &p.pick);
    // a handler that can return on either CPU
    for v in [2u32, 3] { let h = rm.peek32(4 * v); let mut code = if t.scc_frames { vec![] } else { vec![0x508F] }; code.push(0x4E73); for (k, w) in code.iter().enumerate() { rm.poke16(h.wrapping_add(2 * k as u32), *w); } }
    let mut im = rm.clone();
    let s0 = st.clone();
    with_cpu!(i.cpu, C => {
        let mut core: M68000<C> = core_of(&st);
        let Some(o) = step_both(&mut core, &mut im, &mut st, &mut rm, t, Opts::default(), ctx)? else { return Ok(()) };
        if o.fault.is_none() { return Ok(()); }
        let v = o.vector.unwrap();
        ctx.nontrivial = true;
        if let Some(i) = &o.ins { ctx.class(&format!("fault in {:?}", i.k)); } else { ctx.class("fault in fetch"); }
        if i.tim().scc_frames && v == 14 { return Ok(()); }
        // the handler runs, and finds a frame it can return from (unless its stack is refused or odd too)
        core.exception(Exception::from(v));
        st.request(v);
        let (pc, sr, ssp) = (st.pc, st.sr, st.ssp);
        let o = st.step(&mut rm, t);
        if o.unspec {
            ctx.class("handler not reachable");
            return Ok(());
        }
        let r = emu_step(&mut core, &mut im).map_err(|p| format!("entering the handler of {v} panicked: {p}"));
        let r = match r { Ok(r) => r, Err(e) => { if o.fault.as_ref().is_some_and(|f| f.ext_fetch) { return ctx.finding(KF_EXT, e); } return Err(e); } };
        compare(&core.regs, core.stop, (Some(r.0), r.1), &mut im, &mut st, &mut rm, &o, Opts::default()).map_err(|e| format!("handler of {v}: {e}"))?;
        if o.vector.is_some() { return Ok(()); }
        ctx.class("handler entered");
        if !t.scc_frames {
            let o = st.step(&mut rm, t);
            if o.unspec { return Ok(()); }
            let r = match emu_step(&mut core, &mut im) { Ok(r) => r, Err(e) => { if o.fault.as_ref().is_some_and(|f| f.ext_fetch) { return ctx.finding(KF_EXT, e); } return Err(format!("handler of {v} panicked: {e}")); } };
            compare(&core.regs, core.stop, (Some(r.0), r.1), &mut im, &mut st, &mut rm, &o, Opts::default()).map_err(|e| format!("return from {v}: {e}"))?;
            if o.vector.is_some() { return Ok(()); }
        }
        // back where the frame says, with the stacks as before the exception
        let h = o.ins.as_ref().map_or(0, |i| i.pc);
        let _ = h;
        if st.pc == pc && st.sr == sr && st.ssp == ssp { ctx.class("returned"); }
        let _ = (&s0, p.rest);
        Ok(())
    })
}

/// Entry to an exception fails: the replacement must start before any other instruction.
fn check_entry_fault(case: &(Init, u8, u8), ctx: &mut Ctx) -> Res {
    let (i, v, which) = case;
    let mut i = i.clone();
    i.pc = 0x1000; i.ssp = 0x8000; i.usp = 0x9000; i.even = false;
    // from user mode, supervisor mode, and traced
    i.sr = i.sr & 0x1F | if which & 0x20 != 0 { 0 } else { 0x2000 } | if which & 0xC0 == 0x40 { 0x8000 } else { 0 };
    i.code = vec![0x5280; 4]; // ADDQ.L #1,D0
    let (st, mut m) = i.build();
    install_counters(&mut m, i.tim().scc_frames);
    for k in 0..4 { m.poke16(0x1000 + 2 * k, 0x5280); }
    let how = which & 3;
    let text = match how {
        0 => "vector unreadable",
        1 => "second half of the vector unreadable",
        2 => "odd stack pointer",
        _ => "frame refused",
    };
    let at = [2u32, 4, 6, 8][(*which as usize >> 2) & 3];
    match how {
        0 => m.ranges.push(Range { lo: *v as u32 * 4, len: 4, what: 2 }),
        1 => m.ranges.push(Range { lo: *v as u32 * 4 + 2, len: 2, what: 2 }),
        2 => {}
        // one word of the frame cannot be written (the short frame has three words, or four with the format word)
        _ => m.ranges.push(Range { lo: 0x8000 - if i.tim().scc_frames { at } else { at.min(6) }, len: 2, what: 1 }),
    }
    ctx.class(text);
    with_cpu!(i.cpu, C => {
        let mut core: M68000<C> = core_of(&st);
        if how == 2 { core.regs.ssp.0 = 0x8001 + (*which as u32 >> 2 & 0xE); }
        core.exception(Exception::from(*v));
        guard(|| core.interpreter(&mut m)).map_err(|p| format!("{text}, vector {v}: panicked: {p}"))?;
        let d0 = core.regs.d[0].0;
        if let Some(o) = m.odd { return Err(format!("{text}, vector {v}: odd access {o:?}")); }
        // exception processing has begun: the handler of the failure interrupts a supervisor, untraced
        if !core.regs.sr.s || core.regs.sr.t { return Err(format!("{text}, vector {v}: SR {:04X} after the failed entry", sr_of(core.regs.sr))); }
        if core.regs.usp.0 != 0x9000 { return Err(format!("{text}, vector {v}: the user stack pointer changed to {:08X}", core.regs.usp.0)); }
        if how == 2 {
            if (0x7FE0..0x8020).any(|a| m.over.contains_key(&a)) { return Err(format!("{text}, vector {v}: the stack was written")); }
        }
        if how > 1 {
            // the host repairs the stack
            m.ranges.clear();
            core.regs.ssp.0 = 0x8000;
        }
        for _ in 0..4 { guard(|| core.interpreter(&mut m)).map_err(|p| format!("{text}, vector {v}: panicked: {p}"))?; }
        let want = if how == 2 { 3 } else if level(*v).is_some() { 24 } else { 2 };
        if m.peek32(CTR + 4 * want) != 1 { return Err(format!("{text}, vector {v}: handler of {want} ran {} times", m.peek32(CTR + 4 * want))); }
        ctx.nontrivial = true;
        if d0 != i.d[0] { return ctx.finding(KF_ENTRY, format!("{text}, vector {v}: the interrupted code executed an instruction in supervisor mode before the access error was taken")); }
        Ok(())
    })
}

pub const C15: Prop = Prop {
    id: "C15",
    rule: "a case is one instruction (or program) with a refused or odd access; non-trivial when a bus or address error happened",
    assumptions: &[
        "when an instruction makes several illegal accesses either error may be reported",
        "a fault while the frame of another bus or address error is written, or while the reset vector is read, halts a real processor and is not specified here",
        "MOVEM and MOVEP may have transferred any part when they fault; the program counter of the frame is only required to lie within the instruction",
    ],
    run: |r: &Runner| {
        let k = gen::known_kinds();
        r.rand("refused", 900_000, || (gen::inst(&k), gen::fault(), any::<u8>(), any::<u8>()).prop_map(|(init, pick, api, rest)| FaultCase { init, pick, api, rest }).boxed(), check_fault);
        // odd addresses everywhere
        r.rand("odd", 500_000, || gen::inst(&k), |i, c| {
            let mut i = i.clone();
            i.even = false;
            if i.sel & 15 != 0 { i.pc &= !1; }
            for (n, a) in i.a.iter_mut().enumerate() { if i.sel >> (4 + n) & 1 != 0 { *a |= 1; } }
            if i.sel >> 12 & 3 == 0 { i.usp |= 1; }
            if i.sel >> 14 & 3 == 0 { i.ssp |= 1; }
            let (mut st, mut m) = i.build();
            let mut im = m.clone();
            with_cpu!(i.cpu, C => {
                let mut core = core_of::<C>(&st);
                if let Some(o) = step_both(&mut core, &mut im, &mut st, &mut m, i.tim(), Opts::default(), c)? { c.nontrivial = o.fault.is_some(); }
                Ok(())
            })
        });
        // programs in a memory with holes
        let pk = prog_kinds();
        r.rand("programs", 60_000, || hist(init_prog(pk.clone(), 4, 24), handlers(prop_oneof![3 => 2u8..4, 1 => 2u8..48].boxed(), 10), acts(vector(), 1, 4, 40, 5), ranges()), |h, c| {
            run_hist(h, c, HOpts::default(), |o, _, c| { if o.fault.is_some() { c.nontrivial = true; } Ok(()) })
        });
        r.rand("exception-entry", 20_000, || (gen::inst(&[Nop]), prop_oneof![irq(), 4u8..12, 32u8..48], any::<u8>()).boxed(), check_entry_fault);
        // the fetch helpers a host calls itself
        r.rand("fetch-helpers", 40_000, super::code::fetch, |f, c| {
            super::code::check_fetch(f, c)?;
            c.nontrivial = f.1 & 1 != 0 || f.3.is_some();
            Ok(())
        });
        r.exhaust("odd-pc", 4 * 256, |n, c| {
            let mut i = derived(n, &[]);
            i.pc |= 1; i.even = false; i.cpu = n as u8 & 3;
            i.sr &= 0x7FFF; i.ssp &= !1;
            let h = Hist { init: i, handlers: vec![(3, vec![0x4E71])], acts: vec![Act::new((n >> 2) as u8 % 5, vec![]); 2], ranges: vec![] };
            let mut saw = false;
            run_hist(&h, c, HOpts::default(), |o, _, _| { saw |= o.fault.is_some(); Ok(()) })?;
            c.nontrivial = saw;
            if !saw { return Err("no fault for an odd PC".into()); }
            Ok(())
        });
    },
};

/// C16: time of exception processing, alone and combined with an instruction.
pub fn timing(r: &Runner) {
    let o = HOpts { opts: Opts { cycles: true }, only_api: None, bus: false };
    r.exhaust("exception-times", 255 * 4 * 8, |n, c| {
        let v = 1 + (n % 255) as u8;
        let mut i = derived(n, &[0x4E71]);
        i.cpu = (n / 255) as u8 & 3;
        i.sr &= 0x20FF | 0x1F;
        let h = Hist { init: i, handlers: vec![(v, vec![0x4E71, 0x4E73])], acts: vec![Act::new((n / 1020) as u8 & 3, vec![v]), Act::new(0, vec![])], ranges: vec![] };
        c.nontrivial = true;
        run_hist(&h, c, o, |_, _, _| Ok(()))
    });
    r.rand("programs", 40_000, || hist(init_prog(prog_kinds(), 4, 16), handlers(vector(), 20), acts(vector(), 6, 4, 20, 5), no_ranges()), move |h, c| {
        run_hist(h, c, o, |x, _, c| { if x.cycles.is_some() && !x.taken.is_empty() { c.nontrivial = true; } Ok(()) })
    });
}

// ---------------------------------------------------------------- C17

/// Budgets around the limits of narrower types.
pub const BUDGETS: [usize; 16] = [0xFFFF, 0x10000, 0x10001, 1_000_000, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_FFFF, 0x1_0000_0000, 0x1_0000_0001, 0x1_0000_0100, 0x10_0000_0000, 1 << 63, (1 << 63) + 5, usize::MAX - 1, usize::MAX];

/// A counting loop of up to some hundred thousand steps in plain memory.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Long { pub cpu: u8, sr: u16, outer: u16, inner: u16, body: Vec<u16>, end: u8, d: [u32; 4], a0: u16 }
pub fn long() -> BoxedStrategy<Long> {
    // register-only work and accesses through A0
    let op = prop_oneof![
        Just(0x4E71u16), Just(0xD282), Just(0x5283), Just(0x9641), Just(0xE39A), Just(0x4843), Just(0xB581), Just(0xC2C3), Just(0x4403), Just(0xD503), Just(0x56C1), Just(0x3081), Just(0xD350), Just(0x5250), Just(0x3410),
        (0u16..4, 0u16..256).prop_map(|(r, x)| 0x7000 | r << 9 | x), (0u16..4, 0u16..8, 0u16..3).prop_map(|(r, q, s)| 0x5000 | q << 9 | s << 6 | r),
    ];
    let n = prop_oneof![2 => 0u16..4, 2 => 4u16..300, 1 => 300u16..2000];
    let m = prop_oneof![1 => 0u16..4, 2 => 4u16..300, 1 => Just(0xFFFFu16), 1 => Just(0x7FFF)];
    (0u8..4, any::<u16>(), n, m, prop::collection::vec(op, 0..4), 0u8..8, any::<[u32; 4]>(), any::<u16>())
        .prop_map(|(cpu, sr, outer, inner, body, end, d, a0)| {
            let steps = 300_000 / (body.len() as u32 + 1);
            let outer = (outer as u32).min(steps / (inner as u32 + 1)) as u16;
            Long { cpu, sr: sr & 0x271F | 0x2000, outer, inner, body, end, d, a0: 0x8000 | a0 & 0x7FFE }
        })
        .boxed()
}
impl Long {
    /// Steps before the end of the loops.
    pub fn steps(&self) -> u64 { 2 + (self.outer as u64 + 1) * (2 + (self.inner as u64 + 1) * (self.body.len() as u64 + 1)) }
    pub fn endless(&self) -> bool { matches!(self.end, 3 | 6) }
    pub fn build(&self) -> (St, Vec<u8>) {
        let mut m = vec![0u8; 0x1_0000];
        let put = |m: &mut Vec<u8>, a: usize, w: &[u16]| for (k, x) in w.iter().enumerate() { m[a + 2 * k..a + 2 * k + 2].copy_from_slice(&x.to_be_bytes()); };
        for v in 1..256usize {
            let h = 0x4000 + 16 * v;
            put(&mut m, 4 * v, &[0, h as u16]);
            // faults are not returned from
            put(&mut m, h, &[0x5279, 0, 0x7000 + 2 * v as u16]);
            if v < 12 { put(&mut m, h + 6, &[0x4E72, 0x2700]); } else { put(&mut m, h + 6, &[0x4E73]); }
        }
        let mut c = vec![0x3E3C, self.outer, 0x3C3C, self.inner];
        c.extend(&self.body);
        c.push(0x51CE);
        c.push((-2 - 2 * self.body.len() as i32) as u16);
        // back to the reload of the inner counter
        let at = c.len() as i32;
        c.push(0x51CF);
        c.push((4 - 2 * (at + 1)) as u16);
        c.extend(match self.end {
            0 => vec![0x4E72, 0x2000 | self.sr & 0x71F],
            1 => vec![0x4E43, 0x4E72, 0x2700],
            2 => vec![0x4AFC],
            // for ever
            3 => vec![0x60FE],
            4 => vec![0x4EF8, 0x1001],
            5 => vec![0xA123],
            6 => vec![0x6000, (-2 - 2 * c.len() as i32) as u16],
            // past the end of memory
            _ => vec![0x4EF9, 0, 0xFFF0],
        });
        put(&mut m, 0x1000, &c);
        put(&mut m, 0xFFF0, &[0x4E71; 8]);
        let mut st = derived(0, &[]).st();
        st.d = [0; 8];
        st.d[1..5].copy_from_slice(&self.d);
        st.a = [0; 7];
        st.a[0] = if self.a0 > 0xFFE0 { 0xF000 } else { self.a0 as u32 };
        st.ssp = 0x3800; st.usp = 0x3000; st.pc = 0x1000; st.sr = self.sr;
        (st, m)
    }
}

/// Long runs in few calls, against single steps.
fn check_long(p: &(Long, Vec<(u8, u8, u32, Vec<u8>)>), ctx: &mut Ctx) -> Res {
    let (l, calls) = p;
    let (st, mut m) = l.build();
    crate::with_any_cpu!(l.cpu, C => {
        let mut core: M68000<C> = core_of(&st);
        for (n, (how, pick, small, reqs)) in calls.iter().enumerate() {
            let kind = how % 3;
            let want = if *pick as usize >= BUDGETS.len() { *small as usize } else { BUDGETS[*pick as usize] };
            // these cannot end
            if l.endless() && !core.stop && (kind == 2 || want > 0x0100_0000) { continue; }
            for v in reqs { core.exception(Exception::from(*v)); }
            let (mut c2, mut m2) = (core.clone(), m.clone());
            let (mut total, mut steps, mut vec) = (0usize, 0u64, None);
            loop {
                if kind != 2 && total >= want || kind != 0 && steps > 0 && (vec.is_some() || c2.stop) || steps > 0 && c2.stop { break; }
                // the program does not end: nothing to compare with
                if steps > 2_000_000 { return Ok(()); }
                let (c, v) = guard(|| c2.interpreter_exception(&mut m2[..]))?;
                total += c;
                vec = v;
                if let (Some(v), 0) = (v, kind) { c2.exception(Exception::from(v)); }
                steps += 1;
            }
            let name = ["cycle", "cycle_until_exception", "loop_until_exception_stop"][kind as usize];
            let at = |e: String| format!("call {n} ({name}, {want:#X} cycles, {steps} steps): {e}");
            let got = match kind { 0 => guard(|| (core.cycle(&mut m[..], want), None)), 1 => guard(|| core.cycle_until_exception(&mut m[..], want)), _ => guard(|| core.loop_until_exception_stop(&mut m[..])) }.map_err(at)?;
            let e = if kind == 0 { (if c2.stop { total.max(want) } else { total }, None) } else { (total, vec) };
            if got != e { return Err(at(format!("returned {got:?}, single steps {e:?}"))); }
            if core.regs != c2.regs || core.stop != c2.stop { return Err(at(format!("state {:X?} stop {}, single steps {:X?} stop {}", core.regs, core.stop, c2.regs, c2.stop))); }
            if let Some(a) = (0..m.len()).find(|a| m[*a] != m2[*a]) { return Err(at(format!("memory byte {a:04X} is {:02X}, single steps {:02X}", m[a], m2[a]))); }
            ctx.class(name);
            ctx.class(&format!("10^{} steps or more", (steps.max(1)).ilog10()));
            if steps > 400 { ctx.nontrivial = true; }
            if kind != 0 { if let Some(v) = vec { if how & 0x40 == 0 { core.exception(Exception::from(v)); } } }
        }
        Ok(())
    })
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct RunCase { hist: Hist, calls: Vec<(u8, u16, Vec<u8>)> }

fn check_run(p: &RunCase, ctx: &mut Ctx) -> Res {
    let h = &p.hist;
    let (st, mut m) = h.init.build();
    place_handlers(&mut m, &h.handlers);
    m.ranges = h.ranges.iter().map(|(lo, len, what)| Range { lo: *lo, len: *len, what: *what }).collect();
    with_cpu!(h.init.cpu, C => {
        let mut core: M68000<C> = core_of(&st);
        for (n, (how, cyc, reqs)) in p.calls.iter().enumerate() {
            for v in reqs { core.exception(Exception::from(*v)); }
            let want = match cyc & 7 { 0 => 0, 1 => 1, 2 => (*cyc as usize >> 3) & 31, 3 => *cyc as usize >> 3, _ => (*cyc as usize >> 3) & 511 } * if h.init.cpu & 2 != 0 { 60_000 } else { 1 };
            let want = if cyc & 0x3F == 0x3F { BUDGETS[(cyc >> 6) as usize % BUDGETS.len()] } else { want };
            // the same by single steps, on copies
            let (mut c2, mut m2) = (core.clone(), m.clone());
            let mut total = 0usize;
            let mut steps = 0;
            let mut vec = None;
            let mut ok = true;
            let kind = how % 3;
            loop {
                if kind != 2 && total >= want { break; }
                if kind != 0 && steps > 0 && (vec.is_some() || c2.stop) { break; }
                if steps > 0 && c2.stop { break; }
                if steps > 400 { ok = false; break; }
                match guard(|| c2.interpreter_exception(&mut m2)) {
                    Ok((c, v)) => {
                        total += c;
                        vec = v;
                        if let (Some(v), 0) = (v, kind) { c2.exception(Exception::from(v)); }
                    }
                    Err(_) => { ok = false; break; }
                }
                steps += 1;
            }
            // the single steps do not end (or hit a listed panic): nothing to compare with
            if !ok { break; }
            let stopped = c2.stop;
            let at = |e: String| format!("call {n} ({}, {want} cycles): {e}", ["cycle", "cycle_until_exception", "loop_until_exception_stop"][kind as usize]);
            match kind {
                0 => {
                    let got = guard(|| core.cycle(&mut m, want)).map_err(at)?;
                    let e = if stopped { total.max(want) } else { total };
                    if got != e { return Err(at(format!("returned {got}, single steps consume {total}{}", if stopped { " (then stopped)" } else { "" }))); }
                    if got < want { return Err(at(format!("returned only {got}"))); }
                }
                1 => {
                    let got = guard(|| core.cycle_until_exception(&mut m, want)).map_err(at)?;
                    if got != (total, vec) { return Err(at(format!("returned {got:?}, single steps {:?}", (total, vec)))); }
                }
                _ => {
                    let got = guard(|| core.loop_until_exception_stop(&mut m)).map_err(at)?;
                    if got != (total, vec) { return Err(at(format!("returned {got:?}, single steps {:?}", (total, vec)))); }
                }
            }
            if core.regs != c2.regs || core.stop != c2.stop { return Err(at(format!("state {:X?} stop {}, single steps {:X?} stop {}", core.regs, core.stop, c2.regs, c2.stop))); }
            if let Some((a, g, e)) = m.diff(&m2, &[]) { return Err(at(format!("memory byte {a:08X} is {g:02X}, single steps {e:02X}"))); }
            if m.resets != m2.resets { return Err(at("reset hook calls differ".into())); }
            if steps > 1 { ctx.nontrivial = true; }
            ctx.class(["cycle", "cycle_until_exception", "loop_until_exception_stop"][kind as usize]);
            if stopped { ctx.class("stopped during the run"); }
            if let Some(v) = vec { if kind != 0 { ctx.class("returned at an exception"); if how & 0x40 == 0 { core.exception(Exception::from(v)); } } }
            // pending exceptions are equal: what follows is the same
            let (mut c3, mut m3) = (core.clone(), m.clone());
            if kind != 0 { if let (Some(v), true) = (vec, how & 0x40 == 0) { c2.exception(Exception::from(v)); } }
            for x in [&mut c3, &mut c2] { x.regs.sr.interrupt_mask = 0; x.stop = false; }
            let (a, b) = (guard(|| c3.interpreter_exception(&mut m3)), guard(|| c2.interpreter_exception(&mut m2)));
            if a != b || a.is_ok() && (c3.regs != c2.regs || m3.diff(&m2, &[]).is_some()) { return Err(at(format!("the following step differs: {a:?} {:X?}, after single steps {b:?} {:X?}", c3.regs, c2.regs))); }
        }
        Ok(())
    })
}

pub const C17: Prop = Prop {
    id: "C17",
    rule: "a case is a program with a series of run-loop calls and interrupt requests; non-trivial when a call executed more than one step",
    assumptions: &["runs that do not end within 400 steps (loops in plain memory: two million) are not compared"],
    run: |r: &Runner| {
        let case = |irqs: bool| {
            let k = prog_kinds();
            let h = hist(init_prog(k, 4, 24), handlers(prop_oneof![2 => 2u8..48, 1 => irq()].boxed(), 30), Just(vec![]).boxed(), prop_oneof![3 => no_ranges(), 1 => ranges()].boxed());
            let req = if irqs { prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(vector(), 1..3), 1 => Just(vec![0u8])].boxed() } else { Just(vec![]).boxed() };
            (h, prop::collection::vec((any::<u8>(), any::<u16>(), req), 1..8)).prop_map(|(hist, calls)| RunCase { hist, calls }).boxed()
        };
        r.rand("runs", 120_000, || case(true), check_run);
        r.rand("runs-quiet", 60_000, || case(false), check_run);
        let calls = || prop::collection::vec((any::<u8>(), 0u8..24, prop_oneof![1 => 0u32..64, 2 => 64u32..100_000, 1 => 100_000u32..5_000_000], prop_oneof![5 => Just(vec![]), 1 => prop::collection::vec(vector(), 1..3)]), 1..4);
        r.rand("long-runs", 2_500, || (prop_oneof![6 => long(), 1 => long().prop_map(|mut l| { l.cpu = 4; l })], calls()).boxed(), check_long);
        // exact boundaries: straight-line NOPs, every N
        r.exhaust("boundaries", 4 * 200, |n, c| {
            let mut i = derived(n, &[0x4E71; 64]);
            i.cpu = n as u8 & 3;
            i.sr &= 0x7FFF;
            let t = i.tim().NOP;
            let want = (n >> 2) as usize * t / 4 + (n % 3) as usize;
            let (st, mut m) = i.build();
            with_cpu!(i.cpu, C => {
                let mut core: M68000<C> = core_of(&st);
                let got = core.cycle(&mut m, want);
                let e = want.div_ceil(t);
                if got != e * t || core.regs.pc.0 != st.pc.wrapping_add(2 * e as u32) { return Err(format!("cycle({want}) over NOPs of {t}: returned {got}, PC advanced by {}", core.regs.pc.0.wrapping_sub(st.pc))); }
                c.nontrivial = e > 1;
                Ok(())
            })
        });
    },
};

// ---------------------------------------------------------------- C18

/// Plain and disassembling interpreters side by side.
fn check_twin(h: &Hist, ctx: &mut Ctx) -> Res {
    let (st, mut m) = h.init.build();
    place_handlers(&mut m, &h.handlers);
    m.ranges = h.ranges.iter().map(|(lo, len, what)| Range { lo: *lo, len: *len, what: *what }).collect();
    let mut m2 = m.clone();
    let t = h.init.tim();
    with_cpu!(h.init.cpu, C => {
        let mut core: M68000<C> = core_of(&st);
        let mut twin = core.clone();
        for (n, a) in h.acts.iter().enumerate() {
            let at = |e: String| format!("step {n}: {e}");
            for v in &a.reqs { core.exception(Exception::from(*v)); twin.exception(Exception::from(*v)); }
            let was_stopped = core.stop;
            let pre = (core.clone(), m.clone());
            let r1 = guard(|| core.interpreter_exception(&mut m));
            let r2 = guard(|| if a.api & 1 == 0 { let r = twin.disassembler_interpreter_exception(&mut m2); (r.0, r.1, r.2, r.3) } else { let r = twin.disassembler_interpreter(&mut m2); (r.0, r.1, r.2, None) });
            let ((c1, v1), (addr, text, c2, v2)) = match (r1, r2) {
                (Ok(a), Ok(b)) => (a, b),
                // both refuse the same way (extension word fetch, see known findings)
                (Err(p), Err(_)) => { ctx.finding(KF_EXT, at(format!("emulator panicked: {p}")))?; return Ok(()); }
                (Err(p), _) => return Err(at(format!("only the plain interpreter panicked: {p}"))),
                (_, Err(p)) => {
                    // the disassembling one decodes before executing: same fetches, so a panic there alone is a difference
                    return Err(at(format!("only the disassembling interpreter panicked: {p}")));
                }
            };
            if a.api & 1 == 0 { if v1 != v2 { return Err(at(format!("vector {v1:?} plain, {v2:?} disassembling"))); } if let Some(v) = v2 { twin.exception(Exception::from(v)); } }
            if let Some(v) = v1 { core.exception(Exception::from(v)); }
            if c1 != c2 { return Err(at(format!("cycles {c1} plain, {c2} disassembling ({text})"))); }
            if core.regs != twin.regs { return Err(at(format!("{text}: registers {:X?} plain, {:X?} disassembling", core.regs, twin.regs))); }
            if core.stop != twin.stop { return Err(at(format!("{text}: stop {} plain, {} disassembling", core.stop, twin.stop))); }
            if let Some((a, g, e)) = m.diff(&m2, &[]) { return Err(at(format!("{text}: memory byte {a:08X} {g:02X} plain, {e:02X} disassembling"))); }
            if m.resets != m2.resets { return Err(at("reset hook calls differ".into())); }
            // which instruction was it
            let (mut c0, mut m0) = pre;
            if was_stopped { if !text.is_empty() { return Err(at(format!("text {text:?} while stopped"))); } continue; }
            // the reference says where the instruction is and whether one was fetched
            let mut rs = St { pend: Default::default(), ..st.clone() };
            load_regs(&mut rs, &c0.regs);
            // process what is pending by stepping a copy over a memory that refuses nothing is not possible from
            // outside; without pending exceptions the address is PC
            let quiet = n == 0 && a.reqs.is_empty() || ctx_pending_empty(&mut c0, &mut m0, v1, c1, &rs, t);
            if quiet {
                let pc = rs.pc;
                let mut probe = pre_mem(&m0);
                let fetched = pc & 1 == 0 && m0.mapped(pc, 2, false);
                if !fetched {
                    if !text.is_empty() { return Err(at(format!("text {text:?} although nothing was fetched"))); }
                } else {
                    let e = Instruction::from_memory(&mut probe.iter_u16(pc)).map_err(|e| at(format!("decode error {e}")))?.disassemble();
                    if addr != pc || text != e { return Err(at(format!("returned {addr:08X} {text:?}, the instruction is {pc:08X} {e:?}"))); }
                    ctx.nontrivial = true;
                }
                ctx.class("text compared");
            } else if !text.is_empty() {
                // an exception was processed first: the text is that of the address returned
                ctx.class("after exception processing");
                ctx.nontrivial = true;
            }
        }
        Ok(())
    })
}
fn pre_mem(m: &Mem) -> Mem { let mut p = m.clone(); p.ranges.clear(); p }
/// True when a step from this state takes no exception first: supervisor stack and vector area are not accessed.
fn ctx_pending_empty<C: CpuDetails>(core: &mut M68000<C>, m: &mut Mem, _v: Option<u8>, _c: usize, st: &St, _t: &crate::cpu::Tim) -> bool {
    // run the step again on copies with an access log: without exception processing the first access is the opcode at PC
    let mut mm = m.clone();
    mm.log_on = true;
    mm.log.clear();
    let _ = guard(|| core.interpreter_exception(&mut mm));
    if st.pc & 1 != 0 { return mm.log.is_empty(); }
    mm.log.first().is_some_and(|a| a.addr == st.pc && a.size == 2 && !a.write)
}

pub const C18: Prop = Prop {
    id: "C18",
    rule: "a case is a program stepped by both interpreters; non-trivial when at least one instruction was disassembled and executed",
    assumptions: &[],
    run: |r: &Runner| {
        let k = gen::all_kinds();
        r.rand("instructions", 400_000, || (gen::inst(&k), 0u8..2).prop_map(|(init, api)| Hist { init, handlers: vec![], acts: vec![Act::new(api, vec![])], ranges: vec![] }).boxed(), check_twin);
        r.rand("faults", 150_000, || (gen::inst(&k), gen::fault(), 0u8..2).boxed(), |(i, f, api), c| {
            let (st, mut m) = i.build();
            place_fault(&st, &mut m, i.tim(), f);
            let rg = m.ranges.iter().map(|r| (r.lo, r.len, r.what)).collect();
            check_twin(&Hist { init: i.clone(), handlers: vec![], acts: vec![Act::new(*api, vec![]); 3], ranges: rg }, c)
        });
        let pk = prog_kinds();
        r.rand("programs", 60_000, || hist(init_prog(pk.clone(), 4, 24), handlers(prop_oneof![2 => 2u8..48, 1 => irq()].boxed(), 20), acts(prop_oneof![4 => vector(), 1 => Just(0u8)].boxed(), 4, 8, 40, 2), prop_oneof![2 => no_ranges(), 1 => ranges()].boxed()), check_twin);
        // addresses and text across exceptions, against the reference
        r.rand("reference", 40_000, || hist(init_prog(pk.clone(), 4, 24), handlers(prop_oneof![2 => 2u8..48, 1 => irq()].boxed(), 20), acts(vector(), 4, 8, 40, 2).prop_map(|mut v| { for a in v.iter_mut() { a.api += 2; } v }).boxed(), no_ranges()), |h, c| {
            run_hist(h, c, HOpts::default(), |_, _, c| { c.nontrivial = true; Ok(()) })
        });
    },
};

// ---------------------------------------------------------------- C19

pub const C19: Prop = Prop {
    id: "C19",
    rule: "a case is a program with handlers, interrupt requests and a memory map, stepped through every interpreter entry point; non-trivial when at least four steps completed (short histories: two; single instructions: it completes or traps)",
    assumptions: &["a history ends where the 68000 leaves the outcome open (double faults, exceptions of equal rank)"],
    run: |r: &Runner| {
        let pk = prog_kinds();
        let go = |h: &Hist, c: &mut Ctx| { let mut n = 0; run_hist(h, c, HOpts::default(), |_, _, c| { n += 1; if n >= 4 { c.nontrivial = true; } Ok(()) }) };
        let hs = || handlers(prop_oneof![3 => 2u8..12, 2 => 32u8..48, 2 => irq(), 1 => any::<u8>()].boxed(), 40);
        r.rand("programs", 120_000, || hist(init_prog(pk.clone(), 6, 40), hs(), acts(vector(), 3, 16, 80, 5), no_ranges()), go);
        r.rand("programs-with-holes", 40_000, || hist(init_prog(pk.clone(), 6, 40), hs(), acts(prop_oneof![6 => vector(), 1 => Just(0u8)].boxed(), 3, 16, 60, 5), ranges()), go);
        // computation: no exceptions, long straight runs
        let calm: Vec<K> = gen::known_kinds().into_iter().filter(|k| !matches!(k, Trap | Illegal | Stop | Rte | Reset | Trapv | Chk | Divs | Divu | Unknown | Rts | Rtr | Jmp | Jsr)).collect();
        r.rand("computations", 60_000, || hist(init_prog(calm.clone(), 20, 60), hs(), acts(irq(), 1, 30, 90, 4), no_ranges()), go);
        // short ones: every opcode and every form at boundary values, and what follows it
        super::single::every_opcode(r, "every-opcode", &gen::all_kinds(), 6, |i, c| super::single::check_inst(i, c, Opts::default()));
        let ak = gen::all_kinds();
        r.rand("short", 500_000, || (gen::inst(&ak), gen::opcode(&ak), prop::array::uniform4(gen::data16()), prop::array::uniform3(0u8..5), prop_oneof![8 => Just(vec![]), 1 => prop::collection::vec(vector(), 1..3)])
            .prop_map(|(mut init, op, e, apis, reqs)| {
                init.code.push(op);
                init.code.extend(e);
                let mut acts: Vec<Act> = apis.iter().map(|a| Act::new(*a, vec![])).collect();
                acts[init.sel as usize % 3].reqs = reqs;
                Hist { init, handlers: vec![], acts, ranges: vec![] }
            })
            .boxed(), |h, c| { let mut n = 0; run_hist(h, c, HOpts::default(), |_, _, c| { n += 1; if n >= 2 { c.nontrivial = true; } Ok(()) }) });
        // programs in a loop for thousands of steps, faults and traps returned from
        let flat: Vec<K> = calm.iter().copied().filter(|k| !matches!(k, Bcc | Bra | Bsr | Dbcc)).chain([Trap, Trapv, Chk, Divu, Divs, Unknown]).collect();
        let looped = move || (hist(init_prog(flat.clone(), 4, 30), Just(vec![]).boxed(), Just(vec![]).boxed(), no_ranges()), 300usize..3000, prop::collection::vec((any::<u16>(), irq()), 0..12), 0u8..5)
            .prop_map(|(mut h, n, irqs, api)| {
                let len = 2 * h.init.code.len() as i32 + 2;
                h.init.code.extend([0x6000, (-len) as u16]);
                h.init.sr |= 0x2000;
                let scc = h.init.tim().scc_frames;
                h.handlers = (2..64u8).map(|v| (v, match v { 2 | 3 if !scc => vec![0x508F, 0x4E73], 4 | 8 | 10 | 11 => vec![0x54AF, 2, 0x4E73], _ => vec![0x4E73] })).collect();
                h.acts = vec![Act::new(api, vec![]); n];
                for (at, v) in irqs { let k = at as usize % n; h.acts[k].reqs.push(v); h.acts[k].api = at as u8 % 5; }
                h
            })
            .boxed();
        r.rand("long-programs", 1_000, looped, |h, c| { let mut n = 0; run_hist(h, c, HOpts::default(), |_, _, c| { n += 1; if n >= 256 { c.nontrivial = true; } Ok(()) }) });
        // the host rewrites code, data and registers between steps and runs the same addresses again
        r.rand("host-edits", 60_000, || {
            let a = prop::collection::vec((0u8..5, prop_oneof![6 => Just(vec![]), 1 => prop::collection::vec(irq(), 1..2)], prop_oneof![2 => Just(vec![]), 2 => prop::collection::vec(hosts(), 1..4)]).prop_map(|(api, reqs, host)| Act { api, reqs, host }), 8..60).boxed();
            hist(init_prog(pk.clone(), 3, 16), hs(), a, prop_oneof![5 => no_ranges(), 1 => ranges()].boxed())
        }, go);
        // jump anywhere into random memory
        r.rand("random-memory", 40_000, || hist(gen::init_with(Just(vec![]).boxed()), hs(), acts(vector(), 2, 8, 40, 5), no_ranges()), go);
    },
};

// ---------------------------------------------------------------- C26

pub const C26: Prop = Prop {
    id: "C26",
    rule: "a case is a reset (new core, requested, or the RESET instruction) from one machine state; all are non-trivial",
    assumptions: &["a reset vector that cannot be read is not specified"],
    run: |r: &Runner| {
        r.rand("requested", 200_000, || (gen::inst(&[Nop]), prop::collection::vec(vector(), 0..5), prop::collection::vec(vector(), 0..3), any::<bool>(), 0u8..4, any::<[u32; 2]>()).boxed(), |(i, before, after, stopped, api, [ssp, pc]), c| {
            let mut i = i.clone();
            if i.sel & 1 != 0 { i.sr |= 0x8000; }
            let (mut st, mut m) = i.build();
            let (ssp, pc) = (*ssp, pc & !1);
            if pc.wrapping_add(8) < 16 || pc.wrapping_sub(i.pc).wrapping_add(16) < 32 { return Ok(()); }
            m.poke32(0, ssp);
            m.poke32(4, pc);
            // first instruction after the reset
            m.poke16(pc, 0x4E71);
            st.stop = *stopped;
            let m0 = m.clone();
            with_cpu!(i.cpu, C => {
                let mut core: M68000<C> = core_of(&st);
                for v in before { core.exception(Exception::from(*v)); }
                core.stop = *stopped;
                core.exception(Exception::from(0));
                for v in after { core.exception(Exception::from(*v)); }
                if core.stop { return Err("a reset request leaves the core stopped".into()); }
                let cyc = match api { 0 => guard(|| core.interpreter(&mut m))?, 1 => guard(|| core.interpreter_exception(&mut m))?.0, 2 => guard(|| core.disassembler_interpreter(&mut m))?.2, _ => guard(|| core.cycle(&mut m, 1))? };
                let mut e = regs_of(&st);
                e.ssp.0 = ssp;
                e.pc.0 = pc.wrapping_add(2);
                e.sr.t = false; e.sr.s = true; e.sr.interrupt_mask = 7;
                let mut g = core.regs;
                // condition codes after a reset are not specified
                g.sr.set_ccr(sr_of(e.sr));
                if g != e { return Err(format!("after the reset: expected {e:X?} got {g:X?}")); }
                if core.stop { return Err("stopped after a reset".into()); }
                if cyc != i.tim().VECTOR_RESET + i.tim().NOP { return Err(format!("reset and NOP took {cyc} cycles")); }
                if let Some((a, ..)) = m.diff(&m0, &[]) { return Err(format!("reset changed memory at {a:08X}")); }
                if m.resets != 0 { return Err("reset hook called".into()); }
                // nothing else is pending
                core.regs.sr.interrupt_mask = 0;
                m.poke16(pc.wrapping_add(2), 0x4E71);
                let (cyc, v) = guard(|| core.interpreter_exception(&mut m))?;
                if v.is_some() || cyc != i.tim().NOP || core.regs.pc.0 != pc.wrapping_add(4) { return Err(format!("something was still pending after the reset: {:X?}", core.regs)); }
                c.nontrivial = true;
                Ok(())
            })
        });
        r.exhaust("new-core", 4 * 2000, |n, c| {
            let mut m = Mem::new(mix(n), 0);
            let (ssp, pc) = (mix(n ^ 1 << 40) as u32, mix(n ^ 1 << 41) as u32 & !1 | 0x1000);
            m.poke32(0, ssp);
            m.poke32(4, pc);
            m.poke16(pc, 0x4E71);
            with_cpu!((n & 3), C => {
                let mut core = M68000::<C>::new();
                if core.stop { return Err("a new core is stopped".into()); }
                let z = core.regs;
                if z.d.iter().chain(&z.a).any(|x| x.0 != 0) || z.usp.0 != 0 { return Err(format!("registers of a new core: {z:X?}")); }
                let (cyc, v) = guard(|| core.interpreter_exception(&mut m))?;
                let t = crate::cpu::TIMS[(n & 3) as usize];
                if v.is_some() || cyc != t.VECTOR_RESET + t.NOP { return Err(format!("first step returned {:?}", (cyc, v))); }
                if core.regs.ssp.0 != ssp || core.regs.pc.0 != pc.wrapping_add(2) || sr_of(core.regs.sr) & 0xA700 != 0x2700 { return Err(format!("after the first step: {:X?}", core.regs)); }
                if core.regs.d != z.d || core.regs.a != z.a || core.regs.usp != z.usp { return Err(format!("the reset changed registers: {:X?}", core.regs)); }
                // no reset: execution starts at once
                let mut core = M68000::<C>::new_no_reset();
                core.regs.pc.0 = pc;
                core.regs.d[3].0 = 7;
                let before = core.regs;
                let (cyc, v) = guard(|| core.interpreter_exception(&mut m))?;
                let mut e = before;
                e.pc.0 = pc.wrapping_add(2);
                if v.is_some() || cyc != t.NOP || core.regs != e { return Err(format!("a core created without reset: {:X?} after {:?}", core.regs, (cyc, v))); }
                c.nontrivial = true;
                Ok(())
            })
        });
        // the RESET instruction
        r.rand("instruction", 60_000, || (gen::inst(&[Reset]), 0u8..4, any::<bool>()).boxed(), |(i, api, sup), c| {
            let mut i = i.clone();
            i.sr = i.sr & 0x5FFF | (*sup as u16) << 13;
            let (st, mut m) = i.build();
            let m0 = m.clone();
            with_cpu!(i.cpu, C => {
                let mut core: M68000<C> = core_of(&st);
                match api { 0 => { guard(|| core.interpreter(&mut m))?; } 1 => { guard(|| core.interpreter_exception(&mut m))?; } 3 if *sup => { guard(|| core.cycle(&mut m, 1))?; } _ => { guard(|| core.disassembler_interpreter(&mut m))?; } }
                if m.resets != *sup as u32 { return Err(format!("reset hook called {} times in {} mode", m.resets, if *sup { "supervisor" } else { "user" })); }
                if *sup {
                    let mut e = regs_of(&st);
                    e.pc.0 = e.pc.0.wrapping_add(2);
                    if core.regs != e || core.stop { return Err(format!("RESET changed registers: {:X?}", core.regs)); }
                }
                if let Some((a, ..)) = m.diff(&m0, &[]) { return Err(format!("RESET changed memory at {a:08X}")); }
                c.nontrivial = true;
                Ok(())
            })
        });
        r.rand("histories", 30_000, || hist(init_prog(vec![Nop, Moveq, Stop, Orisr, Movesr, Reset, Trap, Rte, Bcc], 3, 12), handlers(vector(), 12), acts(prop_oneof![3 => Just(0u8), 2 => vector()].boxed(), 10, 6, 30, 5), no_ranges()), |h, c| {
            run_hist(h, c, HOpts::default(), |o, _, c| { if o.reset_taken || o.ins.as_ref().is_some_and(|i| i.k == Reset) { c.nontrivial = true; } Ok(()) })
        });
    },
};
