//! C27: clones, interleavings, threads, memory implementations, save and restore.
use super::ffi::{callbacks, flat, Ud};
use super::hist::*;
use super::Prop;
use crate::diff::*;
use crate::exec::St;
use crate::mem::{mix, Mem, Range};
use crate::run::{guard, Ctx, Res, Runner};
use crate::with_cpu;
use m68000::exception::Exception;
use m68000::{CpuDetails, MemoryAccess, M68000};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

/// What one step shows to the outside.
type Seen = (Result<(u64, u8, u32, String), ()>, [u32; 19], bool);

/// One step through one of the interpreter functions.
fn step<C: CpuDetails, M: MemoryAccess + ?Sized>(core: &mut M68000<C>, m: &mut M, a: &Act) -> Seen {
    for v in &a.reqs { core.exception(Exception::from(*v)); }
    let r = guard(|| match a.api % 6 {
        1 => (core.interpreter(m) as u64, 0, 0, String::new()),
        2 => { let (p, t, c, v) = core.disassembler_interpreter_exception(m); if let Some(v) = v { core.exception(Exception::from(v)); } (c as u64, v.unwrap_or(0), p, t) }
        3 => { let (p, t, c) = core.disassembler_interpreter(m); (c as u64, 0, p, t) }
        4 => { let (c, v) = core.interpreter_exception(m); (c as u64, v.unwrap_or(0), 0, String::new()) }
        5 => { let (c, v) = core.cycle_until_exception(m, 20); if let Some(v) = v { core.exception(Exception::from(v)); } (c as u64, v.unwrap_or(0), 0, String::new()) }
        _ => { let (c, v) = core.interpreter_exception(m); if let Some(v) = v { core.exception(Exception::from(v)); } (c as u64, v.unwrap_or(0), 0, String::new()) }
    });
    (r.map_err(|_| ()), flat(&core.regs), core.stop)
}
fn world(h: &Hist) -> (St, Mem) {
    let (st, mut m) = h.init.build();
    place_handlers(&mut m, &h.handlers);
    m.poke32(0, st.ssp);
    m.poke32(4, st.pc);
    m.ranges = h.ranges.iter().map(|(lo, len, what)| Range { lo: *lo, len: *len, what: *what }).collect();
    (st, m)
}

/// Clones and copies taken in mid-history evolve like the original, with other cores running in between and elsewhere.
fn check_clone(p: &(Hist, Hist, u8, bool), ctx: &mut Ctx) -> Res {
    let (h, other, cut, threaded) = p;
    let (st, mut m) = world(h);
    let cut = *cut as usize % (h.acts.len() + 1);
    with_cpu!(h.init.cpu, C => {
        let mut core: M68000<C> = core_of(&st);
        for a in &h.acts[..cut] { if step(&mut core, &mut m, a).0.is_err() { return Ok(()); } }
        let (mut twin, mut tm) = (core.clone(), m.clone());
        if flat(&twin.regs) != flat(&core.regs) || twin.stop != core.stop { return Err("a clone differs from its original".into()); }
        let rest = &h.acts[cut..];
        // the original, undisturbed
        let mut seen = vec![];
        for a in rest { let s = step(&mut core, &mut m, a); let end = s.0.is_err(); seen.push(s); if end { break; } }
        let follow = |twin: &mut M68000<C>, tm: &mut Mem, noise: &mut dyn FnMut(usize)| -> Res {
            for (k, want) in seen.iter().enumerate() {
                noise(k);
                let got = step(twin, tm, &rest[k]);
                if got != *want { return Err(format!("step {k} after the clone: {got:X?}, the original {want:X?}")); }
            }
            if let Some((a, g, e)) = tm.diff(&m, &[]) { return Err(format!("memory byte {a:08X} is {g:02X} with the clone, {e:02X} with the original")); }
            if tm.resets != m.resets { return Err("reset hook calls differ".into()); }
            Ok(())
        };
        // the clone, with another core stepping in between
        let (ost, mut om) = world(other);
        with_cpu!(other.init.cpu, D => {
            let mut oc: M68000<D> = core_of(&ost);
            let mut dead = false;
            let mut noise = |k: usize| {
                for a in other.acts.iter().cycle().skip(k * 2).take(1 + k % 3) { if !dead { dead = step(&mut oc, &mut om, a).0.is_err(); } }
            };
            if *threaded {
                let (tw, t) = (&mut twin, &mut tm);
                let (r, _) = std::thread::scope(|s| {
                    let a = s.spawn(|| follow(tw, t, &mut |_| std::thread::yield_now()));
                    // meanwhile the other core runs here
                    for k in 0..seen.len() { noise(k); }
                    (a.join().map_err(|_| "thread panicked".to_string()).and_then(|r| r), ())
                });
                r.map_err(|e| format!("on another thread: {e}"))?;
                ctx.class("on another thread");
            } else {
                follow(&mut twin, &mut tm, &mut noise).map_err(|e| format!("interleaved with another core: {e}"))?;
                ctx.class("interleaved");
            }
            Ok::<(), String>(())
        })?;
        if seen.len() > 1 { ctx.nontrivial = true; }
        Ok(())
    })
}

/// Registers, stop state and memory are all there is to save.
fn check_restore(p: &(Hist, u8), ctx: &mut Ctx) -> Res {
    let (h, cut) = p;
    let (st, mut m) = world(h);
    let cut = *cut as usize % (h.acts.len() + 1);
    with_cpu!(h.init.cpu, C => {
        let mut core: M68000<C> = core_of(&st);
        // the interrupts of the second half are requested after the restoration only; nothing may be pending at that point
        for a in &h.acts[..cut] { let s = step(&mut core, &mut m, &Act::new(4, vec![])); let _ = a; if s.0.is_err() { return Ok(()); } }
        let mut back = M68000::<C>::new_no_reset();
        back.regs = core.regs;
        back.stop = core.stop;
        let mut bm = m.clone();
        // the opcode stored in a bus or address error frame is that of the last instruction fetched: it is there again
        // after the first one
        let mut fetched = false;
        for (k, a) in h.acts[cut..].iter().enumerate() {
            let mut a = a.clone();
            if !fetched && matches!(a.api % 6, 1 | 3 | 5) { a.api = 0; }
            let (x, y) = (step(&mut core, &mut m, &a), step(&mut back, &mut bm, &a));
            if x != y { return Err(format!("step {k} after the restoration: {y:X?}, uninterrupted {x:X?}")); }
            let Ok((_, v, ..)) = x.0 else { break };
            if !fetched && matches!(v, 2 | 3) { break; }
            if !x.2 { fetched = true; }
            if let Some((a, g, e)) = bm.diff(&m, &[]) { return Err(format!("step {k} after the restoration: memory byte {a:08X} is {g:02X}, uninterrupted {e:02X}")); }
            if k > 0 { ctx.nontrivial = true; }
        }
        if bm.resets != m.resets { return Err("reset hook calls differ".into()); }
        Ok(())
    })
}

/// Two cores at the same addresses with slightly different programs, one after the other and taking turns.
fn check_siblings(p: &(Hist, Vec<(u8, u16)>, Hist), ctx: &mut Ctx) -> Res {
    let (h, edits, filler) = p;
    let world_of = |sib: bool| {
        let (st, mut m) = world(h);
        if sib {
            let n = h.init.code.len().max(1) as u32;
            for (k, x) in edits { let a = st.pc.wrapping_add(2 * (*k as u32 % n)); let v = m.peek16(a); m.poke16(a, v ^ x); }
        }
        (st, m)
    };
    with_cpu!(h.init.cpu, C => {
        let run = |(st, mut m): (St, Mem), acts: &[Act]| {
            let mut core: M68000<C> = core_of(&st);
            let mut seen = vec![];
            for a in acts { let s = step(&mut core, &mut m, a); let end = s.0.is_err(); seen.push(s); if end { break; } }
            (seen, m)
        };
        let fill = || { run(world(filler), &filler.acts); };
        fill();
        let (a, am) = run(world_of(false), &h.acts);
        fill();
        let (b, bm) = run(world_of(true), &h.acts);
        let (mut w, mut x) = (world_of(false), world_of(true));
        let (mut c, mut d): (M68000<C>, M68000<C>) = (core_of(&w.0), core_of(&x.0));
        for (k, act) in h.acts.iter().enumerate() {
            for (core, m, seen, what) in [(&mut c, &mut w.1, &a, "the first program"), (&mut d, &mut x.1, &b, "its variant")] {
                let Some(want) = seen.get(k) else { continue };
                let got = step(core, m, act);
                if got != *want { return Err(format!("step {k} of {what}: {got:X?} when taking turns, {want:X?} when alone")); }
            }
        }
        for (m, e, what) in [(&w.1, &am, "the first program"), (&x.1, &bm, "its variant")] {
            if let Some((a, g, e)) = m.diff(e, &[]) { return Err(format!("{what}: memory byte {a:08X} is {g:02X} when taking turns, {e:02X} when alone")); }
        }
        if a != b { ctx.nontrivial = true; }
        Ok(())
    })
}

/// A long run cut in two, the second half on a clone and on a restored core, after many other cores were used.
fn check_long(p: &(Long, u32, u16, Hist), ctx: &mut Ctx) -> Res {
    let (l, cut, cores, filler) = p;
    let (st, m) = l.build();
    let n = (l.steps() + 20).min(400_000);
    let cut = *cut as u64 % n;
    with_cpu!(l.cpu, C => {
        let go = |core: &mut M68000<C>, m: &mut Vec<u8>, n: u64| -> Result<(u64, u64, u8), String> {
            let mut r = (0u64, n, 0u8);
            for k in 0..n { let (c, v) = guard(|| core.interpreter_exception(&mut m[..]))?; r.0 += c as u64; if let Some(v) = v { core.exception(Exception::from(v)); r.1 = k; r.2 = v; } }
            Ok(r)
        };
        let (mut core, mut cm): (M68000<C>, _) = (core_of(&st), m.clone());
        go(&mut core, &mut cm, cut)?;
        // what the registers do not hold: exceptions raised by the last step, not yet taken
        let mut settled = false;
        for _ in 0..100 {
            let t = core.regs.sr.t;
            let last = go(&mut core, &mut cm, 1)?;
            settled = last.2 == 0 && !t;
            if settled { break; }
        }
        // the opcode in the frame of a fault at the very next fetch
        if settled { settled = !matches!(go(&mut core.clone(), &mut cm.clone(), 1)?.2, 2 | 3); }
        let (mut twin, mut tm) = (core.clone(), cm.clone());
        let (mut back, mut bm): (M68000<C>, _) = (M68000::new_no_reset(), cm.clone());
        back.regs = core.regs;
        back.stop = core.stop;
        let want = go(&mut core, &mut cm, n - cut)?;
        // many others, created, stepped and dropped, or kept
        let mut kept: Vec<M68000<C>> = vec![];
        for k in 0..*cores {
            let (fs, mut fm) = (core_of::<C>(&world(filler).0), m.clone());
            let mut x = fs;
            for a in filler.acts.iter().take(k as usize & 3) { if step(&mut x, &mut fm[..], a).0.is_err() { break; } }
            if k & 1 == 0 { kept.push(x); }
        }
        for (x, xm, what) in [(&mut twin, &mut tm, "clone"), (&mut back, &mut bm, "restored core")] {
            if what == "restored core" && !settled { ctx.class("state outside the registers at the cut"); continue; }
            let got = go(x, xm, n - cut)?;
            if got != want { return Err(format!("{what}: {got:?} (cycles, last exception), the original {want:?}")); }
            if x.regs != core.regs || x.stop != core.stop { return Err(format!("{what}: {:X?}, the original {:X?}", x.regs, core.regs)); }
            if *xm != cm { return Err(format!("{what}: memory differs")); }
        }
        ctx.class(&format!("10^{} steps or more", n.ilog10()));
        if *cores > 100 { ctx.class("more than 100 other cores"); }
        ctx.nontrivial = n - cut > 100;
        Ok(())
    })
}

const LEN: u32 = 0x4000;
/// The same bytes in byte and word slices, behind callbacks, and with default and native long accesses.
fn check_memories(h: &Hist, ctx: &mut Ctx) -> Res {
    let (mut st, mut m) = world(h);
    m.native_long = true;
    m.ranges = vec![Range { lo: LEN, len: 0u32.wrapping_sub(LEN), what: 0 }];
    // every vector leads somewhere inside
    for v in 2..256u32 { let a = m.peek32(4 * v); m.poke32(4 * v, if a & 0x30000 != 0 { a % LEN } else { a }); }
    for (v, code) in &h.handlers { let a = m.peek32(*v as u32 * 4); for (k, w) in code.iter().enumerate() { m.poke16(a.wrapping_add(2 * k as u32) % LEN, *w); } }
    st.pend.clear();
    let bytes: Vec<u8> = (0..LEN).map(|a| m.byte(a)).collect();
    let mut b8 = bytes.clone().into_boxed_slice();
    let mut b16: Box<[u16]> = bytes.chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect();
    let mut split = m.clone();
    split.native_long = false;
    let mut ud = Box::new(Ud { m: m.clone(), junk: mix(h.init.mem_seed) });
    let up: *mut Ud = &mut *ud;
    let mut cb = callbacks(up);
    with_cpu!(h.init.cpu, C => {
        let mut c: Vec<M68000<C>> = (0..5).map(|_| core_of(&st)).collect();
        const NAMES: [&str; 5] = ["own", "bytes", "words", "callbacks", "default longs"];
        for (k, a) in h.acts.iter().enumerate() {
            let want = step(&mut c[0], &mut m, a);
            let mut rest = c[1..].iter_mut();
            let got = [
                step(rest.next().unwrap(), &mut b8[..], a),
                step(rest.next().unwrap(), &mut b16[..], a),
                step(rest.next().unwrap(), &mut cb, a),
                step(rest.next().unwrap(), &mut split, a),
            ];
            // a long write that straddles the end may leave its first word, which this very step may then read back
            let fault = want.0.is_err() || matches!(&want.0, Ok((_, 2 | 3, ..))) || m.refused > 0;
            let partial = fault && (LEN - 4..LEN).any(|a2| split.byte(a2) != m.byte(a2) || b8[a2 as usize] != m.byte(a2));
            if partial { ctx.class("partial long at the end"); break; }
            for (n, g) in got.iter().enumerate() {
                if *g != want { return Err(format!("step {k}: with memory as {}: {g:X?}, with native longs {want:X?}", NAMES[n + 1])); }
            }
            let end = if fault { LEN - 4 } else { LEN };
            for (k2, x) in m.over.iter() {
                let (a2, x) = (*k2, *x);
                if a2 >= end { continue; }
                let got = [b8[a2 as usize], (b16[a2 as usize / 2] >> if a2 & 1 == 0 { 8 } else { 0 }) as u8, ud.m.byte(a2), split.byte(a2)];
                if let Some(n) = got.iter().position(|g| *g != x) { return Err(format!("step {k}: memory byte {a2:08X} is {:02X} in {}, {x:02X} with native longs", got[n], NAMES[n + 1])); }
            }
            if want.0.is_err() { break; }
            if k > 0 { ctx.nontrivial = true; }
            if fault { m.refused = 0; ctx.class("refused access"); }
        }
        // nothing else was written
        for a in 0..LEN - 4 {
            let x = m.byte(a);
            let got = [b8[a as usize], (b16[a as usize / 2] >> if a & 1 == 0 { 8 } else { 0 }) as u8, ud.m.byte(a), split.byte(a)];
            if let Some(n) = got.iter().position(|g| *g != x) { return Err(format!("at the end: memory byte {a:08X} is {:02X} in {}, {x:02X} with native longs", got[n], NAMES[n + 1])); }
        }
        if ud.m.resets != m.resets || split.resets != m.resets { return Err("reset hook calls differ".into()); }
        Ok::<(), String>(())
    })
}

fn any_hist(lo: usize, hi: usize) -> BoxedStrategy<Hist> {
    hist(init_prog(prog_kinds(), 4, 20), handlers(vector(), 16), acts(prop_oneof![8 => vector(), 1 => Just(0u8)].boxed(), 6, lo, hi, 6), prop_oneof![3 => no_ranges(), 1 => ranges()].boxed())
}

pub const C27: Prop = Prop {
    id: "C27",
    rule: "a case is a history executed several times (clone, other thread, restored core, other memory); non-trivial when at least two steps were compared",
    assumptions: &[
        "the opcode recorded in a bus or address error frame when no instruction has been fetched since a restoration is not compared",
        "a long write that straddles the end of a slice may leave its first word; a Rust panic (refused extension word, C15) ends the history on every side",
    ],
    run: |r: &Runner| {
        r.rand("clones", 40_000, || (any_hist(2, 30), any_hist(2, 12), any::<u8>(), prop::bool::weighted(0.1)).boxed(), check_clone);
        let irqs = || hist(init_prog(prog_kinds(), 4, 20), handlers(vector(), 16), acts(irq(), 6, 2, 30, 6), no_ranges());
        r.rand("save-restore", 60_000, || (irqs(), any::<u8>()).boxed(), check_restore);
        let turns = || hist(init_prog(prog_kinds(), 3, 12), handlers(vector(), 10), acts(vector(), 2, 4, 24, 6), no_ranges());
        r.rand("siblings", 30_000, || (turns(), prop::collection::vec((any::<u8>(), prop_oneof![2 => any::<u16>(), 1 => 1u16..256, 1 => Just(2u16)]), 1..6), any_hist(2, 12)).boxed(), check_siblings);
        r.rand("long-runs", 500, || (long(), any::<u32>(), prop_oneof![9 => 0u16..8, 1 => 0u16..600], any_hist(2, 6)).boxed(), check_long);
        r.rand("memories", 20_000, || {
            hist(init_prog(prog_kinds(), 4, 20), handlers(vector(), 16), acts(vector(), 4, 4, 30, 6), no_ranges()).prop_map(|mut h| {
                let i = &mut h.init;
                i.pc = 0x800 + (i.pc & 0x7FE);
                i.ssp = if i.ssp & 0xF00 == 0 { LEN - 8 + (i.ssp & 0x1F) } else { 0x2000 + (i.ssp & 0x1FFE) };
                i.usp = 0x3000 + (i.usp & 0xFFE);
                for (k, a) in i.a.iter_mut().enumerate() { match (i.sel >> (3 * k)) & 7 { 0 => {} 1 => *a = LEN - 8 + (*a & 15), _ => *a = 0x400 + (*a & 0x3BFE) } }
                // absolute and index values mostly small
                if i.sel >> 30 != 0 { for d in i.d.iter_mut() { if *d & 3 != 0 { *d &= 0x3FFF; } } }
                h
            }).boxed()
        }, check_memories);
    },
};
