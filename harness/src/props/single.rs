//! Single-instruction differential checks.
use super::Prop;
use crate::dec::{groups, kind, op_size, K};
use crate::diff::*;
use crate::exec::{cond, privileged};
use crate::gen;
use crate::mem::mix;
use crate::run::{guard, Ctx, Res, Runner};
use crate::with_cpu;
use m68000::M68000;
use proptest::prelude::*;
use K::*;

/// One instruction from a random state, compared with the reference in every architectural respect.
pub fn check_inst(i: &Init, ctx: &mut Ctx, opts: Opts) -> Res {
    let (mut st, mut rm) = i.build();
    check_state(i, &mut st, &mut rm, ctx, opts)
}
pub fn check_state(i: &Init, st: &mut crate::exec::St, rm: &mut crate::mem::Mem, ctx: &mut Ctx, opts: Opts) -> Res {
    let mut im = rm.clone();
    let t = i.tim();
    with_cpu!(i.cpu, C => {
        let mut core = core_of::<C>(st);
        if let Some(o) = step_both(&mut core, &mut im, st, rm, t, opts, ctx)? {
            if !ctx.quiet {
                if let Some(ins) = &o.ins { ctx.class(&format!("{:?}.{:?}", ins.k, ins.sz)); }
                if let Some(v) = o.vector { ctx.class(&format!("vector {v}")); }
            }
            // non-trivial: the instruction completed, or trapped for an architected reason
            ctx.nontrivial = o.fault.is_none();
        }
        Ok(())
    })
}

/// A case derived from an index: fixed code and flags, pseudo-random everything else.
pub fn derived(seed: u64, code: &[u16]) -> Init {
    let r = |n: u64| mix(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ n.wrapping_mul(0x9E3779B97F4A7C15));
    let val = |n: u64| { let x = r(n); if x & 3 == 0 { gen::SPECIAL32[(x >> 8) as usize % gen::SPECIAL32.len()] } else { (x >> 16) as u32 } };
    let adr = |n: u64| { let x = r(n); if x & 7 == 0 { (x >> 16) as u32 & !1 } else { 0x1000 + ((x >> 16) as u32 & 0xFFFE) } };
    Init {
        cpu: (r(1) & 3) as u8,
        code: code.to_vec(),
        d: std::array::from_fn(|k| val(10 + k as u64)),
        a: std::array::from_fn(|k| adr(20 + k as u64)),
        usp: adr(30), ssp: adr(31), sr: (r(2) & 0x271F) as u16, pc: adr(32), mem_seed: r(3), bg: [0, 0, 3, 4][(r(4) & 3) as usize], native: r(5) & 1 == 0, even: true, sel: r(6) as u32,
    }
}

fn check_derived(i: Init, ctx: &mut Ctx) -> Res { check_inst(&i, ctx, Opts::default()).map_err(|e| format!("{e}; state {}", serde_json::to_string(&i).unwrap())) }

/// Every opcode of the given kinds, `per` derived states each.
pub fn every_opcode(r: &Runner, sub: &str, kinds: &[K], per: u64, ok: impl Fn(&Init, &mut Ctx) -> Res + Sync) {
    let ops: Vec<u16> = (0..=0xFFFFu16).filter(|o| kinds.contains(&kind(*o))).collect();
    let per = if r.tier == crate::run::Tier::Thorough { per * 20 } else { per };
    let seed = r.seed;
    r.exhaust(sub, ops.len() as u64 * per, |n, c| {
        let op = ops[(n / per) as usize];
        let s = mix(n ^ seed << 40);
        let w = |k: u64| { let x = mix(s ^ k << 50); if x & 1 == 0 { crate::mem::BOUND_WORDS[(x >> 8 & 15) as usize] } else { (x >> 16) as u16 } };
        let i = derived(s, &[op, w(1), w(2), w(3), w(4)]);
        ok(&i, c).map_err(|e| format!("{e}; state {}", serde_json::to_string(&i).unwrap()))
    });
}
fn every(r: &Runner, kinds: &[K], per: u64) { every_opcode(r, "every-opcode", kinds, per, |i, c| check_inst(i, c, Opts::default())); }
fn random(r: &Runner, kinds: &[K], n: u64) { r.rand("random", n, || gen::inst(kinds), |i, c| check_inst(i, c, Opts::default())); }

const RULE: &str = "a case is one instruction from one machine state; non-trivial when the instruction completes or traps for an architected reason (it does not end in a memory fault and is inside the specified domain)";

const ARITH: [K; 16] = [Add, Adda, Addi, Addq, Addx, Sub, Suba, Subi, Subq, Subx, Neg, Negx, Cmp, Cmpa, Cmpi, Cmpm];
pub const C03: Prop = Prop {
    id: "C03",
    rule: RULE,
    assumptions: &["reference machine written from the M68000 programmer's reference manual"],
    run: |r: &Runner| {
        // every byte operand pair, with every X and Z
        const OPS: [u16; 6] = [0xD001, 0x9001, 0xB001, 0xD101, 0x9101, 0x0600];
        r.exhaust("byte-pairs", 6 * 65536 * 4, |n, c| {
            let (op, n2) = (OPS[(n / (65536 * 4)) as usize], n % (65536 * 4));
            let mut i = derived(n, &[op, (n2 & 0xFF) as u16]);
            i.d[0] = i.d[0] & !0xFF | n2 as u32 >> 8 & 0xFF;
            i.d[1] = i.d[1] & !0xFF | n2 as u32 & 0xFF;
            i.sr = i.sr & !0x14 | ((n2 >> 16 & 1) << 4 | (n2 >> 17 & 1) << 2) as u16;
            check_derived(i, c)
        });
        // NEG and NEGX of every word
        r.exhaust("neg-words", 2 * 65536 * 4, |n, c| {
            let (op, n2) = ([0x4440, 0x4040][(n / (65536 * 4)) as usize], n % (65536 * 4));
            let mut i = derived(n, &[op]);
            i.d[0] = i.d[0] & !0xFFFF | n2 as u32 & 0xFFFF;
            i.sr = i.sr & !0x14 | ((n2 >> 16 & 1) << 4 | (n2 >> 17 & 1) << 2) as u16;
            check_derived(i, c)
        });
        every(r, &ARITH, 12);
        random(r, &ARITH, 1_000_000);
        // carries through multi-precision chains of ADDX / SUBX / NEGX
        r.rand("wide-chains", 60_000, || (gen::inst(&[Nop]), 1usize..9, 0u8..4, any::<u64>(), any::<bool>()).boxed(), check_chain);
    },
};

/// A chain of extended operations on operands of many limbs equals the wide operation.
fn check_chain((i, limbs, form, seed, x): &(Init, usize, u8, u64, bool), ctx: &mut Ctx) -> Res {
    let mut i = i.clone();
    let limbs = *limbs;
    let sz = form & 2;
    // ADDX/SUBX -(A1),-(A0); byte or long
    let op = if form & 1 == 0 { 0xD109 } else { 0x9109 } | if sz == 0 { 0 } else { 0x80 };
    i.code = vec![op; limbs];
    i.a[0] = 0x20000; i.a[1] = 0x30000; i.pc = 0x1000; i.ssp = 0x8000; i.even = false;
    i.sr = i.sr & !0x8014 | 4 | (*x as u16) << 4;
    let (_, mut m) = i.build();
    let n = if sz == 0 { limbs } else { 4 * limbs };
    let (mut a, mut b) = (vec![0u8; n], vec![0u8; n]);
    for k in 0..n { a[k] = mix(seed ^ k as u64) as u8; b[k] = match seed >> 60 & 3 { 0 => !a[k], 1 => a[k], _ => mix(!seed ^ k as u64) as u8 }; }
    for k in 0..n { m.poke8(0x20000 - n as u32 + k as u32, a[k]); m.poke8(0x30000 - n as u32 + k as u32, b[k]); }
    let mut carry = *x as i32;
    let mut res = vec![0u8; n];
    for k in (0..n).rev() {
        let v = if form & 1 == 0 { a[k] as i32 + b[k] as i32 + carry } else { a[k] as i32 - b[k] as i32 - carry };
        res[k] = v as u8;
        carry = (!(0..256).contains(&v)) as i32;
    }
    with_cpu!(i.cpu, C => {
        let mut core = core_of::<C>(&i.st());
        for _ in 0..limbs { let r = guard(|| core.interpreter_exception(&mut m))?; if r.1.is_some() { return Err(format!("unexpected vector {:?}", r.1)); } }
        let got: Vec<u8> = (0..n).map(|k| m.byte(0x20000 - n as u32 + k as u32)).collect();
        let s = core.regs.sr;
        let z = res.iter().all(|b| *b == 0);
        if got != res || s.c != (carry != 0) || s.x != s.c || s.z != z || s.n != (res[0] & 0x80 != 0) {
            return Err(format!("chain of {op:04X}: {a:02X?} with {b:02X?} x={x}: expected {res:02X?} C={carry} Z={z}, got {got:02X?} {s:?}"));
        }
        ctx.nontrivial = limbs > 1;
        Ok(())
    })
}

const MUL: [K; 6] = [Muls, Mulu, Divs, Divu, Chk, Ext];
pub const C04: Prop = Prop {
    id: "C04",
    rule: RULE,
    assumptions: &["N and Z after a division overflow, NZVC after a zero divide and Z, V, C after CHK are undefined on the 68000 and not compared"],
    run: |r: &Runner| {
        r.exhaust("ext", 2 * 65536, |n, c| {
            let mut i = derived(n, &[if n & 65536 == 0 { 0x4880 } else { 0x48C0 }]);
            i.d[0] = i.d[0] & !0xFFFF | n as u32 & 0xFFFF;
            check_derived(i, c)
        });
        // quotients on both sides of every limit: dividend = q * divisor + rem
        let edge = || {
            let q = prop_oneof![3 => prop::sample::select(vec![0i64, 1, -1, 0x7FFE, 0x7FFF, 0x8000, 0x8001, -0x7FFF, -0x8000, -0x8001, -0x8002, 0xFFFE, 0xFFFF, 0x10000, 0x10001]), 1 => -0x20000i64..0x20000];
            let d = prop_oneof![1 => gen::data16(), 1 => 0u16..40, 1 => (0u16..40).prop_map(|x| x.wrapping_neg())];
            (gen::inst(&[Nop]), q, d, any::<u16>(), any::<bool>(), 0u8..4).boxed()
        };
        r.rand("div-edges", 500_000, edge, |(i, q, d, rem, signed, how), c| {
            let mut i = i.clone();
            let m = if *signed { *d as i16 as i64 } else { *d as i64 };
            let rem = if m == 0 { *rem as i64 } else { match how { 0 => 0, 1 => m.abs() - 1, _ => *rem as i64 % m.abs() } };
            let n = q * m + if q * m < 0 { -rem } else { rem };
            i.code = vec![if *signed { 0x81C1 } else { 0x80C1 }];
            i.d[0] = n as u32;
            i.d[1] = i.d[1] & 0xFFFF_0000 | *d as u32;
            check_inst(&i, c, Opts::default())
        });
        r.rand("chk-edges", 200_000, || (gen::inst(&[Nop]), gen::data16(), prop_oneof![-2i32..3, -40000i32..40000]).boxed(), |(i, b, off), c| {
            let mut i = i.clone();
            i.code = vec![0x4181];
            i.d[1] = i.d[1] & 0xFFFF_0000 | *b as u32;
            i.d[0] = i.d[0] & 0xFFFF_0000 | (*b as i16 as i32).wrapping_add(*off) as u16 as u32;
            check_inst(&i, c, Opts::default())
        });
        every(r, &MUL, 20);
        random(r, &MUL, 1_000_000);
    },
};

const BCD: [K; 3] = [Abcd, Sbcd, Nbcd];
fn to_bcd(n: u32) -> u8 { ((n / 10) << 4 | n % 10) as u8 }
pub const C05: Prop = Prop {
    id: "C05",
    rule: "a case is one decimal instruction (or chain of them) from one state; non-trivial when it completes with all operands valid packed decimal (chains: more than one byte)",
    assumptions: &["N and V, and everything for operands with non-decimal digits, are undefined on the 68000 and not compared"],
    run: |r: &Runner| {
        // every pair of valid operands, X, Z, register and memory form
        r.exhaust("pairs", 2 * 2 * 4 * 10000, |n, c| {
            let (p, f) = (n % 10000, n / 10000);
            let (a, b) = (to_bcd((p / 100) as u32), to_bcd((p % 100) as u32));
            let op = if f & 1 == 0 { 0xC101 } else { 0x8101 } | if f & 2 == 0 { 0 } else { 8 };
            let mut i = derived(n, &[op]);
            i.a[0] = 0x21000; i.a[1] = 0x23001; i.pc &= 0xFFFE;
            i.sr = i.sr & !0x14 | (f >> 2 & 1) as u16 * 16 | (f >> 3 & 1) as u16 * 4;
            i.d[0] = i.d[0] & !0xFF | a as u32;
            i.d[1] = i.d[1] & !0xFF | b as u32;
            i.even = false;
            let (mut st, mut m) = i.build();
            m.poke8(0x20FFF, a);
            m.poke8(0x23000, b);
            check_state(&i, &mut st, &mut m, c, Opts::default()).map_err(|e| format!("{e}; {a:02X} {b:02X} sr {:04X} op {op:04X}", i.sr))
        });
        r.exhaust("nbcd", 2 * 4 * 100, |n, c| {
            let (p, f) = (n % 100, n / 100);
            let a = to_bcd(p as u32);
            let mut i = derived(n, &[if f & 1 == 0 { 0x4800 } else { 0x4810 }]);
            i.a[0] = 0x21000;
            i.pc &= 0xFFFE;
            i.sr = i.sr & !0x14 | (f >> 1 & 1) as u16 * 16 | (f >> 2 & 1) as u16 * 4;
            i.d[0] = i.d[0] & !0xFF | a as u32;
            let (mut st, mut m) = i.build();
            m.poke8(0x21000, a);
            check_state(&i, &mut st, &mut m, c, Opts::default()).map_err(|e| format!("{e}; {a:02X} sr {:04X}", i.sr))
        });
        // multi-digit numbers: the chain computes the decimal sum or difference
        r.rand("numbers", 100_000, || (gen::inst(&[Nop]), 1usize..8, any::<[u64; 2]>(), any::<bool>(), any::<bool>(), 0u8..5).boxed(), |(i, len, s, sub, x, shape), c| {
            let mut i = i.clone();
            let n = *len as u32;
            i.code = vec![if *sub { 0x8109 } else { 0xC109 }; *len];
            i.a[0] = 0x20000; i.a[1] = 0x30000; i.pc = 0x1000; i.ssp = 0x8000; i.even = false;
            i.sr = i.sr & !0x8014 | 4 | (*x as u16) << 4;
            let (_, mut m) = i.build();
            let lim = 100u64.pow(n);
            let a = match shape { 0 => lim - 1, 1 => 0, _ => s[0] % lim };
            let b = match shape { 2 => lim - 1 - a, 3 => a, _ => s[1] % lim };
            for k in 0..n {
                m.poke8(0x20000 - 1 - k, to_bcd((a / 100u64.pow(k) % 100) as u32));
                m.poke8(0x30000 - 1 - k, to_bcd((b / 100u64.pow(k) % 100) as u32));
            }
            let e = if *sub { a as i128 - b as i128 - *x as i128 } else { a as i128 + b as i128 + *x as i128 };
            let carry = !(0..lim as i128).contains(&e);
            let e = e.rem_euclid(lim as i128) as u64;
            with_cpu!(i.cpu, C => {
                let mut core = core_of::<C>(&i.st());
                for _ in 0..n { let r = guard(|| core.interpreter_exception(&mut m))?; if r.1.is_some() { return Err(format!("unexpected vector {:?}", r.1)); } }
                let mut g = 0u64;
                for k in (0..n).rev() { let v = m.byte(0x20000 - 1 - k) as u64; if v & 15 > 9 || v >> 4 > 9 { return Err(format!("invalid digits {v:02X} from {a} and {b}")); } g = g * 100 + (v >> 4) * 10 + (v & 15); }
                let sr = core.regs.sr;
                if g != e || sr.c != carry || sr.x != carry || sr.z != (e == 0) { return Err(format!("{a} {} {b} x={x}: expected {e} carry {carry}, got {g} {sr:?}", if *sub { '-' } else { '+' })); }
                c.nontrivial = n > 1;
                Ok(())
            })
        });
        every(r, &BCD, 200);
        r.rand("random", 400_000, || gen::inst(&BCD).prop_map(|mut i| { if i.sel & 7 != 0 { i.bg = 4; for d in i.d.iter_mut() { *d = *d & !0xFF | to_bcd(*d % 100) as u32; } } i }).boxed(), |i, c| check_inst(i, c, Opts::default()));
    },
};

const LOGIC: [K; 25] = [And, Andi, Andiccr, Andisr, Or, Ori, Oriccr, Orisr, Eor, Eori, Eoriccr, Eorisr, Not, Tst, Clr, Tas, Swap, Scc, Btst, Bchg, Bclr, Bset, Moveq, Moveccr, Movesr];
pub const C06: Prop = Prop {
    id: "C06",
    rule: RULE,
    assumptions: &["reference machine written from the M68000 programmer's reference manual"],
    run: |r: &Runner| {
        // immediates to CCR and SR: every low byte, every CCR
        r.exhaust("status-immediates", 6 * 256 * 32 * 2, |n, c| {
            let op = [0x003C, 0x023C, 0x0A3C, 0x007C, 0x027C, 0x0A7C][(n % 6) as usize];
            let m = n / 6;
            let mut i = derived(n, &[op, (m & 0xFF) as u16 | (mix(n) << 8 & 0xFF00) as u16]);
            i.sr = i.sr & !0x201F | (m >> 8 & 0x1F) as u16 | (m >> 13 & 1) as u16 * 0x2000 | if op & 0x40 != 0 { 0x2000 } else { 0 };
            check_derived(i, c)
        });
        // bit numbers beyond the operand, dynamic and static, register and memory
        r.exhaust("bit-numbers", 4 * 4 * 256 * 4, |n, c| {
            let (ty, form, num, rep) = (n & 3, n >> 2 & 3, (n >> 4 & 0xFF) as u16, n >> 12);
            let ea = if form & 1 == 0 { 0 } else { 0x10 };
            let op = if form & 2 == 0 { 0x0800 } else { 0x0300 } | (ty as u16) << 6 | ea;
            let mut i = derived(n, &[op, num | if rep & 1 != 0 { 0xA500 } else { 0 }]);
            i.d[1] = num as u32 | if rep & 2 != 0 { 0xFFFF_FF00 } else { 0 };
            check_derived(i, c)
        });
        r.exhaust("scc", 16 * 32 * 2, |n, c| {
            let mut i = derived(n, &[0x50C0 | ((n & 15) << 8) as u16 | if n >> 9 & 1 != 0 { 0x10 } else { 0 }]);
            i.sr = i.sr & !0x1F | (n >> 4 & 31) as u16;
            check_derived(i, c)
        });
        every(r, &LOGIC, 12);
        random(r, &LOGIC, 1_000_000);
    },
};

const SHIFT: [K; 8] = [Asr, Lsr, Roxr, Ror, Asm, Lsm, Roxm, Rom];
pub const C07: Prop = Prop {
    id: "C07",
    rule: RULE,
    assumptions: &["reference shifts one bit at a time"],
    run: |r: &Runner| {
        // every byte, every register count, X
        r.exhaust("bytes", 8 * 256 * 64 * 2, |n, c| {
            let (f, v, cnt, x) = (n & 7, n >> 3 & 0xFF, n >> 11 & 63, n >> 17 & 1);
            let mut i = derived(n, &[0xE220 | (f as u16 & 3) << 3 | (f as u16 >> 2) << 8]);
            i.d[0] = i.d[0] & !0xFF | v as u32;
            i.d[1] = i.d[1] & !63 | cnt as u32;
            i.sr = i.sr & !0x10 | (x as u16) << 4;
            check_derived(i, c)
        });
        // immediate counts, every byte
        r.exhaust("immediate-bytes", 8 * 256 * 8 * 2, |n, c| {
            let (f, v, cnt, x) = (n & 7, n >> 3 & 0xFF, n >> 11 & 7, n >> 14 & 1);
            let mut i = derived(n, &[0xE000 | (cnt as u16) << 9 | (f as u16 & 3) << 3 | (f as u16 >> 2) << 8]);
            i.d[0] = i.d[0] & !0xFF | v as u32;
            i.sr = i.sr & !0x10 | (x as u16) << 4;
            check_derived(i, c)
        });
        // memory form, every word
        r.exhaust("memory-words", 8 * 65536, |n, c| {
            let f = n & 7;
            let mut i = derived(n, &[0xE0D0 | (f as u16 & 3) << 9 | (f as u16 >> 2) << 8]);
            i.a[0] = 0x24680;
            i.pc &= 0xFFFE;
            let (mut st, mut m) = i.build();
            m.poke16(0x24680, (n >> 3) as u16);
            check_state(&i, &mut st, &mut m, c, Opts::default()).map_err(|e| format!("{e}; word {:04X} sr {:04X}", n >> 3, i.sr))
        });
        if r.tier == crate::run::Tier::Thorough {
            r.exhaust("words", 8 * 65536 * 64 * 2, |n, c| {
                let (f, v, cnt, x) = (n & 7, n >> 3 & 0xFFFF, n >> 19 & 63, n >> 25 & 1);
                let mut i = derived(n, &[0xE260 | (f as u16 & 3) << 3 | (f as u16 >> 2) << 8]);
                i.d[0] = i.d[0] & !0xFFFF | v as u32;
                i.d[1] = i.d[1] & !63 | cnt as u32;
                i.sr = i.sr & !0x10 | (x as u16) << 4;
                check_derived(i, c)
            });
        }
        every(r, &SHIFT, 40);
        random(r, &SHIFT, 1_000_000);
    },
};

const MOVES: [K; 14] = [Move, Movea, Movem, Movep, Lea, Pea, Exg, Link, Unlk, Movefsr, Movesr, Moveccr, Moveusp, Moveq];
pub const C08: Prop = Prop {
    id: "C08",
    rule: RULE,
    assumptions: &["reference machine written from the M68000 programmer's reference manual"],
    run: |r: &Runner| {
        // MOVEM: every register list, both sizes and directions, several addressing modes
        const FORMS: [u16; 8] = [0x48A0, 0x48E0, 0x4C98, 0x4CD8, 0x4890, 0x4CE8, 0x48F8, 0x4CBA];
        r.exhaust("movem-lists", 8 * 65536, |n, c| {
            let x = mix(n);
            let f = FORMS[(n >> 16) as usize];
            let mut op = f;
            if f & 0x38 < 0x38 { op |= (x & 7) as u16; }
            let mut i = derived(n, &[op, n as u16, (x >> 16) as u16]);
            // half of the time the base register is also in the list
            if x >> 40 & 1 != 0 && f & 0x38 < 0x38 { let b = (op & 7) as u32 + 8; i.code[1] |= 1 << if f & 0x38 == 0x20 { 15 - b } else { b }; }
            check_derived(i, c)
        });
        every(r, &MOVES, 6);
        random(r, &MOVES, 1_500_000);
        // store then load with MOVEM restores the registers
        r.rand("movem-roundtrip", 60_000, || (gen::inst(&[Nop]), any::<u16>(), any::<bool>()).boxed(), |(i, list, long), c| {
            let mut i = i.clone();
            i.sr &= 0x7FFF;
            i.pc = 0x1000; i.usp = 0x9000; i.ssp = 0xA000; i.even = false;
            let l = if *long { 0x40 } else { 0 };
            // MOVEM list,-(A7); MOVEM (A7)+,list without A7
            let list = *list & 0x7FFF;
            i.code = vec![0x48A7 | l, list.reverse_bits(), 0x4C9F | l, list];
            let (st, mut m) = i.build();
            with_cpu!(i.cpu, C => {
                let mut core = core_of::<C>(&st);
                for _ in 0..2 { let r = guard(|| core.interpreter_exception(&mut m))?; if r.1.is_some() { return Err(format!("unexpected vector {:?}", r.1)); } }
                let mut e = regs_of(&st);
                e.pc.0 += 8;
                if !*long { for k in 0..15 { if list >> k & 1 != 0 { let r = if k < 8 { &mut e.d[k] } else { &mut e.a[k - 8] }; r.0 = r.0 as u16 as i16 as i32 as u32; } } }
                if e != core.regs { return Err(format!("list {list:04X}: expected {e:X?} got {:X?}", core.regs)); }
                c.nontrivial = list != 0;
                Ok(())
            })
        });
    },
};

fn ea_kinds() -> Vec<K> { vec![Move, Movea, Add, Sub, And, Or, Eor, Cmp, Adda, Cmpa, Suba, Addi, Subi, Andi, Ori, Eori, Cmpi, Addq, Subq, Clr, Not, Neg, Negx, Tst, Tas, Nbcd, Scc, Btst, Bchg, Bclr, Bset, Asm, Lsm, Roxm, Rom, Lea, Pea, Jmp, Jsr, Movem, Movefsr, Moveccr, Movesr, Mulu, Muls, Divu, Divs, Chk, Addx, Subx, Abcd, Sbcd, Cmpm, Movep] }
pub const C09: Prop = Prop {
    id: "C09",
    rule: RULE,
    assumptions: &["bits 10-8 of the brief extension word are ignored by the 68000"],
    run: |r: &Runner| {
        // every brief extension word, both bases, address register bases rotating; LEA and a real access
        r.exhaust("index-words", 65536 * 4, |n, c| {
            let x = mix(n);
            let (w, f) = (n as u16, n >> 16);
            let op = match f { 0 => 0x41F0 | (x & 7) as u16, 1 => 0x41FB, 2 => 0x1030 | (x & 7) as u16, _ => 0x103B };
            check_derived(derived(n, &[op, w]), c)
        });
        // every 16-bit displacement and absolute short address
        r.exhaust("displacements", 65536 * 5, |n, c| {
            let x = mix(n);
            let (w, f) = (n as u16, n >> 16);
            let op = match f { 0 => 0x41E8 | (x & 7) as u16, 1 => 0x41FA, 2 => 0x41F8, 3 => 0x1028 | (x & 7) as u16, _ => 0x103A };
            check_derived(derived(n, &[op, w]), c)
        });
        every(r, &ea_kinds(), 4);
        random(r, &ea_kinds(), 1_500_000);
    },
};

const FLOW: [K; 14] = [Bcc, Bra, Bsr, Dbcc, Scc, Jmp, Jsr, Rts, Rtr, Trap, Trapv, Chk, Divs, Divu];
pub const C10: Prop = Prop {
    id: "C10",
    rule: RULE,
    assumptions: &["an odd target is reported when its instruction is fetched"],
    run: |r: &Runner| {
        r.exhaust("conditions", 16 * 32 * 8, |n, c| {
            let (cc, ccr, f) = ((n & 15) as u16, (n >> 4 & 31) as u16, n >> 9);
            let w = (mix(n) & 0xFFFE) as u16;
            let code = match f { 0..=2 => vec![0x6000 | cc << 8, w], 3 => vec![0x6000 | cc << 8 | (w & 0xFE).max(2)], _ => vec![0x50C8 | cc << 8, w] };
            let mut i = derived(n, &code);
            i.sr = i.sr & !0x1F | ccr;
            if f >= 4 { i.d[0] = i.d[0] & 0xFFFF_0000 | [0, 1, 0x8000, 0xFFFF][(f - 4) as usize]; }
            check_derived(i, c)
        });
        // every displacement of BRA, BSR, a taken Bcc and a looping DBcc
        r.exhaust("word-displacements", 65536 * 4, |n, c| {
            let op = [0x6000, 0x6100, 0x6400, 0x51C8][(n >> 16) as usize];
            let mut i = derived(n, &[op, n as u16]);
            i.sr &= !1;
            i.even = false;
            i.ssp &= !1; i.usp &= !1;
            check_derived(i, c)
        });
        r.exhaust("byte-displacements", 256 * 4 * 16, |n, c| {
            let op = [0x6000, 0x6100, 0x6400, 0x6500][(n >> 8 & 3) as usize] | (n & 0xFF) as u16;
            let mut i = derived(n, &[op, (mix(n) >> 8) as u16]);
            i.sr &= !1;
            i.even = false;
            i.ssp &= !1; i.usp &= !1;
            check_derived(i, c)
        });
        // DBcc counters
        r.exhaust("dbcc-counters", 65536 * 2, |n, c| {
            let mut i = derived(n, &[0x51C8, (mix(n) & 0xFFFE) as u16]);
            i.d[0] = (n & 0xFFFF) as u32 | if n >> 16 == 0 { 0 } else { 0xFFFF_0000 };
            check_derived(i, c)
        });
        every(r, &FLOW, 16);
        random(r, &FLOW, 800_000);
        // a call and the matching return cancel out
        r.rand("call-return", 150_000, || gen::inst(&[Bsr, Jsr]), |i, c| {
            let i = i.clone();
            let (mut st, mut m) = i.build();
            st.sr &= 0x7FFF;
            let (before, op) = (st.clone(), i.code[0]);
            let mut probe = m.clone();
            // where does it go, according to the reference
            let o = st.step(&mut probe, i.tim());
            if o.vector.is_some() || st.pc & 1 != 0 { return Ok(()); }
            let (target, sp) = (st.pc, st.ga(7));
            let len = o.ins.unwrap().len;
            // the stacked address must not overwrite the RTS
            if target.wrapping_sub(sp).wrapping_add(2) < 6 || sp.wrapping_sub(before.pc.wrapping_sub(4)) < 12 { return Ok(()); }
            if target.wrapping_sub(before.pc.wrapping_sub(1)) < 9 { return Ok(()); }
            m.poke16(target, 0x4E75);
            with_cpu!(i.cpu, C => {
                let mut core = core_of::<C>(&before);
                for _ in 0..2 { let r = guard(|| core.interpreter_exception(&mut m))?; if r.1.is_some() { return Err(format!("{op:04X}: unexpected vector {:?}", r.1)); } }
                let mut e = regs_of(&before);
                e.pc.0 = e.pc.0.wrapping_add(len);
                if e != core.regs { return Err(format!("{op:04X} then RTS: expected {e:X?} got {:X?}", core.regs)); }
                c.nontrivial = true;
                Ok(())
            })
        });
        // a counted loop runs counter + 1 times
        r.rand("dbra-loops", 4_000, || (gen::inst(&[Nop]), 0u16..200, 0u8..8).boxed(), |(i, n, reg), c| {
            let mut i = i.clone();
            i.sr &= 0x7FFF;
            i.even = false;
            i.pc = 0x1000;
            let other = (reg + 1) % 8;
            // ADDQ.L #1,Dother; DBRA Dreg,-4
            i.code = vec![0x5280 | other as u16, 0x51C8 | *reg as u16, 0xFFFC, 0x4E71];
            i.d[*reg as usize] = i.d[*reg as usize] & 0xFFFF_0000 | *n as u32;
            let (st, mut m) = i.build();
            with_cpu!(i.cpu, C => {
                let mut core = core_of::<C>(&st);
                let mut steps = 0;
                while core.regs.pc.0 != 0x1006 { steps += 1; if steps > 500 { return Err("the loop does not end".into()); } guard(|| core.interpreter(&mut m))?; }
                let e = i.d[other as usize].wrapping_add(*n as u32 + 1);
                if core.regs.d[other as usize].0 != e || steps != 2 * (*n as u32 + 1) { return Err(format!("counter {n}: body ran {} times", core.regs.d[other as usize].0.wrapping_sub(i.d[other as usize]))); }
                if core.regs.d[*reg as usize].0 != i.d[*reg as usize] | 0xFFFF { return Err(format!("final counter {:08X}", core.regs.d[*reg as usize].0)); }
                c.nontrivial = true;
                Ok(())
            })
        });
        let _ = cond;
    },
};

/// One step from user mode leaves the supervisor's state alone.
fn check_user(i: &Init, ctx: &mut Ctx) -> Res {
    let mut i = i.clone();
    i.sr &= !0x2000;
    let (st, m0) = i.build();
    let mut m = m0.clone();
    // building the state may have put a return frame over the code
    let op = m0.peek16(i.pc & if i.even { !1 } else { !0 });
    let k = kind(op);
    with_cpu!(i.cpu, C => {
        let mut core: M68000<C> = core_of(&st);
        let (_, v) = guard(|| core.interpreter_exception(&mut m)).map_err(|p| format!("{k:?} ({op:04X}) panicked: {p}"))?;
        let sr = sr_of(core.regs.sr);
        if (sr ^ st.sr) & 0xFF00 != 0 { return Err(format!("{k:?} ({op:04X}): user code changed SR from {:04X} to {sr:04X}", st.sr)); }
        if core.regs.ssp.0 != st.ssp { return Err(format!("{k:?} ({op:04X}): user code changed SSP from {:08X} to {:08X}", st.ssp, core.regs.ssp.0)); }
        if core.stop { return Err(format!("{k:?} ({op:04X}): user code stopped the processor")); }
        if m.resets != 0 { return Err(format!("{k:?} ({op:04X}): user code reset the devices")); }
        if privileged(k) && k != Unknown {
            ctx.class(&format!("privileged {k:?}"));
            if v != Some(8) { return Err(format!("{k:?} ({op:04X}): expected privilege violation, got {v:?}")); }
            let mut e = regs_of(&st);
            e.pc = core.regs.pc;
            if e != core.regs || core.regs.pc.0.wrapping_sub(st.pc) > 4 { return Err(format!("{k:?} ({op:04X}): registers changed by a privileged instruction in user mode: {:X?}", core.regs)); }
            if let Some((a, ..)) = m.diff(&m0, &[]) { return Err(format!("{k:?} ({op:04X}): memory changed at {a:08X}")); }
        } else if v == Some(8) { return Err(format!("{k:?} ({op:04X}): privilege violation for an unprivileged instruction")); }
        ctx.nontrivial = true;
        Ok(())
    })
}
pub const C11: Prop = Prop {
    id: "C11",
    rule: "a case is one instruction, or a program of several, started in user mode; every case that executes is non-trivial",
    assumptions: &["MOVE from SR is not privileged on the 68000"],
    run: |r: &Runner| {
        let all = gen::all_kinds();
        every_opcode(r, "every-opcode", &all, 10, check_user);
        let k: Vec<K> = all.iter().copied().filter(|k| privileged(*k)).collect();
        r.rand("privileged", 300_000, || gen::inst(&k), check_user);
        r.rand("privileged-full", 300_000, || gen::inst(&k).prop_map(|mut i| { i.sr &= !0x2000; i }).boxed(), |i, c| check_inst(i, c, Opts::default()));
        r.rand("any", 600_000, || gen::inst(&gen::all_kinds()), check_user);
        // longer runs: as long as no exception is processed the supervisor state stays the same
        r.rand("programs", 40_000, || (gen::init_with(prop::collection::vec(gen::opcode(&gen::known_kinds()), 4..24).boxed()), 2usize..20).boxed(), |(i, n), c| {
            let mut i = i.clone();
            i.sr &= !0x2000;
            let (st, mut m) = i.build();
            with_cpu!(i.cpu, C => {
                let mut core: M68000<C> = core_of(&st);
                for k in 0..*n {
                    let pc = core.regs.pc.0;
                    let (_, v) = guard(|| core.interpreter_exception(&mut m)).map_err(|p| format!("panicked at {pc:08X}: {p}"))?;
                    let sr = sr_of(core.regs.sr);
                    if (sr ^ st.sr) & 0xFF00 != 0 || core.regs.ssp.0 != st.ssp || core.stop || m.resets != 0 {
                        return Err(format!("instruction at {pc:08X} ({:04X}) reached supervisor state: SR {sr:04X} SSP {:08X} stop {} resets {}", m.peek16(pc), core.regs.ssp.0, core.stop, m.resets));
                    }
                    if k > 0 { c.nontrivial = true; }
                    if v == Some(2) || v == Some(3) { break; }
                    // the vector is not queued: an operating system that ignores the exception
                }
                Ok(())
            })
        });
    },
};

pub const C01: Prop = Prop {
    id: "C01",
    rule: "an opcode word together with a machine state; every opcode is non-trivial in the map, executed cases are non-trivial when they complete or trap for an architected reason",
    assumptions: &["opcode map written from the M68000 programmer's reference manual, independently of the decoder table"],
    run: |r: &Runner| {
        r.exhaust("map", 65536, |i, c| {
            let op = i as u16;
            let e = format!("{:?}", kind(op));
            let g = format!("{:?}", m68000::isa::Isa::from(op));
            c.nontrivial = true;
            c.class(&e);
            if e != g { return Err(format!("opcode {op:04X}: the 68000 defines {e}, decoded as {g}")); }
            let p = m68000::isa::Isa::from(op).is_privileged();
            if p != privileged(kind(op)) { return Err(format!("opcode {op:04X} ({e}): is_privileged is {p}")); }
            Ok(())
        });
        // the program that writes the table
        r.exhaust("generator", 1, |_, c| {
            let t = super::tools::generator()?;
            if t.len() != 65536 { return Err(format!("the generated table has {} entries", t.len())); }
            for (op, g) in t.iter().enumerate() {
                let e = format!("{:?}", kind(op as u16));
                if *g != e { return Err(format!("opcode {op:04X}: the 68000 defines {e}, the generator writes {g}")); }
            }
            c.nontrivial = true;
            Ok(())
        });
        every_opcode(r, "execute", &gen::all_kinds(), 8, |i, c| check_inst(i, c, Opts::default()));
        r.rand("unknown", 300_000, || gen::inst(&[Unknown, Illegal]), |i, c| check_inst(i, c, Opts::default()));
    },
};

pub const C16: Prop = Prop {
    id: "C16",
    rule: "a case is one instruction on one of four CPU timing tables; non-trivial when the instruction completes, so that its time is defined, or traps",
    assumptions: &[
        "constants of the two supplied CPUs are compared with an independent transcription of the timing tables; two user-defined CPUs have distinctive values for every constant",
        "bus and address errors, whose time depends on how far the instruction got, are not timed",
    ],
    run: |r: &Runner| {
        let o = Opts { cycles: true };
        every_opcode(r, "every-opcode", &gen::all_kinds(), 8, |i, c| { let r = check_inst(i, c, Opts { cycles: true }); c.nontrivial &= c_completed(i); r });
        let k = gen::known_kinds();
        r.rand("random", 1_200_000, || gen::inst(&k), |i, c| check_inst(i, c, o));
        // shift counts
        r.exhaust("shift-counts", 8 * 4 * 64 * 4, |n, c| {
            let (f, sz, cnt, cpu) = (n & 7, n >> 3 & 3, n >> 5 & 63, n >> 11);
            if sz == 3 { return Ok(()); }
            let mut i = derived(n, &[0xE220 | (sz as u16) << 6 | (f as u16 & 3) << 3 | (f as u16 >> 2) << 8]);
            i.d[1] = i.d[1] & !63 | cnt as u32;
            i.cpu = cpu as u8 & 3;
            check_inst(&i, c, o)
        });
        // register counts of MOVEM
        r.exhaust("movem-counts", 4 * 4096, |n, c| {
            let x = mix(n);
            let op = [0x48A0u16, 0x48E0, 0x4C98, 0x4CD0][(n >> 12) as usize];
            let i = derived(n, &[op, (x as u16) & (x >> 16) as u16 | if n & 1 == 0 { (x >> 32) as u16 } else { 0 }]);
            check_inst(&i, c, o)
        });
        super::hist::timing(r);
    },
};
fn c_completed(i: &Init) -> bool { kind(i.code[0]) != Unknown }

#[allow(dead_code)]
pub fn size_of(op: u16) -> crate::dec::Sz { op_size(kind(op), op) }
#[allow(dead_code)]
pub fn forms() -> usize { groups().by_kind.values().map(|v| v.len()).sum() }
