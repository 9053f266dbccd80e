//! The programs shipped with the library: disassembler (C28), example machines (C29), decoder table generator (part of C01).
use super::code::{same_text, Code};
use super::Prop;
use crate::dec::{kind, K};
use crate::cpu::T_SCC;
use crate::exec::St;
use crate::gen;
use crate::mem::{Mem, Range};
use crate::run::{Ctx, Res, Runner};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Read;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};
use K::*;

fn program(name: &str) -> PathBuf { std::env::current_exe().unwrap().parent().unwrap().join(name) }

/// A directory of its own, removed when dropped.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::current_exe().unwrap().parent().unwrap().join(format!("scratch-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

/// What a child printed before it ended, or before the limit: (stdout, stderr, exit code).
fn run(mut c: Command, limit: Duration) -> Result<(Vec<u8>, Vec<u8>, Option<i32>), String> {
    let mut p = c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| format!("cannot start the program: {e}"))?;
    let (mut o, mut e) = (p.stdout.take().unwrap(), p.stderr.take().unwrap());
    let (to, te) = (std::thread::spawn(move || { let mut v = vec![]; let _ = o.read_to_end(&mut v); v }), std::thread::spawn(move || { let mut v = vec![]; let _ = e.read_to_end(&mut v); v }));
    let t0 = Instant::now();
    let mut late = false;
    let st = loop {
        if let Some(s) = p.try_wait().map_err(|e| e.to_string())? { break s; }
        if t0.elapsed() > limit { late = true; let _ = p.kill(); break p.wait().map_err(|e| e.to_string())?; }
        std::thread::sleep(Duration::from_micros(300));
    };
    let (o, e) = (to.join().unwrap(), te.join().unwrap());
    if late { return Err(format!("the program did not end within {limit:?}")); }
    Ok((o, e, st.code()))
}

// ---------------------------------------------------------------- C01: the table generator

/// The table written by the generator program names the reference instruction for every opcode.
pub fn generator() -> Result<Vec<String>, String> {
    let d = Scratch::new();
    let mut c = Command::new(program("decoder"));
    c.current_dir(&d.0);
    let (_, err, code) = run(c, Duration::from_secs(120))?;
    if code != Some(0) { return Err(format!("the generator ended with {code:?}: {}", String::from_utf8_lossy(&err))); }
    let s = std::fs::read_to_string(d.0.join("decoder.rs")).map_err(|e| format!("decoder.rs: {e}"))?;
    let body = s.split("[Isa; 65536] = [").nth(1).and_then(|s| s.split(']').next()).ok_or("no table in the generated file")?;
    Ok(body.split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect())
}

// ---------------------------------------------------------------- C28

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Listing { code: Vec<(u16, [u16; 4])>, raw: Vec<u16>, beg: Option<u16>, end: Option<u16>, out: u8, order: u8,
    /// Filler before the code and after it, in words.
    #[serde(default)]
    fill: (u32, u32) }

fn listing() -> BoxedStrategy<Listing> {
    let k = gen::all_kinds();
    let pos = || prop_oneof![1 => Just(None), 2 => any::<u16>().prop_map(Some)];
    let edge = |x: u32| prop_oneof![x - 60..x + 4, x..2 * x];
    let fill = prop_oneof![60 => Just((0u32, 0u32)), 5 => (edge(0x4000), 0u32..40), 8 => (edge(0x8000), 0u32..40), 1 => (edge(0x40_0000), 0u32..40), 4 => (0u32..40, edge(0x8000))];
    (prop::collection::vec((gen::opcode(&k), prop::array::uniform4(gen::data16())), 0..40), prop::collection::vec(any::<u16>(), 0..12), pos(), pos(), 0u8..4, 0u8..6, fill)
        .prop_map(|(code, raw, beg, end, out, order, fill)| Listing { code, raw, beg, end, out, order, fill })
        .boxed()
}

fn check_listing(l: &Listing, ctx: &mut Ctx) -> Res {
    let mut w: Vec<u16> = (0..l.fill.0).map(|k| 0x7000 | k as u16 & 0x0EFF).collect();
    for (op, e) in &l.code {
        let n = (Code { op: *op, e: *e, pc: 0 }.ins().len / 2) as usize;
        w.push(*op);
        w.extend_from_slice(&e[..n - 1]);
    }
    w.extend_from_slice(&l.raw);
    w.extend((0..l.fill.1).map(|k| 0x7001 | k as u16 & 0x0EFE));
    // whatever the alignment of the start, the last instruction is complete
    w.extend([0x4E71; 5]);
    let bytes: Vec<u8> = w.iter().flat_map(|x| x.to_be_bytes()).collect();
    let n = bytes.len();
    // positions mostly inside of the file, some beyond its end
    let mut beg = l.beg.map(|b| b as usize % (n + 8) & !1);
    let mut end = l.end.map(|e| e as usize % (n + n / 2 + 8));
    if l.fill != (0, 0) {
        // long files: around the code, near the start and the end, or all of it; very large ones are not listed whole
        let place = |x: u16| -> usize { let c = l.fill.0 as usize * 2; match x & 3 { 0 | 1 => (c + (x as usize >> 2) % 400).saturating_sub(160), 2 => (x as usize >> 2) % n, _ => n + 40 - (x as usize >> 2) % 200 } };
        beg = l.beg.map(|b| place(b) & !1);
        end = l.end.map(place);
        if n > 0x10_0000 && beg.is_none_or(|b| b + 0x2_0000 < n) { beg = Some((l.fill.0 as usize * 2).saturating_sub(0x100)); }
        ctx.class(if n > 0x10_0000 { "file over 1 MiB" } else if n > 0x1_0000 { "file over 64 KiB" } else { "file over 32 KiB" });
    }
    // the listing stops at the end position, or at the end of the file
    let (from, to) = (beg.unwrap_or(0), end.unwrap_or(n).min(n));
    let d = Scratch::new();
    std::fs::write(d.0.join("in.bin"), &bytes).unwrap();
    let mut opts: Vec<Vec<String>> = vec![];
    if let Some(b) = beg { opts.push(vec!["-b".into(), b.to_string()]); }
    if let Some(e) = end { opts.push(vec!["-e".into(), e.to_string()]); }
    let outname = d.0.join(if l.out == 3 { "missing/out.txt" } else { "out.txt" });
    if l.out > 0 { opts.push(vec!["-o".into(), outname.to_str().unwrap().to_string()]); }
    // an existing output file is replaced
    if l.out == 2 { std::fs::write(&outname, "old contents\n".repeat(400)).unwrap(); }
    let k = opts.len();
    if k > 1 { opts.rotate_left(l.order as usize % k); if l.order >= 3 { opts.reverse(); } }
    let mut c = Command::new(program("disassemble"));
    c.current_dir(&d.0).arg(d.0.join("in.bin")).args(opts.concat());
    let (o, e, code) = run(c, Duration::from_secs(120))?;
    if code != Some(0) { return Err(format!("{} bytes from {beg:?} to {end:?}: ended with {code:?}: {}", n, String::from_utf8_lossy(&e))); }
    let text = if l.out == 1 || l.out == 2 {
        if !o.is_empty() { return Err(format!("printed {:?} although an output file is given", String::from_utf8_lossy(&o))); }
        std::fs::read(&outname).map_err(|e| format!("output file: {e}"))?
    } else { o };
    let text = String::from_utf8(text).map_err(|e| e.to_string())?;
    let mut lines = text.lines();
    let (mut at, mut count) = (from, 0);
    while at < to {
        let g = |k: usize| w.get(at / 2 + k).copied().unwrap_or(0);
        let i = Code { op: g(0), e: [g(1), g(2), g(3), g(4)], pc: at as u32 }.ins();
        let line = lines.next().ok_or_else(|| format!("listing from {from} to {to} ends before {at:#X}"))?;
        let (a, t) = line.split_once(' ').ok_or_else(|| format!("line {line:?}"))?;
        if u32::from_str_radix(a.trim_start_matches("0x"), 16).ok() != Some(at as u32) { return Err(format!("line {line:?} instead of the instruction at {at:#X}")); }
        same_text(&i, t)?;
        at += i.len as usize;
        count += 1;
    }
    if let Some(x) = lines.next() { return Err(format!("listing from {from} to {to}: unexpected line {x:?} after its end")); }
    ctx.class(["standard output", "new file", "existing file", "file that cannot be created"][l.out as usize]);
    ctx.class(match (beg, end) { (None, None) => "whole file", (Some(_), None) => "from a position", (None, Some(_)) => "to a position", _ => "range" });
    ctx.nontrivial = count > 1;
    Ok(())
}

/// Wrong command lines end with a failure, print the usage or a message, and write nothing.
fn check_usage(v: &Vec<u8>, ctx: &mut Ctx) -> Res {
    let d = Scratch::new();
    std::fs::write(d.0.join("in.bin"), [0x4E, 0x71]).unwrap();
    let bad: Vec<&str> = match v[0] % 6 {
        0 => vec![],
        1 => vec!["missing.bin"],
        2 => vec!["in.bin", "-x"],
        3 => vec!["in.bin", "-b"],
        4 => vec!["in.bin", ["-e", "-b"][v[1] as usize & 1], ["x", "-1", "0x10", ""][v[1] as usize >> 1 & 3]],
        _ => vec!["in.bin", "-b", "0", "-e", "2", "-o", "out.txt", "-b", "0"],
    };
    let mut c = Command::new(program("disassemble"));
    c.current_dir(&d.0).args(&bad);
    let (o, e, code) = run(c, Duration::from_secs(120))?;
    if code == Some(0) || code.is_none() { return Err(format!("arguments {bad:?}: ended with {code:?}")); }
    if o.is_empty() && e.is_empty() { return Err(format!("arguments {bad:?}: no message")); }
    if String::from_utf8_lossy(&o).contains("NOP") { return Err(format!("arguments {bad:?}: listing printed")); }
    if std::fs::read_dir(&d.0).unwrap().count() != 1 { return Err(format!("arguments {bad:?}: a file was written")); }
    ctx.nontrivial = true;
    Ok(())
}

pub const C28: Prop = Prop {
    id: "C28",
    rule: "a case is one run of the disassembler program on a generated file and range; non-trivial when at least two instructions are listed (command line errors: always)",
    assumptions: &["start positions are even and the last instruction of the range is complete in the file", "texts are compared as in C22"],
    run: |r: &Runner| {
        r.rand("listing", 600, listing, check_listing);
        r.rand("usage", 20, || prop::collection::vec(any::<u8>(), 2..3).boxed(), check_usage);
    },
};

// ---------------------------------------------------------------- C29

const ROM: u32 = 0x40_0000;
const RAM: u32 = 0x50_0000;
const UART: u32 = 0x8000_2011;

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Board { d: [u32; 8], a: [u32; 7], ssp: u32, start: u16, items: Vec<Item>, end: u8 }
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
enum Item { Code(u16, [u16; 4]), Print(u8), Status(u8, u8), Trap(u8), Peek(u8, u32) }

fn board() -> BoxedStrategy<Board> {
    let kinds: Vec<K> = gen::known_kinds().into_iter().filter(|k| !matches!(k, Stop | Reset | Rte | Rts | Rtr | Jmp | Jsr | Bra | Bsr | Bcc | Dbcc)).collect();
    let item = prop_oneof![
        8 => (gen::opcode(&kinds), prop::array::uniform4(gen::data16())).prop_map(|(o, e)| Item::Code(o, e)),
        2 => any::<u8>().prop_map(Item::Print),
        1 => (0u8..8, 0u8..11).prop_map(|(r, o)| Item::Status(r, o)),
        1 => (0u8..16).prop_map(Item::Trap),
        1 => (0u8..8, 0..RAM).prop_map(|(r, a)| Item::Peek(r, a)),
    ];
    let adr = || prop_oneof![4 => 0x400u32..0x3F_0000, 1 => ROM..ROM + 0x800, 1 => RAM - 64..RAM].prop_map(|x| x & !1);
    (prop::array::uniform8(gen::data32()), prop::array::uniform7(adr()), (0x1000u32..0x3F_0000).prop_map(|x| x & !1), 0u16..200, prop::collection::vec(item, 0..40), 0u8..6)
        .prop_map(|(d, a, ssp, start, items, end)| Board { d, a, ssp, start, items, end })
        .boxed()
}

/// The board as the reference sees it, with the program written so far.
struct Machine { st: St, m: Mem, at: u32, out: Vec<u8>, rom: Vec<(u32, Vec<u16>)>, setup: u32 }
impl Machine {
    /// Runs the reference until it reaches `goal`; false when something outside of the described board happens.
    fn go(&mut self, goal: u32) -> bool {
        for _ in 0..4096 {
            if self.st.pc == goal && self.st.pend.is_empty() { return true; }
            self.m.log.clear();
            self.m.log_on = true;
            let pc = self.st.pc;
            let o = self.st.step(&mut self.m, &T_SCC);
            if o.unspec || o.fault.is_some() || o.undef_ccr != 0 || !o.dc_mem.is_empty() || o.dc_dreg.is_some() || self.st.stop { return false; }
            if self.st.t() || !self.st.s() { return false; }
            let log = std::mem::take(&mut self.m.log);
            for l in &log {
                if l.addr.wrapping_sub(0x8000_2000) < 0x100 {
                    if l.size != 1 { return false; }
                    if l.write {
                        if l.addr == 0x8000_2019 { self.out.push(self.m.byte(l.addr)); }
                        self.m.poke8(l.addr, if l.addr == 0x8000_2013 { 0x0E } else { 0 });
                    }
                }
                // the program does not change itself, its vectors or handlers
                if l.write && (l.addr < 0x400 && pc >= self.setup || l.addr.wrapping_sub(ROM) < 0x4000) { return false; }
            }
            if let Some(v) = o.vector {
                if !matches!(v, 4..=7 | 10 | 11 | 32..=47) { return false; }
                self.st.request(v);
            }
        }
        false
    }
    fn emit(&mut self, w: &[u16]) {
        for (k, x) in w.iter().enumerate() { self.m.poke16(self.at + 2 * k as u32, *x); }
        self.rom.push((self.at, w.to_vec()));
        self.at += 2 * w.len() as u32;
    }
    /// Appends instructions when the reference executes them to the next address.
    fn append(&mut self, w: &[u16]) -> bool {
        let (st, m, n) = (self.st.clone(), self.m.clone(), self.out.len());
        let at = self.at;
        self.emit(w);
        if self.go(self.at) { return true; }
        self.st = st;
        self.m = m;
        self.at = at;
        self.out.truncate(n);
        self.rom.pop();
        false
    }
}

/// The ROM and what the machine prints from it.
fn burn(b: &Board) -> Option<(Vec<u8>, Vec<u8>, usize)> {
    let hi = |x: u32| (x >> 16) as u16;
    let start = ROM + 0x1000 + 2 * b.start as u32;
    let mut bus_error = None;
    let mut m = Mem::new(1, 1);
    for k in 0..0x400 { m.poke8(k, 0); }
    m.poke8(0x8000_2013, 0x0E);
    m.native_long = true;
    m.ranges = vec![Range { lo: RAM, len: UART - RAM, what: 0 }, Range { lo: 0x8000_201A, len: 2, what: 1 }, Range { lo: 0x8000_201C, len: 0u32.wrapping_sub(0x8000_201C), what: 0 }];
    let st = St { d: [0; 8], a: [0; 7], usp: 0, ssp: b.ssp, sr: 0x2700, pc: start, stop: false, pend: Default::default(), cur: None };
    let (st0, m0) = (st.clone(), m.clone());
    let mut x = Machine { st, m, at: start, out: vec![], rom: vec![(ROM, vec![hi(b.ssp), b.ssp as u16, hi(start), start as u16])], setup: 0 };
    for (a, w) in x.rom[0].1.clone().iter().enumerate() { x.m.poke16(ROM + 2 * a as u32, *w); }
    // handlers print a letter and return; they come first so that the program can be stepped
    let handler = |v: u16| ROM + 0x400 + 16 * v as u32;
    for v in [4u16, 5, 6, 7, 10, 11].into_iter().chain(32..48) {
        let mut h = vec![0x13FC, 0x40 + v, 0x8000, 0x2019];
        if matches!(v, 4 | 10 | 11) { h.extend([0x54AF, 2]); } // ADDQ.L #2,(2,SP): skips the offending word
        h.push(0x4E73);
        x.at = handler(v);
        x.emit(&h);
    }
    x.at = start;
    // MOVEC would be nice: the vector table is in RAM, so the program fills it in
    for v in [4u16, 5, 6, 7, 10, 11].into_iter().chain(32..48) {
        let (h, a) = (handler(v), v * 4);
        x.emit(&[0x21FC, hi(h), h as u16, a]);
        x.m.poke32(a as u32, h);
    }
    x.st.pc = x.at;
    for r in 0..8u16 { let v = b.d[r as usize]; if !x.append(&[0x203C | r << 9, hi(v), v as u16]) { return None; } }
    for r in 0..7u16 { let v = b.a[r as usize]; if !x.append(&[0x207C | r << 9, hi(v), v as u16]) { return None; } }
    let mut used = 0;
    for i in &b.items {
        used += match i {
            Item::Code(op, e) => {
                let n = (Code { op: *op, e: *e, pc: x.at }.ins().len / 2) as usize;
                let w: Vec<u16> = [&[*op][..], &e[..n - 1]].concat();
                x.append(&w)
            }
            Item::Print(c) => x.append(&[0x13FC, *c as u16, 0x8000, 0x2019]),
            Item::Status(r, o) => x.append(&[0x1039 | (*r as u16 & 7) << 9, 0x8000, 0x2011 + *o as u16]),
            Item::Trap(n) => x.append(&[0x4E40 | *n as u16 & 15]),
            Item::Peek(r, a) => x.append(&[0x1039 | (*r as u16 & 7) << 9, hi(*a), *a as u16]),
        } as usize;
    }
    // registers, as bytes
    for w in [&[0x40F9, 0, 0x0540][..], &[0x48F9, 0x7FFF, 0, 0x0500], &[0x41F8, 0x0500], &[0x303C, 65]] { if !x.append(w) { return None; } }
    if !x.append(&[0x13D8, 0x8000, 0x2019, 0x51C8, 0xFFF8]) { return None; }
    match b.end {
        // the last bytes of RAM, the first beyond
        0 => { x.append(&[0x13FC, 0x55, hi(RAM - 1), (RAM - 1) as u16]); x.append(&[0x13F9, hi(RAM - 1), (RAM - 1) as u16, 0x8000, 0x2019]); }
        // bus errors: the handler continues with the last line
        n @ 1..=3 => {
            let a = [RAM, UART - 1, 0x8000_201C][n as usize - 1];
            let sp = b.ssp;
            if !x.append(&[0x2E7C, hi(sp), sp as u16]) { return None; }
            let cont = x.at + 8 + 6;
            x.emit(&[0x21FC, hi(cont), cont as u16, 8]);
            bus_error = Some((x.at, cont));
            x.emit(&[0x4A39, hi(a), a as u16]);
            x.st.pc = cont;
            if !x.append(&[0x2E7C, hi(sp), sp as u16]) { return None; }
        }
        _ => {}
    }
    if !x.append(&[0x13FC, 10, 0x8000, 0x2019]) { return None; }
    x.emit(&[0x60FE]);
    if x.at > ROM + 0x4000 { return None; }
    let mut rom = vec![0u8; (x.at - ROM) as usize];
    for (a, w) in &x.rom { for (k, v) in w.iter().enumerate() { let o = (a - ROM) as usize + 2 * k; rom[o..o + 2].copy_from_slice(&v.to_be_bytes()); } }
    // the whole program again: it may read its own code
    let mut y = Machine { st: st0, m: m0, at: 0, out: vec![], rom: vec![], setup: 0 };
    for (k, v) in rom.iter().enumerate() { y.m.poke8(ROM + k as u32, *v); }
    y.setup = start + 8 * 22;
    if let Some((at, cont)) = bus_error {
        if !y.go(at - 8) { return None; }
        y.m.poke32(8, cont);
        y.st.pc = cont;
    }
    if !y.go(x.at - 2) { return None; }
    Some((rom, y.out, used))
}

/// Runs an example machine until it has printed as much as expected.
fn boot(name: &str, rom: &[u8], want: &[u8]) -> Res {
    let d = Scratch::new();
    std::fs::write(d.0.join("cpudiag40.rom"), rom).unwrap();
    let mut c = Command::new(program(name));
    let mut p = c.current_dir(&d.0).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("cannot start {name}: {e}"))?;
    let mut o = p.stdout.take().unwrap();
    let len = want.len();
    let w = want.to_vec();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut got = vec![];
        let mut buf = [0u8; 512];
        // reading ends with the last byte, at the first difference, or when the program ends
        while got.len() < len {
            match o.read(&mut buf) { Ok(0) | Err(_) => break, Ok(n) => got.extend_from_slice(&buf[..n]) }
            if got[..got.len().min(len)] != w[..got.len().min(len)] { break; }
        }
        let _ = tx.send(got);
    });
    let got = rx.recv_timeout(Duration::from_secs(100));
    let _ = p.kill();
    let _ = p.wait();
    let got = got.map_err(|_| format!("{name}: nothing more printed after 100 s"))?;
    if got != want {
        let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
        return Err(format!("{name}: printed {:02X?} instead of {:02X?} after {k} bytes", &got[k..got.len().min(k + 16)], &want[k..len.min(k + 16)]));
    }
    Ok(())
}

fn check_board(b: &Board, ctx: &mut Ctx) -> Res {
    let Some((rom, out, used)) = burn(b) else { return Ok(()) };
    // each byte is printed as the character of that number
    let want: Vec<u8> = out.iter().flat_map(|c| (*c as char).to_string().into_bytes()).collect();
    boot("scc68070", &rom, &want)?;
    boot("scc68070_ffi", &rom, &want)?;
    ctx.class(&format!("{}x8 instructions", used / 8));
    ctx.nontrivial = used > 0;
    Ok(())
}

pub const C29: Prop = Prop {
    id: "C29",
    rule: "a case is one generated ROM booted on both example machines; non-trivial when its program has instructions besides the common beginning and end",
    assumptions: &["ROMs access the serial port with byte accesses only, do not modify themselves, and stay in supervisor mode without trace or interrupts"],
    run: |r: &Runner| {
        r.rand("boot", 300, board, check_board);
    },
};
