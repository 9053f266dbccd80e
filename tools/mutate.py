#!/usr/bin/env python3
"""Mutation testing of the checks: small changes of the code under test in scratch copies, and which checks notice.

mutate.py OUT.jsonl [--n N] [--seed S] [--workers W] [--files RE] [--scale X]
Nothing here is run by a check; scratch copies live in /tmp/mut and are removed with 'rm -rf /tmp/mut'.
"""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"
FILES = ["m68000/src/" + f for f in ("interpreter.rs interpreter_fast.rs interpreter_disassembler.rs exception.rs addressing_modes.rs instruction.rs assembler.rs "
         "disassembler.rs memory_access.rs status_register.rs utils.rs lib.rs isa.rs cpu_details.rs cpu_details/mc68000.rs cpu_details/scc68070.rs decoder.rs").split()]
FILES += ["m68000-ffi/src/lib.rs", "m68000-ffi/src/mc68000.rs", "m68000-ffi/src/scc68070.rs"]
FILES += ["m68000/src/bin/disassemble.rs", "m68000/src/bin/decoder.rs", "m68000/src/bin/scc68070.rs", "m68000-ffi/src/bin/scc68070_ffi.rs"]
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="nightly-2025-10-03", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTFLAGS="")
SWAPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "),
         (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " | "), (r" \+= ", " -= "), (r" -= ", " += "), (r" <<= ", " >>= "), (r" >>= ", " <<= "), (r" << ", " >> "), (r" >> ", " << "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"wrapping_add", "wrapping_sub"), (r"wrapping_sub", "wrapping_add"), (r"\bi16\b", "u16"), (r"\bi8\b", "u8"), (r"\bi32\b", "i64"), (r"as u16\b", "as u8 as u16"), (r"as u32\b", "as u16 as u32"),
         (r"if (?!let)([^{}]+) \{", r"if !(\1) {"), (r"Size::Byte", "Size::Word"), (r"Size::Word", "Size::Long"), (r"Size::Long", "Size::Word"), (r"\.even\(\)\?", ""), (r"is_long\(\)", "is_word()"), (r"is_word\(\)", "is_long()"),
         (r"is_byte\(\)", "is_word()"), (r"is_drd\(\)", "is_ard()"), (r"is_dard\(\)", "is_drd()"), (r"get_word\(", "get_byte("), (r"!([a-z(])", r"\1"), (r"\brx\b", "ry"), (r"\bry\b", "rx"), (r"\bsrc\b", "dst"), (r"\bdst\b", "src"),
         (r"_BW\b", "_L"), (r"_L\b", "_BW"), (r"_MEM", "_REG"), (r"_REG", "_MEM"), (r"\.usp\b", ".ssp"), (r"\.ssp\b", ".usp"), (r"sr\.x\b", "sr.c"), (r"sr\.c\b", "sr.x"), (r"sr\.v\b", "sr.c"), (r"sr\.n\b", "sr.z"), (r"sr\.z\b", "sr.n"),
         (r"Direction::Left", "Direction::Right"), (r"DstEa", "DstReg"), (r"DstReg", "DstEa"), (r"push_long", "push_word"), (r"DIVS", "DIVU"), (r"MULS", "MULU"), (r"\breg\b", "0"), (r"&MODES_\d+", "&MODES_01234567"), (r"%= ", "&= "), (r"% ", "/ ")]

def sites(f, text):
    """All single mutations of a file: (offset, length, replacement, description)."""
    out, off = [], 0
    for line in text.split("\n"):
        code = line.split("//")[0]
        if "#[cfg(test)]" in line: break
        s = code.strip()
        if s and not s.startswith(("use ", "#", "pub mod", "mod ", "*", "/*")) and not re.match(r"^(pub )?(const )?(unsafe )?(extern )?(pub\(super\) )?(const )?fn |^impl|^trait|^pub trait|^macro", s):
            for pat, rep in SWAPS:
                for m in re.finditer(pat, code):
                    out.append((off + m.start(), m.end() - m.start(), m.expand(rep), f"{pat} -> {rep}"))
            for m in re.finditer(r"(?<![\w.])(0x[0-9A-Fa-f_]+|\d+)(?![\w.])", code):
                v = int(m.group().replace("_", ""), 0)
                for n in {v + 1, max(v - 1, 0), v ^ 1 << random.randrange(max(v.bit_length(), 1))} - {v}:
                    out.append((off + m.start(), m.end() - m.start(), str(n), f"{v} -> {n}"))
            # a statement removed
            if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "const ", "static ")) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
                i = code.index(s)
                out.append((off + i, len(s), ";", "removed: " + s[:60]))
            if s.endswith(",") and "=>" not in s and re.match(r"^Isa|^\w+, \w+", s) is None:
                pass
        off += len(line) + 1
    return out

def worker_dir(k, scale):
    d = f"{W}/w{k}"
    if os.path.isdir(d): return d
    os.makedirs(d)
    subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
    shutil.copy("/opt/vp/Cargo.lock", d + "/repo/Cargo.lock")
    shutil.copytree(V + "/harness", d + "/harness")
    shutil.copy(V + "/known_findings.json", d)
    c = open(d + "/harness/Cargo.toml").read().replace('"/repo/', f'"{d}/repo/')
    c = c.replace("incremental = false", "incremental = true").replace("opt-level = 2", "opt-level = 1").replace("codegen-units = 16", "codegen-units = 64")
    open(d + "/harness/Cargo.toml", "w").write(c)
    return d

ORDER = {"assembler": "C20 C21", "disassembler": "C22 C18", "interpreter_disassembler": "C18 C19", "memory_access": "C23 C27 C15", "status_register": "C24", "utils": "C24", "exception": "C12 C13 C14", "mc68000": "C16 C25", "scc68070": "C16 C25",
         "lib": "C24 C25 C26", "cpu_details": "C16 C24", "decoder": "C01 C02", "isa": "C01 C11 C14", "instruction": "C02 C24", "addressing_modes": "C09 C02 C15 C22"}
ALL = [f"C{n:02}" for n in range(1, 32)]

def one(k, f, mut, scale, full):
    d = worker_dir(k, scale)
    p = f"{d}/repo/{f}"
    text = open(p).read()
    off, ln, rep, what = mut
    new = text[:off] + rep + text[off + ln:]
    line = text[:off].count("\n") + 1
    res = {"file": f, "line": line, "what": what, "old": text.split("\n")[line - 1].strip()[:150], "new": new.split("\n")[line - 1].strip()[:150], "off": off, "len": ln, "rep": rep}
    try:
        open(p, "w").write(new)
        env = dict(ENV, CARGO_TARGET_DIR=d + "/target", HARNESS_QUICK=str(scale))
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--manifest-path", d + "/harness/Cargo.toml"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            res["result"] = "does not compile"
            return res
        first = ("C28 C29 C01" if "/bin/" in f else ORDER.get(os.path.basename(f)[:-3], "C09 C08 C03 C06 C07 C04 C05 C10 C16")).split() if len(ALL) > 20 else []
        caught = []
        for c in first + [x for x in ALL if x not in first]:
            try:
                r = subprocess.run([d + "/target/release/harness", c, "--out", d], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                caught.append(c + "?timeout")
                continue
            if r.returncode:
                caught.append(c if r.returncode == 1 else f"{c}?{r.returncode}")
                if not full: break
        res["caught"] = caught
        if caught:
            res["result"] = "caught"
            return res
        r = subprocess.run("cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E 'FAILED|^error' | head -3", shell=True, cwd=d + "/repo", env=dict(ENV, CARGO_TARGET_DIR=d + "/target/t"), stdout=subprocess.PIPE, text=True)
        res["result"] = "only the tests" if r.stdout.strip() else "SURVIVED"
        return res
    finally:
        open(p, "w").write(text)

def main():
    a = argparse.ArgumentParser()
    a.add_argument("out"); a.add_argument("--n", type=int, default=50); a.add_argument("--seed", type=int, default=1); a.add_argument("--workers", type=int, default=3)
    a.add_argument("--files", default="."); a.add_argument("--scale", type=float, default=0.1); a.add_argument("--full", action="store_true"); a.add_argument("--list", action="store_true"); a.add_argument("--only", default="", help="run only these checks")
    a = a.parse_args()
    random.seed(a.seed)
    if a.only:
        global ALL
        ALL = a.only.split(',')
        for k in list(ORDER): ORDER[k] = ' '.join(ALL)
    jobs = []
    for f in FILES:
        if re.search(a.files, f):
            s = sites(f, open("/repo/" + f).read())
            if f.endswith("decoder.rs"): s = random.sample(s, min(len(s), 20))
            jobs += [(f, m) for m in s]
    print(len(jobs), "mutations", flush=True)
    if a.list: return
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            x = json.loads(l); done.add((x["file"], x["off"], x["rep"]))
    jobs = [j for j in jobs if (j[0], j[1][0], j[1][2]) not in done]
    random.shuffle(jobs)
    jobs = jobs[:a.n]
    lock = threading.Lock()
    out = open(a.out, "a")
    def run(k):
        while True:
            with lock:
                if not jobs: return
                f, m = jobs.pop()
            r = one(k, f, m, a.scale, a.full)
            with lock:
                out.write(json.dumps(r) + "\n"); out.flush()
                print(r["result"], r.get("caught", ""), f"{r['file']}:{r['line']}", r["what"], "|", r["new"] if r["result"] == "SURVIVED" else "", flush=True)
    ts = [threading.Thread(target=run, args=(k,)) for k in range(a.workers)]
    for t in ts: t.start()
    for t in ts: t.join()

main()
