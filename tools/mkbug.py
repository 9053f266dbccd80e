#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions of bugs/*.py and confirms each one in a scratch copy of /repo.

mkbug.py write [id...]     write the folders
mkbug.py confirm [id...]   in a scratch copy: builds, passes the stable tests, demo passes without and fails with the patch
mkbug.py catch [id...]     apply each patch to /repo, run the check of its property (others with --all), undo it
"""
import difflib, glob, json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SCR = "/tmp/mkbug_scratch"

def load():
    out = {}
    for f in sorted(glob.glob(V + "/tools/bugs/*.py")):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        for b in ns["BUGS"]:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out

DEMO_SH = r'''#!/bin/bash
# Runs demo.rs against the crate in the current directory: exit 0 when it behaves as it should.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
t=$(sed -n 's/^export RUSTUP_TOOLCHAIN=//p' /opt/vp/env.sh 2>/dev/null | head -n 1)
[ -n "$t" ] && export RUSTUP_TOOLCHAIN=$t
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUSTFLAGS=
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$here/demo.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
%(deps)s
%(bins)s[workspace]
EOF
export CARGO_TARGET_DIR=$T/target
cd "$T" || exit 3
cargo build --offline >"$T/log" 2>&1 || { cat "$T/log"; exit 3; }
timeout 120 "$T/target/debug/demo"
'''

PRELUDE = r'''#![allow(dead_code, unused_imports)]
use m68000::addressing_modes::{AddressingMode, BriefExtensionWord};
use m68000::cpu_details::{Mc68000, Scc68070};
use m68000::exception::{Exception, Vector};
use m68000::instruction::{Direction, Instruction, Size};
use m68000::isa::Isa;
use m68000::{CpuDetails, M68000, MemoryAccess};
use std::num::Wrapping;

const CODE: u32 = 0x1000;

/// A core about to execute `code` at CODE, in supervisor mode with SSP 0x8000, and 64 KiB of memory whose
/// exception vectors v point to 0x4000 + 16 * v.
fn setup<C: CpuDetails>(code: &[u16]) -> (M68000<C>, Vec<u8>) {
    let mut mem = vec![0u8; 0x10000];
    for v in 2..256u32 {
        put(&mut mem, v * 4, &[0, 0x4000 + 16 * v as u16]);
        put(&mut mem, 0x4000 + 16 * v, &[0x4E71, 0x4E71]);
    }
    put(&mut mem, CODE, code);
    let mut cpu = M68000::<C>::new_no_reset();
    cpu.regs.ssp.0 = 0x8000;
    cpu.regs.usp.0 = 0x7000;
    cpu.regs.pc.0 = CODE;
    (cpu, mem)
}

fn put(mem: &mut [u8], addr: u32, words: &[u16]) {
    for (i, w) in words.iter().enumerate() {
        mem[addr as usize + 2 * i] = (w >> 8) as u8;
        mem[addr as usize + 2 * i + 1] = *w as u8;
    }
}

fn word(mem: &[u8], addr: u32) -> u16 {
    (mem[addr as usize] as u16) << 8 | mem[addr as usize + 1] as u16
}

fn long(mem: &[u8], addr: u32) -> u32 {
    (word(mem, addr) as u32) << 16 | word(mem, addr + 2) as u32
}

fn check(ok: bool, what: &str) {
    if !ok {
        println!("WRONG: {what}");
        std::process::exit(1);
    }
}
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def patch_of(b):
    files = {}
    for f, old, new in b["edits"]:
        src = files.get(f) or open(f"{REPO}/{f}").read()
        n = src.count(old)
        assert n == 1, f"{b['id']}: {n} matches in {f} of {old[:60]!r}"
        files[f] = src.replace(old, new)
    out = ""
    for f, new in files.items():
        old = open(f"{REPO}/{f}").read()
        out += f"diff --git a/{f} b/{f}\n" + "".join(difflib.unified_diff(
            old.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f))
    return out

def write(b):
    d = f"{V}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(patch_of(b))
    deps = 'm68000 = { path = "$repo/m68000"%s }' % (', features = ["ffi"]' if b.get("ffi") else "")
    if b.get("ffi"):
        deps += '\nm68000-ffi = { path = "$repo/m68000-ffi" }'
    # Programs of the project that the demonstration runs, as siblings of its own executable.
    bins = '[[bin]]\nname = "demo"\npath = "src/main.rs"\n' if b.get("bins") else ""
    for name, path in b.get("bins", []):
        bins += f'[[bin]]\nname = "{name}"\npath = "$repo/{path}"\n'
    open(d + "/demo.sh", "w").write(DEMO_SH % {"deps": deps, "bins": bins})
    os.chmod(d + "/demo.sh", 0o755)
    pre = PRELUDE if "fn setup" not in b["demo"] else ""
    open(d + "/demo.rs", "w").write(pre + b["demo"].strip("\n") + "\n")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(d + "/meta.json", "w"), indent=1)

def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return set(b.get("stable") or b.get("passed") or b)

def confirm(b):
    d = f"{V}/seeded/{b['id']}"
    if not os.path.isdir(SCR):
        shutil.copytree(REPO, SCR, symlinks=True)
    sh(f"git -C {SCR} checkout -q -- . && git -C {SCR} fetch -q {REPO} && git -C {SCR} reset -q --hard $(git -C {REPO} rev-parse HEAD)")
    r = sh(f"bash {d}/demo.sh", cwd=SCR)
    if r.returncode != 0:
        return f"demo fails on the unchanged tree ({r.returncode}):\n{r.stdout[-1500:]}"
    r = sh(f"git -C {SCR} apply {d}/patch.diff")
    if r.returncode:
        return "patch does not apply: " + r.stdout
    env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="nightly-2025-10-03", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=SCR + "/target")
    r = sh(f"cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > {SCR}/target/vp-test.log 2>&1; "
           f"python3 /opt/vp/results.py {SCR}/target/out.json cargo:{SCR}/target/vp-test.log", cwd=SCR, env=env)
    try:
        o = json.load(open(SCR + "/target/out.json"))
    except Exception:
        return "tests did not run: " + sh(f"tail -30 {SCR}/target/vp-test.log").stdout
    miss = stable() - set(o.get("passed") or o)
    if miss:
        return f"stable tests fail: {sorted(miss)[:5]} " + sh(f"grep -m3 -A3 error {SCR}/target/vp-test.log").stdout
    r = sh(f"bash {d}/demo.sh", cwd=SCR)
    if r.returncode in (0, 3):
        return f"demo gives {r.returncode} with the patch:\n{r.stdout[-1500:]}"
    return "ok: " + (r.stdout.strip().splitlines() or ["(no output)"])[-1][:150]

def catch(b, props):
    d = f"{V}/seeded/{b['id']}"
    assert not sh(f"git -C {REPO} status --porcelain").stdout.strip()
    r = sh(f"git -C {REPO} apply {d}/patch.diff")
    assert r.returncode == 0, r.stdout
    out = {}
    try:
        for p in props:
            r = sh(f"cd {V} && ./check.sh {p} --tier quick", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            out[p] = (r.returncode, [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")][:2], r.stdout)
    finally:
        sh(f"git -C {REPO} checkout -q -- .")
    return out

COPY = "/tmp/mkbug_catch"

def catchcopy(b, props):
    d = f"{V}/seeded/{b['id']}"
    if not os.path.isdir(COPY):
        os.makedirs(COPY)
        sh(f"git clone -q {REPO} {COPY}/repo && cp /opt/vp/Cargo.lock {COPY}/repo/Cargo.lock")
    sh(f"cd {COPY}/repo && git checkout -q -- . && git pull -q && rsync -a --delete --checksum {V}/harness/ {COPY}/harness/ && cp {V}/known_findings.json {COPY}/ && "
       f"grep -rl '\"/repo/' {COPY}/harness --include=*.toml --include=*.rs | xargs sed -i 's#\"/repo/#\"{COPY}/repo/#g'")
    r = sh(f"git -C {COPY}/repo apply {d}/patch.diff")
    assert r.returncode == 0, r.stdout
    env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="nightly-2025-10-03", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", RUSTFLAGS="",
               CARGO_TARGET_DIR=COPY + "/target", VERIF_SEED="1", VERIF_TIER="quick")
    r = sh(f"cargo build --release --offline --manifest-path {COPY}/harness/Cargo.toml", env=env)
    if r.returncode:
        return {p: (2, [], r.stdout) for p in props}
    out = {}
    for p in props:
        r = sh(f"{COPY}/target/release/harness --out {COPY} {p} --tier quick", env=env)
        out[p] = (r.returncode, [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")][:2], r.stdout)
    return out

def main():
    bugs = load()
    mode, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("--")]
    for i in ids or list(bugs):
        b = bugs[i]
        if mode == "write":
            write(b)
        elif mode == "confirm":
            write(b)
            print(i, b["property"], confirm(b), flush=True)
        elif mode in ("catch", "catchcopy"):
            props = [b["property"]]
            if "--all" in sys.argv:
                props = [f"C{n:02}" for n in range(1, 30)]
            for p, (rc, v, o) in (catch if mode == "catch" else catchcopy)(b, props).items():
                print(i, p, "CAUGHT" if rc == 1 and v else f"MISSED rc={rc}", v[:1], flush=True)
                if rc not in (0, 1):
                    print(o[-800:])
    if mode == "confirm" and os.path.isdir(SCR) and "--keep" not in sys.argv:
        shutil.rmtree("/tmp/mkbug_scratch")

main()
