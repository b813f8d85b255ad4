#!/usr/bin/env python3
"""Driver: builds the symbolic engine, compiles /repo's current source with the
harnesses of one property to LLVM IR, decides every harness with the solver,
replays counterexamples natively against the same source, writes evidence.

usage: check.py PROP [--tier quick|thorough] [--only HARNESS] [--keep]
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("QSYM_REPO", "/repo")
CRATE = os.path.join(REPO, "rust")
BUILD = os.environ.get("QSYM_BUILD", os.path.join(ROOT, "build"))
RIG = os.path.join(ROOT, "rig")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
STUBS = {"fftw": "fftw", "rayon": "rayon", "graph-canon": "graph-canon"}
QSYM = os.path.join(BUILD, "qsym", "release", "qsym")


class Err(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def env(**kw):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(kw)
    return e


def run(cmd, cwd, e, what, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        log(p.stdout[-6000:])
        raise Err("%s failed (exit %d)" % (what, p.returncode))
    return p.stdout


def build_engine():
    run(["cargo", "build", "--release", "--offline", "-q"], os.path.join(ROOT, "qsym"), env(CARGO_TARGET_DIR=os.path.join(BUILD, "qsym")), "engine build")


def repo_deps():
    """dependency lines of the repository's manifest, stubs substituted"""
    import tomllib
    m = tomllib.load(open(os.path.join(CRATE, "Cargo.toml"), "rb"))
    return m.get("dependencies", {}), m["package"].get("edition", "2021")


def toml_val(v):
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, list):
        return "[" + ", ".join(toml_val(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join("%s = %s" % (k, toml_val(x)) for k, x in v.items()) + " }"
    return str(v)


def write_if(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def sync(src, dst):
    """copy a tree, keeping mtimes of unchanged files, deleting what is gone"""
    want = set()
    for d, _, fs in os.walk(src):
        for f in fs:
            p = os.path.join(d, f)
            r = os.path.relpath(p, src)
            want.add(r)
            q = os.path.join(dst, r)
            b = open(p, "rb").read()
            try:
                if open(q, "rb").read() == b:
                    continue
            except OSError:
                pass
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, "wb").write(b)
    for d, _, fs in os.walk(dst):
        for f in fs:
            q = os.path.join(d, f)
            if os.path.relpath(q, dst) not in want:
                os.remove(q)


def gen_crate(name, modules, native, realfft=False):
    """a copy of the repository's crate with the harness modules appended"""
    dst = os.path.join(BUILD, name)
    tmp = os.path.join(BUILD, name + ".src")
    if os.path.exists(tmp):
        shutil.rmtree(tmp)
    shutil.copytree(os.path.join(CRATE, "src"), tmp)
    main = open(os.path.join(tmp, "main.rs")).read()
    # inner attributes must come first: the extra items go behind them
    i = 0
    lines = main.split("\n")
    while i < len(lines) and (lines[i].startswith("#![") or lines[i].strip() == "" or lines[i].startswith("//")):
        i += 1
    extra = "#[macro_use]\nextern crate vstd as std;\n"
    main = "\n".join(lines[:i]) + "\n" + extra + "\n".join(lines[i:]) + "\n#[allow(warnings)]\npub mod vh;\n"
    open(os.path.join(tmp, "main.rs"), "w").write(main)
    os.makedirs(os.path.join(tmp, "vh"))
    mod = "macro_rules! harnesses {\n    ($($n:ident = $e:expr;)*) => { $(#[no_mangle] pub extern \"C\" fn $n() { $e })* }\n}\n"
    mod += "pub mod plat;\n"
    shutil.copy(os.path.join(RIG, "harness", "plat_nat.rs" if native else "plat_sym.rs"), os.path.join(tmp, "vh", "plat.rs"))
    for m in ["common"] + modules:
        shutil.copy(os.path.join(RIG, "harness", m + ".rs"), os.path.join(tmp, "vh", m + ".rs"))
        mod += "pub mod %s;\n" % m
    if native:
        names = []
        for m in modules:
            t = open(os.path.join(RIG, "harness", m + ".rs")).read()
            names += [(m, f) for f in re.findall(r"^\s*(vh_\w+)\s*=", t, re.M)]
        mod += "pub fn dispatch(n: &str) -> bool {\n    match n {\n"
        for m, f in names:
            mod += '        "%s" => %s::%s(),\n' % (f, m, f)
        mod += "        _ => return false,\n    }\n    true\n}\n"
    open(os.path.join(tmp, "vh", "mod.rs"), "w").write(mod)
    sync(tmp, os.path.join(dst, "src"))
    shutil.rmtree(tmp)
    deps, edition = repo_deps()
    out = '[package]\nname = "rust"\nversion = "0.1.0"\nedition = "%s"\nautobins = false\n\n[workspace]\n\n[lib]\nname = "qsut"\npath = "src/main.rs"\n' % edition
    out += 'crate-type = ["%s"]\n' % ("rlib" if native else "cdylib")
    if native:
        out += '\n[[bin]]\nname = "vhrun"\npath = "runner.rs"\n'
    out += "\n[dependencies]\n"
    for k, v in deps.items():
        if k in STUBS and not (k == "fftw" and realfft):
            f = ', features = ["native"]' if native and k == "fftw" else ""
            out += '%s = { path = "%s"%s }\n' % (k, os.path.join(RIG, "stubs", STUBS[k]), f)
        else:
            out += "%s = %s\n" % (k, toml_val(v))
    out += 'qs = { path = "%s"%s }\n' % (os.path.join(RIG, "qs"), ', features = ["native"]' if native else "")
    out += 'vstd = { path = "%s"%s }\n' % (os.path.join(RIG, "vstd"), ', features = ["native"]' if native else "")
    if native:
        out += "\n[profile.dev]\nopt-level = 1\ndebug = false\noverflow-checks = false\ndebug-assertions = false\npanic = \"unwind\"\n"
        shutil.copy(os.path.join(RIG, "runner.rs"), os.path.join(dst, "runner.rs"))
    out += '\n[profile.release]\nlto = "fat"\npanic = "abort"\ncodegen-units = 1\nopt-level = 1\ndebug = false\n'
    write_if(os.path.join(dst, "Cargo.toml"), out)
    lock = os.path.join(CRATE, "Cargo.lock")
    if os.path.exists(lock) and not os.path.exists(os.path.join(dst, "Cargo.lock")):
        shutil.copy(lock, os.path.join(dst, "Cargo.lock"))
    return dst


def build_ir(prop, modules):
    dst = gen_crate("sym_" + prop, modules, False)
    tgt = os.path.join(BUILD, "symtarget")
    ll = os.path.join(tgt, "release", "deps")
    for f in (os.listdir(ll) if os.path.isdir(ll) else []):
        if f.endswith(".ll"):
            os.remove(os.path.join(ll, f))
    # always recompile the crate itself: the IR file above was just removed
    os.utime(os.path.join(dst, "src", "main.rs"))
    run(["cargo", "rustc", "--release", "--offline", "--lib", "-q", "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-A", "warnings"],
        dst, env(CARGO_TARGET_DIR=tgt), "IR build")
    fs = [f for f in os.listdir(ll) if f.endswith(".ll") and f.startswith("qsut")]
    if len(fs) != 1:
        raise Err("expected one IR file, found %r" % fs)
    out = os.path.join(BUILD, prop + ".ll")
    shutil.copy(os.path.join(ll, fs[0]), out)
    return out


def build_native(prop, modules, realfft=False):
    dst = gen_crate("nat_" + prop, modules, True, realfft)
    tgt = os.path.join(BUILD, "nattarget")
    run(["cargo", "build", "--offline", "--bin", "vhrun", "-q"], dst, env(CARGO_TARGET_DIR=tgt, RUSTFLAGS="-A warnings"), "native build")
    out = os.path.join(BUILD, prop + ".vhrun")
    shutil.copy(os.path.join(tgt, "debug", "vhrun"), out)
    return out


if __name__ == "__main__":
    from props import main
    sys.exit(main(sys.argv[1:]))
