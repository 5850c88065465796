#!/usr/bin/env python3
"""Builds /repo with one property's harnesses to LLVM IR for the engine, and the native replay program."""
import os, re, subprocess, sys, hashlib, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
HOOKS = ["lib", "compiler", "parser", "build_state", "nfagraph", "ng", "ng_holder", "rose", "smallwrite_build", "util", "report_manager", "ue2string", "ng_builder"]
TOOLS = "/root/.rustup/toolchains/stable-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin"
STUB = re.compile(r'3std9panicking11begin_panic|9panicking9panic_fmt|9panicking\w*panic_nounwind|panic_cannot_unwind|panic_in_cleanup|BuildHasher8hash_one|hashmap_random_keys|18handle_alloc_error|26___rust_alloc_error_handler')

class BuildError(Exception):
    pass

def sh(cmd, cwd=None, env=None, what="command"):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise BuildError(f"{what} failed ({p.returncode}):\n" + p.stdout[-6000:])
    return p.stdout

def rust_env(inc):
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTFLAGS="--cfg rescan_verif -Awarnings", RESCAN_VERIF=inc, LC_ALL="C")
    return e

def engine():
    """Builds the engine when its sources changed; returns its path."""
    src = os.path.join(VERIF, "engine")
    h = hashlib.sha256()
    for f in sorted(os.listdir(src)):
        h.update(f.encode()); h.update(open(os.path.join(src, f), "rb").read())
    out = os.path.join(BUILD, "engine-" + h.hexdigest()[:16])
    exe = os.path.join(out, "lsym")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "engine.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            os.makedirs(out, exist_ok=True)
            sh(["bash", os.path.join(src, "build.sh"), out], what="engine build")
    return exe

def gen_includes(files, inc):
    """Splits the property files into one include per hooked module; returns the entries."""
    mods = {m: [] for m in HOOKS}
    for f in files:
        cur = None
        for l in open(os.path.join(VERIF, "harness", "props", f)):
            m = re.match(r"//@ module (\w+)", l)
            if m:
                cur = m.group(1)
                if cur not in mods:
                    raise BuildError(f"{f}: unknown module {cur}")
                mods[cur].append(f"// from {f}\n")
            elif cur:
                mods[cur].append(l)
    os.makedirs(inc, exist_ok=True)
    entries = []
    for m, ls in mods.items():
        txt = "".join(ls)
        entries += re.findall(r'extern "C-unwind" fn vh_h_(\w+)\(\)', txt)
        put(os.path.join(inc, m + ".rs"), txt)
    put(os.path.join(inc, "table.rs"), 'extern "C-unwind" {' + "".join(f"fn vh_h_{e}();" for e in entries) + "}\n" +
        "const TABLE: &[(&str, unsafe extern \"C-unwind\" fn())] = &[" + "".join(f'("{e}", vh_h_{e}),' for e in entries) + "];\n")
    return entries

def put(path, txt):
    if os.path.exists(path) and open(path).read() == txt:
        return
    open(path, "w").write(txt)

def stub_ir(src, dst):
    """Turns the stubbed functions into declarations and keeps rescan's own functions from being inlined."""
    out = []
    skip = False
    fn = re.compile(r'@("?)([\w$.]+)\1\(')
    with open(src) as f:
        for l in f:
            if skip:
                if l.startswith("}"):
                    skip = False
                continue
            if l.startswith("define "):
                m = fn.search(l)
                name = m.group(2)
                if STUB.search(name):
                    d = "declare" + l[6:l.rindex("{")]
                    d = re.sub(r"\b(internal|private|dso_local|hidden|unnamed_addr|local_unnamed_addr|noundef|personality .*)\b ?", "", d)
                    d = re.sub(r'( align \d+)?( ![\w.]+ ![\w.]+)*$', '', d.rstrip())
                    out.append(d + "\n")
                    skip = True
                    continue
                if "6rescan" in name or "4core5slice6memchr" in name:
                    l2 = re.sub(r" (#\d+)(?= (personality |!|\{))", r" noinline \1", l, count=1)
                    l = l2 if l2 != l else re.sub(r"( personality .*)? \{$", r" noinline\1 {", l.rstrip(), count=1) + "\n"
            out.append(l)
    open(dst, "w").write("".join(out))

def build_ir(pid, files):
    work = os.path.join(BUILD, pid)
    inc = os.path.join(work, "inc")
    entries = gen_includes(files, inc)
    env = rust_env(inc)
    tgt = os.path.join(BUILD, "target-ir")
    env["CARGO_TARGET_DIR"] = tgt
    raw = os.path.join(work, "raw.ll")
    with open(os.path.join(BUILD, "ir.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        deps = os.path.join(tgt, "debug", "deps")
        if os.path.isdir(deps):
            for f in os.listdir(deps):
                if f.startswith(("vh_ir", "libvh_ir")):
                    os.unlink(os.path.join(deps, f))
        # the fingerprint does not always notice a restored mtime: force the crate under check
        fp = os.path.join(tgt, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if re.match(r"(rescan|vh_ir)-", d):
                    subprocess.run(["rm", "-rf", os.path.join(fp, d)])
        sh(["cargo", "rustc", "--offline", "--", "--emit=llvm-ir", "-C", "linker=/bin/true"], cwd=os.path.join(VERIF, "harness", "ir"), env=env, what="rustc")
        lls = [f for f in os.listdir(deps) if f.startswith("vh_ir") and f.endswith(".ll")]
        if len(lls) != 1:
            raise BuildError(f"expected one IR module, found {lls}")
        os.replace(os.path.join(deps, lls[0]), raw)
    stub = os.path.join(work, "stub.ll")
    stub_ir(raw, stub)
    os.unlink(raw)
    final = os.path.join(work, "final.ll")
    opt = os.path.join(TOOLS, "opt")
    api = ",".join("vh_h_" + e for e in entries)
    dce = os.path.join(work, "dce.bc")
    sh([opt, "--strip-debug", "-passes=internalize,globaldce", "--internalize-public-api-list=" + api, stub, "-o", dce], what="opt globaldce")
    sh([opt, "-S", "-passes=default<O1>", dce, "-o", final], what="opt O1")
    os.unlink(stub); os.unlink(dce)
    return final, entries

def build_native(pid, release=False):
    """Native replay program, from the include directory build_ir made."""
    work = os.path.join(BUILD, pid)
    env = rust_env(os.path.join(work, "inc"))
    tgt = os.path.join(BUILD, "target-native")
    env["CARGO_TARGET_DIR"] = tgt
    exe = os.path.join(work, "native-release" if release else "native")
    with open(os.path.join(BUILD, "native.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        fp = os.path.join(tgt, "release" if release else "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if re.match(r"(rescan|vh_native)-", d):
                    subprocess.run(["rm", "-rf", os.path.join(fp, d)])
        sh(["cargo", "build", "--offline"] + (["--release"] if release else []), cwd=os.path.join(VERIF, "harness", "native"), env=env, what="native build")
        os.replace(os.path.join(tgt, "release" if release else "debug", "vh_native"), exe)
    return exe

if __name__ == "__main__":
    print(build_ir("T", ["common.rs"] + sys.argv[1:]))
    print(build_native("T"))
    print(engine())
