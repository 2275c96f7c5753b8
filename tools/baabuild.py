"""Builds everything the checks need from /repo's current working tree.

  engine           the symbolic executor (Rust, no dependencies)
  {debug,release}.ll  LLVM IR of the harnesses + the real baa crate + its real
                   dependencies + the real standard library
  native/{debug,release}/baareplay   the same harnesses as ordinary machine code
"""
import glob, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
REPO = "/repo"
TC = "stable-x86_64-unknown-linux-gnu"
TARGET = "x86_64-unknown-linux-gnu"
HOME = os.environ.get("HOME") or "/root"


def sysroot():
    for base in (os.environ.get("RUSTUP_HOME"), os.path.join(HOME, ".rustup"), "/root/.rustup"):
        if base and os.path.isdir(os.path.join(base, "toolchains", TC)):
            return os.path.join(base, "toolchains", TC)
    return subprocess.check_output(["rustc", "+" + TC, "--print", "sysroot"], text=True).strip()


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None, quiet=False):
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_BOOTSTRAP", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = TC
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def tools():
    d = os.path.join(sysroot(), "lib/rustlib", TARGET, "bin")
    return lambda n: os.path.join(d, n)


def engine():
    env = {"CARGO_TARGET_DIR": os.path.join(BUILD, "engine")}
    sh(["cargo", "build", "--release", "--offline"], env, os.path.join(VERIF, "engine"))
    return os.path.join(BUILD, "engine/release/baasym")


def std_bitcode():
    out = os.path.join(BUILD, "std")
    done = os.path.join(out, "done")
    if os.path.exists(done):
        return sorted(glob.glob(os.path.join(out, "std_*.bc")))
    t = tools()
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    lib = os.path.join(sysroot(), "lib/rustlib", TARGET, "lib")
    skip = ("test", "getopts", "proc_macro", "rustc_literal_escaper", "compiler_builtins", "profiler_builtins", "panic_unwind", "sysroot")

    def one(rlib):
        n = re.match(r"lib(.*)-[0-9a-f]+\.rlib$", os.path.basename(rlib)).group(1)
        if n in skip:
            return
        d = os.path.join(out, n)
        os.makedirs(d)
        sh([t("llvm-ar"), "x", rlib], cwd=d)
        parts = []
        for o in sorted(glob.glob(os.path.join(d, "*.o"))):
            bc = o[:-2] + ".bc"
            p = subprocess.run([t("llvm-objcopy"), "--dump-section", ".llvmbc=" + bc, o, "/dev/null"], stderr=subprocess.PIPE, text=True)
            if os.path.exists(bc) and os.path.getsize(bc) > 0:
                parts.append(bc)
        dst = os.path.join(out, "std_%s.bc" % n)
        if not parts:
            pass
        elif len(parts) == 1:
            shutil.copy(parts[0], dst)
        else:
            sh([t("llvm-link"), "-o", dst] + parts)
        shutil.rmtree(d)

    with ThreadPoolExecutor(6) as ex:
        list(ex.map(one, sorted(glob.glob(os.path.join(lib, "*.rlib")))))
    open(done, "w").close()
    return sorted(glob.glob(os.path.join(out, "std_*.bc")))


def drop_fingerprints(target_dir):
    # cargo notices changes by mtime only; a restored file may carry an old one
    for pat in ("baa-*", "baah-*", "baareplay-*"):
        for d in glob.glob(os.path.join(target_dir, "*", ".fingerprint", pat)) + glob.glob(os.path.join(target_dir, TARGET, "*", ".fingerprint", pat)):
            shutil.rmtree(d, ignore_errors=True)


def lockfile():
    src = os.path.join(VERIF, "harness/Cargo.lock.in")
    dst = os.path.join(VERIF, "harness/Cargo.lock")
    if os.path.exists(src):
        shutil.copy(src, dst)


FORCE_NOINLINE = [r"RandomState.*hash_one", r"RandomState3new", r"RandomState.*7Default7default", r"hashmap_random_keys"] + [r"9Formatter12pad_integral$", r"3fmt3numoNtB4_7Display3fmt$"]


# intercepted by the executor: not inlined, and no change of their signatures
KEEP = [r"9Formatter12pad_integral$", r"3fmt3numoNtB4_7Display3fmt$", r"11num_integery\w*7Integer3gcd$"]


def bitcode(profile, std):
    t = tools()
    td = os.path.join(BUILD, "bc-" + profile)
    drop_fingerprints(td)
    env = {
        "RUSTC_BOOTSTRAP": "1",
        "RUSTFLAGS": "--emit=llvm-bc,metadata,link -C no-prepopulate-passes -Zinline-mir=no --cap-lints=allow",
        "CARGO_TARGET_DIR": td,
    }
    cmd = ["cargo", "build", "--offline", "--target", TARGET, "-p", "baah"]
    if profile == "release":
        cmd.append("--release")
    deps = os.path.join(td, TARGET, "release" if profile == "release" else "debug", "deps")
    for f in glob.glob(os.path.join(deps, "baa-*.bc")) + glob.glob(os.path.join(deps, "baah-*.bc")):
        os.remove(f)
    sh(cmd, env, os.path.join(VERIF, "harness"))
    (h,) = glob.glob(os.path.join(deps, "baah-*.bc"))
    rest = [f for f in sorted(glob.glob(os.path.join(deps, "*.bc"))) if f != h]
    # build scripts and proc macros are host artefacts and not in this directory
    w = os.path.join(BUILD, profile)
    os.makedirs(w, exist_ok=True)
    all_bc = os.path.join(w, "all.bc")
    sh([t("llvm-link"), "--only-needed", "-o", all_bc, h] + rest + std)
    names = re.findall(r"\b(h_[a-z0-9_]+)$", sh([t("llvm-nm"), "--defined-only", h]), re.M)
    # intercepted by the executor: no change of their signatures
    keep = [x for x in (l.split()[-1] for l in sh([t("llvm-nm"), "--defined-only", all_bc]).splitlines() if l.strip()) if any(re.search(p, x) for p in KEEP)]
    api = ",".join(sorted(set(names) | set(keep)))
    dce = os.path.join(w, "dce.bc")
    sh([t("opt"), "-passes=internalize,globaldce", "-internalize-public-api-list=" + api, all_bc, "-o", dce])
    syms = [l.split()[-1] for l in sh([t("llvm-nm"), "--defined-only", dce]).splitlines() if l.strip()]
    force = []
    for s in syms:
        if any(re.search(p, s) for p in FORCE_NOINLINE + KEEP):
            force.append("-force-attribute=%s:noinline" % s)
    o1 = os.path.join(w, "o1.bc")
    passes = ("forceattrs," if force else "") + "default<O1>"
    sh([t("opt"), "-passes=" + passes, "-vectorize-loops=false", "-vectorize-slp=false"] + force + [dce, "-o", o1])
    ll = os.path.join(BUILD, profile + ".ll")
    sh([t("llvm-dis"), o1, "-o", ll])
    for f in (all_bc, dce, o1):
        os.remove(f)
    return ll


def native(profile):
    td = os.path.join(BUILD, "native-" + profile)
    drop_fingerprints(td)
    env = {"CARGO_TARGET_DIR": td, "RUSTFLAGS": "--cap-lints=allow"}
    cmd = ["cargo", "build", "--offline", "-p", "baareplay"]
    if profile == "release":
        cmd.append("--release")
    sh(cmd, env, os.path.join(VERIF, "harness"))
    return os.path.join(td, profile, "baareplay")


def build_all(profiles=("debug", "release")):
    os.makedirs(BUILD, exist_ok=True)
    if os.environ.get("BAAV_SKIP_BUILD"):
        return
    lockfile()
    with ThreadPoolExecutor(6) as ex:
        fe = ex.submit(engine)
        fs = ex.submit(std_bitcode)
        fn = [ex.submit(native, p) for p in profiles]
        std = fs.result()
        fb = [ex.submit(bitcode, p, std) for p in profiles]
        for f in [fe] + fn + fb:
            f.result()


if __name__ == "__main__":
    t0 = time.time()
    try:
        build_all()
    except BuildError as e:
        print(e)
        sys.exit(2)
    print("built in %.1fs" % (time.time() - t0))
