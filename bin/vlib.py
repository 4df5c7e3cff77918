"""Build steps shared by the checks: shims, the crate under test, the harnesses, the engine."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SHIMS = os.path.join(VERIF, "shims")
TOOLCHAIN = "stable"

# Configurations of the crate: cfg flags, and how the copy of the sources is adapted.
CONFIGS = {
    "epoll": [],
    "poll": ["--cfg", "polling_test_poll_backend"],
    "pipe": ["--cfg", "polling_test_epoll_pipe"],
    # The same with a kernel that has room for more descriptors.
    "epoll-big": ["--cfg", "vkern_big"],
    "poll-big": ["--cfg", "vkern_big", "--cfg", "polling_test_poll_backend"],
    "epoll-huge": ["--cfg", "vkern_huge"],
    "poll-huge": ["--cfg", "vkern_huge", "--cfg", "polling_test_poll_backend"],
    # Other systems: what depends on the target depends on `verif_os` in the copy.
    "kqueue": ["--cfg", "vkern_bsd", "--cfg", 'verif_os="freebsd"'],
    "kqueue-pipe": ["--cfg", "vkern_bsd", "--cfg", 'verif_os="netbsd"'],
    "port": ["--cfg", "vkern_bsd", "--cfg", 'verif_os="illumos"'],
    "epoll-redox": ["--cfg", 'verif_os="redox"'],
    "poll-haiku": ["--cfg", 'verif_os="haiku"'],
    "poll-vita": ["--cfg", 'verif_os="vita"'],
    "poll-espidf": ["--cfg", 'verif_os="espidf"'],
}
RFLAGS = (
    "--edition 2021 -A warnings -C panic=abort -C opt-level=2 -C overflow-checks=on "
    "-C no-vectorize-loops -C no-vectorize-slp -C codegen-units=1 -C debug-assertions=off"
).split()


class Broken(Exception):
    """The check cannot give an answer."""


def run(cmd, what, timeout=600, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout, cwd=cwd)
    if p.returncode != 0:
        raise Broken("%s failed:\n%s" % (what, p.stdout[-6000:]))
    return p.stdout


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        if os.path.isdir(p):
            files = sorted(f for f in glob.glob(p + "/**", recursive=True) if os.path.isfile(f))
        else:
            files = [p]
        for f in files:
            h.update(os.path.relpath(f, p).encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e


_sys = {}


def rust(what):
    if what not in _sys:
        root = subprocess.run(["rustc", "--print", "sysroot"], env=env(), text=True,
                              stdout=subprocess.PIPE, check=True).stdout.strip()
        _sys["root"] = root
        _sys["rustc"] = os.path.join(root, "bin/rustc")
        _sys["llvm"] = os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu/bin")
    return _sys[what]


def engine():
    """Path of the engine, built if it is missing or older than its sources."""
    src = os.path.join(VERIF, "engine")
    d = digest([os.path.join(src, "src"), os.path.join(src, "Cargo.toml")])
    out = os.path.join(BUILD, "vsym-" + d)
    with Lock("engine"):
        if not os.path.exists(out):
            for old in glob.glob(os.path.join(BUILD, "vsym-*")):
                os.remove(old)
            tmp = out + ".tmp"
            run([rust("rustc"), "--edition", "2021", "-A", "warnings", "-C", "opt-level=3",
                 "-C", "panic=abort", "--crate-name", "vsym", "-o", tmp,
                 os.path.join(src, "src/main.rs")], "building the engine")
            os.rename(tmp, out)
    return out


def runner():
    src = os.path.join(VERIF, "native/vxrun.c")
    out = os.path.join(BUILD, "vxrun-" + digest([src]))
    with Lock("runner"):
        if not os.path.exists(out):
            run(["gcc", "-O1", "-g", "-rdynamic", "-o", out + ".tmp", src, "-ldl", "-lpthread"],
                "building the native replayer")
            os.rename(out + ".tmp", out)
    return out


def insert_point(text):
    """Offset of the first item of a crate root: after its inner attributes and docs."""
    i = 0
    n = len(text)
    while i < n:
        m = re.compile(r"\s+").match(text, i)
        if m:
            i = m.end()
            continue
        if text.startswith("//!", i) or (text.startswith("//", i) and not re.match(
                r"///(?!/)", text[i:i + 4])):
            j = text.find("\n", i)
            i = n if j < 0 else j + 1
            continue
        if text.startswith("/*", i) and not re.match(r"/\*\*(?![*/])", text[i:i + 4]):
            depth = 0
            while i < n:
                if text.startswith("/*", i):
                    depth += 1
                    i += 2
                elif text.startswith("*/", i):
                    depth -= 1
                    i += 2
                    if depth == 0:
                        break
                else:
                    i += 1
            continue
        if text.startswith("#![", i):
            depth = 0
            instr = False
            while i < n:
                c = text[i]
                if instr:
                    if c == "\\":
                        i += 1
                    elif c == '"':
                        instr = False
                elif c == '"':
                    instr = True
                elif c == "[":
                    depth += 1
                elif c == "]":
                    depth -= 1
                    if depth == 0:
                        i += 1
                        break
                i += 1
            continue
        break
    return i


def prepare_sources(dst, other_os=False):
    """Copy of the crate's sources whose `std` is the shim."""
    if os.path.isdir(dst):
        shutil.rmtree(dst)
    shutil.copytree(os.path.join(REPO, "src"), dst)
    p = os.path.join(dst, "lib.rs")
    s = open(p).read()
    i = insert_point(s)
    s = s[:i] + "extern crate vstd as std; " + s[i:]
    open(p, "w").write(s)
    if other_os:
        for f in glob.glob(dst + "/**/*.rs", recursive=True):
            s = open(f).read()
            open(f, "w").write(re.sub(r"\btarget_(os|vendor)(\s*=)", r"verif_\1\2", s))


def rlib(B, name, src, externs, extra=(), cfg=()):
    cmd = [rust("rustc")] + RFLAGS + list(extra) + list(cfg) + [
        "-C", "embed-bitcode=yes", "-L", B, "--out-dir", B, "--crate-type", "rlib",
        "--crate-name", name, src]
    for e in externs:
        cmd += ["--extern", "%s=%s/lib%s.rlib" % (e, B, e)]
    run(cmd, "compiling " + name)


def build_crate(config):
    """Shims and the crate under test for one configuration; returns the build directory."""
    cfg = CONFIGS[config]
    key = digest([SHIMS, os.path.join(REPO, "src")], " ".join(cfg) + config + open(__file__).read())
    B = os.path.join(BUILD, config)
    with Lock("crate-" + config):
        stamp = os.path.join(B, "stamp")
        if os.path.exists(stamp) and open(stamp).read() == key:
            return B, key
        if os.path.isdir(B):
            shutil.rmtree(B)
        os.makedirs(B)
        src = os.path.join(B, "pollingsrc")
        prepare_sources(src, any("verif_os" in c for c in cfg))
        # Independent shims first.
        with cf.ThreadPoolExecutor(3) as ex:
            list(ex.map(lambda n: rlib(B, n, os.path.join(SHIMS, n, "lib.rs"), []),
                        ["vx", "cfg_if", "tracing"]))
        rlib(B, "vkern", os.path.join(SHIMS, "vkern/lib.rs"), ["vx"], cfg=cfg)
        with cf.ThreadPoolExecutor(2) as ex:
            list(ex.map(lambda n: rlib(B, n, os.path.join(SHIMS, n, "lib.rs"), ["vx", "vkern"]),
                        ["vstd", "rustix"]))
        rlib(B, "polling", os.path.join(src, "lib.rs"), ["cfg_if", "tracing", "rustix", "vstd"],
             extra=["-C", "debuginfo=line-tables-only"], cfg=cfg)
        open(stamp, "w").write(key)
    return B, key


def build_harness(config, prop, fns):
    """Harness crate of one property: (IR, shared object)."""
    B, key = build_crate(config)
    src = os.path.join(VERIF, "harness", prop.lower() + ".rs")
    files, new = [], [src]
    while new:
        f = new.pop()
        if f not in files:
            files.append(f)
            new += [os.path.join(VERIF, "harness", i) for i in re.findall(r'#\[path = "(\w+\.rs)"\]', open(f).read())]
    key = digest(files, key + ",".join(fns))
    D = os.path.join(B, prop.lower())
    ll, so = os.path.join(D, "h.ll"), os.path.join(D, "h.so")
    with Lock("harness-%s-%s" % (config, prop)):
        stamp = os.path.join(D, "stamp")
        if os.path.exists(stamp) and open(stamp).read() == key:
            return ll, so
        if os.path.isdir(D):
            shutil.rmtree(D)
        os.makedirs(D)
        cmd = [rust("rustc")] + RFLAGS + CONFIGS[config] + [
            "-C", "lto=fat", "-C", "save-temps",
            "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all",
            "-L", B, "--crate-type", "cdylib", "--crate-name", "h", "-o", so, src,
            "--cfg", 'config="%s"' % config.partition("-")[0]]
        for e in ["polling", "vx", "vkern"]:
            cmd += ["--extern", "%s=%s/lib%s.rlib" % (e, B, e)]
        run(cmd, "compiling harness %s/%s" % (prop, config))
        bc = glob.glob(os.path.join(D, "h.*-cgu.0.rcgu.bc"))
        if len(bc) != 1:
            raise Broken("unexpected bitcode files: %s" % bc)
        xb = os.path.join(D, "x.bc")
        run([os.path.join(rust("llvm"), "opt"), "-passes=internalize,globaldce",
             "--internalize-public-api-list=" + ",".join(fns), bc[0], "-o", xb], "opt")
        run([os.path.join(rust("llvm"), "llvm-dis"), xb, "-o", ll], "llvm-dis")
        for f in glob.glob(os.path.join(D, "*.bc")) + glob.glob(os.path.join(D, "*.o")):
            os.remove(f)
        open(stamp, "w").write(key)
    return ll, so


ANN = re.compile(r"^//#\s+(.*)$")


def harnesses(prop):
    """Harness declarations in the source of a property:
    //# fn=NAME configs=a,b [tier=thorough] [time=S] [states=N] [covers=a;b] | bound
    """
    out = []
    for line in open(os.path.join(VERIF, "harness", prop.lower() + ".rs")):
        m = ANN.match(line)
        if not m:
            continue
        spec, _, bound = m.group(1).partition("|")
        if not spec.strip().startswith("fn="):
            out[-1]["bound"] += " " + m.group(1).strip()
            continue
        d = {"bound": bound.strip(), "tier": "quick", "time": "700", "states": "3000000",
             "configs": "epoll,poll,pipe", "covers": ""}
        for w in spec.split():
            k, _, v = w.partition("=")
            d[k] = v
        d["configs"] = d["configs"].split(",")
        d["covers"] = [c.replace("_", " ") for c in d["covers"].split(";") if c]
        out.append(d)
    return out
