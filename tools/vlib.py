"""Building and running the symbolic executor on /repo's current working tree."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENGINE = os.path.join(VERIF, "engine")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
SEMIR = os.path.join(ENGINE, "target", "release", "semir")
PROFILE = "release"

# configuration -> cargo features of the harness crate
CONFIGS = {
    "seahash": ["seahash"],
    "hashbrown": ["seahash", "hashbrown"],
    "bincode": ["seahash", "bincode"],
    "json": ["seahash", "json"],
    "cbor": ["seahash", "cbor"],
    "yaml": ["seahash", "yaml"],
    "pickle": ["seahash", "pickle"],
    "ron": ["seahash", "ron"],
    "rocks": ["seahash", "bincode", "rocksdb"],
}
# the hash functions, in a harness crate of their own
HASHES = ("fxhash", "seahash", "keccak", "sha3", "sha2", "blake2rfc", "blake2b", "groestl", "md2", "md4", "md5", "ripemd160",
          "ripemd320", "sha1", "rust_sha2", "rust_sha3", "rust_keccak", "whirlpool")
HASHES_SERDE = ("fxhash", "seahash", "keccak", "sha3", "sha2", "blake2rfc", "md5")
CONFIGS["dual"] = ["dual"]
CRATES = {}
for _h in ("plain", "serde") + HASHES:
    CONFIGS["h_" + _h] = ["f_" + _h]
for _h in HASHES_SERDE:
    CONFIGS["h_" + _h + "_serde"] = ["f_" + _h, "f_serde"]
for _c in CONFIGS:
    CRATES[_c] = "hh" if _c.startswith("h_") else "ha" if _c == "dual" else "hx"


class Broken(Exception):
    """The check could not be carried out."""


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTDOCFLAGS"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never", **kw)
    return e


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "__pycache__"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            try:
                with open(f, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                pass
            h.update(b"\0")
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(TARGET, exist_ok=True)
        self.path = os.path.join(TARGET, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def read(p):
    try:
        with open(p) as f:
            return f.read()
    except OSError:
        return ""


def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p + ".tmp", "w") as f:
        f.write(s)
    os.replace(p + ".tmp", p)


def cargo(args, cwd, what, **kw):
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, stdin=subprocess.DEVNULL)
    if r.returncode != 0:
        lines = [l for l in r.stdout.splitlines() if not l.startswith("warning")]
        raise Broken(f"{what}: cargo failed\n" + "\n".join(lines[-60:]))


def build_engine():
    with Lock("engine"):
        stamp = os.path.join(ENGINE, "target", "stamp")
        want = tree_hash(os.path.join(ENGINE, "src"), os.path.join(ENGINE, "Cargo.toml"), os.path.join(ENGINE, "build.rs"))
        if os.path.exists(SEMIR) and read(stamp) == want:
            return
        cargo(["build", "--release", "--offline"], ENGINE, "engine")
        write(stamp, want)


def source_hash(cfg):
    return tree_hash(os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "build.rs"),
                     os.path.join(HARNESS, "hx"), os.path.join(HARNESS, CRATES[cfg]), os.path.join(HARNESS, "phash"),
                     os.path.join(HARNESS, "stubs"), os.path.abspath(__file__)) + " " + ",".join(CONFIGS[cfg])


def forget(tdir, profile):
    """cargo must compile the crates under test again, whatever it believes about time stamps"""
    for d in glob.glob(os.path.join(tdir, profile, ".fingerprint", "*")):
        if os.path.basename(d).rsplit("-", 1)[0] in ("starling", "starling_plain", "hx", "hh", "ha", "phash", "seahash", "rocksdb", "openssl", "ahash"):
            shutil.rmtree(d, ignore_errors=True)


PLAIN = os.path.join(TARGET, "plain")


def prepare(cfg):
    """the crate a second time under another name, to be built without a serialization feature"""
    if cfg != "dual":
        return
    toml = read(os.path.join(REPO, "Cargo.toml"))
    lines, section, skip = [], "", False
    for l in toml.splitlines():
        m = re.match(r"\s*\[+\s*([^\]]+?)\s*\]+", l)
        if m:
            section = m.group(1)
            skip = section in ("bench", "test", "example", "bin", "workspace") or section.startswith(("dev-dependencies", "profile"))
        if skip:
            continue
        if section == "package" and re.match(r"\s*(name|readme|autobenches|autotests|autoexamples|autobins)\s*=", l):
            if re.match(r"\s*name\s*=", l):
                lines += ['name = "starling_plain"', "autobenches = false", "autotests = false", "autoexamples = false", "autobins = false"]
            continue
        if section == "lib" and re.match(r"\s*name\s*=", l):
            l = 'name = "starling_plain"'
        lines.append(l)
    os.makedirs(PLAIN, exist_ok=True)
    shutil.rmtree(os.path.join(PLAIN, "src"), ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(PLAIN, "src"))
    b = os.path.join(REPO, "build.rs")
    if os.path.exists(b):
        shutil.copy(b, os.path.join(PLAIN, "build.rs"))
    write(os.path.join(PLAIN, "Cargo.toml"), "\n".join(lines) + "\n")


def build_ir(cfg):
    """LLVM IR of harness + crate + dependencies + core/alloc/std parts, linked into one module"""
    tdir = os.path.join(TARGET, cfg)
    ll = os.path.join(tdir, "hx.ll")
    stamp = os.path.join(tdir, "ir.stamp")
    with Lock("ir-" + cfg):
        want = source_hash(cfg)
        if os.path.exists(ll) and read(stamp) == want:
            return ll
        for f in (stamp, ll):
            if os.path.exists(f):
                os.remove(f)
        forget(tdir, "release")
        for f in glob.glob(os.path.join(tdir, "release", "deps", "hx*.ll")):
            os.remove(f)
        prepare(cfg)
        cargo(["rustc", "--lib", "--crate-type", "staticlib", "--release", "--offline", "--target-dir", tdir,
               "--features", ",".join(CONFIGS[cfg]), "--", "--emit=llvm-ir"], os.path.join(HARNESS, CRATES[cfg]), f"IR of configuration {cfg}", RUSTC_BOOTSTRAP="1")
        out = glob.glob(os.path.join(tdir, "release", "deps", "hx*.ll"))
        if len(out) != 1:
            raise Broken(f"IR of configuration {cfg}: {len(out)} modules emitted")
        os.replace(out[0], ll)
        write(stamp, want)
        return ll


def build_native(cfg):
    tdir = os.path.join(TARGET, cfg)
    exe = os.path.join(tdir, "replay", "replay")
    stamp = os.path.join(tdir, "native.stamp")
    with Lock("native-" + cfg):
        want = source_hash(cfg)
        if os.path.exists(exe) and read(stamp) == want:
            return exe
        if os.path.exists(stamp):
            os.remove(stamp)
        forget(tdir, "replay")
        prepare(cfg)
        cargo(["build", "--bin", "replay", "--profile", "replay", "--offline", "--target-dir", tdir,
               "--features", ",".join(CONFIGS[cfg])], os.path.join(HARNESS, CRATES[cfg]), f"native build of configuration {cfg}")
        write(stamp, want)
        return exe


def build(cfgs, native=True):
    """everything for the given configurations, in parallel"""
    errs = []
    room = threading.Semaphore(max(2, os.cpu_count() or 8))

    def go(f, *a):
        try:
            with room:
                f(*a)
        except Exception as e:  # noqa
            errs.append(e)
    ts = [threading.Thread(target=go, args=(build_engine,))]
    for c in cfgs:
        ts.append(threading.Thread(target=go, args=(build_ir, c)))
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    # the native build uses the same target directory (cargo would block): after the IR
    ts = [threading.Thread(target=go, args=(build_native, c)) for c in cfgs] if native and not errs else []
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]


def ll_path(cfg):
    return os.path.join(TARGET, cfg, "hx.ll")


def semir(cfg, specs, out, extra=(), timeout=None):
    args = [SEMIR, "--ll", ll_path(cfg), "--out", out, "--threads", str(os.cpu_count() or 8)] + list(extra)
    for s in specs:
        args += ["--entry", s]
    try:
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise Broken(f"semir did not come back within {timeout} s on {cfg}")
    if r.returncode != 0:
        raise Broken(f"semir failed on {cfg} ({r.returncode}): {r.stderr[-2000:]}")
    with open(out) as f:
        return json.load(f), r.stderr


def native(cfg, cases, timeout):
    """cases: [(entry, hexinput)] -> [(status, obshex, msg)], shorter if the process died or hung; and how it ended"""
    exe = os.path.join(TARGET, cfg, "replay", "replay")
    text = "".join(f"{e} {h or '-'}\n" for e, h in cases)
    p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    end = "ok"
    try:
        out, _ = p.communicate(text, timeout=timeout)
        if p.returncode != 0:
            end = f"died ({p.returncode})"
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        end = "hang"
    res = []
    for l in out.splitlines():
        a = l.split(" ", 2)
        if len(a) == 3:
            res.append((a[0], "" if a[1] == "-" else a[1], a[2]))
    return res, end
