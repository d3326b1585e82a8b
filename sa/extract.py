"""Build the compiler driver and extract the resolved program (MIR) of /repo's current tree."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
DRIVER_T = os.path.join(BUILD, "driver")
TARGET = os.path.join(BUILD, "target")
DUMP = os.path.join(BUILD, "dump")
CRATES = ("rtbvh", "rtbvh_rs")


class ExtractError(Exception):
    pass


def env():
    e = {k: v for k, v in os.environ.items()
         if k in ("HOME", "PATH", "CARGO_HOME", "RUSTUP_HOME", "LANG", "TMPDIR", "USER")}
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    return e


def run(cmd, e, cwd):
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ExtractError("command failed (%s): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def sysroot(e):
    return run(["rustc", "--print", "sysroot"], e, "/").strip()


def build_driver(e):
    d = dict(e)
    d["CARGO_TARGET_DIR"] = DRIVER_T
    run(["cargo", "build", "--release", "--offline", "--quiet"], d, os.path.join(VERIF, "driver"))
    return os.path.join(DRIVER_T, "release", "mirdump")


def ensure_lock():
    for rel, fb in (("Cargo.lock", "rtbvh.Cargo.lock"), ("rtbvh_ffi/Cargo.lock", "rtbvh_ffi.Cargo.lock")):
        p = os.path.join(REPO, rel)
        if not os.path.exists(p):
            shutil.copy(os.path.join(VERIF, "driver", fb), p)


def forget(*names, target=TARGET):
    """Drop cargo's fingerprints of the analysed crates so that the driver always runs on them."""
    for n in names:
        shutil.rmtree(os.path.join(target, "debug", "build", n), ignore_errors=True)
    fp = os.path.join(target, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            base = d.rsplit("-", 1)[0]
            if base in names:
                shutil.rmtree(os.path.join(fp, d))


def source_key():
    """Hash of everything the extraction depends on (sources, manifests, driver)."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "rtbvh_ffi", "src"), os.path.join(VERIF, "driver", "src")]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "rtbvh_ffi", "Cargo.toml"),
             os.path.join(REPO, "rtbvh_ffi", "build.rs"), os.path.abspath(__file__)]
    for r in roots:
        for dp, dn, fn in os.walk(r):
            dn.sort()
            files += [os.path.join(dp, f) for f in sorted(fn)]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
    return h.hexdigest()


def extract(serde=False, log=lambda *_: None):
    """Returns {name: program json}. Runs the compiler over /repo's current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = env()
        drv = build_driver(e)
        ensure_lock()
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot(e), "lib")
        e["CARGO_TARGET_DIR"] = TARGET
        e["RUSTC_WRAPPER"] = drv
        e["MIRDUMP_CRATES"] = ",".join(CRATES)
        e["MIRDUMP_OUT"] = DUMP
        key = source_key()
        stamp = os.path.join(DUMP, "key" + ("_serde" if serde else ""))
        want = ["rtbvh_serde.json"] if serde else ["rtbvh.json", "rtbvh_rs.json"]
        fresh = os.path.exists(stamp) and open(stamp).read() == key and all(
            os.path.exists(os.path.join(DUMP, w)) for w in want)
        if not fresh:
            os.makedirs(DUMP, exist_ok=True)
            for w in want + [os.path.basename(stamp)]:
                p = os.path.join(DUMP, w)
                if os.path.exists(p):
                    os.remove(p)
            if serde:
                forget("rtbvh")
                d = dict(e)
                d["MIRDUMP_TAG"] = "_serde"
                run(["cargo", "check", "--lib", "--offline", "--features", "serde", "--manifest-path",
                     os.path.join(REPO, "Cargo.toml")], d, REPO)
            else:
                forget("rtbvh", "rtbvh_ffi", "rtbvh-ffi")
                run(["cargo", "check", "--lib", "--offline", "--manifest-path",
                     os.path.join(REPO, "Cargo.toml")], e, REPO)
                run(["cargo", "check", "--lib", "--offline", "--manifest-path",
                     os.path.join(REPO, "rtbvh_ffi", "Cargo.toml")], e, os.path.join(REPO, "rtbvh_ffi"))
            for w in want:
                if not os.path.exists(os.path.join(DUMP, w)):
                    raise ExtractError("the driver did not write %s" % w)
            with open(stamp, "w") as f:
                f.write(key)
        out = {}
        for w in want:
            with open(os.path.join(DUMP, w)) as f:
                out[w[:-5]] = json.load(f)
        return out


MACRO = """pub use glam;
use glam::Vec3;
use rtbvh::*;
pub fn none() -> Aabb<i32> { aabb!() }
pub fn one(a: Vec3) -> Aabb<i32> { aabb!(a) }
pub fn three(a: Vec3, b: Vec3, c: Vec3) -> Aabb<i32> { aabb!(a, b, c) }
"""


def macros():
    """The program of a crate that does nothing but expand the exported macros, with what they call."""
    extract()
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(BUILD, "macros")
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
        lock = open(os.path.join(REPO, "Cargo.lock")).read()
        own = lock.split('\nname = "rtbvh"\n', 1)[1].split("[[package]]")[0]
        v = re.search(r'"glam ([^"]*)"', own) or re.search(r'\nname = "glam"\nversion = "([^"]*)"', lock)
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "rtbvh_macros"\nversion = "0.0.0"\nedition = "2018"\n[dependencies]\nrtbvh = { path = %s }\nglam = "=%s"\n[workspace]\n' % (json.dumps(REPO), v.group(1)))
        with open(os.path.join(d, "src", "lib.rs"), "w") as f:
            f.write(MACRO)
        e = env()
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot(e), "lib")
        e["CARGO_TARGET_DIR"] = os.path.join(d, "target")
        e["RUSTC_WRAPPER"] = os.path.join(DRIVER_T, "release", "mirdump")
        e["MIRDUMP_CRATES"] = "rtbvh,rtbvh_macros"
        e["MIRDUMP_OUT"] = os.path.join(d, "dump")
        os.makedirs(e["MIRDUMP_OUT"], exist_ok=True)
        out = os.path.join(e["MIRDUMP_OUT"], "rtbvh_macros.json")
        if os.path.exists(out):
            os.remove(out)
        forget("rtbvh", "rtbvh_macros", target=e["CARGO_TARGET_DIR"])
        run(["cargo", "check", "--lib", "--offline", "--manifest-path", os.path.join(d, "Cargo.toml")], e, d)
        with open(out) as f:
            return json.load(f)


if __name__ == "__main__":
    t = time.time()
    r = extract()
    extract(serde=True)
    for k, v in r.items():
        print(k, "bodies", len(v["bodies"]), "types", len(v["types"]), "roots", len(v["roots"]))
    print("%.1fs" % (time.time() - t))
