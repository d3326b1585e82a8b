"""C36: views and traversals cannot outlive what they borrow; trees own what they need and can be shared."""
import fcntl, json, os, shutil, subprocess
import extract
from terms import Unknown

EXPLAIN = ("Compile-fail witnesses, judged by rustc's borrow checker against the current crate. Every witness is a pair of functions: one that keeps to the rule, which must be "
           "accepted, and one that differs only by the violation (an operand goes out of scope, or is changed, while the view or traversal is still in use), which must be refused "
           "with a borrow error inside of that very function and no other error. Rule for ownership and sharing: a function that needs it must be accepted. The witnesses are "
           "generated for every view, every traversal of both trees, each way to make it (method, constructor, from slices, trait) and each operand.")
ASSUME = ["the borrow checker of rustc is sound; lifetimes forged inside of the crate are seen only through its signatures"]
BORROW = {"E0597", "E0499", "E0502", "E0505", "E0506", "E0503", "E0515", "E0716", "E0713"}
PRELUDE = """#![allow(warnings)]
use rtbvh::*;
fn any<T>() -> T { loop {} }
fn used<T>(_: T) {}
fn main() {}
"""


def outlives(name, own, expr, short, pre="", take="v"):
    """`own` maps a name to its type; `short` is the one that goes away too early"""
    def lets(ks):
        return " ".join("let mut %s: %s = any();" % (k, own[k]) for k in own if k in ks)
    rest = [k for k in own if k != short]
    good = "%s %s let v; %s v = %s; used(%s);" % (lets([short]), lets(rest), pre, expr, take)
    bad = "%s let v; { %s %s v = %s; } used(%s);" % (lets(rest), lets([short]), pre, expr, take)
    return ("%s outlives %s" % (name, own[short]), good, bad)


def changed(name, own, expr, what, change):
    lets = " ".join("let mut %s: %s = any();" % (k, t) for k, t in own.items())
    return ("%s while %s" % (name, what), "%s let v = %s; used(v); %s" % (lets, expr, change), "%s let v = %s; %s used(v);" % (lets, expr, change))


def pairs():
    out = []
    for T, views in (("Bvh", ["nodes", "indices"]), ("Mbvh", ["nodes", "indices", "quad_nodes"])):
        for f in views:
            out.append(outlives("%s::%s" % (T, f), {"x": T}, "x.%s()" % f, "x"))
            out.append(changed("%s::%s" % (T, f), {"x": T}, "x.%s()" % f, "the tree is replaced", "x = any();"))
        node = "BvhNode" if T == "Bvh" else "MbvhNode"
        for packet in (False, True):
            for index in (False, True):
                m = "traverse_iter" + ("_indices" if index else "") + ("_packet" if packet else "")
                ty = T + ("Packet" if packet else "") + ("Index" if index else "") + "Iterator"
                tr = "Into" + ("Packet" if packet else "Ray") + ("Index" if index else "") + "Iterator"
                ray = "RayPacket4" if packet else "Ray"
                ps = "" if index else ", &ps"
                tree = {"x": T, "r": ray}
                raw = {"ns": "Vec<%s>" % node, "ids": "Vec<u32>", "r": ray}
                if not index:
                    tree["ps"] = raw["ps"] = "Vec<P>"
                ways = [("%s::%s" % (T, m), tree, "x.%s(&mut r%s)" % (m, ps)),
                        (ty + "::new", tree, "%s::new(&mut r, &x%s)" % (ty, ps)),
                        ("<%s as %s>::iter" % (T, tr), tree, "<%s as %s%s>::iter(&x, &mut r%s)" % (T, tr, "" if index else "<P>", ps)),
                        (ty + "::from_slices", raw, "%s::from_slices(&mut r, &ns, &ids%s)" % (ty, ps))]
                for nm, own, expr in ways:
                    for k in own:
                        out.append(outlives(nm, own, expr, k))
                    out.append(changed(nm, own, expr, "the ray is changed", "r.reset();"))
                    if own is tree:
                        out.append(changed(nm, own, expr, "the tree is replaced", "x = any();"))
                        if T == "Bvh":
                            out.append(changed(nm, dict(own, bs="Vec<Aabb>"), expr, "the tree is refitted", "x.refit(&bs);"))
                # what is yielded
                for nm, own, expr in ways[:1] + ways[3:]:
                    out.append(outlives("the ray yielded by " + nm, own, "%s.next().unwrap().1" % expr, "r"))
                    out.append(changed("the ray yielded by " + nm, own, "%s.next().unwrap().1" % expr, "the ray is changed", "r.reset();"))
                    if not index:
                        out.append(outlives("the primitive yielded by " + nm, own, "%s.next().unwrap().0" % expr, "ps"))
    b = {"bs": "Vec<Aabb>", "ps": "Vec<P>"}
    for f in ("construct_spatial_sah", "construct_binned_sah", "construct_locally_ordered_clustered"):
        for k in b:
            out.append(outlives("Builder", b, "Builder { aabbs: Some(&bs[..]), primitives: &ps[..], primitives_per_leaf: None }", k, take="v.%s()" % f))
            out[-1] = (out[-1][0] + ", " + f,) + out[-1][1:]
    return out


def accepted():
    out = []
    for t in ("Bvh", "Mbvh", "BvhNode", "MbvhNode", "Aabb", "Ray", "RayPacket4", "BuildType", "BuildError"):
        out.append(("sharing", t + " can be sent and shared", "fn f<T: Send + Sync + 'static>() {} f::<%s>();" % t))
    for f in ("construct_spatial_sah", "construct_binned_sah", "construct_locally_ordered_clustered"):
        out.append(("ownership", "the tree of %s outlives its input" % f,
                    "let v: Bvh; { let bs: Vec<Aabb> = any(); let ps: Vec<P> = any(); v = Builder { aabbs: Some(&bs[..]), primitives: &ps[..], primitives_per_leaf: None }.%s().unwrap(); } used(v);" % f))
    out.append(("ownership", "Mbvh::construct outlives the Bvh", "let v: Mbvh; { let b: Bvh = any(); v = Mbvh::construct(&b); } used(v);"))
    out.append(("ownership", "Mbvh::construct_from_raw outlives the slices", "let v: Mbvh; { let n: Vec<BvhNode> = any(); let i: Vec<u32> = any(); v = Mbvh::construct_from_raw(&n, &i); } used(v);"))
    out.append(("ownership", "Bvh::into_raw", "let v; { let b: Bvh = any(); v = b.into_raw(); } used(v);"))
    out.append(("ownership", "Mbvh::into_raw", "let v; { let b: Mbvh = any(); v = b.into_raw(); } used(v);"))
    for T in ("Bvh", "Mbvh"):
        for m, ray, ps in (("traverse_iter", "Ray", True), ("traverse_iter_packet", "RayPacket4", True), ("traverse_iter_indices", "Ray", False), ("traverse_iter_indices_packet", "RayPacket4", False)):
            a = ", &ps" if ps else ""
            out.append(("sharing", "%s::%s from many threads" % (T, m),
                        "let x: %s = any(); let ps: Vec<P> = any(); std::thread::scope(|s| { for _ in 0..2 { s.spawn(|| { let mut r: %s = any(); for i in x.%s(&mut r%s) { used(i); } }); } });" % (T, ray, m, a)))
            out.append(("sharing", "two traversals of one tree at once: %s::%s" % (T, m),
                        "let x: %s = any(); let ps: Vec<P> = any(); let mut r: %s = any(); let mut q: %s = any(); let a = x.%s(&mut r%s); let b = x.%s(&mut q%s); used(a); used(b);" % (T, ray, ray, m, a, m, a)))
            if ps:
                out.append(("ownership", "a primitive found by %s::%s outlives the traversal and the ray" % (T, m),
                            "let x: %s = any(); let ps: Vec<P> = any(); let v: &P; { let mut r: %s = any(); v = x.%s(&mut r, &ps).next().unwrap().0; } used(v);" % (T, ray, m)))
            upd = "let (_, h) = i; h.reset();"
            out.append(("usage", "the ray is updated during %s::%s and read after it" % (T, m),
                        "let x: %s = any(); let ps: Vec<P> = any(); let mut r: %s = any(); for i in x.%s(&mut r%s) { %s } r.reset(); used(r);" % (T, ray, m, a, upd)))
    return out


def compile_all(files):
    """{file: [(line, code, message)]} from a type and borrow check of the witnesses against the current crate"""
    d = os.path.join(extract.BUILD, "witness")
    os.makedirs(os.path.join(d, "src", "bin"), exist_ok=True)
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        extract.ensure_lock()
        shutil.copy(os.path.join(extract.REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2018"\n[dependencies]\nrtbvh = { path = %s }\n[workspace]\n' % json.dumps(extract.REPO))
        for n, s in files.items():
            with open(os.path.join(d, "src", "bin", n + ".rs"), "w") as f:
                f.write(s)
        e = extract.env()
        e["CARGO_TARGET_DIR"] = os.path.join(d, "target")
        extract.forget("rtbvh", "witness", target=e["CARGO_TARGET_DIR"])
        p = subprocess.run(["cargo", "check", "--bins", "--offline", "--keep-going", "--message-format=json"], env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    seen, out, built = set(), {n: [] for n in files}, set()
    for l in p.stdout.splitlines():
        if not l.startswith("{"):
            continue
        j = json.loads(l)
        nm = j.get("target", {}).get("name")
        if j.get("reason") == "compiler-artifact":
            built.add(nm)
        if j.get("reason") != "compiler-message" or nm not in files:
            continue
        seen.add(nm)
        m = j["message"]
        if m["level"] != "error" or m["message"].startswith("aborting due"):
            continue
        at = [s["line_start"] for s in m["spans"] if s["is_primary"]] or [0]
        out[nm].append((at[0], (m["code"] or {}).get("code", ""), m["message"]))
    if "rtbvh" not in built:
        raise Unknown("the crate was not checked: %s" % p.stderr[-300:])
    for n in files:
        if n not in built and not out[n]:
            raise Unknown("no answer of the compiler for %s: %s" % (n, p.stderr[-300:]))
    return out


def run(c):
    ps, acc = pairs(), accepted()
    good = [g for _, g, _ in ps] + [s for _, _, s in acc]
    bad = [b for _, _, b in ps]
    head = PRELUDE.count("\n")

    def text(fs):
        return PRELUDE + "".join("fn w%d<P: Primitive + SpatialTriangle>() { %s }\n" % (i, s) for i, s in enumerate(fs))

    def go():
        err = compile_all({"good": text(good), "bad": text(bad)})
        at = {n: {} for n in err}
        for n, es in err.items():
            for line, code, msg in es:
                at[n].setdefault(line - head - 1, []).append((code, msg))
        for n in at:
            for k in at[n]:
                if k < 0:
                    raise Unknown("the witnesses do not fit the crate: %s" % at[n][k][0][1])
        for i, (name, _, b) in enumerate(ps):
            g = at["good"].get(i, [])
            c.ob("fits-the-crate", name, not g, "the witness without the violation is refused: %s" % (g[:1],))
            x = at["bad"].get(i, [])
            other = [q for q in x if q[0] not in BORROW]
            c.ob("refused", name, bool(x) and not other, ("is refused for another reason: %s" % (other[0],)) if other else "the compiler accepts: %s" % b)
            c.count("refused pairs")
        for i, (rule, name, s) in enumerate(acc):
            g = at["good"].get(len(ps) + i, [])
            c.ob(rule, name, not g, "%s" % (g[:1],))
            c.count("accepted uses")
        c.fn(*sorted({n.split(" outlives")[0].split(" while")[0].replace("the ray yielded by ", "").replace("the primitive yielded by ", "") for n, _, _ in ps}))
    c.guard("witnesses", "rtbvh", go)
    c.floor("refused pairs", 100)
    c.floor("accepted uses", 20)
