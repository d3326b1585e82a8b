"""C19: the task spawner runs every build task exactly once and passes on a worker's panic."""
import re
from common import *
import linear

EXPLAIN = ("Ownership dataflow over the MIR of every body that owns a build task (the builders' build and run functions, the task spawner and its "
           "closures, instantiated for each task type): a task value is followed through moves, options, vectors, swaps and closure captures; it may "
           "only be used up by Task::run. Dropping, forgetting, overwriting, copying or cloning one, or returning while a container may "
           "still hold one, is reported; a container counts as empty only where a test of it (is_empty, len, pop, next) says so. The same dataflow over results "
           "of worker threads shows that a panic is never swallowed.")
ASSUME = ["crossbeam::scope and Scope::spawn call the closure they are given exactly once and wait for it"]


def run(c):
    p = c.prog()
    tasks = {}
    for i, b in enumerate(p["bodies"]):
        m = re.match(r"<(.+) as utils::Task>::run$", b["path"])
        if m:
            t = p["types"][b["locals"][1]]
            tasks.setdefault(t["path"], set()).add(i)
    for path, runs in sorted(tasks.items()):
        def ok(callee, k):
            return callee["path"] == "utils::Task::run" or callee.get("inst") in runs
        T = linear.Tokens(c, p, lambda t: t["k"] == "adt" and t["path"] == path, ok, "a task")
        used = 0
        for i, b in enumerate(p["bodies"]):
            if not b["local"]:
                continue
            # the task that runs, and methods that take it apart, own it legitimately
            ex = {1} if i in runs else set()
            if any(T.paths(l) for l in b["locals"]):
                c.fn(b["path"])
                c.count("bodies")
            used += T.run(i, ex) or 0
        c.ob("tasks-are-run", path, used > 0, "no call of Task::run")
        c.count("task types")
        c.count("runs", used)
        t = p["types"][p["bodies"][sorted(runs)[0]]["locals"][1]]
        for b in p["bodies"]:
            m = re.match(r"<(.+) as (std::clone::Clone|std::marker::Copy|std::ops::Drop)>", b["path"])
            if m and path in m.group(1).split("<")[0]:
                c.ob("token-is-not-duplicated", b["path"], False, "tasks can be duplicated")
    # panics of workers
    def panic(t):
        return t["k"] == "adt" and t["path"] == "std::boxed::Box" and "dyn std::any::Any" in t["n"]

    def ok2(callee, k):
        return callee["name"] in ("unwrap", "expect", "resume_unwind", "panic_any")
    P = linear.Tokens(c, p, panic, ok2, "a worker's panic")
    n = 0
    for i, b in enumerate(p["bodies"]):
        if b["local"] and not (b["identity"] and any(p["types"][a]["k"] == "param" for a in b["args"])):
            n += P.run(i) or 0
    c.count("results of workers", n)
    c.floor("task types", 2)
    c.floor("runs", 2)
    c.floor("results of workers", 2)
