#!/usr/bin/env python3
"""Builds the simulation from /repo's working tree and decides one property.

  check.py PROPERTY             quick or thorough, as VERIF_TIER says
  check.py --replay FILE        runs a replay file again
  check.py --build              builds everything (setup)
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
KNOWN = os.path.join(HERE, "known-findings.txt")

RES = ["sut_common", "sut_unit_b"]
BLK = ["sut_block1", "sut_block2", "sut_block3"]
# world -> units of the program under test linked into it
WORLDS = {
    "simple": RES + BLK,
    "mono": RES + ["sut_mono"],
    "alloc": RES + BLK + ["sut_mono", "sut_alloc"],
    "defreg": RES + BLK + ["sut_mono", "sut_alloc"],
    "iso": RES + BLK + ["sut_mono", "sut_alloc", "sut_timer", "sut_pimpl", "sut_seq"],
    "shared": RES + BLK + ["sut_mono", "sut_alloc", "sut_timer", "sut_pimpl"],
    "chain": RES + BLK + ["sut_mono", "sut_alloc"],
    "timer": ["sut_timer"],
    "pimpl": ["sut_pimpl", "sut_plain"],
    "abortw": ["sut_abort"],
    "wipew": ["sut_wipe"],
    "bytesw": ["sut_bytes"],
    "seqw": ["sut_seq"],
}
# calls of the C library's byte functions go to the simulation
UNIT_OPTS = {"sut_bytes": ["-U_FORTIFY_SOURCE", "-fno-builtin", "-include", os.path.join(SIM, "include", "libc_seam.h")]}
WORLD_NAMES = {"block": "simple", "mono": "mono", "alloc": "alloc", "default": "defreg", "isolation": "iso", "shared": "shared",
               "stack": "chain", "timer": "timer", "pimpl": "pimpl", "abort": "abortw", "wipe": "wipew", "bytes": "bytesw", "seq": "seqw"}
# property -> (worlds, what the cases are, what makes one non-trivial)
PROPS = {}
for _p in ("A01", "A02", "A03", "A04", "A05", "A06"):
    PROPS[_p] = ["simple"]
PROPS.update({
    "A07": ["simple", "mono", "alloc"],
    "B01": ["mono"], "B02": ["mono"],
    "C01": ["defreg"], "C02": ["defreg"], "C03": ["defreg"], "C04": ["iso"], "C05": ["shared"],
    "D01": ["alloc"], "D02": ["alloc"],
    "E01": ["timer"], "E02": ["timer"], "E03": ["timer"],
    "F01": ["pimpl"], "F02": ["pimpl"],
    "G01": ["abortw"],
    "H01": ["chain"],
    "I01": ["wipew"], "I02": ["bytesw"],
    "J01": ["seqw"], "J02": ["seqw"],
})
# Parts of a unit that exist only to use the library in one more way: if the
# unit compiles without the part but not with it, the property is broken (the
# program a user could write no longer exists), and the rest still runs.
PARTS = {
    "sut_pimpl": [("SUT_NO_MOVE_ONLY", "F02", "a move-only type can be used directly, but not in a wrapper")],
    "sut_plain": [("SUT_NO_MOVE_ONLY", "F02", "a move-only type can be used directly, but not in a wrapper")],
    "sut_timer": [("SUT_NO_MOVE_ONLY", "E03", "a timer cannot be given a callable that can be moved but not copied")],
    "sut_alloc": [("SUT_NO_MOVE_ONLY", "D01", "an rvalue of a move-only type cannot be passed to the constructor of a new object"),
                  ("SUT_NO_ARGS", "D01", "an object cannot be built from arguments of another type than the allocator's element"),
                  ("SUT_NO_MIXED", "D02", "allocators of different element types cannot be converted or compared")],
    "sut_seq": [("SUT_NO_VALUE_LV", "J01", "an array cannot be built of copies of an lvalue"),
                ("SUT_NO_BUILD_MOVE_ONLY", "J01", "an array cannot be built of elements that can be moved but not copied"),
                ("SUT_NO_VISIT_MOVE_ONLY", "J02", "elements that can be moved but not copied cannot be shown to a callable")],
}
broken_parts = []
RULES = {
    "simple": "one seed = one block resource (16 layouts, buffer placement, 4 constructors, upstream kind) and one history of "
              "requests, deallocations, releases, misuse and upstream failures; non-trivial: memory was obtained from it",
    "mono": "one seed = one monotonic resource (buffer placement, constructors, upstream kind) and one history of requests, "
            "deallocations, releases and upstream failures; non-trivial: the resource answered a request",
    "alloc": "one seed = allocators of 4 element types over simulated, block, monotonic, null and system resources and one "
             "history of typed requests, constructions, copies, conversions and failures; non-trivial: a request was made",
    "defreg": "one seed = 1-4 threads, their programs, and one interleaving decided at every memory access and every call to "
              "the system allocator; non-trivial: requests were made, or more than two register operations ran",
    "iso": "one seed = 2-4 threads with 1-3 objects each, a program per object run alone and then all together under one "
           "interleaving decided at every memory access; non-trivial: at least three context switches",
    "shared": "one seed = 1-3 objects with a history, and 2-4 threads that only read, compare and copy them under one interleaving "
              "decided at every memory access; non-trivial: at least two context switches",
    "chain": "one seed = up to six resources stacked over one another, their buffers from outside, the system or lower layers, "
             "and one history of requests, deallocations, releases, teardowns and system allocator failures; non-trivial: "
             "the system allocator was called",
    "timer": "one seed = timers over simulated clocks and one history of starts, moves, swaps, assignments, container "
             "operations, unwinding, clock jumps and stalls; non-trivial: a callback ran",
    "pimpl": "one seed = wrapped and bare objects of 7 types and one history of operations on both, with objects that throw "
             "before or after taking effect; non-trivial: an operation took effect",
    "wipew": "one seed = 1-3 threads that fill and wipe their own adjacent memory and short-lived secrets in 26 ways, and one "
             "interleaving; the process dies at any point and its memory is looked at; non-trivial: something was wiped",
    "bytesw": "one seed = 1-3 threads that copy, move, compare and wipe bytes of their own adjacent memory and of shared "
              "read-only memory, up to the edges of what is mapped, and one interleaving; non-trivial: a primitive was called",
    "seqw": "one seed = up to 6 arrays built or visits made with elements of 5 types, whose constructors, or the visitor, throw "
            "at any point, before or after taking effect; non-trivial: an array was built or something was visited",
    "abortw": "one seed = checked aborts of 21 forms and a standard error stream with one kind of fault; non-trivial: a "
              "condition held and the process aborted",
}
REAL = "the library's headers as they are in the working tree, compiled into the simulation (no copy, no mock)"
STUBS = {
    "simple": ["upstream resources and the system allocator (simulated heap with failures)"],
    "mono": ["upstream resources and the system allocator (simulated heap with failures)"],
    "alloc": ["the system allocator and one upstream kind (simulated heap); block, monotonic, null and system resources are real"],
    "defreg": ["the system allocator (simulated heap)", "threads (fibers under the seeded scheduler)"],
    "iso": ["upstream resources and the system allocator (simulated heap)", "threads (fibers)", "clocks"],
    "shared": ["upstream resources and the system allocator (simulated heap)", "threads (fibers)", "clocks"],
    "chain": ["the system allocator (simulated heap)"],
    "timer": ["clocks, the steady clock included"],
    "pimpl": [],
    "wipew": ["threads (fibers)", "process death (its memory image is examined where it stands)"],
    "bytesw": ["threads (fibers)", "the C library's memcpy, memmove, memset, memcmp (instrumented, reading all they may read)"],
    "seqw": [],
    "abortw": ["standard error (simulated stream with faults)", "process death (caught at abort)"],
}


def clang():
    for c in ("/usr/bin/clang++-18", "clang++-18", "clang++"):
        if shutil.which(c):
            return c
    return None


def flavours(tier, prop=None):
    f = [("gcc-O0-asserts", "g++", ["-O0"])]
    c = clang()
    if c:
        f.append(("clang-O2-ndebug", c, ["-O2", "-DNDEBUG"]))
    else:
        f.append(("gcc-O2-ndebug", "g++", ["-O2", "-DNDEBUG"]))
    if tier == "thorough" or prop == "I01":  # what a compiler leaves out is the compiler's choice
        f.append(("gcc-O2-asserts", "g++", ["-O2"]))
    if tier == "thorough" and c:
        f.append(("clang-O1-asserts", c, ["-O1"]))
    return f


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def digest_tree(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                try:
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                except OSError:
                    pass
                h.update(b"\0")
    return h.hexdigest()[:16]


def compile_one(cmd, out):
    note = out + ".broken"
    if os.path.exists(out):
        if os.path.exists(note):
            with open(note) as f:
                broken_parts.append(json.load(f))
        return None
    tmp = "%s.%d.tmp" % (out, os.getpid())
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    unit = os.path.basename(out).split(".")[0]
    for macro, prop, what in PARTS.get(unit, []) if r.returncode else []:
        q = subprocess.run(cmd + ["-D" + macro, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if q.returncode == 0:
            b = {"unit": unit, "property": prop, "what": what, "cmd": cmd, "output": r.stdout.decode(errors="replace")[:3000]}
            with open("%s.%d.tmp" % (note, os.getpid()), "w") as f:
                json.dump(b, f)
            os.replace("%s.%d.tmp" % (note, os.getpid()), note)
            broken_parts.append(b)
            os.replace(tmp, out)
            return None
    if r.returncode:
        return "%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-3000:])
    os.replace(tmp, out)
    return None


def build(worlds, flavs):
    """Returns {(world, flavour): executable}."""
    key = digest_tree(os.path.join(REPO, "sources", "include"), SIM)
    root = os.path.join(BUILD, key)
    os.makedirs(root, exist_ok=True)
    for d in os.listdir(BUILD):  # trees that are gone
        p = os.path.join(BUILD, d)
        if d != key and re.fullmatch("[0-9a-f]{16}", d) and time.time() - os.path.getmtime(p) > 600:
            shutil.rmtree(p, ignore_errors=True)
    jobs = {}
    host = ["g++", "-std=c++20", "-O1", "-Wall", "-Wextra", "-fno-threadsafe-statics", "-c"]
    for n in ("engine", "mark_begin", "mark_end"):
        jobs[os.path.join(root, n + ".o")] = host + [os.path.join(SIM, n + ".cpp")]
    for w in worlds:
        jobs[os.path.join(root, "w_%s.o" % w)] = host + [os.path.join(SIM, "worlds", w + ".cpp")]
    for fname, cxx, opts in flavs:
        for s in sorted({s for w in worlds for s in WORLDS[w]}):
            jobs[os.path.join(root, "%s.%s.o" % (s, fname))] = (
                [cxx, "-std=c++17", "-g0", "-w", "-fsanitize=thread"] + opts + UNIT_OPTS.get(s, []) +
                ["-include", os.path.join(SIM, "include", "prelude.h"), "-I" + os.path.join(SIM, "include"),
                 "-I" + os.path.join(REPO, "sources", "include"), "-c", os.path.join(SIM, "sut", s + ".cpp")])
    order = sorted(jobs, key=lambda o: ("pimpl" not in o, "timer" not in o, o))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(lambda o: compile_one(jobs[o], o), order) if e]
    if errs:
        die("cannot build the simulation:\n" + errs[0])
    exes = {}
    links = {}
    for w in worlds:
        for fname, _, _ in flavs:
            out = os.path.join(root, "%s.%s" % (w, fname))
            exes[(w, fname)] = out
            links[out] = (["g++"] + [os.path.join(root, n + ".o") for n in ("engine", "w_" + w, "mark_begin")] +
                          # static objects are initialised in the order units are linked in: both ways
                          [os.path.join(root, "%s.%s.o" % (s, fname)) for s in WORLDS[w][::-1 if "clang" in fname else 1]] +
                          [os.path.join(root, "mark_end.o"), "-ldl"])
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(lambda o: compile_one(links[o], o), links) if e]
    if errs:
        die("cannot link the simulation:\n" + errs[0])
    return exes


def replay(exe, path):
    """(exit code, hash) in a fresh process."""
    r = subprocess.run([exe, "--replay", path, "--quiet", "1"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    out = r.stdout.decode(errors="replace")
    m = re.search(r"hash=(\d+)", out)
    return r.returncode, m.group(1) if m else "", out


def batch(exe, prop, seed, runs, workers, cap, fname, rep, out):
    cmd = [exe, "--property", prop, "--seed", str(seed), "--runs", str(runs), "--workers", str(workers), "--cap", str(cap),
           "--flavour", fname, "--replay-out", rep, "--out", out]
    if os.path.exists(out):
        os.unlink(out)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=cap + 240)
    except subprocess.TimeoutExpired:
        die("the simulation did not end: " + " ".join(cmd))
    if not os.path.exists(out):
        die("the simulation left no result (exit %d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout.decode(errors="replace")[-2000:]))
    with open(out) as f:
        return json.load(f)


def known_findings(prop):
    """Listed defects that are not repaired: 'finding: property=X class=Y match=REGEX :: text'."""
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(\S+) :: (.*)", line)
            if m and m.group(1) == prop:
                res.append((m.group(2), re.compile(m.group(3)), m.group(4).strip()))
    return res


# share of the tier's simulated runs: worlds whose runs cost more get fewer
QUICK_RUNS = {"simple": 700000, "mono": 900000, "alloc": 500000, "defreg": 700000, "iso": 160000, "shared": 300000, "chain": 500000,
              "timer": 900000, "pimpl": 700000, "abortw": 900000, "wipew": 500000, "bytesw": 600000, "seqw": 600000}
# properties whose runs are cheap get more of them
MORE = {"I02": 5, "J01": 4, "J02": 4, "A06": 2, "B01": 4, "B02": 4, "C02": 2, "C03": 2, "D01": 4, "E01": 4, "E02": 4, "E03": 4, "F01": 1.5, "F02": 1.5, "G01": 4,
        "H01": 1.5, "C04": 1.5}


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    worlds = PROPS[prop]
    flavs = flavours(tier, prop)
    exes = build(worlds, flavs)
    t_build = time.time() - t0
    workers = max(2, min(os.cpu_count() or 4, 16))
    reps = os.path.join(HERE, "replays")
    os.makedirs(reps, exist_ok=True)
    known = known_findings(prop)
    known_hit = set()
    cov = {"worlds": [], "fault_counts": {}, "probe_counts": {}}
    tot = {"evaluations": 0, "distinct": 0, "nontrivial": 0, "states": 0, "ops": 0, "sim_ns": 0, "wall": 0.0, "diverged": 0}
    samples, problem, violation = [], "", None
    n_seeds = 0
    for bp in [bp for bp in broken_parts if bp["property"] == prop][:1]:
        rep = os.path.join(reps, "%s-build.replay" % prop)
        with open(rep, "w") as f:
            f.write("# replay: compile the unit again; it must fail\nworld build\nproperty %s\n" % prop)
            f.write("compile %s\n%s\n" % (json.dumps(bp["cmd"]), bp["output"]))
        violation = (rep, {"class": "does-not-compile", "detail": bp["what"]}, bp["unit"], "build")
    for w in [] if violation else worlds:
        for fi, (fname, _, _) in enumerate(flavs):
            exe = exes[(w, fname)]
            runs = int(QUICK_RUNS[w] * MORE.get(prop, 1) * float(os.environ.get("VERIF_SCALE", "1")) / (len(worlds) if len(worlds) > 1 else 1))
            cap = 45 if len(worlds) == 1 else 25
            if tier == "thorough":
                runs, cap = runs * 40, max(20, int(700 / (len(flavs) * len(worlds))))
            base = (seed & 0xffffffff) * 1000003 + fi * 7919 + 17
            rep = os.path.join(reps, "%s-%s-%s.replay" % (prop, w, fname))
            out = os.path.join(os.path.dirname(exe), "%s-%s-%s.%d.json" % (prop, w, fname, os.getpid()))
            # the same seeds at another worker count must leave the same history
            small = min(runs, 3000)
            a = batch(exe, prop, base, small, workers, 60, fname, rep, out)
            rounds = 0
            d = None
            if not a["violation"]:
                b = batch(exe, prop, base, small, 3, 60, fname, rep, out)
                if not b["violation"] and (a["acc"] != b["acc"] or a["runs"] != b["runs"]):
                    problem = problem or "%s/%s: worker counts disagree" % (w, fname)
            while True:
                d = batch(exe, prop, base + rounds * 15485863, runs, workers, cap, fname, rep, out)
                n_seeds += 1
                tot["evaluations"] += d["runs"]
                tot["distinct"] += d["distinct"]
                tot["nontrivial"] += d["nontrivial"]
                tot["states"] += d["states"]
                tot["ops"] += d["ops"]
                tot["sim_ns"] += d["sim_ns"]
                tot["wall"] += d["wall_s"]
                tot["diverged"] += d["diverged"]
                for k, v in d["counts"].items():
                    g = "fault_counts" if k.startswith(("fault:", "misuse:", "sched:")) else "probe_counts"
                    cov[g][k] = cov[g].get(k, 0) + v
                if d["nondeterminism"]:
                    problem = problem or "%s/%s: %s is not repeatable" % (w, fname, d["nondeterminism"])
                v = d["violation"]
                hit = None
                if v and not v["gate_failed"]:
                    for cls, rx, text in known:
                        if cls == v["class"] and rx.search(v["detail"]):
                            hit = text
                if hit and rounds < 8:
                    if hit not in known_hit:
                        print("KNOWN-FINDING: property=%s %s" % (prop, hit))
                    known_hit.add(hit)
                    rounds += 1
                    continue
                break
            cov["worlds"].append({"world": d["world"], "build": fname, "seed": base, "runs": d["runs"], "requested": d["requested"],
                                  "distinct_nontrivial": d["distinct"], "distinct_states": d["states"], "diverged": d["diverged"],
                                  "wall_s": d["wall_s"], "history_hash": d["acc"], "real": REAL, "stubs": STUBS[w]})
            if len(samples) < 4:
                samples += [w + " / " + fname + "\n" + s for s in d["samples"][:1]]
            if os.path.exists(out):
                os.unlink(out)
            v = d["violation"]
            if v and not hit:
                if v["gate_failed"]:
                    problem = problem or "a violation (%s: %s) does not repeat: %s" % (v["class"], v["detail"], v["gate_why"])
                    continue
                r1, h1, o1 = replay(exe, rep)
                r2, h2, _ = replay(exe, rep)
                if r1 != 1 or r2 != 1 or h1 != h2:
                    problem = problem or "replaying %s does not reproduce %s (%d/%d)" % (rep, v["class"], r1, r2)
                    continue
                violation = (rep, v, w, fname)
                break
        if violation:
            break
    wall = time.time() - t0
    cov.update({
        "evaluations": tot["evaluations"],
        "distinct_nontrivial": tot["distinct"],
        "rule": "; ".join("%s: %s" % (w, RULES[w]) for w in worlds) +
                ". Distinct: by the hash of everything observed in the run (answers, events, context switches).",
        "samples": samples,
        "runs_per_hour": int(tot["evaluations"] / tot["wall"] * 3600) if tot["wall"] else 0,
        "base_seeds": n_seeds,
        "simulated_operations": tot["ops"],
        "simulated_seconds": tot["sim_ns"] / 1e9,
        "distinct_states": tot["states"],
        "distinct_states_measure": "hash of the abstract state after each step, as defined in each world (summed over builds)",
        "runs_left_early_for_another_property": tot["diverged"],
        "determinism": "%d same-seed re-runs in process; the first 3000 runs repeated at another worker count" %
                       cov["probe_counts"].get("determinism:reruns", 0),
        "build_s": round(t_build, 1),
    })
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["sampled, not enumerated: a clean batch is evidence, not proof",
                          "interleavings are those of sequentially consistent execution; orderings too weak for them are found as data races",
                          "the headers are compiled with %s" % ", ".join(f[0] for f in flavs)],
          "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.%d.tmp" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    if violation:
        rep, v, w, fname = violation
        print("%s / %s: %s: %s" % (w, fname, v["class"], v["detail"]))
        print("replay with: python3 %s --replay %s" % (os.path.join(HERE, "check.py"), rep))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    if problem:
        print("ERROR: " + problem)
        return 2
    print("%s held: %d simulated runs, %d distinct and non-trivial, %.1f s" % (prop, tot["evaluations"], tot["distinct"], wall))
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["--build"]:
        build(list(WORLDS), flavours("quick"))
        print("built")
        return 0
    if len(a) == 2 and a[0] == "--replay":
        head = {}
        for line in open(a[1]):
            f = line.split()
            if line.startswith("compile ["):
                r = subprocess.run(json.loads(line[8:]) + ["-o", "/dev/null"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                print(r.stdout.decode(errors="replace")[-3000:])
                print("fails" if r.returncode else "compiles")
                return 1 if r.returncode else 0
            if len(f) >= 2 and f[0] in ("world", "flavour", "property"):
                head[f[0]] = f[1]
        w = WORLD_NAMES[head["world"]]
        fl = [f for f in flavours("thorough") if f[0] == head["flavour"]] or flavours("quick")[:1]
        exe = build([w], fl)[(w, fl[0][0])]
        return subprocess.run([exe, "--replay", a[1]]).returncode
    if len(a) == 1 and a[0] in PROPS:
        return check(a[0])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
