#!/usr/bin/env python3
"""Contract checks of RuC.  usage: check.py <property id> | --replay FILE | --list

Every run compiles /repo's current sources with goto-cc together with the contract harnesses of
the property, instruments the contracts (goto-instrument --dfcc --enforce-contract ...) and lets
cbmc discharge every obligation.  See DESIGN.md for the verdict rules.
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(EVID, "replays")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VP_JOBS", "8"))
BUDGET = float(os.environ.get("VP_BUDGET", "780"))      # seconds for a whole check
START = time.time()

INCLUDES = ["libs/utils", "libs/macro", "libs/compiler"]
BASE_DEFS = ["_POSIX_C_SOURCE=200112L"]
MEM_KB = 12 * 1024 * 1024


def left():
    return BUDGET - (time.time() - START)


STOP = threading.Event()
_running = set()


def stop_all():
    """A violation is confirmed: the rest of the run cannot change the verdict."""
    STOP.set()
    for pid in list(_running):
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass


def run(cmd, timeout, cwd=None, env=None, out=None):
    """Run in its own process group with time and memory limits: (rc, stdout, stderr); rc None on timeout."""
    def pre():
        import resource
        os.setsid()
        if not env or not env.get("VP_NO_AS"):
            resource.setrlimit(resource.RLIMIT_AS, (MEM_KB * 1024, MEM_KB * 1024))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    stdout = open(out, "wb") if out else subprocess.PIPE
    e = dict(os.environ)
    if env:
        e.update(env)
    if STOP.is_set():
        return None, "", "stopped"
    p = subprocess.Popen(cmd, stdout=stdout, stderr=subprocess.PIPE, cwd=cwd, env=e, preexec_fn=pre)
    _running.add(p.pid)
    try:
        o, err = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, err = p.communicate()
        rc = None
    _running.discard(p.pid)
    if out:
        stdout.close()
        o = b""
    return rc, (o or b"").decode("utf8", "replace"), (err or b"").decode("utf8", "replace")


class Group:
    """One entry function of one harness: a set of contracts enforced together."""

    def __init__(self, name, harness, entry, sources=(), enforce=(), replace=(), unwind=None, unwindset=(),
                 kind="proof", bound="", defs=(), flags=(), instr=(), alloc_fail=False, timeout=300, solver=None,
                 remove=(), loop_contracts=False, tiers=("quick", "thorough"), rounds=20000, functions=(),
                 no_checks=(), native=True, fallback_group=None, native_only_sources=(), dfcc=None,
                 object_bits=12, recursive=False, write_set=40, included=(), whole=False, native_extra=True, arrays=False, twin=None):
        self.twin = twin        # executable group that stands in for this one in native runs (unbounded streams cannot be run)
        self.arrays = arrays
        self.native_extra = native_extra
        self.included, self.whole = list(included), whole
        self.write_set = write_set
        self.recursive = recursive
        self.name, self.harness, self.entry = name, harness, entry
        self.sources, self.enforce, self.replace = list(sources), list(enforce), list(replace)
        self.unwind, self.unwindset = unwind, list(unwindset)
        self.kind, self.bound = kind, bound
        self.defs, self.flags, self.instr = list(defs), list(flags), list(instr)
        self.alloc_fail, self.timeout, self.solver = alloc_fail, timeout, solver
        self.remove, self.loop_contracts, self.tiers = list(remove), loop_contracts, tiers
        self.rounds = rounds
        self.functions = list(functions) or list(enforce)
        self.no_checks = list(no_checks)
        self.native = native
        self.fallback_group = fallback_group
        self.native_only_sources = list(native_only_sources)
        self.dfcc = bool(enforce or replace or loop_contracts) if dfcc is None else dfcc
        self.object_bits = object_bits


SRC = REPO      # where goto-cc reads RuC from: a per-run mirror with wide literals respelled


def respell(text):
    """CBMC's front end does not decode UTF-8 inside U'...' and U"..." literals: spell them with \\u escapes."""
    def esc(m):
        return "".join(c if ord(c) < 128 else "\\u%04X" % ord(c) if ord(c) < 0x10000 else "\\U%08X" % ord(c)
                       for c in m.group(0))
    return re.sub(r"""\b[UL]'(?:\\.|[^'\\\n])+'|\b[UL]"(?:\\.|[^"\\\n])*\"""", esc, text)


def mirror(scratch):
    global SRC
    root = os.path.join(scratch, "src")
    for d in INCLUDES:
        for base, _, files in os.walk(os.path.join(REPO, d)):
            to = os.path.join(root, os.path.relpath(base, REPO))
            os.makedirs(to, exist_ok=True)
            for f in files:
                if f.endswith((".c", ".h")):
                    with open(os.path.join(base, f), encoding="utf8", errors="surrogateescape", newline="") as h:
                        text = h.read()
                    with open(os.path.join(to, f), "w", encoding="utf8", errors="surrogateescape", newline="") as h:
                        h.write(respell(text))
    SRC = root


_compile_lock = threading.Lock()
_compile_cache = {}


def compile_unit(scratch, path, defs):
    """goto-cc one translation unit (cached per run)."""
    key = (path, tuple(defs))
    with _compile_lock:
        ev = _compile_cache.get(key)
        if ev is None:
            ev = _compile_cache[key] = {"event": threading.Event(), "owner": True}
            mine = True
        else:
            mine = False
    if not mine:
        ev["event"].wait()
        return ev["result"]
    n = len(_compile_cache)
    obj = os.path.join(scratch, "u%d_%s.o" % (n, os.path.basename(path).replace(".", "_")))
    cmd = ["goto-cc", "-c", "-std=gnu11", "-DVP_CBMC", "-DNDEBUG"] + ["-D" + d for d in BASE_DEFS + list(defs)]
    cmd += ["-I" + os.path.join(SRC, i) for i in INCLUDES] + ["-I" + HARNESS, "-DVP_REPO=" + SRC, path, "-o", obj]
    rc, o, e = run(cmd, 120)
    ev["result"] = (obj if rc == 0 else None, " ".join(cmd) + "\n" + o + e)
    ev["event"].set()
    return ev["result"]


def build_goto(scratch, g, defs):
    objs = []
    units = [os.path.join(HARNESS, g.harness)] + [os.path.join(SRC, s) for s in g.sources]
    for u in units:
        obj, log = compile_unit(scratch, u, defs)
        if obj is None:
            return None, "goto-cc failed\n" + log, []
        objs.append(obj)
    tag = re.sub(r"\W", "_", g.name)
    a = os.path.join(scratch, tag + ".a.gb")
    rc, o, e = run(["goto-cc", "--function", g.entry] + objs + ["-o", a], 120)
    if rc != 0:
        return None, "goto-cc link failed\n" + o + e, []
    cmds = []
    steps = []
    if g.remove or g.instr:
        steps.append(sum([["--remove-function-body", f] for f in g.remove], []) + g.instr)
    if not g.dfcc:
        steps.append(["--drop-unused-functions"])
    for n, step in enumerate(steps):
        c = a + ".r%d" % n
        cmd = ["goto-instrument"] + step + [a, c]
        rc, o, e = run(cmd, 120)
        if rc != 0:
            return None, "goto-instrument failed\n" + o + e, []
        cmds.append(" ".join(cmd))
        a = c
    if g.dfcc:
        b = os.path.join(scratch, tag + ".b.gb")
        cmd = ["goto-instrument", "--dfcc", g.entry]
        for f in g.enforce:
            cmd += ["--enforce-contract-rec" if g.recursive else "--enforce-contract", f]
        for f in g.replace:
            cmd += ["--replace-call-with-contract", f]
        if g.loop_contracts:
            cmd += ["--apply-loop-contracts"]
            if g.loop_contracts is not True:
                lc = os.path.join(scratch, tag + ".loops.json")
                json.dump({"sources": [], "functions": [{f: [dict(l, loop_id=str(i)) for i, l in ls.items()]} for f, ls in g.loop_contracts.items()],
                           "output": "stdout"}, open(lc, "w"))
                cmd += ["--loop-contracts-file", lc]
        if g.alloc_fail:
            cmd += ["--malloc-may-fail", "--malloc-fail-null"]
        else:
            cmd += ["--no-malloc-may-fail"]
        cmd += [a, b]
        rc, o, e = run(cmd, 300)
        cmds.append(" ".join(cmd))
        if rc != 0:
            return None, "goto-instrument --dfcc failed\n" + o[-3000:] + e[-3000:], cmds
        a = b
    return a, "", cmds


def cbmc_cmd(g, gb, library=(), unwindset=()):
    cmd = ["cbmc", "--verbosity", "8", "--json-ui", "--trace", "--no-standard-checks", "--bounds-check", "--pointer-check",
           "--div-by-zero-check", "--signed-overflow-check", "--undefined-shift-check", "--unwinding-assertions",
           "--pointer-primitive-check"]
    cmd = [c for c in cmd if c not in g.no_checks]
    if not g.alloc_fail:
        cmd += ["--no-malloc-may-fail"]
    else:
        cmd += ["--malloc-may-fail", "--malloc-fail-null"]
    if g.unwind:
        cmd += ["--unwind", str(g.unwind)]
    for u in ["%s:%d" % (l, g.write_set) for l in library] + list(unwindset):
        cmd += ["--unwindset", u]
    if g.object_bits:
        cmd += ["--object-bits", str(g.object_bits)]
    if g.solver:
        cmd += g.solver.split()
    return cmd + g.flags + [gb]


def classify(prop):
    pid, desc = prop["property"], prop.get("description", "")
    if desc.startswith("VP-REACH"):
        return "reach"
    if ".unwind." in pid or "unwinding assertion" in desc or "recursion unwinding" in desc:
        return "unwind"
    if "undefined function should be unreachable" in desc or ".no-body" in pid or "no body for" in desc:
        return "nobody"
    if desc.startswith("VP-CHECK"):
        return "check"
    if "loop_invariant" in pid or "loop_step_unwinding" in pid or "loop_decreases" in pid or "loop_assigns" in pid:
        return "loop"
    if ".assigns." in pid or "is assignable" in desc or "frees" in pid:
        return "frame"
    if "postcondition" in pid or "ensures" in desc:
        return "post"
    if "precondition" in pid or "requires clause" in desc:
        return "pre"
    return "safety"


def internal(prop):
    """Obligations inside CBMC's own contract library (not counted as RuC's)."""
    loc = prop.get("sourceLocation", {})
    return prop["property"].startswith("__CPROVER_contracts") or "__CPROVER_contracts_library" in str(loc.get("file", ""))


def trace_inputs(trace):
    vals = []
    for step in trace or []:
        if step.get("stepType") == "input" and step.get("inputID") == "vp":
            v = step["values"][0]
            b = v.get("binary")
            if b is not None:
                vals.append(int(b, 2))
            else:
                vals.append(int(re.sub(r"[^\d-]", "", str(v.get("data", "0"))) or 0) & (2 ** 64 - 1))
    return vals


class Result:
    def __init__(self, g):
        self.g = g
        self.status = "error"       # proved | failed | limit | error
        self.log = ""
        self.counts = {}
        self.obligations = 0
        self.discharged = 0
        self.failed = []            # (class, property id, description, location, inputs)
        self.reach = 0
        self.reach_missed = []
        self.cmds = []
        self.wall = 0.0
        self.solver_s = 0.0
        self.backend = ""
        self.nobody = []
        self.fallback = ""
        self.executed = 0


def solve(scratch, g, defs):
    t0 = time.time()
    r = Result(g)
    gb, log, r.cmds = build_goto(scratch, g, defs)
    if gb is None:
        r.log = log
        r.wall = time.time() - t0
        return r
    out = os.path.join(scratch, re.sub(r"\W", "_", g.name) + ".json")
    library, unwindset = [], []
    if g.dfcc or g.unwindset:
        _, o, _ = run(["cbmc", "--show-loops", gb], 60)
        loops = sorted(set(re.findall(r"Loop (\w+\.\d+):", o)))
        if g.dfcc:  # loops of the contract library run over the write set, not over RuC's data
            library = [l for l in loops if l.startswith("__CPROVER_contracts_")]
        for u in g.unwindset:   # function:bound or function.loop:bound; loops that are not there need no bound
            name, bound = u.rsplit(":", 1)
            unwindset += ["%s:%s" % (l, bound) for l in loops if l == name or l.rsplit(".", 1)[0] == name]
    cmd = cbmc_cmd(g, gb, library, unwindset)
    r.cmds.append(" ".join(cmd))
    # the array instances are sensitive to the solver: a small portfolio, one after another
    d, c, a = [], ["--sat-solver", "cadical"], ["--arrays-uf-always"]
    if g.solver:
        stages = [([], 1.0)]
    elif g.arrays:
        stages = [(a, 0.15), (c, 0.3), (d, 0.4), (a, 0.5)]
    else:
        stages = [(d, 0.4), (c, 0.5), (a, 0.5)]
    data, err, rc = None, "", None
    for n, (extra, share) in enumerate(stages):
        if left() < 10 or STOP.is_set():
            break
        t1 = time.time()
        rc, _, err = run(cmd[:-1] + extra + cmd[-1:], min(g.timeout * share, left() - 5), out=out)
        r.wall = time.time() - t0
        try:
            data = json.load(open(out))
            if not any("result" in d for d in data) and rc not in (0, 10) and time.time() - t1 > 20:
                data = None     # ran out of memory: the next one may not
        except Exception as ex:     # killed, out of memory, truncated
            err = "%s %s" % (ex, err[-500:])
        finally:
            try:
                os.unlink(out)
            except OSError:
                pass
        if data is not None:
            r.cmds[-1] = " ".join(cmd[:-1] + extra + cmd[-1:])
            break
    if data is None:
        r.status = "limit"
        r.log = "cbmc gave no complete answer (rc=%s, %.0fs): %s" % (rc, r.wall, err[-300:])
        return r
    props = None
    for d in data:
        if "result" in d:
            props = d["result"]
        m = d.get("messageText", "")
        x = re.search(r"Runtime Solver: ([\d.e+-]+)s", m)
        if x:
            r.solver_s += float(x.group(1))
        x = re.search(r"Solving with (.*)|Passing problem to (.*)", m)
        if x and not r.backend:
            r.backend = (x.group(1) or x.group(2) or "").strip()
        x = re.search(r"no body for (?:function|callee) (\S+)", m)
        if x:
            r.nobody.append(x.group(1))
        if d.get("messageType") == "ERROR":
            r.log += m + "\n"
    if props is None:
        r.status = "error" if rc is not None and rc not in (0, 10) else "limit"
        r.log = "cbmc rc=%s %s %s" % (rc, r.log, err[-500:])
        if "out of memory" in r.log.lower() or "bad_alloc" in r.log:
            r.status = "limit"
        return r
    for p in props:
        c = classify(p)
        if c == "reach":
            r.reach += 1
            if p["status"] != "FAILURE":
                r.reach_missed.append(p["description"])
            continue
        if internal(p) and p["status"] == "SUCCESS":
            continue
        r.obligations += 1
        r.counts[c] = r.counts.get(c, 0) + 1
        if p["status"] == "SUCCESS":
            r.discharged += 1
        else:
            loc = p.get("sourceLocation", {})
            r.failed.append((c, p["property"], p.get("description", ""),
                             "%s:%s %s" % (loc.get("file", "?").replace(SRC, REPO), loc.get("line", "?"), loc.get("function", "")),
                             trace_inputs(p.get("trace")), p["status"]))
    if not r.failed:
        r.status = "proved"
        if r.reach == 0:
            r.status, r.log = "error", "harness has no reachability witness"
        elif r.reach_missed:
            r.status, r.log = "vacuous", "vacuous: not reachable: " + "; ".join(r.reach_missed)
        elif not r.obligations:
            r.status, r.log = "vacuous", "no obligations"
    elif all(f[0] in ("unwind", "nobody") or f[5] != "FAILURE" for f in r.failed):
        r.status = "limit"
    else:
        r.status = "failed"
    return r


# ---------------------------------------------------------------- native side

_native_lock = threading.Lock()
_native_cache = {}


_lib_lock = threading.Lock()
_lib = {}


def all_sources():
    out = []
    for d in INCLUDES:
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if f.endswith(".c"):
                out.append(os.path.join(d, f))
    return out


SAN = ["-std=gnu11", "-g", "-ffunction-sections", "-O1", "-w", "-DVP_NATIVE", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-fno-common"]


def native_library(scratch):
    """All of RuC's C sources, compiled with ASan/UBSan, as an archive the native harnesses link."""
    with _lib_lock:
        if "path" in _lib:
            return _lib["path"]
        d = os.path.join(scratch, "lib")
        os.makedirs(d, exist_ok=True)
        objs = []

        def comp(s):
            o = os.path.join(d, s.replace("/", "_")[:-2] + ".o")
            cmd = ["gcc"] + SAN + ["-D" + x for x in BASE_DEFS] + ["-I" + os.path.join(REPO, i) for i in INCLUDES]
            rc, _, e = run(cmd + ["-c", os.path.join(REPO, s), "-o", o], 180)
            return o if rc == 0 else None
        with cf.ThreadPoolExecutor(JOBS) as pool:
            objs = [o for o in pool.map(comp, all_sources()) if o]
        path = os.path.join(d, "libruc.a")
        rc, _, e = run(["ar", "rcs", path] + objs, 60)
        _lib["path"] = path if rc == 0 else None
        return _lib["path"]


def build_native(scratch, g, defs):
    key = g.name
    with _native_lock:
        if key in _native_cache:
            return _native_cache[key]
    exe = os.path.join(scratch, "n_" + re.sub(r"\W", "_", g.name))
    lib = native_library(scratch)
    srcs = [os.path.join(HARNESS, g.harness), os.path.join(HARNESS, "vp_native.c")]
    srcs += [os.path.join(REPO, s) for s in g.native_only_sources]
    cmd = ["gcc"] + SAN + ["-DVP_ENTRY=" + g.entry, "-DVP_REPO=" + REPO, "-Wl,--gc-sections,--wrap=malloc,--wrap=realloc",
                           "-Wl,-z,muldefs"] + ["-D" + d for d in BASE_DEFS + list(defs)]
    cmd += ["-I" + os.path.join(REPO, i) for i in INCLUDES] + ["-I" + HARNESS] + srcs
    cmd += ["-o", exe] + ([lib] if lib else []) + ["-lm"]
    rc, o, e = run(cmd, 180)
    res = (exe if rc == 0 else None, e[-2000:])
    with _native_lock:
        _native_cache[key] = res
    return res


NATIVE_ENV = {"VP_NO_AS": "1", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1",
              "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98:print_stacktrace=1"}


def native_replay(scratch, g, defs, inputs, tag):
    """Run the recorded inputs on the real code: (confirmed, text)."""
    exe, err = build_native(scratch, g, defs)
    if exe is None:
        return False, "native harness does not build: " + err
    f = os.path.join(scratch, "in_%s_%s" % (re.sub(r"\W", "_", g.name), tag))
    with open(f, "w") as h:
        h.write("\n".join(str(v) for v in inputs) + "\n")
    tries = [(t, small) for t in [None] + (list(range(0, 10)) if g.alloc_fail else []) for small in (True, False)]
    text = ""
    for t, small in tries:      # the inputs are those of the verifier's (small) harness, or of the native one
        env = dict(NATIVE_ENV, VP_SMALL="1") if small else dict(NATIVE_ENV)
        if t is not None:
            env["VP_FAIL_ALLOC"] = str(t)
        rc, o, e = run([exe, "replay", f], 20, cwd=scratch, env=env)
        if rc is None:
            return True, "the real code does not terminate within 20 s on these inputs"
        if rc not in (0, 77):
            return True, "rc=%s%s\n%s%s" % (rc, "" if t is None else " (allocation number %d fails)" % t, o[-1500:], e[-3000:])
        text = "rc=%s %s" % (rc, e[-300:])
    return False, text


def native_random(scratch, g, defs, rounds, seconds):
    """Seeded search for a failing input: (inputs or None, text, executed)."""
    exe, err = build_native(scratch, g, defs)
    if exe is None:
        return None, "native harness does not build: " + err, 0
    t0 = time.time()
    executed, seed, batch = 0, SEED * 1000003, 500
    prog = os.path.join(scratch, "prog_" + re.sub(r"\W", "_", g.name))
    while executed < rounds and time.time() - t0 < seconds and left() > 5:
        env = dict(NATIVE_ENV, VP_ALLOC_RANDOM="1") if g.alloc_fail else NATIVE_ENV
        rc, o, e = run([exe, "random", str(seed), str(batch), prog], 60, cwd=scratch, env=env)
        if rc != 0:
            try:
                cur = int.from_bytes(open(prog, "rb").read(8), "little")
            except OSError:
                cur = seed
            log = prog + ".log"
            rc2, o2, e2 = run([exe, "random", str(cur), "1", prog, log], 30, cwd=scratch, env=env)
            if rc2 == 0:
                return None, "unstable failure rc=%s" % rc, executed
            try:
                vals = [int(x) for x in open(log).read().split()]
            except OSError:
                vals = []
            return vals, "rc=%s\n%s%s" % (rc2, o2[-1000:], e2[-3000:]), executed
        executed += batch
        seed += batch
        batch = min(batch * 2, 8000)
    return None, "", executed


# ---------------------------------------------------------------- verdict

def known_findings():
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf8"):
            m = re.match(r"finding: property=(\S+) group=(\S+) match=/(.*?)/ (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def write_replay(pid, g, defs, kind, obligation, inputs, text, r):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s.json" % (pid, re.sub(r"\W", "_", g.name)))
    with open(path, "w") as h:
        json.dump({"property": pid, "group": g.name, "verdict": kind, "failed_obligation": obligation,
                   "inputs": inputs, "native_output": text,
                   "verifier_output": [list(f[:4]) + [f[5]] for f in r.failed][:40], "log": r.log[-4000:],
                   "commands": r.cmds, "how_to_rerun": "python3 %s/check.py --replay %s" % (VERIF, path)}, h,
                  indent=1, ensure_ascii=False)
    return path


def load(pid):
    path = os.path.join(VERIF, "props", pid + ".py")
    spec = importlib.util.spec_from_file_location(pid, path)
    mod = importlib.util.module_from_spec(spec)
    mod.Group = Group
    mod.TIER = TIER
    mod.REPO = REPO
    spec.loader.exec_module(mod)
    return mod


def decide(scratch, mod, g, defs):
    """-> (verdict, Result, info); verdict in ok, degraded, violation, violation-nofail, known, error"""
    r = solve(scratch, g, defs)
    if any(f[0] == "nobody" for f in r.failed) and not g.whole:
        # the code under contract now calls another module: link everything and prove again
        first, kept = r, g.sources
        g.sources = kept + [x for x in all_sources() if x not in kept and x not in g.included]
        r = solve(scratch, g, defs)
        r.log += " (linked with all modules)"
        g.sources = kept
        if r.status == "error":
            r = first
    if r.status == "proved":
        if g.kind != "proof" and g.native and g.native_extra:
            # beyond the stated bound: seeded runs of the same harness (with its larger native limits) on the real code
            vals, text, r.executed = native_random(scratch, g, defs, g.rounds, 20 if TIER != "thorough" else 60)
            if vals is not None:
                return "violation", r, {"obligation": "executable form of the contract of %s (outside of the verifier's bound)" % g.name,
                                        "inputs": vals, "text": text}
        return "ok", r, {}
    real = [f for f in r.failed if f[0] not in ("nobody",)]
    if r.status in ("failed", "limit"):
        # 1. replay the verifier's counterexamples, most telling first
        order = {"check": 0, "post": 1, "safety": 2, "pre": 3, "unwind": 4, "frame": 5, "loop": 6}
        seen = set()
        for n, f in enumerate(sorted([f for f in real if f[5] == "FAILURE"], key=lambda f: order.get(f[0], 9))):
            key = tuple(f[4])
            if key in seen or len(seen) > 12 or not g.native or g.twin:
                continue
            seen.add(key)
            yes, text = native_replay(scratch, g, defs, f[4], str(n))
            if yes:
                return "violation", r, {"obligation": "%s: %s (%s)" % (f[1], f[2], f[3]), "inputs": f[4], "text": text}
    if r.status == "vacuous":
        real = []
    # 2. look for a concrete failing input on the real code
    executed, text = 0, ""
    if g.native:
        ng = g.twin or g
        vals, text, executed = native_random(scratch, ng, ng.defs if g.twin else defs, g.rounds * (4 if TIER == "thorough" else 1),
                                             min(60, max(10, left() / 4)))
        if vals is not None:
            ob = "; ".join("%s: %s" % (f[1], f[2]) for f in real[:3]) or "native check of " + g.name
            return "violation", r, {"obligation": ob, "inputs": vals, "text": text}
    hard = [f for f in r.failed if f[0] in ("check", "post", "pre", "safety", "frame") and f[5] == "FAILURE"]
    blocked = any(f[0] in ("unwind", "nobody", "loop") for f in r.failed) or bool(g.twin)
    if r.status == "failed" and hard and not blocked:
        f = hard[0]
        return "violation-nofail", r, {"obligation": "%s: %s (%s)" % (f[1], f[2], f[3]), "inputs": f[4],
                                       "text": "not reproduced natively; %d random executions passed" % executed}
    if r.status == "failed" and hard:
        # an unwinding or loop obligation failed too: the other failures may be artefacts
        f = hard[0]
        r.log += " (proof incomplete: %s)" % "; ".join(x[2] for x in r.failed[:5])
    if executed:
        r.fallback = "verifier gave no proof (%s: %s); %d seeded native executions of the same harness passed" % (
            r.status, r.log.strip().replace("\n", " ")[-200:] or "; ".join(f[2] for f in r.failed[:3]), executed)
        return "degraded", r, {}
    return "error", r, {}


def new_scratch(pid):
    """A fixed name, so that the verifier sees the same file names (and takes the same time) on every run."""
    fixed = os.path.join(tempfile.gettempdir(), "vp_" + pid)
    lock = os.path.join(fixed, "owner")
    try:
        os.mkdir(fixed)
    except FileExistsError:
        try:
            owner = int(open(lock).read())
            os.kill(owner, 0)
            return tempfile.mkdtemp(prefix="vp_%s_" % pid)
        except (OSError, ValueError):       # left behind by a run that was killed
            shutil.rmtree(fixed, ignore_errors=True)
            try:
                os.mkdir(fixed)
            except OSError:
                return tempfile.mkdtemp(prefix="vp_%s_" % pid)
    with open(lock, "w") as h:
        h.write(str(os.getpid()))
    return fixed


def main(pid):
    mod = load(pid)
    if shutil.which("cbmc") is None:
        print("cbmc is missing")
        return 2
    scratch = new_scratch(pid)
    try:
        return body(pid, mod, scratch)
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(scratch, ignore_errors=True)


def body(pid, mod, scratch):
    mirror(scratch)
    groups = [g for g in mod.GROUPS if TIER in g.tiers]
    defs = list(getattr(mod, "DEFS", []))
    only = os.environ.get("VP_ONLY")
    if only:
        groups = [g for g in groups if re.search(only, g.name)]
    known = known_findings()
    rows, violations, errors, lines = [], [], [], []
    with cf.ThreadPoolExecutor(JOBS) as pool:
        futs = {pool.submit(decide, scratch, mod, g, defs + g.defs): g for g in groups}
        for fu in cf.as_completed(futs):
            g = futs[fu]
            if STOP.is_set():
                fu.cancel()
                continue
            try:
                v, r, info = fu.result()
            except Exception as ex:      # a bug of the driver is an error of the check, never a verdict
                v, r, info = "error", Result(g), {}
                r.log = "driver: %r" % ex
            rows.append((g, v, r, info))
            if v == "violation" and not os.environ.get("VP_ALL") and not any(k[0] == pid and k[1] == g.name for k in known):
                stop_all()
            if os.environ.get("VP_VERBOSE"):
                print("  %-40s %-16s %4d/%-4d %6.1fs  solver %.1fs %s" % (g.name, v, r.discharged, r.obligations, r.wall, r.solver_s,
                      r.counts), flush=True)
                if v != "ok":
                    print("     ", r.status, r.log[-500:])
                    for f in r.failed[:6]:
                        print("      ", f[0], f[1], f[2][:100], f[3][-60:], f[4][:24])
                    if info:
                        print("      ", info.get("text", "")[:600])
    rows.sort(key=lambda x: [g.name for g in groups].index(x[0].name))
    for g, v, r, info in rows:
        if v in ("violation", "violation-nofail"):
            ob = info["obligation"]
            hit = [k for k in known if k[0] == pid and k[1] == g.name and re.search(k[2], ob)]
            # every failed obligation must be one of the listed ones
            if hit and all(any(re.search(k[2], "%s: %s (%s)" % (f[1], f[2], f[3])) for k in hit)
                           for f in r.failed if f[0] not in ("unwind",)):
                lines.append("KNOWN-FINDING: property=%s %s" % (pid, hit[0][3]))
                continue
            path = write_replay(pid, g, defs + g.defs, v, ob, info["inputs"], info["text"], r)
            violations.append("VIOLATION property=%s replay=%s%s" % (
                pid, path, " no-failing-input-found" if v == "violation-nofail" else ""))
            lines.append("  failed obligation [%s] %s" % (g.name, ob))
            lines.append("  " + info["text"].strip().replace("\n", "\n  ")[:1500])
        elif v == "error":
            errors.append("%s: %s %s" % (g.name, r.status, r.log[-1500:]))
        elif v == "degraded":
            lines.append("  note [%s] %s" % (g.name, r.fallback))
    violations.sort(key=lambda s: s.endswith("no-failing-input-found"))
    evidence(pid, mod, rows, violations)
    for l in lines:
        print(l)
    n, d = sum(x[2].obligations for x in rows), sum(x[2].discharged for x in rows)
    print("%s: %d groups, %d obligations, %d discharged, %.0fs" % (pid, len(rows), n, d, time.time() - START))
    if violations:
        for l in violations[:1]:
            print(l)
        return 1
    if errors:
        for e in errors:
            print("ERROR " + e)
        return 2
    return 0


def evidence(pid, mod, rows, violations):
    os.makedirs(EVID, exist_ok=True)
    proof = [x for x in rows if x[0].kind == "proof"]
    bounded = [x for x in rows if x[0].kind != "proof"]
    groups = []
    for g, v, r, info in rows:
        groups.append({"group": g.name, "kind": g.kind, "bound": g.bound, "verdict": v, "functions": g.functions,
                       "contracts_enforced": g.enforce, "calls_replaced_by_contract": g.replace,
                       "sources": g.sources, "obligations": r.obligations, "discharged": r.discharged,
                       "by_class": r.counts, "reachability_witnesses": r.reach, "backend": r.backend,
                       "solver_s": round(r.solver_s, 3), "wall_s": round(r.wall, 2),
                       "undischarged": [f[1] + ": " + f[2] for f in r.failed][:20], "note": r.fallback,
                       "seeded_native_executions_beyond_the_bound": r.executed})
    nob = sorted({f for x in rows for f in x[2].nobody})
    assumptions = list(getattr(mod, "ASSUMPTIONS", [])) + [
        "CBMC's models of the C library (malloc, realloc, free, memcpy, memset, str*) are trusted",
        "x86-64 LP64 data model as goto-cc takes it from the installed gcc; item type of the default build (64-bit)",
        "termination is covered only where loops are unwound completely",
    ]
    if any(not x[0].alloc_fail for x in rows):
        assumptions.append("memory allocation succeeds (groups: %s)" % ", ".join(x[0].name for x in rows if not x[0].alloc_fail))
    if nob:
        assumptions.append("functions without body treated as returning any value: " + ", ".join(nob))
    for x in bounded:
        assumptions.append("bounded stand-in, not proved: %s (%s)" % (x[0].name, x[0].bound))
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
          "level": mod.LEVEL,
          "coverage": {
              "obligations": sum(x[2].obligations for x in proof),
              "discharged": sum(x[2].discharged for x in proof),
              "bounded_obligations": sum(x[2].obligations for x in bounded),
              "bounded_discharged": sum(x[2].discharged for x in bounded),
              "functions_under_contract": sorted({f for x in rows for f in x[0].functions}),
              "solver_s": round(sum(x[2].solver_s for x in rows), 2),
              "checker_cmd": "python3 /verif/check.py " + pid,
              "trusted_base": ["cbmc 6.11 (goto-cc, goto-instrument --dfcc, symbolic execution, SAT/SMT back end)",
                               "contracts and spec functions in /verif/harness"] + list(getattr(mod, "TRUSTED", [])),
              "groups": groups,
              "explanation": getattr(mod, "EXPLANATION", ""),
          },
          "assumptions": assumptions, "wall_s": round(time.time() - START, 2), "violations": len(violations)}
    with open(os.path.join(EVID, pid + ".json"), "w") as h:
        json.dump(ev, h, indent=1, ensure_ascii=False)


def replay(path):
    d = json.load(open(path))
    mod = load(d["property"])
    g = [x for x in mod.GROUPS if x.name == d["group"]][0]
    g = g.twin or g
    scratch = tempfile.mkdtemp(prefix="vp_replay_")
    try:
        yes, text = native_replay(scratch, g, list(getattr(mod, "DEFS", [])) + g.defs, d["inputs"], "r")
        print(("FAILS on the real code\n" if yes else "does not fail\n") + text)
        return 1 if yes else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
