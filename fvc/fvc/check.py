"""Check driver: extraction, units of proof, replay harnesses, evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

from . import terms as T
from .terms import num, real, TRUE, FALSE
from .algebra import TooBig
from .execu import TU, Executor, State, Undecided, Dead, PathLV, ElemLV, Ptr, MArr, ViewV, Opaque
from .prove import Prover

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("FVC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
STUBS = os.path.join(VERIF, "fvc", "stubs")
PLUGIN = os.path.join(BUILD, "fvcx.so")
HARN = os.path.join(VERIF, "fvc", "harness")

BASE_ASSUMPTIONS = [
    "machine doubles are read as real numbers (no rounding, overflow, NaN); rounding is exercised only by the bounded harness",
    "machine integers are read as mathematical integers",
    "MATAR/Kokkos array classes are assumed to be total maps from index tuples to elements, views to address the memory they are built on, and parallel loops to run every index exactly once (the libraries are not shipped with the repository)",
    "libm functions are uninterpreted except sqrt(x)^2=x, sqrt(x)>=0 for x>=0, sin^2+cos^2=1",
    "the clang-18 front end, the extraction plugin and the symbolic executor are trusted",
]


def build_plugin():
    src = os.path.join(VERIF, "fvc", "extract", "fvcx.cpp")
    if os.path.exists(PLUGIN) and os.path.getmtime(PLUGIN) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = PLUGIN + ".%d" % os.getpid()
    subprocess.run(["clang++", "-std=c++17", "-O1", "-w", "-fPIC", "-shared", "-fno-rtti", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
                    "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp], check=True)
    os.replace(tmp, PLUGIN)


class Ob:
    """outcome of one obligation (picklable)"""

    def __init__(self, unit, name, status, backend, secs=0.0, where=None, env=None, note="", goal=""):
        self.unit, self.name, self.status, self.backend, self.secs = unit, name, status, backend, secs
        self.where, self.env, self.note, self.goal = where, env, note, goal


class Unit:
    """what a unit function receives"""

    def __init__(self, name, prover):
        self.name = name
        self.obs = []
        self.prover = prover
        self.functions = {}
        self.assumptions = set()
        self.vac = []

    def absorb(self, x):
        for q, w in x.functions.items():
            self.functions[q] = w
        self.assumptions |= x.assumptions

    def prove(self, name, hyps, goal, x=None, where=None, axioms=(), prover=None):
        p = prover or self.prover
        if x is not None:
            axioms = list(axioms) + list(x.axioms)
            self.absorb(x)
        try:
            r = p.prove(list(hyps), goal, axioms)
        except TooBig:
            from .prove import Result
            r = Result("unknown", "algebra", note="normal form too large")
        env = None
        if r.model is not None:
            env = {str(k): (float(v) if isinstance(v, (Fraction, float)) else v) for k, v in r.model.env.items()}
        self.obs.append(Ob(self.name, name, r.status, r.backend, r.secs, where, env, r.note, T.show(goal, 5)[:600]))
        return r

    def fact(self, name, ok, backend="exact arithmetic", note="", where=None):
        """an obligation decided by exact evaluation of extracted terms"""
        self.obs.append(Ob(self.name, name, "proved" if ok else "refuted", backend, 0.0, where, None, note))
        return ok

    def shape(self, name, ok, backend="simplification", note="", where=None):
        """the code has the structure the rest of the contract is written for; otherwise the unit is undecided"""
        if not ok:
            from .execu import Undecided
            raise Undecided("structure not recognised: %s %s" % (name, note))
        return self.fact(name, ok, backend, note, where)

    def undecided(self, name, note):
        self.obs.append(Ob(self.name, name, "unknown", "none", 0.0, None, None, note))

    def obligations(self, x, label=""):
        """the executor's own side obligations (bounds, call preconditions)"""
        n = 0
        for (nm, hyps, goal, ln) in x.obls:
            n += 1
            self.prove(label + nm + (" (line %s)" % ln if ln else ""), hyps, goal, x, where=ln)
        x.obls = []

    def reachable(self, name, hyps):
        """vacuity guard: the hypotheses must be satisfiable"""
        from .prove import z3_check
        r, _ = z3_check(hyps, T.FALSE, 5.0)
        self.vac.append((name, "contradictory" if r == "proved" else ("satisfiable" if r == "refuted" else "not refuted in 5 s")))
        if r == "proved":
            self.obs.append(Ob(self.name, "precondition satisfiable: " + name, "unknown", "z3", 0, None, None, "hypotheses are contradictory: vacuous proof"))


def _unit_main(fn, name, conn, prover):
    u = Unit(name, prover)
    err = None
    try:
        fn(u)
    except (Undecided, Dead) as ex:
        err = "%s: %s" % (type(ex).__name__, ex)
        if os.environ.get("FVC_TB"):
            traceback.print_exc()
    except TooBig:
        err = "normal form too large"
    except MemoryError:
        err = "out of memory"
    except Exception as ex:
        err = "internal: %s\n%s" % (ex, traceback.format_exc()[-1500:])
        if os.environ.get("FVC_TB"):
            traceback.print_exc()
    try:
        conn.send((u.obs, u.functions, u.assumptions, u.vac, err))
    except Exception as ex:
        conn.send(([], {}, set(), [], "result not picklable: %s" % ex))
    conn.close()


class Check:
    def __init__(self, prop, tier, level="proof"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.units = []
        self.obs = []
        self.functions = {}
        self.assumptions = set(BASE_ASSUMPTIONS)
        self.vac = []
        self.unit_err = {}
        self.bounded = []
        self.failures = []     # (what, details) from harness runs
        self.extracts = []
        self.notes = []
        self.tmp = tempfile.mkdtemp(prefix="fvc_%s_" % prop)
        self.prover = Prover(timeout=8.0 if tier == "quick" else 30.0, seed=self.seed)
        self.budget = 420 if tier == "quick" else 3000
        self.unit_limit = 200 if tier == "quick" else 1500
        self.extra_replay = None
        self.harness_ran = 0
        self.harness_broken = []
        self.known_used = set()

    # -------------------------------------------------------------- extraction
    def tu(self, src, incs, defs=(), std="c++17"):
        """extract a translation unit (path relative to /repo, or absolute)"""
        build_plugin()
        p = src if os.path.isabs(src) else os.path.join(REPO, src)
        out = os.path.join(self.tmp, hashlib.md5((p + str(incs) + str(defs)).encode()).hexdigest() + ".json")
        final = out
        if not os.path.exists(final):
            out = final + ".%d" % os.getpid()
            cmd = ["clang++", "-std=" + std, "-fsyntax-only", "-w"] + ["-D" + d for d in defs] + ["-I" + STUBS] + ["-I" + self.inc(i) for i in incs] + \
                  ["-Xclang", "-load", "-Xclang", PLUGIN, "-Xclang", "-plugin", "-Xclang", "fvcx", "-Xclang", "-plugin-arg-fvcx", "-Xclang", out, p]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0 or not os.path.exists(out):
                raise Undecided("extraction of %s failed: %s" % (src, (r.stderr or "")[:600]))
            os.replace(out, final)
        self.extracts.append(os.path.relpath(p, REPO) if p.startswith(REPO) else os.path.basename(p))
        return TU(final)

    def inc(self, i):
        return i if os.path.isabs(i) else os.path.join(REPO, i)

    def fingerprint(self, src, incs, defs=()):
        """hash of the preprocessed text, to recognise identical copies"""
        p = src if os.path.isabs(src) else os.path.join(REPO, src)
        r = subprocess.run(["clang++", "-std=c++17", "-E", "-P", "-w"] + ["-D" + d for d in defs] + ["-I" + STUBS] + ["-I" + self.inc(i) for i in incs] + [p], capture_output=True)
        return hashlib.md5(r.stdout).hexdigest()

    # -------------------------------------------------------------- units
    def unit(self, name, fn):
        self.units.append((name, fn))

    def run_units(self, jobs=8):
        ctx = mp.get_context("fork")
        only = os.environ.get("FVC_ONLY")      # debugging aid
        pend = [q for q in self.units if not only or re.search(only, q[0])]
        self.units = []
        live = []
        while pend or live:
            while pend and len(live) < jobs:
                name, fn = pend.pop(0)
                a, b = ctx.Pipe(duplex=False)
                p = ctx.Process(target=_unit_main, args=(fn, name, b, self.prover))
                p.start()
                b.close()
                live.append((name, p, a, time.time()))
            nl = []
            for (name, p, a, t) in live:
                if a.poll(0):
                    try:
                        obs, fns, ass, vac, err = a.recv()
                    except EOFError:
                        obs, fns, ass, vac, err = [], {}, set(), [], "proof process died"
                    self.obs += obs
                    self.functions.update(fns)
                    self.assumptions |= ass
                    self.vac += vac
                    if err:
                        self.unit_err[name] = err
                    p.join()
                elif time.time() - t > self.unit_limit or time.time() - self.t0 > self.budget:
                    p.kill()
                    p.join()
                    self.unit_err[name] = "time limit"
                else:
                    nl.append((name, p, a, t))
            live = nl
            if live:
                time.sleep(0.01)

    # -------------------------------------------------------------- harnesses
    def compile(self, name, sources, incs, defs=(), std="c++17", flags=("-O1", "-g"), cxx="g++", libs=()):
        """compile a harness with real sources; returns the binary or None"""
        out = os.path.join(self.tmp, name)
        objs = []
        cmd0 = [cxx, "-std=" + std, "-w"] + list(flags) + ["-D" + d for d in defs] + ["-I" + STUBS, "-I" + HARN] + ["-I" + self.inc(i) for i in incs]
        procs = []
        for k, s in enumerate(sources):
            p = s if os.path.isabs(s) else os.path.join(REPO, s)
            o = "%s.%d.o" % (out, k)
            objs.append(o)
            procs.append((s, subprocess.Popen(cmd0 + ["-c", p, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        bad = None
        for s, pr in procs:
            _, e = pr.communicate()
            if pr.returncode != 0:
                bad = bad or "compiling %s: %s" % (s, e[:1500])
        if not bad:
            r = subprocess.run([cxx] + list(flags) + objs + list(libs) + ["-o", out], capture_output=True, text=True)
            if r.returncode != 0:
                bad = "linking %s: %s" % (name, r.stderr[:1500])
        for o in objs:
            if os.path.exists(o):
                os.unlink(o)
        if bad:
            self.harness_broken.append(bad)
            return None
        return out

    def run_harness(self, name, exe, args=(), stdin="", timeout=120, bound=""):
        """run a harness; it prints `CASES n`, and `FAIL text` per failing case"""
        if exe is None:
            return None
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99", UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=0:exitcode=99")
        t = time.time()
        try:
            r = subprocess.run([exe] + [str(a) for a in args], input=stdin, capture_output=True, text=True, timeout=timeout, cwd=self.tmp, env=env, errors="replace")
            rc, out, err = r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as ex:
            rc, out, err = -999, (ex.stdout or b"").decode("latin1") if isinstance(ex.stdout, bytes) else (ex.stdout or ""), "timeout"
        cases = 0
        fails = []
        for l in out.splitlines():
            if l.startswith("CASES "):
                cases += int(l.split()[1])
            elif l.startswith("FAIL "):
                fails.append(l[5:])
        self.bounded.append(dict(harness=name, cases=cases, bound=bound, failures=len(fails), seconds=round(time.time() - t, 2), exit=rc))
        self.harness_ran += cases
        if rc == -999 and not fails:
            # a hang of the code under test is a failure only if the harness had announced the case
            m = re.findall(r"^BEGIN (.*)$", out, re.M)
            done = "CASES" in out
            if not done and m:
                fails.append("no termination within %d s on: %s" % (timeout, m[-1]))
        elif (rc not in (0, 1) or (rc == 1 and "CASES" not in out)) and not fails:
            m = re.findall(r"^BEGIN (.*)$", out, re.M)
            fails.append("the code under test crashed (exit %s) %s: %s" % (rc, "on " + m[-1] if m else "", ("".join(l + "; " for l in (err or "").splitlines() if l.startswith("SUMMARY: ")) + (err or "").strip())[:900]))
        for f in fails:
            self.failures.append((name, f))
        return fails

    # -------------------------------------------------------------- verdict
    def known(self):
        p = os.path.join(VERIF, "known_findings.jsonl")
        out = []
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l:
                    d = json.loads(l)
                    if d.get("property") == self.prop and d.get("status") == "open":
                        out.append(d)
        return out

    def finish(self, technique_note="", extra=None, trusted=None):
        self.run_units()
        known = self.known()
        def match_known(text):
            for d in known:
                if re.search(d["match"], text):
                    self.known_used.add(d["what"])
                    return True
            return False
        failures = [f for f in self.failures if not match_known(f[0] + ": " + f[1])]
        refuted = [o for o in self.obs if o.status == "refuted" and not match_known("obligation " + o.unit + "/" + o.name)]
        # replay of the verifier's counterexamples
        if refuted and self.extra_replay and not failures:
            n0 = len(self.failures)
            try:
                self.extra_replay(self, refuted)
            except Exception as ex:
                self.notes.append("replay of the counterexample failed: %s" % ex)
            failures += [f for f in self.failures[n0:] if not match_known(f[0] + ": " + f[1])]
        unknown = [o for o in self.obs if o.status == "unknown"]
        proved = [o for o in self.obs if o.status == "proved"]
        rc = 0
        lines = []
        for d in known:
            if d["what"] in self.known_used or d.get("always"):
                lines.append("KNOWN-FINDING: property=%s %s" % (self.prop, d["what"]))
        replay = None
        if failures or refuted:
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            replay = os.path.join(rdir, "%s.txt" % self.prop)
            with open(replay, "w") as f:
                f.write("property %s\n" % self.prop)
                for n, x in failures[:50]:
                    f.write("failing input (real code, harness %s): %s\n" % (n, x))
                for o in refuted[:50]:
                    f.write("failed obligation: %s / %s (line %s) back end %s\n  goal: %s\n  note: %s\n  counterexample: %s\n" % (o.unit, o.name, o.where, o.backend, o.goal, o.note, json.dumps(o.env, default=str) if o.env else "-"))
            rc = 1
            lines.append("VIOLATION property=%s replay=%s%s" % (self.prop, replay, "" if failures else " no-failing-input-found"))
        if not self.obs and not self.harness_ran and rc == 0:
            rc = 3
        if rc == 0 and not self.harness_ran and (self.unit_err or unknown) and self.harness_broken:
            rc = 3      # nothing could decide it
        if self.unit_err or unknown:
            lines.append("UNDECIDED: %d obligation(s) and %d unit(s) fell back to the bounded harness" % (len(unknown), len(self.unit_err)))
        by = {}
        for o in proved:
            by[o.backend] = by.get(o.backend, 0) + 1
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(
                      obligations=len(self.obs) + len(self.unit_err), discharged=len(proved),
                      checker_cmd="python3-vt /verif/check.py %s --tier %s" % (self.prop, self.tier),
                      trusted_base=trusted or ["clang 18 front end and the extraction plugin /verif/fvc/extract/fvcx.cpp", "the verification-condition generator /verif/fvc/fvc/execu.py",
                                               "exact algebra back end /verif/fvc/fvc/algebra.py", "z3 and cvc5 where named"],
                      discharged_by_back_end=by, solver_seconds=round(sum(o.secs for o in self.obs), 2),
                      functions_under_contract=sorted("%s (%s:%s)" % (q, str(w[0]).replace(REPO + "/", ""), w[1]) for q, w in self.functions.items()),
                      undecided=[dict(unit=o.unit, obligation=o.name, note=o.note) for o in unknown][:60],
                      undecided_units=self.unit_err, refuted=[dict(unit=o.unit, obligation=o.name, note=o.note) for o in refuted][:60],
                      vacuity=[dict(precondition=a, result=b) for a, b in self.vac][:80],
                      bounded_checks=self.bounded, bounded_cases=self.harness_ran, harness_build_errors=self.harness_broken[:5],
                      extracted_units=sorted(set(self.extracts)),
                      obligation_names=sorted(set("%s/%s" % (o.unit, o.name) for o in proved))[:400],
                      notes=self.notes),
                  assumptions=sorted(self.assumptions),
                  violations=[dict(harness=a, what=b) for a, b in failures][:50] + [dict(obligation=o.unit + "/" + o.name) for o in refuted][:50],
                  wall_s=round(time.time() - self.t0, 2))
        if self.level != "proof":
            ev["coverage"].setdefault("explanation", technique_note or "see DESIGN.md")
            ev["coverage"]["evaluations"] = self.harness_ran
            ev["coverage"].setdefault("distinct_nontrivial", self.harness_ran)
        if extra:
            ev["coverage"].update(extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %d/%d obligations discharged %s, %d bounded cases, %.1f s" % (self.prop, len(proved), len(self.obs) + len(self.unit_err), by, self.harness_ran, time.time() - self.t0))
        for k, v in self.unit_err.items():
            print("  undecided unit %s: %s" % (k, v.strip().split("\n")[0][:300]))
        for o in unknown[:20]:
            print("  undecided %s/%s: %s" % (o.unit, o.name, o.note))
        for o in refuted[:20]:
            print("  refuted %s/%s by %s %s" % (o.unit, o.name, o.backend, o.note))
        for n, x in failures[:10]:
            print("  failing input [%s] %s" % (n, x[:400]))
        for b in self.harness_broken:
            print("  harness: " + b.split("\n")[0][:300])
        for l in lines:
            print(l)
        shutil.rmtree(self.tmp, ignore_errors=True)
        sys.stdout.flush()
        return rc


# ---------------------------------------------------------------- unit helpers
def arr_in(x, st, name, n):
    """pointer to n elements with symbolic contents name[k]"""
    lv = x.newobj(name, True)
    st.store[("N",) + lv.path] = n
    return Ptr(PathLV(lv.path + (0,)))


def arr_val(x, st, p, k, tu):
    return x.read(st, PathLV(p.lv.path[:-1] + (k,)), {"k": "real", "w": 64})


def call_fn(x, f, args, st, this=None):
    """run a function under its precondition; args: values or locations"""
    fenv = {"this": this}
    for p, a in zip(f["params"], args):
        ty = x.tu.types[p["t"]]
        if ty["k"] == "ref":
            if not isinstance(a, (PathLV, ElemLV)):
                lv = x.newobj(p["n"])
                st.store[lv.path] = x.coerce(T.lift(a), x.tu.strip(p["t"])) if isinstance(a, (int, float, Fraction, T.Term)) else a
                a = lv
            fenv[p["id"]] = a
        else:
            lv = x.newobj(p["n"])
            if isinstance(a, (int, float, Fraction, bool)):
                a = T.lift(a)
            if isinstance(a, T.Term):
                a = x.coerce(a, ty)
            if isinstance(a, (PathLV, ElemLV)):
                x.copyrec(st, a, lv)
            else:
                st.store[lv.path] = a
            fenv[p["id"]] = lv
        fenv[("n", p["n"])] = fenv[p["id"]]
    x.note(f)
    return x.run_body(f, st, fenv)


def run_paths(mk, limit=400):
    """execute a function path by path, without merging.  mk() must build a
    fresh executor and state and return (x, st, thunk); the thunk runs the
    function.  Yields (x, st, value) for every feasible path."""
    script = []
    n = 0
    while True:
        x, st, thunk = mk()
        x.script, x.script_pos = script, 0
        try:
            v = thunk()
            dead = False
        except Dead:
            dead = True
        script = x.script[:x.script_pos] if dead else x.script
        x.script = None
        if not dead:
            yield x, st, v
        n += 1
        if n > limit:
            raise Undecided("more than %d paths" % limit)
        while script and not script[-1][1]:
            script.pop()
        if not script:
            return
        script[-1] = (not script[-1][0], False)
