#!/usr/bin/env python3
"""Mutation and refactoring exercise for the checks (development tool).
  mutate.py bug PROP N [SEED]      N random one-token changes in the property's files; prints survivors
  mutate.py refactor PROP          behaviour-preserving rewrites of every site of one kind; prints alarms
Works on scratch copies of /repo and /verif under /tmp."""
import json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
R0 = os.environ.get("MUT_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def rd(p): return open(p, errors="surrogateescape", newline="").read()
def wr(p, t): open(p, "w", errors="surrogateescape", newline="").write(t)

def files(prop):
    for l in open(V + "/properties.jsonl"):
        d = json.loads(l)
        if d["id"] == prop: return d["anchors"]["files"] if "anchors" in d else d["anchor"]["files"]

class Box:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
        self.r, self.v = self.d + "/repo", self.d + "/verif"
        os.makedirs(self.r); os.makedirs(self.v)
        subprocess.run("cp -a %s/. %s; cd %s && cp -a check.py fvc known_findings.jsonl MANIFEST.json properties.jsonl %s; mkdir %s/build && cp build/fvcx.so %s/build/ && touch %s/build/fvcx.so" % (R0, self.r, V, self.v, self.v, self.v, self.v), shell=True, check=True)
    def run(self, prop):
        p = subprocess.run(["python3-vt", self.v + "/check.py", prop], env=dict(os.environ, FVC_REPO=self.r, VERIF_SEED="1"), capture_output=True, text=True, errors="replace", timeout=900)
        return p.returncode, p.stdout + p.stderr
    def close(self): shutil.rmtree(self.d)

def mask(t):
    """positions that are code (no comments, strings, preprocessor)"""
    ok = bytearray(b"\1" * len(t))
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|^[ \t]*#[^\n]*(?:\\\r?\n[^\n]*)*', t, re.S | re.M):
        for i in range(m.start(), m.end()): ok[i] = 0
    return ok

SW = [(r" \+ ", " - "), (r" - ", " + "), (r"(?<![*/])\*(?![*/=])", "/"), (r"(?<![*/])/(?![*/=])", "*"), (r"\+=", "="), (r"\+=", "-="), (r"-=", "+="), (r"(?<![<-])<(?![<=a-z])", "<="), (r"<=", "<"), (r"(?<![>-])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"&&", "||"),
      (r"(?<=[(, ])0(?=[,)])", "1"), (r"(?<=[(, ])1(?=[,)])", "0"), (r"(?<=[(, ])2(?=[,)])", "1"), (r"\b0\.5\b", "1.0"), (r"\b1\.0\b", "0.9"), (r"\bfmax\b", "fmin"), (r"\bfmin\b", "fmax"), (r"\bmin\b(?=\()", "max"), (r"\bi\b(?=[,)\]])", "j"), (r"\bj\b(?=[,)\]])", "i"), (r"\bmax\b(?=\()", "min"), (r"\bfabs\b", ""), (r"\bsqrt\b", ""), (r"\bcontinue;", ";"), (r"\breturn;", ";"), (r"\bbreak;", ";")]

def mutants(prop, n, seed, lines=None):
    rng = random.Random(seed); out = []
    for f in files(prop):
        if not f.endswith((".cpp", ".hpp", ".h")): continue
        t = rd(R0 + "/" + f); ok = mask(t)
        for pat, new in SW:
            for m in re.finditer(pat, t):
                if ok[m.start()]: out.append((f, m.start(), m.end(), new))
        for m in re.finditer(r"^[ \t]+[A-Za-z_][\w().\[\], \->]*(?:=|\+=|\()[^;{}\n]*;", t, re.M):   # delete a statement
            if ok[m.end() - 1] and not re.match(r"\s*(double|int|size_t|const|auto|real_t|bool|View\w+|return)\b", m.group()): out.append((f, m.start(), m.end(), "        ;"))
    lo, hi = [int(z) for z in os.environ.get("LINES", "0-999999999").split("-")]   # LINES=a-b: only these lines
    if "LINES" in os.environ: out = [o for o in out if lo <= rd(R0 + "/" + o[0]).count("\n", 0, o[1]) + 1 <= hi]
    rng.shuffle(out)
    # spread over files
    return out[:n]

def bug(prop, n, seed):
    ms = mutants(prop, n, seed)
    boxes = [Box() for _ in range(int(os.environ.get("JOBS", "4")))]; free = list(boxes)
    def one(m):
        b = free.pop()
        f, s, e, new = m
        try:
            t = rd(R0 + "/" + f); wr(b.r + "/" + f, t[:s] + new + t[e:])
            try: rc, out = b.run(prop)
            except subprocess.TimeoutExpired: rc, out = 99, "timeout"
            wr(b.r + "/" + f, t)
            ln = t.count("\n", 0, s) + 1
            line = t.split("\n")[ln - 1].strip()
            fnl = "no-failing" in out
            return rc, fnl, "%s:%d  %r -> %r   | %s" % (f, ln, t[s:e], new, line[:140]), out
        finally: free.append(b)
    tot = {}
    with ThreadPoolExecutor(len(boxes)) as ex:
        for rc, fnl, d, out in ex.map(one, ms):
            k = {0: "SURVIVED", 1: "killed"}.get(rc, "rc%d" % rc)
            if " error: " in out or "rror" in out and rc not in (0, 1): k = "compile?"
            tot[k + ("(nfi)" if fnl else "")] = tot.get(k + ("(nfi)" if fnl else ""), 0) + 1
            if k not in ("killed", "compile?") or fnl: print(prop, k + ("(nfi)" if fnl else ""), d, "" if k == "SURVIVED" else out[-200:] if k != "killed" else "", flush=True)
    print(prop, "bug", tot, flush=True)
    for b in boxes: b.close()

# ---- behaviour-preserving rewrites -------------------------------------------------
def sub(t, pat, fn, flags=re.M):
    ok = mask(t)
    return re.sub(pat, lambda m: fn(m) if ok[m.start()] and all(ok[m.start():m.end()]) else m.group(), t, flags=flags)

def r_plus(t):   # a += b;  ->  a = a + (b);
    return sub(t, r"([A-Za-z_][\w.]*(?:\([^()=;]*\))?) \+= ([^;{}\n]+);", lambda m: "%s = %s + (%s);" % (m[1], m[1], m[2]))
def r_tmp(t):    # lhs = rhs; -> { const auto v = rhs; lhs = v; }
    return sub(t, r"^([ \t]+)([A-Za-z_][\w.]*\([^()=;]*\)) = ([^;{}\n]+);", lambda m: "%s{ const auto held_value = %s; %s = held_value; }" % (m[1], m[3], m[2]))
def r_decl(t):   # double x = e; -> double x; x = e;
    return sub(t, r"^([ \t]+)(double|int|size_t|real_t) (\w+)( *)= ([^;{},\n]+);", lambda m: "%s%s %s; %s = %s;" % (m[1], m[2], m[3], m[3], m[5]))
def r_id(t):     # lhs = helper(rhs)
    t2 = sub(t, r"^([ \t]+)([A-Za-z_][\w.]*\([^()=;]*\)) (\+?=) ([^;{}\n]+);", lambda m: "%s%s %s value_of_(%s);" % (m[1], m[2], m[3], m[4]))
    if t2 == t: return t
    i = [m for m in re.finditer(r"^#include[^\n]*\n", t2, re.M)]
    # put after the last top-of-file include
    k = 0
    for m in i: k = m.end()
    return t2[:k] + "template <class T_> KOKKOS_INLINE_FUNCTION static T_ value_of_(T_ v) { return v; }\n" + t2[k:]
def r_for(t):    # i++ -> ++i, i < n -> !(i >= n)
    return sub(t, r"for *\( *((?:int|size_t|unsigned) (\w+) *= *[^;()]+); *(\w+) *< *([^;<>=]+); *(\w+)\+\+ *\)", lambda m: "for (%s; !(%s >= %s); ++%s)" % (m[1], m[3], m[4].strip(), m[5]) if m[2] == m[3] == m[5] else m.group())
def body_end(t, i):
    d = 0
    for k in range(i, len(t)):
        if t[k] == "{": d += 1
        elif t[k] == "}":
            d -= 1
            if d == 0: return k
    return None
def r_while(t):  # for (T i = a; c; i++) { B } -> { T i = a; while (c) { B  i++; } }   when B has no continue
    out = t
    pos = 0
    while True:
        m = re.compile(r"for *\( *((?:int|size_t) \w+ *= *[^;()]+); *([^;]+?); *(\w+\+\+|\+\+\w+) *\) *\{").search(out, pos)
        if not m: return out
        e = body_end(out, m.end() - 1)
        body = out[m.end():e] if e else ""
        if e is None or re.search(r"\bcontinue\b", body) or not mask(out)[m.start()]: pos = m.end(); continue
        out = out[:m.start()] + "{ %s; while (%s) {" % (m[1], m[2]) + body + m[3] + "; } }" + out[e + 1:]
        pos = m.start() + 5
def r_if(t):     # if (c) { A } else { B } -> if (!(c)) { B } else { A }
    out, pos = t, 0
    while True:
        m = re.compile(r"\bif *\(([^;{}]*?)\) *\{").search(out, pos)
        if not m: return out
        pos = m.end()
        if not mask(out)[m.start()] or m[1].count("(") != m[1].count(")") or "constexpr" in out[m.start()-3:m.end()]: continue
        if re.search(r"else\s*$", out[:m.start()]): continue
        e = body_end(out, m.end() - 1)
        if e is None: continue
        n = re.compile(r"\s*else\s*\{").match(out, e + 1)
        if not n: continue
        f = body_end(out, n.end() - 1)
        if re.compile(r"\s*else").match(out, f + 1): continue
        A, B = out[m.end():e], out[n.end():f]
        out = out[:m.start()] + "if (!(%s)) {%s} else {%s}" % (m[1], B, A) + out[f + 1:]
def r_noop(t):   # a do-nothing statement at the start of every loop body
    return sub(t, r"(for *\([^{};]*;[^{};]*;[^{};]*\)\s*\{)", lambda m: m[1] + " ((void)0);")
def r_rename(t): # rename common locals
    for a in ("elem_gid", "node_gid", "corner_gid", "node_lid", "dim", "i", "j", "k", "bdy_patch_lid", "mat_elem_sid", "mat_point_sid"):
        if re.search(r"\b(?:int|size_t|double|const size_t|const int|\&?)\b *%s\b" % a, t): t = sub(t, r"(?<![\w.>])%s\b(?! *\()" % a, lambda m: a + "_q")
    return t
def r_comm(t):   # a*b -> b*a for simple operands
    return sub(t, r"(?<![\w.)\]*/] )(?<![\w.)\]*/])\b([A-Za-z_]\w*(?:\([\w, ]*\))?) ?\* ?([A-Za-z_]\w*(?:\([\w, ]*\))?)(?! *[\w(\[.]| *\*|\.|->)", lambda m: m.group() if m[1] in ("double", "char", "int", "const", "return", "real_t", "void", "size_t", "Strength_t", "else") else "%s*%s" % (m[2], m[1]))
def r_lambda(t): # lhs = [&]{ return rhs; }();  
    return sub(t, r"^([ \t]+)(double) (\w+) = ([^;{},\n]+);", lambda m: "%s%s %s = [&]() -> double { return %s; }();" % (m[1], m[2], m[3], m[4]))
KINDS = dict(plus=r_plus, tmp=r_tmp, decl=r_decl, helper=r_id, forneg=r_for, whil=r_while, ifswap=r_if, noop=r_noop, rename=r_rename, comm=r_comm, lam=r_lambda)

def refactor(prop):
    boxes = [Box() for _ in range(int(os.environ.get("JOBS", "4")))]; free = list(boxes)
    def one(k):
        b = free.pop()
        try:
            ch = []
            for f in files(prop):
                if not os.path.isfile(R0 + "/" + f): continue
                t = rd(R0 + "/" + f); t2 = KINDS[k](t)
                if t2 != t:
                    wr(b.r + "/" + f, t2)
                    ch.append(f)
            if not ch: return k, None, ""
            try: rc, out = b.run(prop)
            except subprocess.TimeoutExpired: rc, out = 99, "timeout"
            if os.environ.get("KEEP") == k: print("kept", b.r); return k, rc, out
            for f in ch: wr(b.r + "/" + f, rd(R0 + "/" + f))
            return k, rc, out
        finally: free.append(b)
    kinds = os.environ.get("KINDS", ",".join(KINDS)).split(",")
    with ThreadPoolExecutor(len(boxes)) as ex:
        for k, rc, out in ex.map(one, kinds):
            if rc is None: print(prop, k, "-"); continue
            last = [l for l in out.strip().split("\n")][-1][:160]
            print(prop, k, "rc", rc, last, flush=True)
            if rc != 0: print("\n".join("      " + l[:220] for l in out.strip().split("\n")[-8:]), flush=True)
    if not os.environ.get("KEEP"):
        for b in boxes: b.close()

if __name__ == "__main__":
    if sys.argv[1] == "bug": bug(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    else: refactor(sys.argv[2])
