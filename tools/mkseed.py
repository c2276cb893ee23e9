#!/usr/bin/env python3
"""Plant a bug: mkseed.py SPEC.json   (spec: id, property, needs, what_it_breaks,
edits [[file, old, new, count?]], demo_cpp or demo_sh, sources, incs, defs, flags)
Validates it in a scratch copy of /repo and writes seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
STUBS = {"micro": ["matar.h", "Kokkos_Core.hpp", "mpi.h"], "multi": ["matar.h", "Kokkos_Core.hpp", "mpi.h", "mesh.hpp", "ELEMENTS.h"]}

def sh(c, cwd=None, t=600):
    r = subprocess.run(["bash", "-c", c], cwd=cwd, capture_output=True, text=True, errors="surrogateescape", timeout=t)
    return r.returncode, r.stdout + r.stderr

def main(spec):
    s = json.load(open(spec)) if isinstance(spec, str) else spec
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    r = os.path.join(w, "repo")
    try:
        sh("cp -a /repo %s" % r)
        for e in s["edits"]:
            p = os.path.join(r, e[0])
            t = open(p, errors="surrogateescape", newline="").read()
            if "\r\n" in t: e = [e[0], e[1].replace("\n", "\r\n"), e[2].replace("\n", "\r\n")] + list(e[3:])
            n = t.count(e[1])
            want = e[3] if len(e) > 3 else 1
            if n != want:
                print("edit of %s: %d occurrences of %r" % (e[0], n, e[1])); return 1
            open(p, "w", errors="surrogateescape", newline="").write(t.replace(e[1], e[2]))
        diff = subprocess.run(["git", "diff", "--no-color"], cwd=r, capture_output=True).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        if "demo_cpp" in s:
            open(os.path.join(d, "demo.cpp"), "w").write(s["demo_cpp"])
            inc = ""
            if s.get("stubs"):
                os.makedirs(os.path.join(d, "stubs"), exist_ok=True)
                for f in STUBS[s["stubs"]]:
                    shutil.copy(os.path.join(V, "fvc/stubs", f), os.path.join(d, "stubs", f))
                inc = '-I"$D" -I"$D/stubs" '
            for f in s.get("extra_files", []):
                shutil.copy(f, d)
            cmd = "g++ -std=c++17 -O1 -w %s %s%s \"$D/demo.cpp\" %s -o \"$T/demo\" %s" % (" ".join("-D" + x for x in s.get("defs", [])), inc, " ".join("-I" + x for x in s.get("incs", [])), " ".join(s.get("sources", [])), s.get("libs", ""))
            open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# run with cwd = the repository\nD="$(cd "$(dirname "$0")" && pwd)"\nT="$(mktemp -d)"\ntrap \'rm -rf "$T"\' EXIT\n%s || { echo "demo does not compile"; exit 0; }\ncd "$T" && timeout 60 ./demo\n' % cmd)
        else:
            open(os.path.join(d, "demo.sh"), "w").write(s["demo_sh"])
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        # validation
        cl = os.path.join(w, "clean")
        sh("cp -a /repo %s" % cl)
        e = os.path.join(w, "elsewhere"); shutil.copytree(d, e)
        a, oa = sh("bash %s/demo.sh" % e, cl)
        b, ob = sh("bash %s/demo.sh" % e, r)
        if a != 0 or "does not compile" in oa:
            print("demo on clean tree: exit %d %s" % (a, oa[-1500:])); return 1
        if b == 0 or "does not compile" in ob:
            print("demo with the change: exit %d %s" % (b, ob[-1500:])); return 1
        # build and tests against the changed tree (through a bind-free swap of /repo)
        rc, out = sh("git -C /repo apply %s/patch.diff && (bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/out.json); x=$?; git -C /repo checkout -- . ; bash /opt/vp/build.sh; exit $x" % (d, w))
        try:
            o = json.load(open(w + "/out.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
        except Exception as ex:
            print("tests did not run", ex, out[-800:]); return 1
        print(s["id"], "build/test rc", rc, {k: (len(v) if hasattr(v, "__len__") else v) for k, v in o.items()}, "demo:", ob.strip()[:160])
        return 0
    finally:
        shutil.rmtree(w, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(max(main(x) for x in sys.argv[1:]))
