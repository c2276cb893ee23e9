#!/usr/bin/env python3-vt
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "fvc"))
def main():
    prop = sys.argv[1]
    if prop == "--setup":
        from fvc.check import build_plugin
        build_plugin()
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    from fvc.check import Check
    m = importlib.import_module("props." + prop.lower())
    ck = Check(prop, tier, getattr(m, "LEVEL", "proof"))
    m.run(ck)
    sys.exit(ck.finish())
main()
