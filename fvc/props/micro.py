"""common to the four micromechanics programs, which carry copies of the kernels"""
import os
from fvc.check import REPO, Executor, State, arr_in, arr_val, call_fn
from fvc import terms as T

APPS = ["EVPFFT", "LS-EVPFFT", "LS-EVPFFT-J2", "LSNP-EVPFFT"]
LARGE = APPS[1:]


def d(app):
    return "apps/micromechanics/%s/src" % app


def groups(ck, fname, apps=APPS, extra=()):
    """[(label, app)] one entry per distinct copy of a source file"""
    seen = {}
    for a in apps:
        p = d(a) + "/" + fname
        if not os.path.exists(os.path.join(REPO, p)):
            ck.notes.append("%s is not in the tree" % p)
            continue
        fp = "/".join(ck.fingerprint(x if "/" in x else d(a) + "/" + x, [d(a)]) for x in (fname,) + tuple(extra))
        seen.setdefault(fp, []).append(a)
    return [("+".join(v), v[0]) for v in seen.values()]


def F(p, i, j, n=3):
    """column-major 1-based offset of (i,j) in an n x n block"""
    return (i - 1) + n * (j - 1)


R3 = (1, 2, 3)
REAL = {"k": "real", "w": 64}


def mat_in(x, st, name, n=9):
    return arr_in(x, st, name, n)


def get(x, st, p, k):
    return arr_val(x, st, p, k, x.tu)
