"""Contracts for the input-deck readers.

The reader functions are executed from their own source; only the YAML tree,
the standard containers and validate_inputs are contracts:
  deck node   a node is its path from the root; As<T>() is a function of the
              path (an unknown of the deck), Size() an unknown count, a name that
              is compared with documented words is split into every documented
              word and "any other word"
  words       the words of a block are a set; the body of the loop over them is
              executed once for each documented word, and once for a word that
              is none of them, from a state in which everything the loop can
              change is unknown.  What a word stores must be exactly what it
              names, and nothing else may change (frame); by induction over the
              words of any deck the block stores what its words name.
  items       the body of the loop over the blocks of a list is executed for one
              arbitrary block from unknown contents of every array"""
import itertools
from fvc import terms as T
from fvc.terms import TRUE, FALSE, num, Term
from fvc.execu import Executor, PathLV, ElemLV, Opaque, Ptr, MArr, ArrVal, FnRef, Undecided, Dead, marr_class, State, RecV
from fvc.loops import Each, calls_in
from props.multi import enum

OTHER = "\x01any other word"


class NeedChoice(Exception):
    def __init__(self, key):
        self.key = key


class MapV:
    def __init__(self, q):
        self.q = q


class It:
    __slots__ = ("m", "k")

    def __init__(self, m, k):
        self.m, self.k = m, k


class Words:
    def __init__(self, path):
        self.path = path


class NumList:
    def __init__(self, key, terms):
        self.key, self.terms = key, terms


class Vec:
    """std::vector of scalars or records: memory and length"""
    __slots__ = ("arr", "n")

    def __init__(self, arr, n):
        self.arr, self.n = arr, n


def SC(s):
    return T.mk("sconst", (), s, "S")


def keyof(parts):
    return "/".join("#" if isinstance(p, Term) else p for p in parts), tuple(p for p in parts if isinstance(p, Term))


def has(n, q):
    return any(c == q or c.endswith("::" + q) for c in calls_in(n))


def harmless(n):
    """only prints"""
    if isinstance(n, dict):
        if n.get("k") in ("Asg", "CAsg", "Throw", "Break", "Ret", "Goto", "MCall", "New", "Delete", "Break", "Cont"):
            return False
        if n.get("k") == "Un" and n.get("op") in ("++", "--"):
            return False
        if n.get("k") == "OpCall" and n["fn"]["n"] not in ("operator<<", "operator==", "operator[]", "operator!="):
            return False
        if n.get("k") == "Call" and n.get("fn") and n["fn"]["n"] not in ("operator<<", "printf", "endl"):
            return False
        return all(harmless(v) for k, v in n.items() if k not in ("fn",))
    if isinstance(n, list):
        return all(harmless(v) for v in n)
    return True


class Ctx:
    """what a specification may speak about"""

    def __init__(self, x, u, pre, post, path, word, choice):
        self.x, self.u, self.pre, self.post, self.path, self.word, self.choice = x, u, pre, post, path, word, choice
        ts = [p for p in path if isinstance(p, Term)]
        self.i = ts[0] if ts else None

    def deck(self, s, *rel, abs_=None):
        k, ts = keyof((abs_ if abs_ is not None else self.path) + rel)
        return self.x.deck(s, k, ts)

    def val(self, s):
        return self.deck(s, self.word)

    def size(self, *rel):
        k, ts = keyof(self.path + (rel or (self.word,)))
        return self.x.dsize(k, ts)

    def item(self, k, *rel):
        """k-th number of a text list [a,b,c]"""
        kk, ts = keyof(self.path + (rel or (self.word,)))
        return self.x.listitem(kk, ts, k)

    def nitems(self, *rel):
        kk, ts = keyof(self.path + (rel or (self.word,)))
        return self.x.listsize(kk, ts)

    def text(self, *rel):
        k, ts = keyof(self.path + (rel or (self.word,)))
        return self.x.dtext(k, ts)

    def opt(self, *rel):
        return self.choice.get(keyof(self.path + (rel or (self.word,)))[0])

    def old(self, name, idx=(), sub=()):
        return self.x.at(self.pre, name, idx, sub)

    def new(self, name, idx=(), sub=()):
        return self.x.at(self.post, name, idx, sub)

    def fn(self, q):
        return self.x.fnnum(q)

    def enum(self, q):
        return T.lift(enum(self.x.tu, q))

    def vecn(self, name, post=False):
        v = self.x.vec(self.post if post else self.pre, name)
        return v.n

    def member(self, name, val, n=None):
        v = self.x.vec(self.pre, name)
        return self.x.member(v.arr, v.n if n is None else n, val)


class W:
    """specification of one word.
    values: documented values of the word (or a dict relative path -> values)
    eff(c): the stores, [(name, idx, sub, value)]; None when the choice must be refused
    stop(c): condition under which refusing a documented word is right
    exact: under stop(c) it must be refused
    temp: name of a local list this word fills"""

    def __init__(self, eff=None, values=None, stop=None, exact=False, local=None, temps=(), sub=False):
        self.eff = eff or (lambda c: [])
        self.values = values if isinstance(values, dict) or values is None else {"": values}
        self.stop = stop
        self.exact = exact
        self.local = local
        self.temps = temps
        self.sub = sub


class DeckX(Executor):
    def __init__(self, u, tu, spec, name=""):
        Executor.__init__(self, tu, name)
        self.u, self.spec = u, spec
        self.choice = {}
        self.textkey = {}
        self.quiet = 0
        self.fnums = {}
        self.nested = set()
        self.word_arrays, self.word_vecs = {}, {}
        self.lists = {}
        self.keyterms = {}
        self.temps = {}          # word -> array id of the local list it fills
        self.touched = {}        # array id -> words writing it
        self.cover = set()
        self.finals = {}
        self.blocks = ("mesh_options", "dynamic_options", "output_options", "solver_options", "boundary_conditions", "regions", "materials", "multimaterial_options")
        self.listvars = {}
        self.changed_keys = None
        self.enums = {}
        self.init_globals = False
        self.contracts["Yaml::Node::operator[]"] = DeckX.c_sub
        self.contracts["Yaml::Node::As"] = DeckX.c_as
        self.contracts["Yaml::Node::Size"] = DeckX.c_size
        self.contracts["validate_inputs"] = DeckX.c_words
        self.contracts["exact_array_values"] = DeckX.c_list
        self.contracts["Yaml::Node::Begin"] = lambda x, st, thislv, args, env, e: Opaque("words")
        self.contracts["Yaml::Node::End"] = lambda x, st, thislv, args, env, e: Opaque("words")
        self.contracts["Yaml::Iterator::operator*"] = DeckX.c_word
        self.contracts["Table_t::update_device"] = lambda x, st, thislv, args, env, e: Opaque("void")
        self.contracts["Kokkos::abort"] = DeckX.c_abort
        self.aborts = []
        self.contracts["AbaqusReader::read_tabular_jmatpro_file"] = DeckX.c_table
        self.loops["*"] = CountLoop(self)
        self.tail = None
        self.extra = None
        self.head = None
        self.item_seen = 0
        self.decide = None

    # ------------------------------------------------------------ deck values
    def deck(self, s, key, ts):
        if s == "S":
            return self.dtext(key, ts)
        t = T.uf("deck %s" % key, ts, s) if ts else T.var("deck %s" % key, s)
        return t

    def dsize(self, key, ts):
        t = T.uf("deck count %s" % key, ts, "I") if ts else T.var("deck count %s" % key, "I")
        self.axiom(T.le(num(0), t))
        return t

    def axiom(self, a):
        if a not in self.axioms:
            self.axioms.append(a)

    def dtext(self, key, ts):
        t = T.uf("deck text %s" % key, ts, "S") if ts else T.var("deck text %s" % key, "S")
        self.textkey[t] = key
        self.keyterms[key] = ts
        return t

    def textlen(self, a):
        if a.op == "sconst":
            return num(len(a.val))
        if a.op == "ite":
            return T.ite(a.args[0], self.textlen(a.args[1]), self.textlen(a.args[2]))
        t = T.uf("length of " + str(a.val), a.args, "I") if a.args else T.var("length of " + str(a.val), "I")
        self.axiom(T.le(num(0), t))
        return t

    def trunc(self, v):
        return T.uf("truncated " + str(v.val), v.args, "I")

    def listitem(self, key, ts, i):
        return T.uf("deck list %s" % key, tuple(ts) + (T.lift(i),), "R")

    def listsize(self, key, ts):
        t = T.uf("deck listcount %s" % key, ts, "I") if ts else T.var("deck listcount %s" % key, "I")
        self.axiom(T.le(num(0), t))
        return t

    def nodepath(self, lv):
        if isinstance(lv, PathLV) and lv.path and lv.path[0] == "Y":
            return lv.path[1:]
        raise Undecided("deck node of unknown origin")

    def c_sub(self, st, thislv, args, env, e):
        p = self.nodepath(thislv)
        t = self.tu.strip(args[0]["t"])
        if self.is_string(t) or t["k"] in ("ptr", "arr"):
            s = self.strval(args[0], st, env)
            if s.op == "sconst":
                return PathLV(("Y",) + p + (s.val,))
            raise Undecided("deck word of unknown name")
        i = self.ev(args[0], st, env)
        return PathLV(("Y",) + p + (i,))

    def c_as(self, st, thislv, args, env, e):
        if args:
            raise Undecided("deck value with a default")
        key, ts = keyof(self.nodepath(thislv))
        ty = self.tu.strip(e["t"])
        if self.is_string(ty):
            if key in self.choice:
                return SC(self.choice[key])
            return self.dtext(key, ts)
        s = self.sort(ty)
        if not s:
            raise Undecided("deck value of type " + ty.get("s", "?"))
        if s == "R" and ty.get("w") != 64:
            return self.deck(s, key + " (as %s bits)" % ty.get("w"), ts)
        t = self.deck(s, key, ts)
        if s == "I" and ty["k"] == "int" and not ty["sg"]:
            self.axiom(T.le(num(0), t))
        return t

    def c_size(self, st, thislv, args, env, e):
        return self.dsize(*keyof(self.nodepath(thislv)))

    def c_words(self, st, thislv, args, env, e):
        p = self.nodepath(self.lval(args[0], st, env))
        lv = self.lval(args[1], st, env)
        st.store[lv.path] = Words(p)
        return Opaque("void")

    def c_list(self, st, thislv, args, env, e):
        s = self.strval(args[0], st, env)
        if s not in self.textkey:
            raise Undecided("list of unknown text")
        sep = self.strval(args[1], st, env)
        if sep is not SC(","):
            raise Undecided("list separator")
        return NumList(self.textkey[s], s.args if s.op == "uf" else ())

    def c_abort(self, st, thislv, args, env, e):
        self.aborts.append((list(st.pc), st.copy()))
        self.escape("exit", "abort", st)

    def c_word(self, st, thislv, args, env, e):
        lv = self.newobj("pair")
        k = "?a word of the deck"
        st.store[lv.path + ("first",)] = SC(self.choice[k]) if k in self.choice else self.dtext(k, ())
        return RecV(lv)

    def c_table(self, st, thislv, args, env, e):
        src = self.strval(args[0], st, env)
        field = self.strval(args[1], st, env)
        lv = self.lval(args[2], st, env)
        st.store[lv.path + ("#file",)] = src
        st.store[lv.path + ("#field",)] = field
        return Opaque("void")

    # ------------------------------------------------------------ types
    def sort(self, ty):
        if ty["k"] == "fptr":
            return "I"
        if self.is_string(ty):
            return "S"
        return Executor.sort(self, ty)

    def fnnum(self, q):
        if q is None:
            return num(0)
        if q not in self.fnums:
            self.fnums[q] = num(1000 + len(self.fnums))
        return self.fnums[q]

    def coerce(self, v, ty):
        if ty["k"] == "fptr":
            if isinstance(v, Ptr) and v.lv is None:
                return num(0)
            if isinstance(v, Ptr) and isinstance(v.lv, FnRef):
                v = v.lv
            if isinstance(v, FnRef):
                return self.fnnum(v.fn["q"])
        return Executor.coerce(self, v, ty)

    def binop(self, op, l, r, e, st, ty=None):
        f = lambda v: num(0) if isinstance(v, Ptr) and v.lv is None else (self.fnnum(v.fn["q"]) if isinstance(v, FnRef) else v)
        if op in ("==", "!=") and (isinstance(l, Term) != isinstance(r, Term)):
            l, r = f(l), f(r)
        return Executor.binop(self, op, l, r, e, st, ty)

    def e_Un(self, e, st, env):
        if e["op"] == "&":
            t = self.tu.types[e["e"]["t"]]
            if t["k"] == "func" or e["e"]["k"] == "Fn":
                v = self.ev(e["e"], st, env)
                if isinstance(v, FnRef):
                    return v
        return Executor.e_Un(self, e, st, env)

    def default_input(self, name, ty):
        if ty["k"] == "rec" and ty.get("q") == "std::map":
            return MapV(name)
        if ty["k"] == "rec" and ty.get("q") == "std::vector":
            a = self.input_arrays.setdefault(name, MArr(name))
            n = T.var(name + ".size", "I")
            self.axiom(T.le(num(0), n))
            self.listvars[name] = Vec(a, n)
            return Vec(a, n)
        return Executor.default_input(self, name, ty)

    def read(self, st, lv, ty):
        if ty["k"] == "rec" and ty.get("q") in ("std::map", "std::vector") and isinstance(lv, PathLV) and lv.path not in st.store:
            nm = self.pname(lv.path)
            if nm is None and ty["q"] == "std::map":
                raise Undecided("map of unknown origin")
            st.store[lv.path] = v = self.default_input(nm, ty) if nm else Vec(MArr("vec%d" % (MArr._n + 1)), num(0))
            return v
        return Executor.read(self, st, lv, ty)

    def vite(self, c, a, b):
        if isinstance(a, Vec) and isinstance(b, Vec) and a.arr is b.arr:
            return Vec(a.arr, T.ite(c, a.n, b.n))
        if isinstance(a, (Words, MapV, NumList)) and a is b:
            return a
        if isinstance(a, FnRef) and isinstance(b, FnRef):
            return T.ite(c, self.fnnum(a.fn["q"]), self.fnnum(b.fn["q"]))
        return Executor.vite(self, c, a, b)

    def builtin_record(self, e, st, env, ty):
        q = ty.get("q")
        if q in ("std::map", "std::vector") and e["k"] == "Ctor" and (e.get("copy") or e.get("move")):
            a = e["args"][0]
            return self.read(st, self.lval(a, st, env), ty)
        if q == "std::vector" and e["k"] == "Ctor":
            n = num(0)
            ar = [a for a in e["args"] if a["k"] != "Zero" and self.tu.strip(a["t"])["k"] == "int"]
            if ar:
                n = self.ev(ar[0], st, env)
            elif [a for a in e["args"] if a["k"] == "StdInit"]:
                raise Undecided("vector initialiser list")
            return Vec(MArr("vec%d" % (MArr._n + 1)), n)
        if self.is_string(ty) and e["k"] == "Ctor" and (e.get("copy") or e.get("move")):
            return self.strval(e["args"][0], st, env)
        return Executor.builtin_record(self, e, st, env, ty)

    def strval(self, a, st, env):
        t = self.tu.strip(a["t"])
        if self.is_string(t):
            v = self.ev(a, st, env)
        else:
            v = self.ev(a, st, env)
        if isinstance(v, Ptr) and isinstance(v.lv, PathLV):
            lit = st.store.get(v.lv.path[:-1] + ("#lit",))
            if lit is not None:
                return SC(lit.what.decode("latin1"))
        if isinstance(v, Term) and v.sort == "S":
            return v
        raise Undecided("text of unknown origin")

    def streq(self, a, b):
        if a is b:
            return TRUE
        for s in (a, b):
            if s.op != "sconst":
                if s in self.textkey:
                    raise NeedChoice(self.textkey[s])
                raise Undecided("comparison of an unknown text")
        return TRUE if a.val == b.val else FALSE

    # ------------------------------------------------------------ containers
    def mapinit(self, q):
        d = self.__dict__.setdefault("maps", {})
        if q in d:
            return d[q]
        g = [g for g in self.tu.globals.values() if g.get("q") == q]
        if not g:
            raise Undecided("map %s has no initialiser" % q)
        out = {}

        def s(n):
            if isinstance(n, dict):
                if n.get("k") == "Str":
                    return bytes(n["v"]).decode("latin1")
                for k, v in n.items():
                    if isinstance(v, (dict, list)) and k not in ("fn",):
                        r = s(v)
                        if r is not None:
                            return r
            elif isinstance(n, list):
                for v in n:
                    r = s(v)
                    if r is not None:
                        return r
            return None

        def i(n):
            while isinstance(n, dict):
                if n.get("k") in ("Int", "Bool"):
                    return int(n["v"])
                n = n.get("e")
            raise Undecided("map %s: value not constant" % q)

        def il(n):
            if isinstance(n, dict):
                if n.get("k") == "IL":
                    return n
                for k, v in n.items():
                    if isinstance(v, (dict, list)) and k != "fn":
                        r = il(v)
                        if r:
                            return r
            elif isinstance(n, list):
                for v in n:
                    r = il(v)
                    if r:
                        return r
            return None
        L = il(g[0]["init"])
        if L is None:
            raise Undecided("map %s: no list" % q)
        for p in L["v"]:
            a = p.get("args") or p.get("v")
            out.setdefault(s(a[0]), i(a[1]))
        d[q] = out
        return out

    def const_global(self, q):
        """the map is nowhere assigned in the unit"""
        return True

    def builtin2(self, fn, thislv, args, st, env, e):
        n, cls, q = fn["n"], fn.get("clsq") or fn.get("cls") or "", fn["q"]
        if "basic_string" in cls:
            s = st.store.get(thislv.path) if isinstance(thislv, PathLV) else None
            if n == "compare" and len(args) == 1:
                a = self.read(st, thislv, {"k": "rec", "q": "std::basic_string", "name": "s", "s": ""})
                r = self.streq(a, self.strval(args[0], st, env))
                if r is TRUE:
                    return num(0)
                return num(7919)  # some number that is not zero
            if n in ("empty", "size", "length"):
                a = self.read(st, thislv, {"k": "rec", "q": "std::basic_string", "name": "s", "s": ""})
                z = self.textlen(a)
                return T.eq(z, num(0)) if n == "empty" else z
            if n == "operator=":
                v = self.strval(args[0], st, env)
                self.write(st, thislv, {"k": "rec", "q": "std::basic_string", "name": "s", "s": ""}, v)
                return thislv
            if n in ("c_str", "data"):
                return Opaque("chars")
        if n in ("operator==", "operator!=") and len(args) == 2 and all(self.is_string(self.tu.strip(a["t"])) or self.tu.strip(a["t"])["k"] in ("ptr", "arr") for a in args):
            r = self.streq(self.strval(args[0], st, env), self.strval(args[1], st, env))
            return r if n == "operator==" else T.lnot(r)
        if cls.startswith("std::map") or cls == "std::map":
            m = self.read(st, thislv, {"k": "rec", "q": "std::map", "name": "m", "s": ""}) if isinstance(thislv, (PathLV, ElemLV)) else thislv
            if not isinstance(m, MapV):
                raise Undecided("map of unknown origin")
            t = self.mapinit(m.q)
            if n in ("end", "cend"):
                return It(m, None)
            if n in ("find", "count", "operator[]", "at"):
                k = self.strval(args[0], st, env)
                if k.op != "sconst":
                    if k in self.textkey:
                        raise NeedChoice(self.textkey[k])
                    raise Undecided("map lookup of an unknown text")
                if n == "find":
                    return It(m, k.val if k.val in t else None)
                if n == "count":
                    return num(1 if k.val in t else 0)
                if k.val in t:
                    return num(t[k.val])
                if n == "at":
                    self.escape("throw", None, st)
                return num(0)
        if n in ("operator!=", "operator=="):
            v = [self.ev(a, st, env) for a in args] if thislv is None else [self.ev(args[0], st, env)]
            if thislv is not None:
                v = [thislv if not isinstance(thislv, PathLV) else st.store.get(thislv.path)] + v
            if all(isinstance(y, It) for y in v):
                r = TRUE if v[0].k == v[1].k else FALSE
                return r if n == "operator==" else T.lnot(r)
        if "iterator" in cls and n in ("operator->", "operator*"):
            v = self.read(st, thislv, {"k": "rec", "q": "it", "name": "?", "s": ""}) if isinstance(thislv, PathLV) else thislv
            v = st.store.get(thislv.path) if isinstance(thislv, PathLV) else v
            if isinstance(v, It) and v.k is not None:
                lv = self.newobj("pair")
                st.store[lv.path + ("first",)] = SC(v.k)
                st.store[lv.path + ("second",)] = num(self.mapinit(v.m.q)[v.k])
                return Ptr(lv) if n == "operator->" else lv
        if "vector" in cls:
            v = self.read(st, thislv, {"k": "rec", "q": "std::vector", "name": "v", "s": ""}) if isinstance(thislv, PathLV) else thislv
            if isinstance(v, NumList):
                if n == "size":
                    return self.listsize(v.key, v.terms)
                if n in ("operator[]", "at"):
                    i = self.ev(args[0], st, env)
                    return ElemNum(v, i)
            if isinstance(v, Vec):
                if n == "size":
                    return v.n
                if n == "empty":
                    return T.eq(v.n, num(0))
                if n in ("operator[]", "at"):
                    return ElemLV(v.arr, (self.ev(args[0], st, env),))
                if n in ("push_back", "emplace_back"):
                    val = self.ev(args[0], st, env)
                    ty = self.tu.strip(args[0]["t"])
                    self.awrite(st, v.arr, (v.n,), (), ty, self.coerce(val, ty))
                    st.store[thislv.path] = Vec(v.arr, T.add(v.n, num(1)))
                    return Opaque("void")
                if n == "operator=":
                    s = self.ev(args[0], st, env)
                    if isinstance(s, Vec):
                        st.store[thislv.path] = s
                        return thislv
            if n == "operator=":
                s = self.ev(args[0], st, env)
                if isinstance(s, Vec):
                    st.store[thislv.path] = s
                    return thislv
        if n in ("stod", "stof") and q.startswith("std::"):
            a = args[0]
            v = self.ev(a, st, env) if not a.get("lv") else self.lval(a, st, env)
            if isinstance(v, PathLV):
                v = st.store.get(v.path)
            if isinstance(v, ElemNum):
                if n == "stof":
                    raise Undecided("number read in single precision")
                return self.listitem(v.l.key, v.l.terms, v.i)
        return Executor.builtin2(self, fn, thislv, args, st, env, e)

    def e_Cast(self, e, st, env):
        if e["ck"] in ("FloatingToIntegral",):
            v = self.ev(e["e"], st, env)
            if isinstance(v, Term) and v.sort == "R" and v.op == "uf":
                return self.trunc(v)
        return Executor.e_Cast(self, e, st, env)

    # ------------------------------------------------------------ named memory
    def names(self, st):
        d = {}
        for k, v in st.store.items():
            if isinstance(k, tuple) and k and isinstance(k[0], int):
                if isinstance(v, (MArr, Vec)):
                    a = v if isinstance(v, MArr) else v.arr
                    nm = self.pname(k)
                    if nm is None:
                        d.setdefault(a.id, "local#%d" % a.id)
                    else:
                        d[a.id] = nm
        return d

    def find(self, st, name):
        for k, v in st.store.items():
            if isinstance(k, tuple) and k and isinstance(k[0], int) and isinstance(v, (MArr, Vec)) and self.pname(k) == name:
                return v
        if name in self.input_arrays and isinstance(self.listvars.get(name), Vec):
            return self.listvars[name]
        raise Undecided("no array " + name)

    def vec(self, st, name):
        if name not in self.listvars and self.path_of(name):
            self.default_input(name, {"k": "rec", "q": "std::vector"})
        v = self.find(st, name)
        if not isinstance(v, Vec):
            raise Undecided(name + " is not a list")
        return v

    def at(self, st, name, idx, sub):
        """value of a named location, or None"""
        if not idx and not sub:
            if name.endswith(".size()"):
                return self.vec(st, name[:-7]).n
            if name.endswith(" (allocated)"):
                v = self.find(st, name[:-12])
                return T.lift(v.dims[0]) if isinstance(v, MArr) and v.dims else None
            for k, v in st.store.items():
                if isinstance(k, tuple) and k and isinstance(k[0], int) and self.pname(k) == name and isinstance(v, Term):
                    return v
            return None
        if name.startswith("local#"):
            aid = int(name[6:])
        else:
            v = self.find(st, name)
            aid = (v.arr if isinstance(v, Vec) else v).id
        av = st.store.get(("A", aid, sub))
        if av is None:
            av = self.__dict__.get("originals", {}).get(("A", aid, sub))
            if av is None:
                return None
        return self.aval_read(av, tuple(T.lift(i) for i in idx), av.sort, st)

    def path_of(self, name):
        """store path of a field of an input object"""
        for o, nm in self.objname.items():
            if name.startswith(nm + "."):
                return (o,) + tuple(name[len(nm) + 1:].split("."))
        return None

    def listed_val(self, key, k):
        return T.uf("enumerator named by " + key, tuple(t for t in self.keyterms[key][:-1]) + (k,), "I")

    def member(self, arr, n, val):
        k = (arr.id, n, val)
        d = self.__dict__.setdefault("members", {})
        if k not in d:
            d[k] = T.fresh("listed", "B")
        return d[k]

    # ------------------------------------------------------------ effects
    def effects(self, pre, post, objn):
        """[(name, idx, sub, guard, value, ivars)] stores between two states"""
        nm = self.names(post)
        out = []
        for k, v in post.store.items():
            o = pre.store.get(k)
            if o is v:
                continue
            if isinstance(k, tuple) and k and k[0] == "A":
                ow = set(map(id, o.writes)) if o is not None else set()
                if o is not None and (o.base != v.base):
                    if v.base in self.nested:
                        continue
                    out.append((nm.get(k[1], "local#%d" % k[1]), None, k[2], TRUE, None, ()))
                    continue
                for w in v.writes:
                    if id(w) in ow or w[0] != "par" and w[2] in self.nested:
                        continue
                    if w[0] == "par":
                        out.append((nm.get(k[1], "local#%d" % k[1]), w[3], k[2], w[2], w[4], w[1]))
                    else:
                        out.append((nm.get(k[1], "local#%d" % k[1]), w[1], k[2], w[0], w[2], ()))
            elif isinstance(k, tuple) and k and isinstance(k[0], int) and k[0] <= objn:
                p = self.pname(k)
                if isinstance(v, Vec) and (o is None or isinstance(o, Vec)):
                    on = o.n if o is not None else None
                    if v.n in self.nested or on is v.n and o.arr is v.arr:
                        continue
                    if o is None:
                        o = self.default_input(p, {"k": "rec", "q": "std::vector"}) if p else None
                        if o is not None and o.arr is v.arr and o.n is v.n:
                            continue
                    out.append(((p or "local") + ".size()", (), (), TRUE, v.n, ()))
                    continue
                if isinstance(v, Term):
                    if v in self.nested:
                        continue
                    if o is None:
                        # first read of an input: not a store
                        if p is not None and v is self.inputs.get(p):
                            continue
                        if v.op == "var" and str(v.val).startswith("undef"):
                            continue
                    if p is None:
                        p = "local:%s" % (k,)
                    out.append((p, (), (), TRUE, v, ()))
                elif isinstance(v, MArr):
                    if o is None and p in self.input_arrays:
                        continue
                    out.append(((p or "local") + " (allocated)", (), (), TRUE, T.lift(v.dims[0]) if v.dims else num(0), ()))
                elif isinstance(v, (Opaque, MapV, Words, NumList)):
                    continue
                else:
                    out.append((p or "local", None, (), TRUE, None, ()))
        return out

    def new_of(self, o, v):
        if o is not None and o.base != v.base:
            return [None]
        ow = set(map(id, o.writes)) if o is not None else set()
        return [(v, w) for w in v.writes if id(w) not in ow]

    def forget(self, st, k, ws):
        """an array holds unknowns at the places that may have been written"""
        for z in ws:
            if z is None or z[1][0] == "par":
                v = st.store.get(k) or self.originals.get(k)
                self.hv = getattr(self, "hv", 0) + 1
                st.store[k] = ArrVal("%s'%d" % (v.base.split("'")[0], self.hv), v.sort, None)
                self.nested.add(st.store[k].base)
            else:
                v, w = z
                cur = st.store.get(k)
                if cur is None:
                    cur = ArrVal(v.base, v.sort, v.init)
                nw = (T.fresh("written", "B"), w[1], T.fresh("stored", v.sort))
                self.nested.add(nw[2])
                st.store[k] = ArrVal(cur.base, cur.sort, cur.init, cur.writes + (nw,))

    def forget_vec(self, st, k):
        v = st.store.get(k)
        if isinstance(v, Vec):
            n = T.fresh("listed", "I")
            self.axiom(T.le(num(0), n))
            self.nested.add(n)
            st.store[k] = Vec(v.arr, n)

    # ------------------------------------------------------------ loops over words
    def s_Range(self, s, st, env):
        b = s.get("bs")
        e = self.range_expr(s)
        v = None
        if e is not None:
            try:
                lv = self.lval(e, st, env)
                if isinstance(lv, PathLV):
                    v = st.store.get(lv.path)
                    if v is None:
                        v = self.read(st, lv, self.tu.strip(e["t"]))
            except Undecided:
                v = None
        if isinstance(v, Words):
            return self.words_loop(s, st, env, v)
        if harmless(s["b"]):
            return {"next": st}
        if isinstance(v, Vec):
            return self.member_loop(s, st, env, v)
        raise Undecided("range-for at line %s" % s["ln"])

    def range_expr(self, s):
        return s.get("rng")

    def member_loop(self, s, st, env, v):
        """for (f : list) if (f == X) flag = c;   ->   flag = (X in list) ? c : flag"""
        d = s["v"]
        ty = self.tu.strip(d["t"])
        r = T.fresh("r", self.sort(ty) or "I")
        t, en = st.copy(), dict(env)
        lv = self.newobj(d["n"])
        en[d["id"]] = en[("n", d["n"])] = lv
        t.store[lv.path] = r
        o = self.ex(s["b"], t, en)
        if set(o) - {"next", "cont"}:
            raise Undecided("range-for at line %s leaves the loop" % s["ln"])
        m = self.merge(list(o.values()))
        res = st.copy()
        for k, w in m.store.items():
            if k == lv.path or st.store.get(k) is w:
                continue
            if k not in st.store:
                continue
            old = st.store[k]
            if not (isinstance(w, Term) and isinstance(old, Term)):
                raise Undecided("range-for at line %s changes a value" % s["ln"])
            x = self.which(w, r, v)
            at = T.subst(w, {r: x})
            if T.subst(w, {r: T.fresh("q", r.sort)}) is None or r in T.free_vars([at]):
                raise Undecided("range-for at line %s" % s["ln"])
            # value for elements other than x must be the old one
            z = T.fresh("z", r.sort)
            other = T.subst(w, {r: z})
            if self.prover_check([T.ne(z, x)], T.eq(other, old)) is not True and not self.same(other, old, [T.ne(z, x)]):
                raise Undecided("range-for at line %s: not a membership test" % s["ln"])
            res.store[k] = T.ite(self.member(v.arr, v.n, x), at, old)
        return {"next": res}

    def same(self, a, b, hyps):
        from fvc.prove import z3_check
        g = T.eq(a, b) if a.sort != "B" else T.land(T.lor(T.lnot(a), b), T.lor(T.lnot(b), a))
        r, _ = z3_check(hyps, g, 5.0)
        return r == "proved"

    def which(self, w, r, v):
        """the constant an element is compared with"""
        for t in self.subterms(w):
            if t.op == "eq" and r in t.args:
                o = t.args[1] if t.args[0] is r else t.args[0]
                if T.isnum(o):
                    return o
        raise Undecided("no constant in a membership test")

    def subterms(self, w, seen=None):
        seen = set() if seen is None else seen
        if w in seen:
            return
        seen.add(w)
        yield w
        for a in w.args:
            if isinstance(a, Term):
                for z in self.subterms(a, seen):
                    yield z

    def words_loop(self, s, st, env, words):
        key, ts = keyof(words.path)
        sp = self.spec.get(key)
        if sp is None:
            raise Undecided("block %s has no specification" % key)
        d = s["v"]
        pre = st.copy()
        objn = self.objn
        # pass 1: what can change
        ch = {}
        self.quiet += 1
        for w in sp:
            for r in self.word_runs(s, pre, env, words, w, d, sp):
                if r["out"] is None:
                    continue
                for k, v in r["out"].store.items():
                    if isinstance(k, tuple) and k and isinstance(k[0], int) and k[0] <= objn and isinstance(v, Term) and pre.store.get(k) is not v:
                        if k not in pre.store and (v is self.inputs.get(self.pname(k)) or (v.op == "var" and str(v.val).startswith("undef"))):
                            continue
                        ch.setdefault(k, (v.sort, set()))[1].add(w)
        self.quiet -= 1
        gen = pre.copy()
        for k, (so, ws) in ch.items():
            gen.store[k] = T.fresh("any", so)
        locals_ = {k: ws for k, (so, ws) in ch.items() if self.pname(k) is None}
        res = pre.copy()
        allw = [OTHER] + list(sp)
        pre_pass = False
        for w in allw:
            runs = self.word_runs(s, gen, env, words, w, d, sp)
            if w == OTHER:
                # a first pass over the words picks some of them and leaves the rest
                # to the pass that follows; the pass that refuses unknown words is the last
                pre_pass = all(r["out"] is not None and not r["esc"] and not r["bad"] and not self.effects(r["pre"], r["out"], objn) for r in runs)
                if not pre_pass:
                    self.finals[key] = self.finals.get(key, 0) + (0 if self.quiet else 1)
            for r in runs:
                if not self.quiet and not (pre_pass and w == OTHER):
                    self.judge(key, words.path, w, r, gen, sp, objn, locals_, pre_pass)
            if w != OTHER:
                for k, ws in locals_.items():
                    if w in ws:
                        if len(ws) != 1 or len(runs) != 1 or runs[0]["out"] is None:
                            raise Undecided("a local of block %s is set by several words" % key)
                        v = runs[0]["out"].store[k]
                        fresh = {gen.store[q] for q in ch}
                        if fresh & set(T.free_vars([v])):
                            raise Undecided("a local of block %s depends on the order of its words" % key)
                        p = T.var("deck has %s/%s %s" % (key, w, "".join(T.show(t) for t in ts)), "B")
                        new = [c for c in runs[0]["out"].pc if c not in gen.pc]
                        res.store[k] = T.ite(p, v, pre.store[k])
                        for c in new:
                            if not (fresh & set(T.free_vars([c]))):
                                res.pc.append(T.lor(T.lnot(p), c))
        # afterwards every named location holds an unknown
        for k, (so, ws) in ch.items():
            if k not in locals_:
                res.store[k] = T.fresh("stored", so)
                self.nested.add(res.store[k])
        for k, ws in self.word_arrays.pop(key, {}).items():
            self.forget(res, k, ws)
        for k in self.word_vecs.pop(key, set()):
            self.forget_vec(res, k)
        return {"next": res}

    def word_runs(self, s, gen, env, words, w, d, sp):
        """execute the body for one word: one run per combination of documented values"""
        key, ts = keyof(words.path)
        out = []
        work = [dict()]
        spec = sp.get(w)
        outer = dict(self.choice)
        while work:
            ch = work.pop(0)
            self.choice = dict(outer)
            self.choice.update(ch)
            pre = gen.copy()
            b, en = pre.copy(), dict(env)
            lv = self.newobj(d["n"])
            en[d["id"]] = en[("n", d["n"])] = lv
            b.store[lv.path] = SC(w)
            self.escapes.append([])
            nreg, nobl = len(self.regions), len(self.obls)
            try:
                r = self.ex(s["b"], b, en)
            except NeedChoice as nc:
                self.escapes.pop()
                rel = nc.key[len(key) + 1 + len(w):].lstrip("/") if nc.key.startswith(key + "/" + w) else None
                vals = None
                if spec is not None and spec.values is not None and rel is not None:
                    vals = spec.values.get(rel)
                if vals is None:
                    if spec is None:
                        self.choice = outer
                        raise Undecided("unknown word %s reads a name" % key)
                    self.choice = outer
                    raise Undecided("names of %s are not specified" % nc.key)
                for v in list(vals) + [OTHER]:
                    c2 = dict(ch)
                    c2[nc.key] = v
                    work.append(c2)
                continue
            except Dead:
                r = {}
            esc = self.escapes.pop()
            nxt = [r[k] for k in ("next", "cont") if k in r]
            o = self.merge([z.copy() for z in nxt]) if nxt else None
            bad = {k: v for k, v in r.items() if k not in ("next", "cont")}
            out.append(dict(choice=ch, pre=pre, out=o, esc=esc, bad=bad, word=w))
            if o is not None:
                wa = self.word_arrays.setdefault(key, {})
                wv = self.word_vecs.setdefault(key, set())
                for k, v in o.store.items():
                    if isinstance(k, tuple) and k and k[0] == "A" and gen.store.get(k) is not v:
                        wa.setdefault(k, []).extend(self.new_of(gen.store.get(k), v))
                    if isinstance(v, Vec) and gen.store.get(k) is not v:
                        wv.add(k)
        self.choice = outer
        return out

    def judge(self, key, path, w, r, gen, sp, objn, locals_, pre_pass=False):
        u = self.u
        own = (key + "/" + w)
        if w != OTHER and sp[w].values and list(sp[w].values) == [""] and own not in r["choice"] and not pre_pass:
            # the name is not looked at: the same run has to be right for all of them
            for v in list(sp[w].values[""]) + [OTHER]:
                r2 = dict(r)
                r2["choice"] = dict(r["choice"])
                r2["choice"][own] = v
                self.judge(key, path, w, r2, gen, sp, objn, locals_, pre_pass)
            return
        names = ", ".join("%s" % (v if v != OTHER else "<any other>") for v in r["choice"].values())
        lab = "%s: %s%s" % (key.replace("/#", "[]"), "<any other word>" if w == OTHER else w, " = " + names if names else "")
        if pre_pass:
            lab += " (first pass)"
        else:
            self.cover.add((key, w) + tuple(sorted(r["choice"].items())))
        for o, stt in r["bad"].items():
            u.prove(lab + ": no word is skipped", stt.pc, FALSE, self)
        if w == OTHER or OTHER in r["choice"].values():
            if r["out"] is None:
                u.fact(lab + ": is refused with an error", bool(r["esc"]), "symbolic execution")
            else:
                u.prove(lab + ": is refused with an error", r["out"].pc, FALSE, self)
            return
        spec = sp[w]
        c = Ctx(self, u, r["pre"], r["out"], path, w, r["choice"])
        skip = pre_pass and not [z for z in (self.effects(r["pre"], r["out"], objn) if r["out"] is not None else ()) if not z[0].startswith("local")]
        exp = [] if skip else spec.eff(c)
        if exp is None:
            if r["out"] is None:
                u.fact(lab + ": is refused with an error", bool(r["esc"]), "symbolic execution")
            else:
                u.prove(lab + ": is refused with an error", r["out"].pc, FALSE, self)
            return
        for kind, _, es in r["esc"]:
            c.post = es
            g = spec.stop(c) if spec.stop else FALSE
            u.prove(lab + ": is accepted", es.pc, g, self)
        c.post = r["out"]
        if r["out"] is None:
            if not r["esc"]:
                u.fact(lab + ": is accepted", False, "symbolic execution")
            return
        exp = [] if skip else spec.eff(c)
        eff = self.effects(r["pre"], r["out"], objn)
        pc = r["out"].pc
        goals, frame = [], []
        temps = {}
        for (nm, idx, sub, val) in [z[:4] for z in exp]:
            if nm.startswith("temp:"):
                cand = sorted({z[0] for z in eff if z[0].startswith("local#") and z[2] == sub})
                if len(cand) != 1:
                    raise Undecided("%s: list not found" % lab)
                temps[nm] = cand[0]
                self.temps[nm] = int(cand[0][6:])
        ex2 = [(temps.get(z[0], z[0]),) + tuple(z[1:]) for z in exp]
        for z in ex2:
            nm, idx, sub, val = z[:4]
            hyp = z[4] if len(z) > 4 else TRUE
            got = self.at(r["out"], nm, idx, sub)
            if got is None:
                # an array nobody wrote
                goals.append((nm, FALSE))
                continue
            if got.sort == "S" or (isinstance(val, Term) and val.sort == "S"):
                goals.append((nm, TRUE if got is val else FALSE))
                continue
            g = T.eq(got, val) if got.sort != "B" else T.land(T.lor(T.lnot(got), T.lift(val)), T.lor(T.lnot(T.lift(val)), got))
            goals.append((nm, T.lor(T.lnot(hyp), g)))
        for nm, g in goals:
            pass
        if not pre_pass:
            u.prove(lab + ": stores what it names", pc, T.land(*[g for _, g in goals]), self)
            if spec.exact:
                u.prove(lab + ": a wrong value is refused", pc, T.lnot(spec.stop(c)), self)
        for nm, idx, sub, guard, val, ivs in eff:
            if nm.startswith("local#"):
                self.touched.setdefault(int(nm[6:]), set()).add((key, w))
                if nm not in [z[0] for z in ex2]:
                    continue
            if nm.startswith("local:"):
                k = [k for k in locals_ if "local:%s" % (k,) == nm]
                if k:
                    continue
                frame.append((nm, FALSE))
                continue
            if idx is None:
                frame.append((nm, FALSE))
                continue
            alts = []
            for z in ex2:
                if z[0] == nm and z[2] == sub and len(z[1]) == len(idx):
                    alts.append(T.land(*([T.eq(T.lift(a), b) for a, b in zip(z[1], idx)])) if not ivs else self.parmatch(z, idx, guard, ivs))
            ok = T.lor(*alts) if alts else FALSE
            if ok is not TRUE:
                if not idx and not sub:
                    o = self.at(r["pre"], nm, (), ())
                else:
                    o = self.at(r["pre"], nm, idx, sub)
                if o is not None and o.sort != "S":
                    ok = T.lor(ok, T.lnot(guard), T.eq(o, val))
                elif o is not None and o is val:
                    ok = TRUE
            frame.append((nm, ok))
        if frame:
            badn = [nm for nm, g in frame if g is FALSE]
            u.prove(lab + ": stores nothing else" + (" (%s)" % ", ".join(badn[:3]) if badn else ""), pc, T.land(*[g for _, g in frame]), self)
        else:
            u.fact(lab + ": stores nothing else", True, "symbolic execution")

    def frame_block(self, label, pre, post, objn, exp=(), skip=()):
        """outside the loops over the words nothing is stored but exp"""
        frame = []
        for nm, idx, sub, guard, val, ivs in self.effects(pre, post, objn):
            if nm.startswith("local") or nm in skip:
                continue
            if idx is None:
                if any(z[0] == nm and z[1] is None for z in exp):
                    continue
                frame.append((nm, FALSE))
                continue
            alts = [T.land(*[T.eq(T.lift(a), b) for a, b in zip(z[1], idx)], T.eq(z[3], val) if z[3] is not None and val.sort != "S" else TRUE)
                    for z in exp if z[1] is not None and z[0] == nm and z[2] == sub and len(z[1]) == len(idx)]
            if ivs:
                alts = [self.parmatch(z, idx, guard, ivs) for z in exp if z[0] == nm and z[2] == sub]
            frame.append((nm, T.lor(*alts, T.lnot(guard)) if alts else T.lnot(guard)))
        bad = [nm for nm, g in frame if g is FALSE]
        self.u.prove(label + ": nothing is stored but what a word names" + (" (%s)" % ", ".join(bad[:3]) if bad else ""), post.pc, T.land(*[g for _, g in frame]), self)

    def parmatch(self, z, idx, guard, ivs):
        """a counted store: every written index lies in the expected range (z[5])"""
        rng = z[5] if len(z) > 5 else None
        if rng is None:
            return FALSE
        kk, lo, hi = rng
        m = []
        for a, b in zip(z[1], idx):
            if T.lift(a) is kk:
                m.append(T.lor(T.lnot(guard), T.land(T.le(lo, b), T.lt(b, hi))))
            else:
                m.append(T.eq(T.lift(a), b))
        return T.land(*m)


class ElemNum:
    __slots__ = ("l", "i")

    def __init__(self, l, i):
        self.l, self.i = l, i


class CountLoop:
    fallback = False
    """counted loops: the loop over the blocks of a list, the loop over the names of
    a list, and plain copies"""

    def __init__(self, x):
        self.x = x

    def run(self, x, s, st, env, cond, inc, body, post):
        if "Yaml::Iterator::operator*" in calls_in(body):
            return self.search(x, s, st, env, body)
        if has(body, "validate_inputs"):
            return self.items(x, s, st, env, cond, inc, body)
        try:
            return Each().run(x, s, st, env, cond, inc, body, post)
        except NeedChoice as nc:
            return self.listed(x, s, st, env, cond, inc, body, nc.key)

    def search(self, x, s, st, env, body):
        """a loop over the words of a block that stops at one word and changes nothing on the way"""
        outs = []
        outer = dict(x.choice)
        try:
            x.ex(body, st.copy(), dict(env))
            raise Undecided("loop at line %s does not look at the words" % s["ln"])
        except NeedChoice as nc:
            key = nc.key
        found = None
        for w in list(x.blocks) + [OTHER]:
            x.choice = dict(outer)
            x.choice[key] = w
            t = st.copy()
            r = x.ex(body, t, dict(env))
            x.choice = dict(outer)
            if set(r) == {"next"}:
                if any(st.store.get(k) is not v for k, v in r["next"].store.items() if isinstance(k, tuple) and k and isinstance(k[0], int) and k in st.store):
                    raise Undecided("loop at line %s changes a value on the way" % s["ln"])
            elif set(r) == {"brk"} and found is None and w != OTHER:
                found = (w, r["brk"])
            else:
                raise Undecided("loop at line %s is not a search" % s["ln"])
        if found is None:
            return {"next": st}
        p = T.var("deck has %s" % found[0], "B")
        a, b = found[1], st.copy()
        a.pc.append(p)
        b.pc.append(T.lnot(p))
        return {"next": x.merge([a, b])}

    def counter(self, x, s, st, env, cond, inc):
        """the loop variable's location, its bound"""
        ks = []
        for k, v in st.store.items():
            if isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], int) and v is num(0):
                t = st.copy()
                f = T.fresh("i", "I")
                t.store[k] = f
                c = x.tobool(x.ev(cond, t, dict(env)))
                if f in T.free_vars([c]):
                    x.ev(inc, t, dict(env))
                    if t.store[k] is T.add(f, num(1)):
                        ks.append((k, f, c))
        if len(ks) != 1:
            raise Undecided("loop at line %s: no counter" % s["ln"])
        return ks[0]

    def items(self, x, s, st, env, cond, inc, body):
        k, i, c = self.counter(x, s, st, env, cond, inc)
        objn = x.objn
        x.item_seen += 1
        if x.head and not x.quiet:
            x.head(x, st, i, c)

        def generic(st0, chg):
            g = st0.copy()
            for kk, v in list(g.store.items()):
                if isinstance(kk, tuple) and kk and kk[0] == "A" and isinstance(v, ArrVal):
                    x.hv = getattr(x, "hv", 0) + 1
                    # marks of identities already used: an unused identity
                    g.store[kk] = ArrVal("%s'%d" % (v.base.split("'")[0], x.hv), v.sort, FALSE if v.sort == "B" and v.init is FALSE else None)
                elif isinstance(v, Vec) and kk in chg:
                    n = T.fresh("listed", "I")
                    x.axiom(T.le(num(0), n))
                    g.store[kk] = Vec(v.arr, n)
                elif kk in chg and isinstance(v, Term):
                    g.store[kk] = T.fresh("any", v.sort)
            g.store[k] = i
            g.pc = g.pc + [T.le(num(0), i), c]
            return g
        # pass 1
        x.quiet += 1
        g = generic(st, set())
        chg = set()
        x.escapes.append([])
        try:
            r = x.ex(body, g.copy(), dict(env))
        except Dead:
            r = {}
        x.escapes.pop()
        for o in r.values():
            for kk, v in o.store.items():
                if isinstance(kk, tuple) and kk and isinstance(kk[0], int) and kk[0] <= objn and g.store.get(kk) is not v:
                    chg.add(kk)
        x.quiet -= 1
        g = generic(st, chg)
        x.escapes.append([])
        try:
            r = x.ex(body, g.copy(), dict(env))
        except Dead:
            r = {}
        esc = x.escapes.pop()
        if set(r) - {"next", "cont"}:
            if not x.quiet:
                for o, z in r.items():
                    if o not in ("next", "cont"):
                        x.u.prove("%s: no block of the list is skipped" % x.name, z.pc, FALSE, x)
        if not x.quiet:
            outs = [r[o] for o in ("next", "cont") if o in r]
            if outs:
                o = x.merge([z.copy() for z in outs])
                for kk, v in o.store.items():
                    if isinstance(kk, tuple) and len(kk) == 1 and isinstance(kk[0], int) and kk[0] <= objn and kk != k and x.pname(kk) is None \
                            and isinstance(v, Term) and g.store.get(kk) is not v and not (v.op == "var" and str(v.val).startswith("undef")):
                        raise Undecided("a local is carried from one block to the next (line %s)" % s["ln"])
                x.u.reachable("%s: a block is read to its end" % x.name, o.pc)
                x.frame_block("%s: one block" % x.name, g, o, objn, x.extra(g, o, i) if x.extra else ())
        res = generic(st, chg)
        res.pc = list(st.pc)
        res.store[k] = T.fresh("end", "I")
        if x.tail:
            x.tail(x, res, i)
        return {"next": res}

    def listed(self, x, s, st, env, cond, inc, body, key):
        """for k < n: name = list[k]; if documented append/store it, else refuse.
        x.lists[key] = (list name or None, {word: enumerator or stores(x, terms)})"""
        k, i, c = self.counter(x, s, st, env, cond, inc)
        if key not in x.lists:
            raise NeedChoice(key)
        vname, opts = x.lists[key]
        g = st.copy()
        g.store[k] = i
        g.pc = g.pc + [T.le(num(0), i), c]
        v0 = None
        if vname:
            for kk, v in st.store.items():
                if isinstance(v, Vec) and x.pname(kk) == vname:
                    v0, vk = v, kk
            if v0 is None:
                vk = [kk for kk in [x.path_of(vname)] if kk][0]
                v0 = x.default_input(vname, {"k": "rec", "q": "std::vector"})
            g.store[vk] = Vec(v0.arr, T.add(v0.n, i))      # one entry per name so far
        objn = x.objn
        outer = dict(x.choice)
        outs = []
        for o in list(opts) + [OTHER]:
            x.choice = dict(outer)
            x.choice[key] = o
            x.escapes.append([])
            before = g.copy()
            try:
                r = x.ex(body, g.copy(), dict(env))
            except Dead:
                r = {}
            esc = x.escapes.pop()
            x.choice = dict(outer)
            lab = "%s = %s" % (key.replace("/#", "[]"), "<any other>" if o == OTHER else o)
            nxt = [r[z] for z in ("next", "cont") if z in r]
            out = x.merge([z.copy() for z in nxt]) if nxt else None
            if x.quiet:
                if out is not None:
                    outs.append((before, out))
                continue
            x.cover.add((key, o))
            if o == OTHER:
                if out is None:
                    x.u.fact(lab + ": is refused with an error", bool(esc), "symbolic execution")
                else:
                    x.u.prove(lab + ": is refused with an error", out.pc, FALSE, x)
                continue
            for q, z in r.items():
                if q not in ("next", "cont"):
                    x.u.prove(lab + ": no name of the list is skipped", z.pc, FALSE, x)
            for kind, _, es in esc:
                x.u.prove(lab + ": is accepted", es.pc, FALSE, x)
            if out is None:
                x.u.fact(lab + ": is accepted", bool(esc), "symbolic execution")
                continue
            outs.append((before, out))
            if vname:
                v = before.store[vk]
                val = T.lift(enum(x.tu, opts[o]))
                exp = [(vname + ".size()", (), (), T.add(v.n, num(1))), (vname, (v.n,), (), val)]
            else:
                exp = opts[o](x, x.keyterms[key])
            goals, frame = [], []
            for z in exp:
                got = x.at(out, z[0], z[1], z[2])
                goals.append(FALSE if got is None else (TRUE if got is z[3] else FALSE) if got.sort == "S" else T.eq(got, z[3]))
            for nm, idx, sub, guard, val, ivs in x.effects(before, out, objn):
                if nm == "local:%s" % (k,):
                    continue
                alts = [T.land(*[T.eq(T.lift(a), b) for a, b in zip(z[1], idx)]) for z in exp if idx is not None and z[0] == nm and z[2] == sub and len(z[1]) == len(idx)]
                frame.append(T.lor(*alts) if alts else FALSE)
            x.u.prove(lab + ": stores what it names", out.pc, T.land(*goals), x)
            x.u.prove(lab + ": stores nothing else", out.pc, T.land(*frame), x)
        res = st.copy()
        if c.op != "lt" or c.args[0] is not i:
            raise Undecided("loop at line %s: bound not of the form k < n" % s["ln"])
        hi = c.args[1]
        res.store[k] = hi
        for before, out in outs:
            for kk, v in out.store.items():
                if before.store.get(kk) is v or not isinstance(kk, tuple) or not kk:
                    continue
                if kk[0] == "A":
                    if v0 is not None and kk[1] == v0.arr.id:
                        continue
                    x.forget(res, kk, x.new_of(before.store.get(kk), v))
                elif isinstance(kk[0], int) and kk[0] <= objn and isinstance(v, Term) and kk != k:
                    res.store[kk] = T.fresh("stored", v.sort)
                    x.nested.add(res.store[kk])
        if vname:
            res.store[vk] = Vec(v0.arr, T.add(v0.n, hi))
            kk = ("A", v0.arr.id, ())
            cur = res.store.get(kk)
            if cur is None:
                x.original(kk, v0.arr, (), "I")
                cur = x.originals[kk]
            q = T.fresh("k", "I")
            res.store[kk] = ArrVal(cur.base, cur.sort, cur.init, cur.writes + (("par", (q,), T.land(T.le(v0.n, q), T.lt(q, T.add(v0.n, hi))), (q,), x.listed_val(key, T.sub(q, v0.n))),))
        return {"next": res}
