"""Abstract interpreter over the MIR dump.

A forward dataflow analysis whose abstract state maps places to value terms
(terms.py) and keeps the branch facts that hold (path-partitioned).  Calls to
functions of the workspace are analysed in the calling context, so extracting
a helper, inlining one or moving code between functions does not change what
is computed.  Loops are analysed once from a state in which everything the
loop may change is unknown (fixpoint over the set of changed places); nothing
is executed and no loop is unrolled.  The result is, for an entry function,
the set of abstract exits with the calls made on the way (events), and the
panic obligations met with the ones that could not be discharged.
"""
import json
import names
import re
import os
from terms import *
import lin
from lin import TYPES, UNSIGNED


class Budget(Exception):
    pass


# ------------------------------------------------------------------ program
class Prog:
    def __init__(self, dumpdir, config, crates=("octane", "octane_http")):
        self.config = config
        self.fns = {}
        self.consts = {}
        self.adts = {}
        self.impls = []
        self.features = set()
        texts = []
        for c in crates:
            with open(os.path.join(dumpdir, config, c + ".json")) as f:
                texts.append(f.read().replace("octane_http::", ""))
        texts, self.renamed = names.restore(texts, config)
        for c, text in zip(crates, texts):
            d = json.loads(text)
            for f in d["fns"]:
                f["crate"] = c
                self.fns[f["path"]] = f
            for k in d["consts"]:
                k["crate"] = c
                self.consts[k["path"]] = k
            for a in d["adts"]:
                a["crate"] = c
                self.adts[a["path"]] = a
            for i in d["impls"]:
                i["crate"] = c
                self.impls.append(i)
            if c == "octane":
                self.features = set(d["features"])
        self._cfg = {}

    def fn(self, path):
        return self.fns.get(path)

    def cfg(self, f):
        k = f["path"]
        r = self._cfg.get(k)
        if r is None:
            r = self._cfg[k] = cfg_of(f)
        return r


def succs(b):
    t = b["t"]
    k = t["k"]
    if k == "goto" or k == "drop" or k == "assert":
        return [t["t"]]
    if k == "switch":
        return [x[1] for x in t["ts"]] + [t["else"]]
    if k == "call":
        return [t["t"]] if t["t"] is not None else []
    return []


def cfg_of(f):
    """loops: header -> set of blocks (natural loops, merged per header)"""
    bl = f["blocks"]
    n = len(bl)
    succ = [succs(b) for b in bl]
    # reachable, in reverse postorder
    seen, order = set(), []
    st = [(0, iter(succ[0]))]
    seen.add(0)
    while st:
        u, it = st[-1]
        for v in it:
            if v not in seen:
                seen.add(v)
                st.append((v, iter(succ[v])))
                break
        else:
            order.append(u)
            st.pop()
    order.reverse()
    idx = {u: i for i, u in enumerate(order)}
    pred = {u: [] for u in order}
    for u in order:
        for v in succ[u]:
            pred[v].append(u)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for u in order[1:]:
            ps = [p for p in pred[u] if p in idom]
            if not ps:
                continue
            x = ps[0]
            for p in ps[1:]:
                a, b = x, p
                while a != b:
                    while idx[a] > idx[b]:
                        a = idom[a]
                    while idx[b] > idx[a]:
                        b = idom[b]
                x = a
            if idom.get(u) != x:
                idom[u] = x
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]

    loops = {}
    for u in order:
        for v in succ[u]:
            if v in idom and dom(v, u):
                body = {v}
                w = [u]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w.extend(pred[x])
                loops.setdefault(v, set()).update(body)
    return loops


def shortname(path):
    p = path
    # <T as Trait>::m
    m = re.match(r"^<(.+) as (.+)>::([\w]+)$", p)
    if m:
        tr = re.sub(r"<.*>", "", m.group(2))
        return tr.split("::")[-1] + "::" + m.group(3)
    prev = None
    while prev != p:
        prev = p
        p = re.sub(r"::<[^<>]*>", "", p)
    p = re.sub(r"<[^<>]*>", "", p)
    parts = p.split("::")
    if "methods" in parts:
        parts = ["char" if x == "methods" else x for x in parts]
    return "::".join(parts[-2:])


class Ev:
    __slots__ = ("kind", "name", "args", "ret", "span", "fn", "facts", "info", "nf")

    def __init__(self, kind, name, args, ret, span, fn, facts, info=None):
        self.kind, self.name, self.args, self.ret = kind, name, args, ret
        self.span, self.fn, self.facts, self.info = span, fn, facts, info or {}

    def __repr__(self):
        return "%s %s(%s) -> %s @%s" % (self.kind, self.name, ", ".join(map(show, self.args)), show(self.ret) if self.ret is not None else "", self.span)


_EVC = {}


class State:
    __slots__ = ("mem", "facts", "ev", "n", "stack")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.ev = None  # linked list (prev, Ev)
        self.n = 0
        self.stack = ()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = self.facts
        s.ev = self.ev
        s.n = self.n
        s.stack = self.stack
        return s

    def fresh(self):
        self.n += 1
        return self.n

    def log(self, e):
        k = (id(self.ev), id(e))
        r = _EVC.get(k)
        if r is None:
            r = _EVC[k] = (self.ev, e)
        self.ev = r

    def events(self):
        out = []
        e = self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out


def cell_value(t):
    return t


class Frame:
    __slots__ = ("f", "fid", "loops")

    def __init__(self, f, fid, loops):
        self.f, self.fid, self.loops = f, fid, loops


INTTY = UNSIGNED | {"i8", "i16", "i32", "i64", "i128", "isize"}
MAXV = {"u8": 255, "u16": 65535, "u32": 2**32 - 1, "u64": 2**64 - 1, "usize": 2**64 - 1, "i32": 2**31 - 1, "i64": 2**63 - 1,
        "isize": 2**63 - 1, "u128": 2**128 - 1, "i8": 127, "i16": 32767, "i128": 2**127 - 1}
MINV = {"i32": -2**31, "i64": -2**63, "isize": -2**63, "i8": -128, "i16": -32768, "i128": -2**127}


class Loop:
    """record of one analysed loop: initial values, per-iteration updates, exits"""

    def __init__(self, lid, fn, span, pre):
        self.id, self.fn, self.span = lid, fn, span
        self.pre = pre  # state at entry
        self.init = {}  # phi -> initial term
        self.loc = {}  # phi -> (cell, path)
        self.drv = None  # the iterator it is driven by, if any
        self.exits = []
        self.backs = []  # (state at the back edge, {phi: new value})
        self.head = None  # generic state at the head (for its event list)


class Interp:
    def __init__(self, prog, opaque=(), budget=60000):
        self.p = prog
        self.opaque = set(opaque)
        self.foreign = set()    # library functions without a model that were called
        self.loops = {}
        self.phi_loop = {}
        self.nloop = 0
        self.obl = []  # obligations
        self.panics = []
        self.steps = 0
        self.budget = budget
        self.analysed = set()
        self.unknown = {}
        self.vars = {}  # discr term -> {value: variant}
        self.invariants = []  # callables (interp, state, value term) -> list of extra inequalities
        self.field_inv = {}  # (adt, field) -> (lo, hi)
        self.noreturn = []
        self.hooks = {}
        import models
        self.models = models.MODELS
        self.mod = models

    # ---------------------------------------------------------------- facts
    def truth(self, st, t):
        if t.op == "c":
            return t.a[1] if t.a[0] == "bool" else None
        if t.op == "not":
            r = self.truth(st, t.a[0])
            return None if r is None else not r
        f = st.facts
        if t in f:
            return f[t]
        if t.op == "isvar":
            x, v = t.a
            # `is Some`, `is Ok`, .. stand for `is not None`, `is not Err`, ..: of another enum
            # with a variant of that name they exclude that one variant only
            falses = 0
            for k, val in f.items():
                if k.op == "isvar" and k.a[0] is x:
                    if k.a[1] in PAIRED:
                        if not val:
                            return False
                        falses += 1
                    elif val:
                        return v in PAIRED or k.a[1] == v
                    else:
                        falses += 1
            if falses:
                vs = self.vars.get(x)
                if vs and falses == len(vs) - 1:
                    return v not in PAIRED
            if x.op == "nth" and v == "Some" and x.a[1] == 0 and x.a[0].op == "it" and x.a[0].a[0] in ("split", "splitn"):
                return True
            if x.op == "nth" and v == "Some":
                # an earlier item missing means this one is, a later one present means it is present
                for k, val in f.items():
                    if k.op == "isvar" and k.a[0].op == "nth" and k.a[0].a[0] is x.a[0]:
                        if not val and k.a[0].a[1] <= x.a[1]:
                            return False
                        if val and k.a[0].a[1] >= x.a[1]:
                            return True
            return None
        if t.op == "eq":
            a, b = t.a
            if b.op == "c":
                for k, val in f.items():
                    if val and k.op == "eq" and k.a[0] is a and k.a[1].op == "c" and k.a[1] is not b:
                        return False
            if self.intlike(a, b):
                if lin.prove_lt(f, a, b) or lin.prove_lt(f, b, a):
                    return False
                if lin.prove_le(f, a, b) and lin.prove_le(f, b, a):
                    return True
            return None
        if t.op == "lt":
            if self.intlike(*t.a):
                if lin.prove_lt(f, t.a[0], t.a[1]):
                    return True
                if lin.prove_le(f, t.a[1], t.a[0]):
                    return False
            return None
        return None

    def intlike(self, a, b):
        return lin.is_intlike(a) or lin.is_intlike(b)

    def assume(self, st, t, val=True):
        """refine by a boolean term; None if contradictory"""
        while t.op == "not":
            t, val = t.a[0], not val
        if t.op == "bin" and t.a[0] == "BitAnd" and val:
            s = self.assume(st, t.a[1], True)
            return s and self.assume(s, t.a[2], True)
        if t.op == "bin" and t.a[0] == "BitOr" and not val:
            s = self.assume(st, t.a[1], False)
            return s and self.assume(s, t.a[2], False)
        r = self.truth(st, t)
        if r is not None:
            return st if r == val else None
        s = st.copy()
        s.facts = dict(st.facts)
        s.facts[t] = val
        return s

    # ---------------------------------------------------------------- memory
    def proj(self, v, e):
        k = e[0]
        if k == "f":
            if v.op == "c" and v.a[0] == "tuple":
                return v.a[1][int(e[1])]
            return field(v, e[1])
        if k == "vf":
            return vfield(v, e[1], e[2])
        if k == "i":
            return index(v, e[1])
        if k == "k":
            return payload(mget(v, e[1]), "Some")
        raise KeyError(k)

    def upd(self, v, path, val):
        if not path:
            return val
        e = path[0]
        new = self.upd(self.proj(v, e), path[1:], val)
        if e[0] == "f":
            if v.op == "agg" and e[1] in v.a[2]:
                fs = list(v.a[3])
                fs[v.a[2].index(e[1])] = new
                return agg(v.a[0], v.a[1], v.a[2], fs)
            if v.op in ("clo", "coro"):
                fs = list(v.a[1])
                fs[int(e[1])] = new
                return mk(v.op, v.a[0], tuple(fs))
            return self.with_(v, e, new)
        if e[0] == "vf":
            if v.op == "agg" and v.a[1] == e[1]:
                fs = list(v.a[3])
                fs[v.a[2].index(e[2])] = new
                return agg(v.a[0], v.a[1], v.a[2], fs)
            return self.with_(v, e, new)
        if e[0] == "i":
            if v.op == "seq" and is_c(e[1], "int") and cval(e[1]) < len(v.a[0]):
                xs = list(v.a[0])
                xs[cval(e[1])] = new
                return mk("seq", tuple(xs))
            return mk("iset", v, e[1], new)
        if e[0] == "k":
            if v.op in ("minsert", "mset") and v.a[1] is e[1]:
                return mk(v.op, v.a[0], e[1], new)
            return mk("mset", v, e[1], new)
        raise KeyError(e)

    def with_(self, v, e, new):
        if v.op == "with":
            base, ov = v.a
            ov = dict(ov)
        else:
            base, ov = v, {}
        if self.proj(base, e) is new:
            ov.pop(e, None)
        else:
            ov[e] = new
        if not ov:
            return base
        return mk("with", base, tuple(sorted(ov.items(), key=lambda x: str(x[0]))))

    def load(self, st, cell, path=()):
        v = st.mem.get(cell)
        if v is None:
            v = mk("undef", str(cell))
        for e in path:
            # a reference stored in a field: follow
            v = self.proj(v, e)
        return v

    def store(self, st, cell, path, val):
        st.mem[cell] = self.upd(st.mem.get(cell, mk("undef", str(cell))), path, val)

    def deref(self, st, v):
        """value behind a (possibly nested) reference"""
        while v.op == "ref":
            v = self.load(st, v.a[0], v.a[1])
        return v

    def strip(self, st, v, d=0):
        """value with every tracked reference replaced by what it points at"""
        if v.op == "ref":
            return self.strip(st, self.deref(st, v), d + 1)
        if d > 12:
            return v
        if v.op == "agg" and v.a[3]:
            fs = tuple(self.strip(st, x, d + 1) for x in v.a[3])
            if fs != v.a[3]:
                return agg(v.a[0], v.a[1], v.a[2], fs)
        elif v.op in ("clo", "coro") and v.a[1]:
            fs = tuple(self.strip(st, x, d + 1) for x in v.a[1])
            if fs != v.a[1]:
                return mk(v.op, v.a[0], fs)
        elif v.op == "seq" and v.a[0]:
            fs = tuple(self.strip(st, x, d + 1) for x in v.a[0])
            if fs != v.a[0]:
                return mk("seq", fs)
        elif v.op == "with":
            ov = tuple((k, self.strip(st, x, d + 1)) for k, x in v.a[1])
            b = self.strip(st, v.a[0], d + 1)
            if ov != v.a[1] or b is not v.a[0]:
                return mk("with", b, ov)
        elif v.op in ("it", "push", "cat", "fmtargs", "fmtarg", "display", "vfld", "fld", "minsert", "entry", "collect", "extend"):
            def go(x):
                if isinstance(x, tuple):
                    return tuple(go(y) for y in x)
                return self.strip(st, x, d + 1) if isinstance(x, T) else x
            a = tuple(go(x) for x in v.a)
            if a != v.a:
                return rebuild(v.op, a)
        return v

    def resolve(self, st, fr, p):
        """place -> ('loc', cell, path) or ('val', term)"""
        cell, path, val = (fr.fid, p["l"]), (), None
        var = None
        for e in p["p"]:
            k = e[0]
            if k == "*":
                v = val if val is not None else self.load(st, cell, path)
                if v.op == "ref":
                    cell, path, val = v.a[0], v.a[1], None
                elif v.op == "oref":
                    val = v.a[0]
                else:
                    # opaque pointer: transparent
                    if val is None and v.op in ("arg", "undef"):
                        pass
                    val = v
                continue
            if k == "v":
                var = e[1]
                continue
            if k == "f":
                el = ("vf", var, e[2]) if var is not None else ("f", e[2])
                var = None
            elif k == "i":
                el = ("i", self.load(st, (fr.fid, e[1])))
            elif k == "ci":
                v = val if val is not None else self.load(st, cell, path)
                el = ("i", I(e[1]) if not e[3] else sub(mklen(v), I(e[1])))
            elif k == "sub":
                v = val if val is not None else self.load(st, cell, path)
                v = self.deref(st, v)
                val = mkslice(v, I(e[1]), (sub(mklen(v), I(e[2])) if e[2] else None) if e[3] else I(e[2]))
                continue
            else:
                continue
            if val is not None:
                val = self.proj(val, el)
            else:
                path = path + (el,)
        if val is not None:
            return ("val", val)
        return ("loc", cell, path)

    def read(self, st, fr, p):
        r = self.resolve(st, fr, p)
        if r[0] == "val":
            return r[1]
        return self.load(st, r[1], r[2])

    def write(self, st, fr, p, v, span):
        r = self.resolve(st, fr, p)
        if r[0] == "val":
            st.log(Ev("store", "store", (self.strip(st, r[1]), self.strip(st, v)), None, span, fr.f["path"], st.facts))
            return
        if r[1][0] == "heap":
            pass
        self.store(st, r[1], r[2], v)

    # ---------------------------------------------------------------- constants
    def const(self, o):
        if "fn" in o:
            return mk("fn", o["fn"].get("resolved") or o["fn"]["path"], o["fn"]["path"])
        if "v" in o:
            v = self.cv(o["v"], o.get("ty", ""))
            if v is not None:
                return v
        if "path" in o:
            return mk("static", o["path"])
        return mk("konst", o.get("pp", "?"), o.get("ty", ""))

    def cv(self, v, ty=""):
        if v is None:
            return mk("konst", "null", ty)
        if isinstance(v, bool):
            return B(v)
        if isinstance(v, int):
            return I(v)
        if "str" in v:
            return S(v["str"])
        if "char" in v:
            return mk("c", "char", v["char"])
        if "bytes" in v:
            try:
                return S(bytes(v["bytes"]).decode("utf8"))
            except UnicodeDecodeError:
                return mk("c", "bytes", tuple(v["bytes"]))
        if "array" in v:
            return mk("seq", tuple(self.cv(x) for x in v["array"]))
        if "tuple" in v:
            return tup(*[self.cv(x) for x in v["tuple"]])
        if "adt" in v:
            fs = [self.cv(x) for x in v["fields"]]
            names = [str(i) for i in range(len(fs))]
            a = self.p.adts.get(v["adt"])
            if a:
                for vr in a["variants"]:
                    if v["variant"] is None or vr["name"] == v["variant"]:
                        names = [f["name"] for f in vr["fields"]]
                        break
            elif v["variant"] is None:
                names = {"RangeFrom": ["start"], "RangeTo": ["end"], "Range": ["start", "end"], "RangeToInclusive": ["end"]}.get(
                    v["adt"].split("::")[-1], names)
            return agg(v["adt"], v["variant"] or v["adt"].split("::")[-1], names, fs)
        if "static" in v:
            return mk("static", v["static"])
        if "zst" in v:
            if v["zst"] == "()":
                return UNIT
            return mk("zst", v["zst"])
        return None

    def operand(self, st, fr, o):
        if o["k"] in ("copy", "move"):
            return self.read(st, fr, o["p"])
        return self.const(o)

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, r, span):
        k = r["k"]
        if k == "use":
            return self.operand(st, fr, r["o"])
        if k == "ref":
            loc = self.resolve(st, fr, r["p"])
            if loc[0] == "val":
                return loc[1]
            v = self.load(st, loc[1], loc[2])
            # reference to a place holding a constant of a promoted: value is fine
            return mk("ref", loc[1], loc[2], bool(r["m"]))
        if k == "rawptr":
            return mk("rawptr", self.read(st, fr, r["p"]))
        if k == "bin":
            a = self.deref(st, self.operand(st, fr, r["a"]))
            b = self.deref(st, self.operand(st, fr, r["b"]))
            op = r["op"]
            if op.endswith("WithOverflow"):
                base = op[: -len("WithOverflow")]
                v = binop(base, a, b)
                if not is_c(v):
                    TYPES.setdefault(v, r["ty"])
                return tup(v, mk("ovf", base, a, b, r["ty"]))
            op = op.replace("Unchecked", "")
            if op == "Cmp":
                return mk("cmp", a, b)
            v = binop(op, a, b)
            if op not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and not is_c(v):
                TYPES.setdefault(v, r["ty"])
            return v
        if k == "un":
            a = self.operand(st, fr, r["a"])
            if r["op"] == "Not":
                if is_c(a, "int"):
                    return mk("un", "Not", a)
                return neg(a)
            if r["op"] == "PtrMetadata":
                return mklen(self.deref(st, a))
            if r["op"] == "Neg" and is_c(a, "int"):
                return I(-cval(a))
            return mk("un", r["op"], a)
        if k == "cast":
            a = self.operand(st, fr, r["o"])
            ck = r["ck"]
            if ck.startswith("IntToInt"):
                a = self.deref(st, a)
                fr_, to = r.get("from", ""), r["ty"]
                if is_c(a, "int") or is_c(a, "char"):
                    v = cval(a)
                    if to == "char":
                        return mk("c", "char", v)
                    if to in UNSIGNED:
                        v &= MAXV[to]
                    elif to in MAXV:
                        w = MAXV[to] + 1
                        v = (v + w) % (2 * w) - w
                    return I(v)
                if is_c(a, "bool"):
                    return I(1 if cval(a) else 0)
                if fr_ == to:
                    return a
                v = mk("cast", to, fr_, a)
                TYPES.setdefault(v, to)
                return v
            return a
        if k == "discr":
            v = self.deref(st, self.read(st, fr, r["p"]))
            vs = {x[0]: x[1] for x in r.get("vs", [])}
            if v.op == "agg" and vs:
                for n, name in vs.items():
                    if name == v.a[1]:
                        return I(n)
            self.vars[v] = vs
            return mk("discr", v)
        if k == "agg":
            fs = [self.operand(st, fr, o) for o in r["fs"]]
            ak = r["ak"]
            if ak == "tuple":
                return tup(*fs)
            if ak == "array":
                return mk("seq", tuple(fs))
            if ak == "adt":
                return agg(r["adt"], r["variant"], r["names"], fs)
            if ak == "closure":
                return mk("clo", r["def"], tuple(fs))
            if ak == "coroutine":
                return mk("coro", r["def"], tuple(fs))
            return mk("aggother", tuple(fs))
        if k == "repeat":
            return mk("repeat", self.operand(st, fr, r["o"]), r["n"])
        return mk("rv", r.get("pp", "?"), st.fresh())

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, fr, span, kind, ok, detail, st2=None, goal=None):
        if not ok and goal is not None:
            for inv in self.invariants:
                if inv(self, st2, goal):
                    ok = True
                    break
        self.obl.append({"kind": kind, "fn": fr.f["path"] if fr else "", "span": span, "ok": bool(ok), "detail": detail,
                         "stack": st.stack, "goal": goal, "facts": None if ok else (st2 or st).facts})

    def contradictory(self, st):
        """as infeasible, with disequalities"""
        return lin.entails(st.facts, ({}, -1), all_facts=True)

    def infeasible(self, st):
        return lin._infeasible([c for c in lin.from_facts(st.facts) if c[0] != "ne"])

    # ---------------------------------------------------------------- execution
    def run(self, fname, args=None, st=None, names=None):
        """analyse a function from arbitrary arguments; returns (exits [(state, ret)], arg cells)"""
        f = self.p.fn(fname)
        st = st or State()
        if args is None:
            args = self.mkargs(st, f, names)
        outs = self.exec_fn(st, f, args)
        if f.get("asyncness") or any(v.op == "coro" for _, v in outs):
            res = []
            for s, v in outs:
                v = self.deref(s, v)
                res += self.run_coro(s, v) if v.op == "coro" else [(s, v)]
            return res
        return outs

    def mkargs(self, st, f, names=None):
        args = []
        for i in range(1, f["argc"] + 1):
            l = f["locals"][i]
            name = l.get("n") or "arg%d" % i
            if names is not None and i <= len(names):
                name = names[i - 1]
            ty = l["ty"]
            v = mk("arg", name)
            if re.match(r"^&", ty) or ty.startswith("std::pin::Pin<&"):
                c = ("arg", name)
                st.mem[c] = v
                args.append(mk("ref", c, (), "mut " in ty.split("<")[0] or ty.startswith("&mut") or "&mut" in ty[:20] or ty.startswith("std::pin::Pin<&mut")))
            else:
                if ty in INTTY:
                    TYPES.setdefault(v, ty)
                args.append(v)
        return args

    def exec_fn(self, st, f, args, span=""):
        self.analysed.add(f["path"])
        fid = st.fresh()
        st = st.copy()
        st.stack = st.stack + (f["path"],)
        fr = Frame(f, fid, self.p.cfg(f))
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        outs = self.region(st, fr, 0, None, None)
        res = []
        for o in outs:
            assert o[0] == "ret"
            s, v = o[1], o[2]
            s.stack = s.stack[:-1]
            dead = [c for c in s.mem if c[0] == fid]
            keep = set()
            for x in subterms(v):
                if x.op == "ref" and x.a[0][0] == fid:
                    keep.add(x.a[0])
            # references to this frame stored elsewhere (captured by escaping values)
            for c in dead:
                if c not in keep:
                    del s.mem[c]
            res.append((s, v))
        return self.merge(res)

    keep = 400
    merged = False

    def merge(self, res):
        """join exits that agree on everything but branch facts"""
        groups = {}
        for s, v in res:
            k = (id(s.ev), v, tuple(sorted(((str(c), t.id) for c, t in s.mem.items()))))
            groups.setdefault(k, []).append((s, v))
        out = []
        for g in groups.values():
            s, v = g[0]
            if len(g) > 1 and len(res) <= self.keep:
                out += g
                continue
            if len(g) > 1:
                self.merged = True
                f = dict(s.facts)
                for s2, _ in g[1:]:
                    for t in list(f):
                        if s2.facts.get(t) is not f[t] and s2.facts.get(t) != f[t]:
                            del f[t]
                s = s.copy()
                s.n = max(x[0].n for x in g)
                s.facts = f
            out.append((s, v))
        return out

    def region(self, st, fr, start, blocks, header):
        out = []
        work = [(st, start, True)]
        while work:
            st, bb, first = work.pop()
            if blocks is not None and bb not in blocks:
                out.append(("exit", st, bb))
                continue
            if bb in fr.loops and not (first and bb == header):
                if bb == header:
                    out.append(("back", st, bb))
                    continue
                for o in self.loop(st, fr, bb):
                    if o[0] == "exit":
                        work.append((o[1], o[2], False))
                    else:
                        out.append(o)
                continue
            for o in self.block(st, fr, bb):
                if o[0] == "go":
                    work.append((o[1], o[2], False))
                else:
                    out.append(o)
        return out

    # -- loops
    def loop(self, st, fr, h):
        blocks = fr.loops[h]
        span = fr.f["blocks"][h]["t"]["s"]
        if self.short_walk(st, fr):
            r = self.unroll(st, fr, h, blocks)
            if r is not None:
                return r
        return self.fix(st, fr, span, lambda s0, lid: self.region(s0, fr, h, blocks, h))

    def short_walk(self, st, fr):
        """an iterator over a few explicit elements is at hand"""
        for c, v in st.mem.items():
            if c[0] == fr.fid and v.op == "it" and v.a[0] == "elems" and v.a[1].op == "seq" and 1 <= len(v.a[1].a[0]) <= 4:
                return True
        return False

    def unroll(self, st, fr, h, blocks):
        """the loop iteration by iteration, if it ends after a few; None if it does not"""
        known = set(self.loops)
        nob, npan, steps = len(self.obl), len(self.panics), self.steps
        out, cur = [], [st.copy()]
        for _ in range(6):
            nxt = []
            for s in cur:
                for o in self.region(s, fr, h, blocks, h):
                    if o[0] == "back":
                        nxt.append(o[1])
                    else:
                        out.append(o)
            cur = nxt
            if not cur:
                return out
            if len(cur) > 40:
                break
        del self.obl[nob:]
        del self.panics[npan:]
        for k in set(self.loops) - known:
            del self.loops[k]
        self.steps = steps
        return None

    def fix(self, st, fr, span, body, drv=None):
        """fixpoint over the set of places the body may change; body(state) -> outs"""
        self.nloop += 1
        lid = self.nloop
        M = {}
        for _round in range(12):
            s0 = st.copy()
            L = Loop(lid, fr.f["path"], span, st)
            L.drv = drv
            for (cell, path) in sorted(M, key=lambda x: len(x[1])):
                phi = M[(cell, path)]
                init = self.load(st, cell, path)
                L.init[phi] = init
                L.loc[phi] = (cell, path)
                self.store(s0, cell, path, phi)
                if init in TYPES:
                    TYPES.setdefault(phi, TYPES[init])
                if is_c(init, "int"):
                    ty = self.cellty(fr, cell, path)
                    if ty:
                        TYPES.setdefault(phi, ty)
            self.loops[lid] = L
            known = set(self.loops)
            L.head = s0.ev
            L.headfacts = s0.facts
            for phi in L.init:
                self.phi_loop[phi] = L
            nob = len(self.obl)
            npan = len(self.panics)
            outs = body(s0, lid)
            new = {}
            for o in outs:
                if o[0] != "back":
                    continue
                s1 = o[1]
                for cell, v0 in s0.mem.items():
                    v1 = s1.mem.get(cell)
                    if v1 is None or v1 is v0:
                        continue
                    for path in self.diff(v0, v1):
                        if any(cell == c and path[: len(p)] == p for c, p in M):
                            continue
                        new[(cell, path)] = True
            if not new:
                break
            for cell, path in new:
                for c, p in list(M):
                    if c == cell and p[: len(path)] == path:
                        del M[(c, p)]
                M[(cell, path)] = mk("phi", lid, self.cellname(fr, cell), *[str(x[-1]) for x in path])
            del self.obl[nob:]
            del self.panics[npan:]
            # loops inside the body belong to the round that is dropped
            for k in set(self.loops) - known:
                del self.loops[k]
        else:
            raise Budget("loop fixpoint did not stabilise in " + fr.f["path"])
        res = []
        lev = Ev("loop", str(lid), (), None, span, fr.f["path"], st.facts, {"loop": L})
        L.ev = lev
        for o in outs:
            if o[0] == "back":
                vals = {phi: self.load(o[1], *L.loc[phi]) for phi in L.init}
                L.backs.append((o[1], vals))
            else:
                o[1].log(lev)
                res.append(o)
        L.exits = res
        return res

    def cellty(self, fr, cell, path):
        if cell[0] == fr.fid and isinstance(cell[1], int) and not path:
            ty = fr.f["locals"][cell[1]]["ty"]
            return ty if ty in INTTY else None
        return None

    def cellname(self, fr, cell):
        if cell[0] == fr.fid and isinstance(cell[1], int):
            return fr.f["locals"][cell[1]].get("n") or "_%d" % cell[1]
        return "%s.%s" % cell

    def diff(self, v0, v1, path=()):
        if v0 is v1:
            return
        if v0.op == "agg" and v1.op == "agg" and v0.a[:3] == v1.a[:3] and v0.a[3]:
            for n, x, y in zip(v0.a[2], v0.a[3], v1.a[3]):
                el = ("f", n) if (v0.a[1] is None or v0.a[0].split("::")[-1] == v0.a[1]) else ("vf", v0.a[1], n)
                yield from self.diff(x, y, path + (el,))
            return
        b0 = v0.a[0] if v0.op == "with" else v0
        b1 = v1.a[0] if v1.op == "with" else v1
        if b0 is b1 and (v0.op == "with" or v1.op == "with"):
            ks = set(k for k, _ in v0.a[1]) if v0.op == "with" else set()
            ks |= set(k for k, _ in v1.a[1]) if v1.op == "with" else set()
            for k in sorted(ks, key=str):
                yield from self.diff(self.proj(v0, k), self.proj(v1, k), path + (k,))
            return
        if v0.op in ("clo", "coro") and v1.op == v0.op and v0.a[0] == v1.a[0]:
            for i, (x, y) in enumerate(zip(v0.a[1], v1.a[1])):
                yield from self.diff(x, y, path + (("f", str(i)),))
            return
        yield path

    # -- blocks
    def block(self, st, fr, bb):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("analysis budget exceeded in " + fr.f["path"])
        b = fr.f["blocks"][bb]
        for s in b["st"]:
            if s["k"] == "=":
                if s["r"].get("fake"):
                    continue
                v = self.rvalue(st, fr, s["r"], s.get("s", ""))
                p = s["p"]
                if not p["p"]:
                    ty = fr.f["locals"][p["l"]]["ty"]
                    if ty in INTTY and v.op not in ("c", "ref"):
                        TYPES.setdefault(v, ty)
                self.write(st, fr, p, v, s.get("s", ""))
            elif s["k"] == "setdiscr":
                pass
        t = b["t"]
        k = t["k"]
        if k == "goto" or k == "drop":
            return [("go", st, t["t"])]
        if k == "return":
            return [("ret", st, self.load(st, (fr.fid, 0)))]
        if k in ("unreachable", "resume", "yield", "other"):
            return []
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "assert":
            return self.assert_(st, fr, t)
        if k == "call":
            return self.call(st, fr, t)
        return []

    def switch(self, st, fr, t):
        v = self.deref(st, self.operand(st, fr, t["o"]))
        ts = t["ts"]
        if is_c(v, "int") or is_c(v, "bool") or is_c(v, "char"):
            n = int(cval(v))
            for x, b in ts:
                if x == n:
                    return [("go", st, b)]
            return [("go", st, t["else"])]
        out = []
        if t["ty"] == "bool":
            done_false = done_true = False
            for x, b in ts:
                s = self.assume(st, v, bool(x))
                if x:
                    done_true = True
                else:
                    done_false = True
                if s:
                    out.append(("go", s, b))
            if not (done_true and done_false):
                s = self.assume(st, v, not done_true)
                if s:
                    out.append(("go", s, t["else"]))
            return [(k, s.copy(), b) for k, s, b in out]
        if v.op == "discr":
            x = v.a[0]
            vs = self.vars.get(x, {})
            rest = st
            seen = set()
            for n, b in ts:
                name = vs.get(n, str(n))
                seen.add(n)
                s = self.assume(st, isvar(x, name), True)
                if s:
                    out.append(("go", s.copy(), b))
                if rest:
                    rest = self.assume(rest, isvar(x, name), False)
            if rest and (not vs or len(seen) < len(vs)):
                out.append(("go", rest.copy(), t["else"]))
            return out
        rest = st
        for n, b in ts:
            c = mk("c", "char", n) if t["ty"] == "char" else I(n)
            s = self.assume(st, eq(v, c), True)
            if s:
                out.append(("go", s.copy(), b))
            if rest:
                rest = self.assume(rest, eq(v, c), False)
        if rest:
            out.append(("go", rest.copy(), t["else"]))
        return out

    def assert_(self, st, fr, t):
        c = self.operand(st, fr, t["o"])
        m = t["m"]
        ops = [self.deref(st, self.operand(st, fr, o)) for o in t["mo"]]
        ok, good = False, None
        if m == "bounds":
            ln, ix = ops
            good = lt(ix, ln)
            ok = self.truth(st, good) is True
            detail = "%s < %s" % (show(ix), show(ln))
        elif m.startswith("overflow:") and c.op == "ovf":
            op, a, b, ty = c.a
            ok, good = self.no_overflow(st, op, a, b, ty)
            detail = "%s %s %s in %s" % (show(a), op, show(b), ty)
        elif m.startswith("overflow:") and len(ops) == 2 and m.split(":")[1] in ("Div", "Rem"):
            ok, detail = True, "signed division"
            if not is_c(ops[1], "int") or cval(ops[1]) == -1:
                ok = False
        elif m.startswith("overflow:") and len(ops) == 2 and m.split(":")[1] in ("Shl", "Shr"):
            ok = is_c(ops[1], "int") and 0 <= cval(ops[1]) < 64
            detail = "shift amount"
        elif m in ("divzero", "remzero"):
            d = ops[0]
            # the operand recorded is the dividend; the divisor is in the condition
            ok = c is FALSE
            detail = "division by zero"
            if not ok:
                r = self.truth(st, c)
                ok = r is not None and r == t["e"]
        else:
            detail = m
            r = self.truth(st, c)
            ok = r is not None and r == t["e"]
        self.oblige(st, fr, t["s"], m, ok, detail, st, good)
        s = st
        if good is not None:
            s = self.assume(st, good, True)
            if s is None:
                return []
        elif c.op not in ("ovf", "c"):
            s = self.assume(st, c, t["e"])
            if s is None:
                return []
        return [("go", s, t["t"])]

    def no_overflow(self, st, op, a, b, ty):
        """(discharged, fact that holds afterwards)"""
        f = st.facts
        if op == "Sub":
            if ty in UNSIGNED:
                g = le(b, a)
                return self.truth(st, g) is True, g
            return not self.untrusted(a) and not self.untrusted(b), None
        if op == "Add":
            v = add(a, b)
            if ty in ("u8", "u16", "u32", "i32", "i8", "i16"):
                return lin.prove_le(f, v, I(MAXV[ty])), le(v, I(MAXV[ty]))
            if lin.prove_le(f, v, I(MAXV[ty])):
                return True, None
            # in-memory lengths, indices and unit-step counters are far from 2^63
            if not self.untrusted(a) and not self.untrusted(b):
                return True, None
            return False, le(v, I(MAXV[ty])) if ty in UNSIGNED else None
        if op == "Mul":
            v = binop("Mul", a, b)
            if ty in MAXV and lin.prove_le(f, v, I(MAXV[ty])):
                return True, None
            return False, le(v, I(MAXV[ty])) if ty in UNSIGNED else None
        return False, None

    def untrusted(self, t):
        """an integer whose value comes from parsing text or from another unbounded source"""
        return has(t, lambda x: (x.op == "app" and (x.a[0].endswith("::parse") or "from_str" in x.a[0])) or
                   (x.op == "arg" and TYPES.get(x) in INTTY and TYPES.get(x) != "usize"))

    # ---------------------------------------------------------------- calls
    def call(self, st, fr, t):
        args = [self.operand(st, fr, a) for a in t["args"]]
        span = t["s"]
        if "fn" in t["f"]:
            fn = t["f"]["fn"]
        else:
            fv = self.operand(st, fr, t["f"])
            fn = None
        dty = ""
        if not t["d"]["p"]:
            dty = fr.f["locals"][t["d"]["l"]]["ty"]
        c = CallSite(self, fr, fn, span, dty, t.get("atys", []))
        if fn is None:
            rs = c.invoke(st, fv, args)
        else:
            rs = self.do_call(st, c, args)
        if t["t"] is None:
            return []
        out = []
        for s, v in self.merge_call(rs):
            s = s.copy()
            if dty in INTTY and v.op not in ("c", "ref"):
                TYPES.setdefault(v, dty)
            self.write(s, fr, t["d"], v, span)
            out.append(("go", s, t["t"]))
        return out

    def merge_call(self, rs):
        return rs

    def do_call(self, st, c, args):
        fn = c.fn
        path, res = fn["path"], fn.get("resolved")
        short = c.short
        hook = self.hooks.get(short) or self.hooks.get(res) or self.hooks.get(path)
        if hook:
            r = hook(self, st, c, args)
            if r is not None:
                return r
        local = None
        LOC = ("octane", "octane_http", "local")
        if res in self.p.fns and fn.get("rkrate", fn.get("krate")) in LOC:
            local = res
        elif path in self.p.fns and fn.get("krate") in LOC:
            local = path
        if local:
            f = self.p.fns[local]
            structural = f["derived"] and short.split("::")[-1] in ("clone", "eq", "ne", "fmt", "hash", "cmp", "partial_cmp", "default")
            if not structural:
                if local in self.opaque or local in st.stack or len(st.stack) > 24:
                    return self.opaque_call(st, c, args, local)
                out = self.exec_fn(st.copy(), f, args, c.span)
                if local.endswith(" as std::clone::Clone>::clone") and args:
                    out = [(s, self.same_parts(s, v, self.deref(s, args[0]))) for s, v in out]
                return out
        m = self.models.get(short)
        if m:
            r = m(self, st, c, args)
            if r is not None:
                return r
        if c.diverges():
            return self.panic(st, c, args)
        return self.opaque_call(st, c, args, short)

    def same_parts(self, st, v, x):
        """a copy put together from all the parts of x is x"""
        t = self.strip(st, v)
        if t.op == "agg" and t.a[2] and x.op != "agg" and all(f is self.strip(st, field(x, n)) for n, f in zip(t.a[2], t.a[3])):
            return x
        return v

    def panic(self, st, c, args):
        bad = not self.infeasible(st) and not self.contradictory(st)
        self.oblige(st, c.fr, c.span, "panic:" + c.short, not bad, "explicit panic reached")
        if bad:
            self.panics.append((st, c.short, c.span))
        return []

    def opaque_call(self, st, c, args, name):
        if name not in self.p.fns:
            self.foreign.add(name)
        st = st.copy()
        sargs = tuple(self.strip(st, a) for a in args)
        muts = []
        for i, a in enumerate(args):
            for r in self.mutrefs(st, a):
                muts.append((i, r))
        tag = None
        if muts or name in self.mod.IMPURE or any(has(a, lambda x: x.op == "clo") for a in sargs):
            tag = st.fresh()
        ret = mk("app", name, sargs, tag)
        info = {"atys": c.atys, "dty": c.dty, "generics": (c.fn or {}).get("args", []), "raw": tuple(args), "muts": tuple(muts), "stack": st.stack}
        ev = Ev("call", name, sargs, ret, c.span, c.fr.f["path"], st.facts, info)
        for i, r in muts:
            self.store(st, r.a[0], r.a[1], mk("mut", name, i, sargs, tag))
        st.log(ev)
        if c.diverges():
            self.oblige(st, c.fr, c.span, "diverge:" + name, False, "call that does not return")
            return []
        return [(st, ret)]

    def mutrefs(self, st, v, d=0):
        """mutable references reachable from an argument value"""
        if v.op == "ref":
            if v.a[2]:
                yield v
            else:
                yield from self.mutrefs(st, self.load(st, v.a[0], v.a[1]), d + 1) if d < 4 else ()
            return
        if d > 4:
            return
        if v.op == "agg":
            for x in v.a[3]:
                yield from self.mutrefs(st, x, d + 1)
        elif v.op in ("clo", "coro"):
            for x in v.a[1]:
                yield from self.mutrefs(st, x, d + 1)
        elif v.op in ("it", "fmtargs", "fmtarg", "entry"):
            for x in v.a:
                if isinstance(x, T):
                    yield from self.mutrefs(st, x, d + 1)

    # run a coroutine / closure value
    def run_coro(self, st, v):
        f = self.p.fn(v.a[0])
        return self.exec_fn(st.copy(), f, [v, mk("taskctx")])


class CallSite:
    __slots__ = ("ip", "fr", "fn", "span", "dty", "atys", "short")

    def __init__(self, ip, fr, fn, span, dty="", atys=()):
        self.ip, self.fr, self.fn, self.span, self.dty, self.atys = ip, fr, fn, span, dty, atys
        self.short = shortname(fn["path"]) if fn else "?"

    def diverges(self):
        return self.dty == "!"

    def ev(self, st, name, args, ret, kind="call", **info):
        ip = self.ip
        info.setdefault("atys", self.atys)
        info.setdefault("dty", self.dty)
        info.setdefault("stack", st.stack)
        st.log(Ev(kind, name, tuple(ip.strip(st, a) for a in args), ret, self.span, self.fr.f["path"], st.facts, info))

    # apply a callable value to arguments -> [(state, ret)]
    def invoke(self, st, clo, args):
        ip = self.ip
        v = clo
        ref = None
        while v.op == "ref":
            ref = v
            v = ip.load(st, v.a[0], v.a[1])
        if v.op == "clo":
            f = ip.p.fn(v.a[0])
            if f is None:
                return self.opaque_fn(st, v, args)
            if v.a[0] in st.stack:
                return ip.opaque_call(st, self, [v] + list(args), v.a[0])
            selfty = f["locals"][1]["ty"]
            st = st.copy()
            if selfty.startswith("&"):
                if ref is None:
                    cell = ("heap", st.fresh())
                    st.mem[cell] = v
                    ref = mk("ref", cell, (), True)
                a0 = ref
            else:
                a0 = v
            return ip.exec_fn(st, f, [a0] + list(args))
        if v.op == "fn":
            res, path = v.a
            # enum/struct constructors used as functions
            last = path.split("::")[-1]
            if last in ("Some", "Ok", "Err"):
                return [(st, {"Some": some, "Ok": ok, "Err": err}[last](args[0]))]
            fnj = {"path": path, "resolved": res, "krate": "local" if res in ip.p.fns or path in ip.p.fns else "?", "args": []}
            c = CallSite(ip, self.fr, fnj, self.span, "", self.atys)
            return ip.do_call(st, c, list(args))
        if v.op == "zst":
            m = re.search(r"fn\(.*\) .*\{(.+)\}$", v.a[0])
            if m:
                path = m.group(1)
                fnj = {"path": path, "resolved": path, "krate": "local" if path in ip.p.fns else "?", "args": []}
                return ip.do_call(st, CallSite(ip, self.fr, fnj, self.span, "", self.atys), list(args))
        return self.opaque_fn(st, clo, args)

    def opaque_fn(self, st, f, args):
        ip = self.ip
        return ip.opaque_call(st, self, [f] + list(args), "callback")
