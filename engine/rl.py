"""Support for the rules: contexts, canonical forms of accumulators, matching helpers."""
import json
import os
import re
import time
import ai
import build
from terms import *
from lin import TYPES

LEAVES = ["http1x::find_in_slice", "StatusCode::fetch", "file_handler::FileHandler::mime_type",
          "time::Time::now", "time::Time::format", "query::unescape_hex"]


class Undecided(Exception):
    pass


class Res:
    """result of analysing an entry: exits [(state, returned value)]"""

    def __init__(self, ip, exits, fn):
        self.ip, self.exits, self.fn = ip, exits, fn

    def __iter__(self):
        return iter(self.exits)

    def cell(self, st, name):
        """final value of the object behind reference argument `name`"""
        return self.ip.strip(st, st.mem[("arg", name)])

    def ret(self, st, v):
        return self.ip.strip(st, v)


class Ctx:
    def __init__(self, pid, tier, cfgs):
        self.pid, self.tier = pid, tier
        self.cfgs = cfgs
        self.dir, self.tree = build.dump(cfgs)
        self.progs = {}
        self.obl = []
        self.index = {}
        self.fns = set()
        self.cfg = None
        self.sites = 0
        self.merged = False
        self.foreign = set()

    def prog(self, cfg=None):
        cfg = cfg or self.cfg
        p = self.progs.get(cfg)
        if p is None:
            p = self.progs[cfg] = ai.Prog(self.dir, cfg)
        return p

    def feature(self, f):
        return f in self.prog().features

    # ------------------------------------------------------------ verdicts
    def rec(self, verdict, rule, construct, detail):
        k = (self.cfg, rule, construct, verdict, detail)
        o = self.index.get(k)
        if o is None:
            o = self.index[k] = {"config": self.cfg, "rule": rule, "construct": construct, "verdict": verdict, "detail": detail, "times": 0}
            self.obl.append(o)
        o["times"] += 1

    def ok(self, rule, construct, detail=""):
        SHOWN.clear()
        self.rec("holds", rule, construct, detail)

    def unfamiliar(self):
        """a library function the rules have no knowledge of in the terms the verdict cites"""
        new = self.foreign - VOCABULARY
        if not new:
            return None
        for t in SHOWN:
            for x in subterms(t):
                if x.op in ("app", "mut") and x.a[0] in new:
                    return x.a[0]

    def bad(self, rule, construct, detail):
        if self.merged:
            # paths were joined to stay within the budget: their facts are incomplete, so nothing can be concluded from what is missing
            self.rec("undecided", rule, construct, detail + " (after joining paths)")
        else:
            new = self.unfamiliar()
            if new:
                self.rec("undecided", rule, construct, "%s (%s is not understood)" % (detail, new))
            else:
                self.rec("violated", rule, construct, detail)
        SHOWN.clear()

    def und(self, rule, construct, detail):
        SHOWN.clear()
        self.rec("undecided", rule, construct, detail)

    def req(self, cond, rule, construct, detail_bad, detail_ok=""):
        if cond:
            self.ok(rule, construct, detail_ok)
        elif rule == "coverage":
            self.und(rule, construct, detail_bad)
        else:
            self.bad(rule, construct, detail_bad)
        return cond

    # ------------------------------------------------------------ analysis
    def find(self, path, sig=None):
        """the function `path`; if it is not there, the only one with that signature pattern"""
        p = self.prog()
        if path in p.fns:
            return path
        if sig:
            c = [f["path"] for f in p.fns.values() if "{closure" not in f["path"] and re.search(sig, fsig(f))]
            if len(c) == 1:
                return c[0]
        return None

    def anchor(self, path, sig=None):
        f = self.find(path, sig)
        if f is None:
            raise Undecided(path)
        return f

    def interp(self, opaque=(), transparent=(), budget=60000):
        p = self.prog()
        opq = [x for x in list(LEAVES) + list(opaque) if x not in transparent]
        ip = ai.Interp(p, opaque=opq, budget=budget)
        ip.foreign = self.foreign
        return ip

    def run(self, fn, names=None, opaque=(), transparent=(), args=None, st=None, ip=None, budget=60000, pre=None, keep=None):
        ip = ip or self.interp(opaque, tuple(transparent) + (fn,), budget)
        if keep:
            ip.keep = keep
        st = st or ai.State()
        if pre:
            pre(ip, st)
        outs = ip.run(fn, args=args, st=st, names=names)
        self.merged |= ip.merged
        outs = [(s, v) for s, v in outs if not ip.infeasible(s)]
        self.fns |= ip.analysed
        self.sites += ip.steps
        return Res(ip, outs, fn)


def fsig(f):
    return "(%s) -> %s" % (", ".join(f["locals"][i]["ty"] for i in range(1, f["argc"] + 1)), f["ret"])


# ---------------------------------------------------------------- canonical accumulators
class Star:
    """zero or more items per element of a driver: alternatives (conditions, items)"""

    def __init__(self, drv, alts, loop):
        self.drv, self.alts, self.loop = drv, alts, loop

    def __repr__(self):
        return "Star(%s: %s)" % (show(self.drv) if self.drv else None,
                                 " | ".join("[%s] %s" % (", ".join(("" if v else "!") + show(k) for k, v in c), [show(x) if isinstance(x, T) else repr(x) for x in it]) for c, it in self.alts))


X = mk("arg", "$x")
XI = mk("arg", "$i")


def src_of(it):
    """the underlying sequence an iterator value walks, below element-wise adapters"""
    while it.op == "it" and it.a[0] in ("map", "filter", "fmap", "inspect", "enum"):
        it = it.a[1]
    return it


WIDTH = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "char": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128}


def uncast(t):
    """t below integer conversions that keep every value (64-bit targets)"""
    while t.op == "cast" and WIDTH.get(t.a[0], 0) >= WIDTH.get(t.a[1], 999):
        t = t.a[2]
    return t


def counter_of(L):
    """an index variable i with init 0, i := i+1 on every path"""
    out = []
    for phi, init in L.init.items():
        if is_c(init, "int") and cval(init) == 0 and all(v[phi] is add(phi, I(1)) for _, v in L.backs):
            out.append(phi)
    return out


def loop_norm(ip, L):
    """(driver term, substitution of the item by $x) of a loop, whatever way it walks its sequence"""
    m = {}
    drv = L.drv
    if drv is not None:
        s = src_of(drv)
        if s.op == "it" and s.a[0] == "range" and is_c(s.a[1], "int") and cval(s.a[1]) == 0 and len(s.a) == 3 and s.a[2].op == "len":
            seq = s.a[2].a[0]
            return mk("it", "elems", seq), ("index", seq, s)
        return s, ("elem", s, None)
    # while i < seq.len()
    for phi in counter_of(L):
        for st, _ in L.backs:
            for k, v in st.facts.items():
                if v and k.op == "lt" and k.a[0] is phi and k.a[1].op == "len":
                    return mk("it", "elems", k.a[1].a[0]), ("index", k.a[1].a[0], phi)
    return None, None


def item_subst(L, spec, t):
    """replace the loop's current item by $x"""
    if spec is None:
        return t
    kind, s, ix = spec
    m = {}
    for x in subterms(t):
        if x.op == "elem" and x.a[1] == L.id and x.a[2] == 0:
            if kind == "elem" and (x.a[0] is s):
                m[x] = X
            elif x.a[0].op == "it" and x.a[0].a[0] == "count":
                m[x] = XI
        if kind == "index" and x.op == "index" and x.a[0] is s and (x.a[1] is ix or (x.a[1].op == "elem" and x.a[1].a[0] is ix and x.a[1].a[1] == L.id)):
            m[x] = X
    return subst(t, m) if m else t


def newfacts(L, st):
    return [(k, v) for k, v in st.facts.items() if L.headfacts.get(k) is None and k.op != "more"]


def acc(ip, st, t, depth=0, stop=()):
    """canonical form of an accumulated string / sequence / map: list of parts and Stars"""
    t = ip.strip(st, t)
    if depth > 12:
        return [t]
    if t in stop:
        return [t]
    if t.op == "phi" and t in ip.phi_loop:
        L = ip.phi_loop[t]
        init = L.init.get(t)
        if init is None:
            return [t]
        drv, spec = loop_norm(ip, L)
        alts = []
        for s, vals in L.backs:
            v = ip.strip(s, vals[t])
            if v is t:
                alts.append((tuple((item_subst(L, spec, k), b) for k, b in newfacts(L, s)), []))
                continue
            parts = acc(ip, s, v, depth + 1, stop + (t,))
            if parts and parts[0] is t:
                items = [item_subst(L, spec, x) if isinstance(x, T) else x for x in parts[1:]]
            else:
                items = ["reset"] + parts
            alts.append((tuple((item_subst(L, spec, k), b) for k, b in newfacts(L, s)), items))
        return acc(ip, L.pre, init, depth + 1, stop) + [Star(drv, alts, L)]
    if t.op == "cat":
        out = []
        for x in t.a[0]:
            out += acc(ip, st, x, depth + 1, stop) if x.op in ("phi", "cat") else [x]
        return mergelit(out)
    if t.op == "push":
        return acc(ip, st, t.a[0], depth + 1, stop) + [ip.strip(st, t.a[1])]
    if t.op in ("minsert", "mset", "setinsert"):
        return acc(ip, st, t.a[0], depth + 1, stop) + [mk("ins", *[ip.strip(st, x) for x in t.a[1:]])]
    if t.op == "concat":
        out = []
        for x in t.a[0]:
            out += acc(ip, st, x, depth + 1, stop)
        return out
    if t.op == "seq":
        return list(t.a[0])
    if t.op == "emptymap" or t is S(""):
        return []
    if t.op == "extended":
        return acc(ip, st, t.a[0], depth + 1, stop) + [mk("more_from", t.a[1])]
    return [t]


def mergelit(xs):
    out = []
    for x in xs:
        if isinstance(x, T) and out and isinstance(out[-1], T) and is_c(x, "str") and is_c(out[-1], "str"):
            out[-1] = S(out[-1].a[1] + x.a[1])
        else:
            out.append(x)
    return out


# ---------------------------------------------------------------- small matchers
def fact(st, t, default=None):
    return st.facts.get(t, default)


def varname(st, ip, t):
    """which variant a value is known to have, from the facts"""
    if t.op == "agg":
        return t.a[1]
    for k, v in st.facts.items():
        if k.op == "isvar" and k.a[0] is t and v:
            return k.a[1]
    return None


SHOWN = []
# library functions the rules know although they have no model: those the code of this repository calls, plus a few the rules look for
VOCABULARY = {x.strip() for x in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "vocabulary.txt"))}


def sh(t, n=300):
    if isinstance(t, T):
        SHOWN.append(t)
    s = show(t) if isinstance(t, T) else repr(t)
    return s if len(s) <= n else s[:n] + "…"


# library calls whose meaning is known and is never that of an equality test or of leaving a value as it is
PLAIN = re.compile(r"^(str::(eq_ignore_ascii_case|to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|trim|trim_matches|trim_start|trim_end"
                   r"|trim_start_matches|trim_end_matches|starts_with|ends_with|contains|len|find|rfind|replace)|Path::(file_name|file_stem|extension|parent)"
                   r"|OsStr::to_str|query::unescape_hex)$")


def strange(t, *known):
    """a call in the term that the rules give no meaning to"""
    for x in subterms(t):
        if x.op in ("app", "mut") and x.a[0] not in known and not (x.op == "app" and PLAIN.match(x.a[0])):
            return x.a[0]
        if x.op in ("unk", "top", "havoc"):
            return x.op
        if x.op == "it" and x.a[0] in ("flatten", "flatmap", "chain"):
            return x.a[0]
    return None


def judge(c, good, rule, where, detail, terms=(), known=()):
    """violated only if everything the verdict rests on is understood"""
    if good:
        c.ok(rule, where)
        return True
    for t in terms:
        s = strange(t, *known)
        if s:
            c.und(rule, where, "%s (through %s)" % (detail, s))
            return False
    c.bad(rule, where, detail)
    return False


def events(st, *kinds):
    return [e for e in st.events() if e.kind in kinds]


def flat_events(st, into_loops=True):
    """events including, once, the ones in loop bodies and spawned tasks"""
    out = []
    for e in st.events():
        out.append(e)
    return out


def mapform(t):
    """(base map, {key term: value term}) of a chain of insertions under distinct keys"""
    chain = []
    while t.op in ("minsert", "mset", "ins"):
        chain.append((t.a[1], t.a[2]))
        t = t.a[0]
    d = {}
    for k, v in reversed(chain):
        d[k] = v
    return t, d


def lookup(m, key):
    """value the map holds under a constant key: a term, or None if the base decides"""
    b, d = mapform(m)
    for k, v in d.items():
        if cstr(k) == key:
            return v
    return None


# ---------------------------------------------------------------- exact sets of characters / small integers
UNK = object()


def pev(t, env):
    """value of a term over finitely many atoms (env: term -> int), UNK where something else is involved"""
    if t in env:
        return env[t]
    if t.op == "c":
        return t.a[1]
    if t.op == "not":
        v = pev(t.a[0], env)
        return UNK if v is UNK else not v
    if t.op in ("lt", "eq"):
        a, b = pev(t.a[0], env), pev(t.a[1], env)
        if a is UNK or b is UNK:
            return UNK
        if isinstance(a, str) and isinstance(b, int) and not isinstance(b, bool) and len(a) == 1:
            a = ord(a)
        if isinstance(b, str) and isinstance(a, int) and not isinstance(a, bool) and len(b) == 1:
            b = ord(b)
        if t.op == "eq":
            return a == b
        return a < b if type(a) is type(b) or (isinstance(a, int) and isinstance(b, int)) else UNK
    if t.op == "bin":
        a, b = pev(t.a[1], env), pev(t.a[2], env)
        if a is UNK or b is UNK:
            return UNK
        o = t.a[0]
        try:
            return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b,
                    "BitXor": lambda: a ^ b, "Shl": lambda: a << b, "Shr": lambda: a >> b}[o]()
        except (KeyError, TypeError):
            if o in ("Div", "Rem") and isinstance(a, int) and isinstance(b, int) and b > 0 and a >= 0:
                return a // b if o == "Div" else a % b
            return UNK
    if t.op == "cast":
        v = pev(t.a[-1], env)
        if v is UNK or not isinstance(v, int):
            return v if v is UNK else UNK
        bits = {"u8": 8, "u16": 16, "u32": 32, "char": 32}.get(t.a[0])
        return v & ((1 << bits) - 1) if bits else v
    if t.op == "inset":
        v = pev(t.a[0], env)
        if v is UNK or t.a[1].op != "charset":
            return UNK
        return any(lo <= v <= hi for lo, hi in t.a[1].a[0])
    if t.op == "ite":
        v = pev(t.a[0], env)
        return UNK if v is UNK else pev(t.a[1] if v else t.a[2], env)
    if t.op == "app" and t.a[0] in ("u8::to_ascii_lowercase", "char::to_ascii_lowercase", "char::to_ascii_uppercase", "u8::to_ascii_uppercase"):
        v = pev(t.a[1][0], env)
        if v is UNK:
            return UNK
        if "lower" in t.a[0]:
            return v + 32 if 65 <= v <= 90 else v
        return v - 32 if 97 <= v <= 122 else v
    if t.op == "agg" and not t.a[3]:
        return t
    return spev(t, env)


def rev(s):
    return s[::-1]


def cutoff(s, p):
    """s without the characters or repeated text p at its start"""
    while s and (p(s[0]) if callable(p) else p != "" and s.startswith(p)):
        s = s[1:] if callable(p) else s[len(p):]
    return s


def spat(p, env):
    """a search pattern as a predicate on characters or a text"""
    if p.op == "charset":
        return lambda ch: any(lo <= ord(ch) <= hi for lo, hi in p.a[0])
    v = pev(p, env)
    if p.op == "c" and p.a[0] == "char" and isinstance(v, int):
        return chr(v)
    return v if isinstance(v, str) else UNK


def spev(t, env):
    """values of operations on (ASCII) text"""
    if t.op == "len":
        v = pev(t.a[0], env)
        return len(v) if isinstance(v, str) and v.isascii() else UNK
    if t.op == "cat":
        vs = [pev(x, env) for x in t.a[0]]
        return "".join(vs) if all(isinstance(x, str) for x in vs) else UNK
    if t.op == "slice":
        v, lo = pev(t.a[0], env), pev(t.a[1], env)
        hi = len(v) if t.a[2] is None and isinstance(v, str) else UNK if t.a[2] is None else pev(t.a[2], env)
        if not isinstance(v, str) or not v.isascii() or UNK in (lo, hi) or not 0 <= lo <= hi <= len(v):
            return UNK
        return v[lo:hi]
    if t.op in ("isvar", "vfld") and t.a[0].op == "app" and t.a[0].a[0] in ("str::find", "str::rfind"):
        f = pev(t.a[0], env)
        if f is UNK:
            return UNK
        if t.op == "isvar":
            return (f is not None) == (t.a[1] == "Some")
        return UNK if f is None else f
    if t.op != "app" or not t.a[0].startswith("str::") or not t.a[1]:
        return UNK
    n = t.a[0][5:]
    v = pev(t.a[1][0], env)
    if not isinstance(v, str) or not v.isascii():
        return UNK
    if n in ("to_lowercase", "to_ascii_lowercase"):
        return v.lower()
    if n in ("to_uppercase", "to_ascii_uppercase"):
        return v.upper()
    if n == "is_ascii":
        return True
    if len(t.a[1]) != 2:
        return UNK
    p = spat(t.a[1][1], env)
    if p is UNK:
        return UNK
    if n == "eq_ignore_ascii_case":
        return UNK if callable(p) else v.lower() == p.lower()
    if n == "starts_with":
        return p(v[0]) if callable(p) and v else v.startswith(p) if not callable(p) else False
    if n == "ends_with":
        return p(v[-1]) if callable(p) and v else v.endswith(p) if not callable(p) else False
    if n in ("find", "rfind"):
        if callable(p):
            ix = [i for i, ch in enumerate(v) if p(ch)]
        else:
            i = v.find(p) if n == "find" else v.rfind(p)
            ix = [i] if i >= 0 else []
        return None if not ix else ix[0] if n == "find" else ix[-1]
    if n in ("trim_start_matches", "trim_matches", "trim_end_matches"):
        if n != "trim_end_matches":
            v = cutoff(v, p)
        if n != "trim_start_matches":
            v = rev(cutoff(rev(v), p if callable(p) else rev(p)))
        return v
    return UNK


def consistent(facts, env):
    """no fact is refuted when the atoms have these values"""
    for k, v in facts:
        r = pev(k, env)
        if r is not UNK and bool(r) != bool(v):
            return False
    return True


# every character the code distinguishes is below this, or one of a few representatives above
ALPHABET = list(range(0, 0x300)) + [0x2028, 0x3000, 0xff10, 0xff21, 0x1d7d8, 0x10ffff]


def alphabet(terms):
    """representatives of all characters: every constant in the terms and its neighbours, and all small ones"""
    out = set(ALPHABET)
    for t in terms:
        for x in subterms(t):
            if x.op == "c" and isinstance(x.a[1], int) and not isinstance(x.a[1], bool):
                out |= {x.a[1] - 1, x.a[1], x.a[1] + 1}
            elif x.op == "c" and x.a[0] in ("char", "str") and isinstance(x.a[1], str) and len(x.a[1]) == 1:
                out |= {ord(x.a[1]) - 1, ord(x.a[1]), ord(x.a[1]) + 1}
            elif x.op == "charset":
                for lo, hi in x.a[0]:
                    out |= {lo - 1, lo, hi, hi + 1}
    return sorted(v for v in out if 0 <= v <= 0x10ffff)


# ---------------------------------------------------------------- equality and copies of the program's own types
def own_impl(p, ty, trait, method):
    """a hand-written impl of the trait for one of the program's types: its function"""
    for path, f in p.fns.items():
        mm = re.match(r"^<(.+) as ([\w:]+)(<.*>)?>::(\w+)$", path)
        if mm and mm.group(4) == method and mm.group(2).split("::")[-1] == trait and re.sub(r"<.*>$", "", mm.group(1)) == ty and not f["derived"]:
            if mm.group(3) is None or re.sub(r"<.*>$", "", mm.group(3)[1:-1]) == ty:
                return path
    return None


def structural(c, *types):
    """the rules read == on the program's own types, keys of maps among them, as equality of all parts and clone as an equal value: so it must be"""
    p = c.prog()
    for ty in types:
        d = p.adts.get(ty)
        if d is None:
            continue
        rule = "equality of %s compares every part, and a copy is equal" % ty.split("::")[-1]
        eqs, cl = own_impl(p, ty, "PartialEq", "eq"), own_impl(p, ty, "Clone", "clone")
        if not eqs and not cl:
            c.ok(rule, ty, "derived")

        def value(v, who):
            names = [x["name"] for x in v["fields"]]
            return agg(ty, v["name"], names, [mk("arg", "%s.%s" % (who, n)) for n in names])
        if cl:
            for v in d["variants"]:
                x = value(v, "a")
                r = c.run(cl, None, args=[x])
                for st, out in r:
                    out = r.ret(st, out)
                    same = out is x or out.op == "agg" and out.a[1] == x.a[1] and len(out.a[3]) == len(x.a[3]) and all(field_of(out, x, i) for i in range(len(x.a[3])))
                    judge(c, same, rule, cl, "the copy of %s is %s" % (sh(x, 100), sh(out, 200)), [out], ("str::to_ascii_lowercase", "str::to_lowercase", "slice::min"))
        if eqs:
            for v in d["variants"]:
                for w in d["variants"]:
                    x, y = value(v, "a"), value(w, "b")
                    r = c.run(eqs, None, args=[x, y])
                    for st, out in r:
                        equal_exit(c, r, st, r.ret(st, out), v is w, x, y, rule, eqs)


def field_of(out, x, i):
    n = x.a[2][i]
    return n in out.a[2] and out.a[3][out.a[2].index(n)] is x.a[3][i]


def equal_exit(c, r, st, out, samevar, x, y, rule, where):
    pairs = list(zip(x.a[3], y.a[3])) if samevar else []
    if out.op not in ("c",):
        todo = [(t, b) for b in (True, False) for t in [r.ip.assume(st, out, b)] if t is not None]
    else:
        todo = [(st, cval(out))]
    for s, b in todo:
        odd = next((k for k in s.facts if strange(k, "str::eq_ignore_ascii_case", "str::to_lowercase", "str::to_ascii_lowercase")), None)
        same = [s.facts.get(eq(p, q)) is True for p, q in pairs]
        diff = any(s.facts.get(eq(p, q)) is False for p, q in pairs)
        good = b is True and samevar and all(same) or b is False and (not samevar or diff)
        detail = "%s and %s are %s under %s" % (sh(x, 80), sh(y, 80), "equal" if b else "different", [("" if v else "not ") + sh(k, 80) for k, v in s.facts.items()])
        if good:
            c.ok(rule, where)
        elif odd is not None or any(k.op == "more" for k in s.facts) or not isinstance(b, bool):
            c.und(rule, where, detail)
        else:
            c.bad(rule, where, detail)
