"""Hash-consed value terms of the abstract domain (value numbering / provenance).

A term names the value a place may hold in terms of the analysed function's
inputs and of the calls that produced it.  References, clones, owned/borrowed
conversions and `Deref` are transparent, so a term answers "where does this
value come from" independently of how the code spells it.
"""

_tab = {}


class T:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        _tab[k] = t
    return t


# ---------------------------------------------------------------- constants
def I(n):
    return mk("c", "int", n)


def B(b):
    return TRUE if b else FALSE


def S(s):
    return mk("c", "str", s)


TRUE = mk("c", "bool", True)
FALSE = mk("c", "bool", False)
UNIT = mk("agg", "tuple", None, (), ())
EMPTYSEQ = mk("seq", ())
EMPTYMAP = mk("emptymap")


def is_c(t, kind=None):
    return t.op == "c" and (kind is None or t.a[0] == kind)


def cval(t):
    return t.a[1]


def cstr(t):
    """constant string behind a str/char/ascii-bytes constant, or None"""
    if t.op == "c":
        if t.a[0] == "str":
            return t.a[1]
        if t.a[0] == "char":
            return chr(t.a[1])
        if t.a[0] == "bytes":
            try:
                return bytes(t.a[1]).decode("utf8")
            except UnicodeDecodeError:
                return None
    if t.op == "seq" and t.a[0] and all(is_c(x, "char") for x in t.a[0]):
        return None
    return None


def agg(adt, variant, names, fields):
    return mk("agg", adt, variant, tuple(names), tuple(fields))


def tup(*fs):
    return agg("tuple", None, [str(i) for i in range(len(fs))], fs)


def some(x):
    return agg("std::option::Option", "Some", ("0",), (x,))


NONE = agg("std::option::Option", "None", (), ())


def ok(x):
    return agg("std::result::Result", "Ok", ("0",), (x,))


def err(x):
    return agg("std::result::Result", "Err", ("0",), (x,))


def ready(x):
    return agg("std::task::Poll", "Ready", ("0",), (x,))


def variant(t):
    return t.a[1] if t.op == "agg" else None


def field(t, name):
    """field of an aggregate (by name) or a projection term"""
    if t.op == "agg":
        if name in t.a[2]:
            return t.a[3][t.a[2].index(name)]
        return mk("fld", t, name)
    if t.op in ("clo", "coro"):
        return t.a[1][int(name)]
    if t.op == "with":
        for k, v in t.a[1]:
            if k == ("f", name):
                return v
        return field(t.a[0], name)
    if t.op == "c" and t.a[0] == "tuple":
        return mk("fld", t, name)
    return mk("fld", t, name)


PAIR = {"None": "Some", "Err": "Ok", "Pending": "Ready", "Break": "Continue"}
PAIRED = frozenset(PAIR.values())


def isvar(t, v):
    """the (boolean) term `t is of variant v`, canonical for two-variant std enums"""
    if t.op == "agg":
        if v in PAIRED and t.a[1] not in PAIR and t.a[1] not in PAIRED:
            return B(True)      # of another enum: see PAIRED in ai.truth
        return B(t.a[1] == v)
    if v in PAIR:
        return neg(isvar(t, PAIR[v]))
    if t.op == "with":
        return isvar(t.a[0], v)
    return mk("isvar", t, v)


def vfield(t, v, name):
    if t.op == "agg":
        if t.a[1] == v:
            return field(t, name)
        return mk("vfld", t, v, name)
    if t.op == "with":
        for k, x in t.a[1]:
            if k == ("vf", v, name):
                return x
        return vfield(t.a[0], v, name)
    return mk("vfld", t, v, name)


def payload(t, v):
    return vfield(t, v, "0")


# ---------------------------------------------------------------- booleans / ints
def neg(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.a[0]
    return mk("not", t)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        if a.a[0] == b.a[0]:
            return FALSE
        sa, sb = cstr(a), cstr(b)
        if sa is not None and sb is not None:
            return B(sa == sb)
        if {a.a[0], b.a[0]} == {"char", "int"}:
            return B(a.a[1] == b.a[1])
        return mk("eq", a, b)
    if a.op == "agg" and b.op == "agg" and a.a[1] is not None and b.a[1] is not None and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        if not a.a[3]:
            return TRUE
    # comparison with a field-less variant is a variant test
    for x, y in ((a, b), (b, a)):
        if y.op == "agg" and y.a[1] is not None and not y.a[3] and x.op != "agg":
            return isvar(x, y.a[1])
    if a.op == "c" or (b.op != "c" and a.id > b.id):
        a, b = b, a
    # length zero tests of strings
    if cstr(b) == "" and b.a[0] == "str":
        return mk("eq", mklen(a), I(0)) if not is_c(mklen(a)) else B(cval(mklen(a)) == 0)
    return mk("eq", a, b)


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c" and isinstance(a.a[1], int) and isinstance(b.a[1], int):
        return B(a.a[1] < b.a[1])
    return mk("lt", a, b)


def le(a, b):
    return neg(lt(b, a))


def _lin(t, sign, acc):
    """linear form over atoms of a sum/difference term"""
    if is_c(t, "int"):
        return sign * cval(t)
    if t.op == "bin" and t.a[0] == "Add":
        return _lin(t.a[1], sign, acc) + _lin(t.a[2], sign, acc)
    if t.op == "bin" and t.a[0] == "Sub":
        return _lin(t.a[1], sign, acc) + _lin(t.a[2], -sign, acc)
    acc[t] = acc.get(t, 0) + sign
    return 0


def _sum(a, b, sb):
    acc = {}
    c = _lin(a, 1, acc) + _lin(b, sb, acc)
    pos, negs = [], []
    for t, k in acc.items():
        if abs(k) > 1:
            return mk("bin", "Add" if sb > 0 else "Sub", a, b)
        if k:
            (pos if k > 0 else negs).append(t)
    if not pos:
        if negs:
            r = I(c)
            for t in sorted(negs, key=lambda t: t.id):
                r = mk("bin", "Sub", r, t)
            return r
        return I(c)
    pos.sort(key=lambda t: t.id)
    r = pos[0]
    for t in pos[1:]:
        r = mk("bin", "Add", r, t)
    for t in sorted(negs, key=lambda t: t.id):
        r = mk("bin", "Sub", r, t)
    if c:
        r = mk("bin", "Add", r, I(c)) if c > 0 else mk("bin", "Sub", r, I(-c))
    return r


def add(a, b):
    """canonical sum: a linear combination is written one way whatever the source's association"""
    return _sum(a, b, 1)


def sub(a, b):
    return _sum(a, b, -1)


def binop(op, a, b):
    if op == "Add":
        return add(a, b)
    if op == "Sub":
        return sub(a, b)
    if op == "Mul" and is_c(a, "int") and is_c(b, "int"):
        return I(cval(a) * cval(b))
    if op == "Eq":
        return eq(a, b)
    if op == "Ne":
        return neg(eq(a, b))
    if op == "Lt":
        return lt(a, b)
    if op == "Gt":
        return lt(b, a)
    if op == "Le":
        return le(a, b)
    if op == "Ge":
        return le(b, a)
    if op in ("BitAnd", "BitOr", "BitXor"):
        if a.op == "c" and b.op == "c" and a.a[0] == b.a[0] and a.a[0] in ("int", "bool"):
            x, y = a.a[1], b.a[1]
            r = x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y
            return B(r) if a.a[0] == "bool" else I(r)
        if op == "BitAnd" and (a is TRUE or b is TRUE):
            return b if a is TRUE else a
        if op == "BitAnd" and (a is FALSE or b is FALSE):
            return FALSE
        if op == "BitOr" and (a is FALSE or b is FALSE):
            return b if a is FALSE else a
        if op == "BitOr" and (a is TRUE or b is TRUE):
            return TRUE
    if op in ("Div", "Rem") and is_c(a, "int") and is_c(b, "int") and cval(b):
        x, y = cval(a), cval(b)
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        return I(q if op == "Div" else x - q * y)
    return mk("bin", op, a, b)


# ---------------------------------------------------------------- strings, slices
def mklen(t):
    if t.op == "c":
        if t.a[0] == "str":
            return I(len(t.a[1].encode("utf8")))
        if t.a[0] == "bytes":
            return I(len(t.a[1]))
        if t.a[0] == "char":
            return I(len(chr(t.a[1]).encode("utf8")))
    if t.op == "seq":
        return I(len(t.a[0]))
    if t.op == "repeat" and isinstance(t.a[1], int):
        return I(t.a[1])
    if t.op == "emptymap":
        return I(0)
    if t.op == "slice":
        return sub(t.a[2] if t.a[2] is not None else mklen(t.a[0]), t.a[1])
    return mk("len", t)


def cat(*parts):
    """string concatenation, flattened, constants merged"""
    out = []
    for p in parts:
        segs = p.a[0] if p.op == "cat" else (p,)
        for s in segs:
            c = cstr(s)
            if c is not None:
                if c == "":
                    continue
                if out and is_c(out[-1], "str"):
                    out[-1] = S(out[-1].a[1] + c)
                    continue
                s = S(c)
            out.append(s)
    if not out:
        return S("")
    if len(out) == 1:
        return out[0]
    return mk("cat", tuple(out))


def mkslice(b, lo, hi):
    """b[lo..hi]; hi None = to the end"""
    if b.op == "slice":
        bb, blo, bhi = b.a
        nlo = add(blo, lo)
        nhi = add(blo, hi) if hi is not None else bhi
        return mkslice(bb, nlo, nhi)
    if hi is not None and hi is mklen(b):
        hi = None
    if is_c(lo, "int") and cval(lo) == 0 and hi is None:
        return b
    if is_c(b, "str") and is_c(lo, "int") and (hi is None or is_c(hi, "int")):
        raw = b.a[1].encode("utf8")
        try:
            return S(raw[cval(lo): (None if hi is None else cval(hi))].decode("utf8"))
        except UnicodeDecodeError:
            pass
    return mk("slice", b, lo, hi)


def index(b, i):
    if b.op == "seq" and is_c(i, "int") and 0 <= cval(i) < len(b.a[0]):
        return b.a[0][cval(i)]
    if is_c(b, "bytes") and is_c(i, "int") and 0 <= cval(i) < len(b.a[1]):
        return I(b.a[1][cval(i)])
    if is_c(b, "str") and is_c(i, "int") and 0 <= cval(i) < len(b.a[1].encode("utf8")):
        return I(b.a[1].encode("utf8")[cval(i)])
    if b.op == "iset":
        if b.a[1] is i:
            return b.a[2]
        if is_c(b.a[1], "int") and is_c(i, "int"):
            return index(b.a[0], i)
        return mk("index", b, i)
    if b.op == "repeat":
        return b.a[0]
    if b.op == "slice":
        return index(b.a[0], add(b.a[1], i))
    if b.op == "collect" and is_c(i, "int"):
        return payload(nth(b.a[0], cval(i)), "Some")
    return mk("index", b, i)


def nth(it, n):
    """the n-th item (an Option) of an iterator value"""
    if it.op == "it":
        if it.a[0] == "elems" and it.a[1].op == "seq":
            xs = it.a[1].a[0]
            return some(xs[n]) if n < len(xs) else NONE
        if it.a[0] == "skip" and is_c(it.a[2], "int"):
            return nth(it.a[1], n + cval(it.a[2]))
    return mk("nth", it, n)


# ---------------------------------------------------------------- maps
def mget(m, k):
    """HashMap lookup: an Option term"""
    if m.op == "emptymap":
        return NONE
    if m.op in ("minsert", "mset"):
        mm, kk, v = m.a
        if kk is k:
            return some(v)
        a, b = cstr(kk), cstr(k)
        if a is not None and b is not None and a != b:
            return mget(mm, k)
        if kk.op == "agg" and k.op == "agg" and not kk.a[3] and not k.a[3] and kk.a[1] != k.a[1]:
            return mget(mm, k)
    if m.op == "mremove" and m.a[1] is k:
        return NONE
    if m.op == "with":
        m = m.a[0]
    return mk("mget", m, k)


def minsert(m, k, v):
    if m.op in ("minsert", "mset") and m.a[1] is k:
        return mk("minsert", m.a[0], k, v)
    return mk("minsert", m, k, v)


# ---------------------------------------------------------------- utilities
def subterms(t, seen=None):
    """all sub-terms, each once"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)


def contains(t, u):
    return any(x is u for x in subterms(t))


def has(t, pred):
    return any(pred(x) for x in subterms(t))


def subst(t, m):
    """replace sub-terms (dict T->T), rebuilding through the smart constructors"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            a = tuple(go(y) for y in x.a)
            r = x if all(p is q or p == q for p, q in zip(a, x.a)) else rebuild(x.op, a)
            memo[x] = r
        return r

    return go(t)


def rebuild(op, a):
    if op == "fld":
        return field(*a)
    if op == "vfld":
        return vfield(*a)
    if op == "isvar":
        return isvar(*a)
    if op == "not":
        return neg(*a)
    if op == "eq":
        return eq(*a)
    if op == "lt":
        return lt(*a)
    if op == "bin":
        return binop(*a)
    if op == "len":
        return mklen(*a)
    if op == "cat":
        return cat(*a[0])
    if op == "slice":
        return mkslice(*a)
    if op == "index":
        return index(*a)
    if op == "mget":
        return mget(*a)
    if op == "nth":
        return nth(*a)
    return mk(op, *a)


def show(t, d=0):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if d > 14:
        return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == "c":
        return repr(a[1]) if a[0] != "char" else repr(chr(a[1])) + "c"
    if o == "agg":
        n = a[0].split("::")[-1] + ("::" + a[1] if a[1] and a[1] != a[0].split("::")[-1] else "")
        if a[0] == "tuple":
            return "(" + ", ".join(map(s, a[3])) + ")"
        return n + ("{" + ", ".join("%s: %s" % (k, s(v)) for k, v in zip(a[2], a[3])) + "}" if a[3] else "")
    if o == "fld":
        return s(a[0]) + "." + a[1]
    if o == "vfld":
        return "%s!%s%s" % (s(a[0]), a[1], "" if a[2] == "0" else "." + a[2])
    if o == "isvar":
        return "%s is %s" % (s(a[0]), a[1])
    if o == "not":
        return "!" + s(a[0])
    if o == "eq":
        return "(%s == %s)" % (s(a[0]), s(a[1]))
    if o == "lt":
        return "(%s < %s)" % (s(a[0]), s(a[1]))
    if o == "bin":
        return "(%s %s %s)" % (s(a[1]), {"Add": "+", "Sub": "-", "Mul": "*"}.get(a[0], a[0]), s(a[2]))
    if o == "arg":
        return a[0]
    if o == "app":
        return "%s(%s)%s" % (a[0], ", ".join(map(s, a[1])), "#%s" % a[2] if a[2] else "")
    if o == "mut":
        return "%s'%s(%s)" % (a[0], a[1], ", ".join(map(s, a[2])))
    if o == "phi":
        return "φ%s.%s" % (a[0], ".".join(map(str, a[1:])))
    if o == "cat":
        return "⟨" + " ".join(map(s, a[0])) + "⟩"
    if o == "slice":
        return "%s[%s..%s]" % (s(a[0]), s(a[1]), "" if a[2] is None else s(a[2]))
    if o == "index":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "seq":
        return "[" + ", ".join(map(s, a[0])) + "]"
    if o == "ref":
        return "&%s%s" % (a[0], "".join("." + str(x[-1]) for x in a[1]))
    if o in ("clo", "coro"):
        return "%s<%s>" % (o, a[0].split("::", 1)[-1])
    if o == "with":
        return "%s{%s}" % (s(a[0]), ", ".join("%s:=%s" % (k[-1], s(v)) for k, v in a[1]))
    return "%s(%s)" % (o, ", ".join(s(x) if isinstance(x, (T, tuple)) else str(x) for x in a))
