"""P33: the calendar arithmetic of the Date header, proved in the domain of integer polyhedra.

Every path through Time::time (its month walk unrolled in the domain) yields the fields of the date as terms over the
stamp. Divisions and remainders by constants become variables with their defining inequalities; the rules are that the
fields are in range and that counting the days from 2000-03-01 to the date shown gives back the day of the stamp - which
only the right date does, because the count is one-to-one on valid dates."""
import ilp
from ilp import plus, scale
from rl import *
from . import prop

TIME = "time::Time::time"
EPOCH = 951868800  # 2000-03-01 00:00:00
MLEN = [31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 31, 29]  # from March
MSTART = [sum(MLEN[:i]) for i in range(12)]
LAST = 253402300799  # 9999-12-31 23:59:59
RANGE = {"i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1),
         "i128": (-2**127, 2**127 - 1), "u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1), "u128": (0, 2**128 - 1)}


class Strange(Exception):
    """a term outside the domain"""


class Split(Exception):
    """the value depends on a case distinction: alternatives, each a list of constraints"""

    def __init__(self, alts):
        self.alts = alts


def key(e):
    return frozenset(e[0].items()), e[1]


def var(x):
    return {x: 1}, 0


def const(n):
    return {}, n


def ge(a, b=({}, 0)):
    """a >= b"""
    e = plus(a, b, -1)
    return e[0], e[1], False


def gt(a, b=({}, 0)):
    e = plus(a, b, -1)
    return e[0], e[1] - 1, False


def eqc(a, b):
    e = plus(a, b, -1)
    return e[0], e[1], True


class Sys:
    """a polyhedron together with the meaning of the divisions that occur in it"""

    def __init__(self, tables):
        self.tables = tables
        self.cs = []
        self.sign = {}  # linear form -> True (>= 0) or False (< 0)
        self.quot = {}  # (form, divisor) -> variable
        self.val = {}  # form -> known value (case distinctions on table indices)

    def copy(self):
        s = Sys(self.tables)
        s.cs, s.sign, s.quot, s.val = list(self.cs), dict(self.sign), dict(self.quot), dict(self.val)
        return s

    def feasible(self, extra=()):
        """False when empty; True when not shown to be"""
        return ilp.solve(self.cs + list(extra), tries=0)[0] != "empty"

    def entails(self, c):
        co, k, eq = c
        if not co:
            return k == 0 if eq else k >= 0
        lo = ilp.solve(self.cs + [({v: -x for v, x in co.items()}, -k - 1, False)], tries=0)[0] == "empty"
        return lo and (not eq or ilp.solve(self.cs + [(co, k - 1, False)], tries=0)[0] == "empty")

    def floor(self, e, n):
        """the variable for floor(e / n)"""
        # multiples of n come out of the quotient
        out = ({x: k // n for x, k in e[0].items() if k % n == 0}, e[1] // n)
        e = ({x: k for x, k in e[0].items() if k % n}, e[1] % n)
        if not e[0]:
            return out
        k = (key(e), n)
        v = self.quot.get(k)
        if v is None:
            v = ("q", len(self.quot))
            self.quot[k] = v
            r = plus(e, var(v), -n)
            self.cs.append(ge(r))
            self.cs.append(ge(const(n - 1), r))
            # its integer bounds near 0
            for b in (ge(var(v)), ge(const(0), var(v))):
                if self.entails(b):
                    self.cs.append(b)
        return plus(out, var(v))

    def nonneg(self, e):
        if not e[0]:
            return e[1] >= 0
        s = self.sign.get(key(e))
        if s is None:
            if not self.feasible([gt(({}, 0), e)]):
                s = True
            elif not self.feasible([ge(e)]):
                s = False
            else:
                raise Split([("sign", e, True), ("sign", e, False)])
            self.sign[key(e)] = s
        return s

    def quotient(self, a, n, euclid):
        if euclid or self.nonneg(a):
            return self.floor(a, n)
        return scale(self.floor(scale(a, -1), n), -1)

    def lin(self, t):
        if is_c(t, "int"):
            return const(cval(t))
        if t.op == "arg":
            return var(t)
        if t.op == "bin":
            o = t.a[0]
            if o in ("Add", "Sub"):
                return plus(self.lin(t.a[1]), self.lin(t.a[2]), 1 if o == "Add" else -1)
            if o == "Mul":
                a, b = self.lin(t.a[1]), self.lin(t.a[2])
                if not a[0]:
                    return scale(b, a[1])
                if not b[0]:
                    return scale(a, b[1])
                raise Strange(sh(t, 80))
            if o in ("Div", "Rem", "DivE", "RemE"):
                a, b = self.lin(t.a[1]), self.lin(t.a[2])
                if b[0] or b[1] <= 0:
                    raise Strange(sh(t, 80))
                q = self.quotient(a, b[1], o.endswith("E"))
                return q if o.startswith("Div") else plus(a, q, -b[1])
            raise Strange(sh(t, 80))
        if t.op == "cast":
            e = self.lin(t.a[2])
            lo, hi = RANGE.get(t.a[0], (None, None))
            f = RANGE.get(t.a[1])
            if lo is None or f is None:
                if t.a[1] == "bool":
                    return e
                raise Strange(sh(t, 80))
            if not (lo <= f[0] and f[1] <= hi):
                if not (self.entails(ge(e, const(lo))) and self.entails(ge(const(hi), e))):
                    w = hi - lo + 1  # the value wraps
                    e = plus(e, self.floor(plus(e, const(-lo)), w), -w)
            return e
        if t.op == "app" and t.a[0] in ("num::abs", "num::unsigned_abs") and len(t.a[1]) == 1:
            e = self.lin(t.a[1][0])
            return e if self.nonneg(e) else scale(e, -1)
        if t.op == "app" and t.a[0] in ("num::signum",) and len(t.a[1]) == 1:
            e = self.lin(t.a[1][0])
            return const(-1 if not self.nonneg(e) else 0 if self.nonneg(scale(e, -1)) else 1)
        if t.op == "app" and t.a[0] in ("num::wrapping_div", "num::wrapping_rem") and len(t.a[1]) == 2:
            return self.lin(mk("bin", "Div" if "div" in t.a[0] else "Rem", *t.a[1]))
        if t.op == "index":
            tab = self.table(t.a[0])
            e = self.lin(t.a[1])
            if tab is None:
                raise Strange(sh(t, 80))
            i = self.value(e, range(len(tab)))
            return const(tab[i])
        if t.op in ("lt", "eq", "not") or t in (TRUE, FALSE):
            # a truth value used as a number
            return const(1 if self.truth(t) else 0)
        raise Strange(sh(t, 80))

    def table(self, t):
        if t.op == "static":
            return self.tables.get(t.a[0])
        if t.op == "seq" and all(is_c(x, "int") for x in t.a[0]):
            return [cval(x) for x in t.a[0]]
        return None

    def value(self, e, vals):
        """the integer value of e, by cases"""
        if not e[0]:
            if e[1] not in vals:
                raise Strange("index %d" % e[1])
            return e[1]
        v = self.val.get(key(e))
        if v is None:
            raise Split([("val", e, i) for i in vals if self.feasible([eqc(e, const(i))])])
        return v

    def truth(self, t):
        if t in (TRUE, FALSE):
            return t is TRUE
        if t.op == "not":
            return not self.truth(t.a[0])
        if t.op == "lt":
            return not self.nonneg(plus(self.lin(t.a[0]), self.lin(t.a[1]), -1))
        if t.op == "eq":
            d = plus(self.lin(t.a[0]), self.lin(t.a[1]), -1)
            if not self.nonneg(d):
                return False
            return self.nonneg(scale(d, -1))
        raise Strange(sh(t, 80))

    def assume(self, t, b):
        """add a branch fact; several systems when it is a disjunction"""
        while t.op == "not":
            t, b = t.a[0], not b
        if t in (TRUE, FALSE):
            return [self] if (t is TRUE) == b else []
        if t.op == "lt":
            x, y = self.lin(t.a[0]), self.lin(t.a[1])
            self.cs.append(gt(y, x) if b else ge(x, y))
            return [self]
        if t.op == "eq" and t.a[0].op == "c" and t.a[0].a[0] == "bool" or t.op == "eq" and t.a[1].op == "c" and t.a[1].a[0] == "bool":
            x, y = (t.a[0], t.a[1]) if t.a[0].op == "c" else (t.a[1], t.a[0])
            return self.assume(y, b == (x is TRUE))
        if t.op == "eq":
            x, y = self.lin(t.a[0]), self.lin(t.a[1])
            if b:
                self.cs.append(eqc(x, y))
                return [self]
            o = self.copy()
            self.cs.append(gt(x, y))
            o.cs.append(gt(y, x))
            return [self, o]
        if t.op == "bin" and t.a[0] in ("BitAnd", "BitOr"):
            conj = (t.a[0] == "BitAnd") == b
            if conj:
                return [z for s in self.assume(t.a[1], b) for z in s.assume(t.a[2], b)]
            o = self.copy()
            return self.assume(t.a[1], b) + o.assume(t.a[2], b)
        if t.op == "fits":
            # the stamp is within the years the calendar is stated for
            lo, hi = RANGE.get(t.a[1], (None, None))
            if lo is None:
                raise Strange(sh(t, 80))
            e = self.lin(t.a[0])
            if b:
                self.cs.append(ge(e, const(lo)))
                self.cs.append(ge(const(hi), e))
                return [self]
            o = self.copy()
            self.cs.append(gt(const(lo), e))
            o.cs.append(gt(e, const(hi)))
            return [self, o]
        raise Strange(sh(t, 80))


def cases(s, f, depth=0):
    """[(system, f(system))] over the case distinctions f asks for"""
    o = s.copy()
    try:
        return [(o, f(o))]
    except Split as e:
        if depth > 60:
            raise Strange("too many cases")
        out = []
        for kind, form, v in e.alts:
            n = s.copy()
            if kind == "sign":
                n.cs.append(ge(form) if v else gt(({}, 0), form))
                n.sign[key(form)] = v
            else:
                n.cs.append(eqc(form, const(v)))
                n.val[key(form)] = v
            if n.feasible():
                out += cases(n, f, depth + 1)
        return out


def assume_all(s, facts):
    """the non-empty systems of s under the facts"""
    todo = [s]
    for t, b in facts:
        nxt = []
        for x in todo:
            for _, ss in cases(x, lambda z: z.assume(t, b)):
                for z in ss:
                    if z.feasible():
                        nxt.append(z)
        todo = nxt
    return todo


def inloop(ip, t):
    """loops whose variables occur in t"""
    out = set()
    for x in subterms(t):
        if x in ip.phi_loop:
            out.add(ip.phi_loop[x].id)
        elif x.op in ("elem", "more"):
            for y in x.a:
                if isinstance(y, int) and y in ip.loops:
                    out.add(y)
    return out


def items(L, t, k):
    """t with the loop's current item in its k-th round"""
    m = {}
    for x in subterms(t):
        if x.op == "elem" and x.a[1] == L.id:
            s = src_of(x.a[0])
            if x.a[2] != 0 or s.op != "it":
                raise Strange(sh(x, 80))
            if s.a[0] == "elems":
                m[x] = mk("index", s.a[1], I(k))
            elif s.a[0] == "range" and len(s.a) == 3:
                m[x] = add(s.a[1], I(k))
            elif s.a[0] == "count":
                m[x] = I(k)
            else:
                raise Strange(sh(x, 80))
    return subst(t, m) if m else t


def length(s, L):
    """how many rounds the loop's driver allows, None when it has none"""
    if L.drv is None:
        return None
    d = src_of(L.drv)
    if d.op == "it" and d.a[0] == "elems":
        t = s.table(d.a[1])
        if t is not None:
            return len(t)
    if d.op == "it" and d.a[0] == "range" and len(d.a) == 3 and is_c(d.a[1], "int") and is_c(d.a[2], "int"):
        return max(0, cval(d.a[2]) - cval(d.a[1]))
    raise Strange("loop over %s" % sh(d, 80))


def rounds(ip, s, L, env):
    """[(system, env, k)]: the loop head after k rounds, for every k the domain cannot exclude"""
    cur = [(s, env, {p: subst(v, env) for p, v in L.init.items()})]
    n = length(s, L)
    out = []
    k = 0
    while cur:
        if k > 60 or len(cur) > 50:
            raise Strange("the walk at %s has no bound in the domain" % L.fn)
        for z, e, loc in cur:
            m = dict(e)
            m.update(loc)
            out.append((z, m, k))
        nxt = []
        if n is None or k < n:
            for z, e, loc in cur:
                m = dict(e)
                m.update(loc)
                for bs, vals in L.backs:
                    fs = [(items(L, subst(t, m), k), b) for t, b in newfacts(L, bs)]
                    for y in assume_all(z, fs):
                        nxt.append((y, e, {p: items(L, subst(v, m), k) for p, v in vals.items()}))
        cur = nxt
        k += 1
    return out


def path(ip, s, facts, outs):
    """[(system, outs)] of one path, loops unrolled"""
    res = []
    plain = [(t, b) for t, b in facts if not inloop(ip, t)]
    rest = [(t, b) for t, b in facts if inloop(ip, t)]
    used = set()
    for t in [t for t, _ in rest] + list(outs):
        used |= inloop(ip, t)
    more = True
    while more:
        more = False
        for i in list(used):
            for v in ip.loops[i].init.values():
                x = inloop(ip, v) - used
                if x:
                    used |= x
                    more = True
    heads = [(z, {}, {}) for z in assume_all(s, plain)]
    for i in sorted(used):
        L = ip.loops[i]
        nxt = []
        for z, env, ks in heads:
            for y, e, k in rounds(ip, z, L, env):
                nxt.append((y, e, dict(ks, **{str(i): k})))
        # the facts this loop settles
        mine = [(t, b) for t, b in rest if inloop(ip, t) <= {j for j in used if j <= i} and i in inloop(ip, t)]
        heads = []
        for y, e, ks in nxt:
            fs, ok = [], True
            for t, b in mine:
                if t.op == "more":
                    n = length(y, L)
                    if n is None:
                        raise Strange(sh(t, 80))
                    if (ks[str(i)] < n) != b:
                        ok = False
                    continue
                u = subst(t, e)
                for j in ks:
                    u = items(ip.loops[int(j)], u, ks[j])
                fs.append((u, b))
            if ok:
                heads += [(z, e, ks) for z in assume_all(y, fs)]
    for z, e, ks in heads:
        o = []
        for t in outs:
            u = subst(t, e)
            for j in ks:
                u = items(ip.loops[int(j)], u, ks[j])
            o.append(u)
        res.append((z, o))
    return res


FIELDS = ("sec", "min", "hour", "week", "year", "month", "day")


class Again(Exception):
    """not shown with some of the path's facts: take all of them"""


class Judge:
    final = True

    def __init__(self, c, where, stamp):
        self.c, self.where, self.stamp = c, where, stamp
        self.memo = {}

    def goal(self, s, cs, rule, what, neg=None):
        """every constraint of cs holds in s"""
        for co in cs:
            k, kk, eq = co
            negs = [({v: -x for v, x in k.items()}, -kk - 1, False)] + ([(k, kk - 1, False)] if eq else [])
            for n in negs:
                if not self.empty(s, [n], rule, what):
                    return False
        return True

    def empty(self, s, extra, rule, what):
        r, m = ilp.solve(s.cs + extra, tries=3000)
        if r == "empty":
            return True
        if not self.final:
            raise Again
        if r == "point":
            self.c.bad(rule, self.where, "%s for the stamp %d" % (what, m.get(self.stamp, 0)))
        else:
            self.c.und(rule, self.where, "%s: not decided" % what)
        return False


@prop("P33")
def p33(c):
    where = "Time::time"
    R0 = "the path is in the domain"
    RT = "hour, minute and second are those of the stamp"
    RW = "the weekday is that of the stamp"
    RD = "the date shown is the day of the stamp"
    RV = "the date shown exists in the calendar"
    RN = "every moment has a date"
    r = c.run(c.anchor(TIME), ["stamp"], keep=2000)
    ip = r.ip
    stamp = mk("arg", "stamp")
    tables = {}
    for k in c.prog().consts.values():
        v = k.get("v")
        if isinstance(v, dict) and isinstance(v.get("array"), list) and all(isinstance(x, int) for x in v["array"]):
            tables[k["path"]] = v["array"]
    base = Sys(tables)
    base.cs = [ge(var(stamp)), ge(const(LAST), var(stamp))]
    j = Judge(c, where, stamp)
    done = {}
    n = 0
    for st, v in r:
        t = r.ret(st, v)
        n += 1
        facts = list(st.facts.items())
        try:
            if variant(t) == "None":
                for s, _ in path(ip, base, facts, []):
                    if j.empty(s, [], RN, "no date"):
                        pass
                c.ok(RN, where)
                continue
            d = payload(t)
            if d is None or d.op != "agg" or not set(FIELDS) <= set(d.a[2]):
                c.und(R0, where, "result %s" % sh(t, 100))
                continue
            outs = [d.a[3][d.a[2].index(f)] for f in FIELDS]
            check(c, j, ip, base, facts, outs, done, RT, RW, RD, RV)
        except Strange as e:
            c.und(R0, where, str(e))
    c.req(n >= 1, "coverage", where, "no path")
    from .tables import clock
    clock(c)


def payload(t):
    if t.op == "agg" and t.a[1] == "Some":
        return t.a[3][0]
    return None


def relevant(ip, facts, outs):
    """facts about nothing but sub-expressions of the outs"""
    subs = set()
    loops = set()
    for o in outs:
        subs |= set(subterms(o))
        loops |= inloop(ip, o)
    res = []
    for t, b in facts:
        if inloop(ip, t) & loops or (not inloop(ip, t) and all(x in subs or (x.op == "bin" and x.a[0][:3] in ("Div", "Rem") and x.a[1] in subs) for x in compared(t))):
            res.append((t, b))
    return res


def compared(t):
    """the sums a fact compares, below constant offsets"""
    out = []
    for x in t.a if t.op in ("lt", "eq", "not") else [t]:
        if x.op in ("lt", "eq", "not"):
            out += compared(x)
            continue
        while x.op == "bin" and x.a[0] in ("Add", "Sub") and is_c(x.a[2], "int"):
            x = x.a[1]
        if not is_c(x):
            out.append(x)
    return out


def day_of(s):
    """n: the day of the stamp, counted from 2000-03-01"""
    return s.floor(plus(var(mk("arg", "stamp")), const(-EPOCH)), 86400)


def check(c, j, ip, base, facts, outs, done, RT, RW, RD, RV):
    f = dict(zip(FIELDS, outs))

    def group(names, fn, rule):
        o = [f[x] for x in names]
        rel = relevant(ip, facts, o)
        k = (tuple(o), frozenset(rel))
        if k in done:
            return
        for fs in [rel, facts]:
            j.final = fs is facts
            good = 0
            try:
                for s, ts in path(ip, base, fs, o):
                    for z, es in cases(s, lambda z: [z.lin(t) for t in ts]):
                        good += 1 if fn(z, *es) else 0
            except Again:
                continue
            finally:
                j.final = True
            if fs is rel:
                done[k] = True
            if good:
                c.ok(rule, j.where, "%d cases" % good)
            break

    def clock(s, sec, mi, hour):
        n = day_of(s)
        rng = [ge(sec), ge(const(59), sec), ge(mi), ge(const(59), mi), ge(hour), ge(const(23), hour)]
        if not j.goal(s, rng, RT, "a field is out of range"):
            return False
        tot = plus(plus(plus(sec, scale(mi, 60)), scale(hour, 3600)), scale(n, 86400))
        return j.goal(s, [eqc(plus(tot, const(EPOCH)), var(j.stamp))], RT, "the time of day is wrong")

    def week(s, w):
        n = day_of(s)
        q = s.floor(plus(n, const(3)), 7)
        return j.goal(s, [eqc(plus(w, scale(q, 7)), plus(n, const(3)))], RW, "the weekday is wrong")

    def date(s, year, month, day):
        if not j.goal(s, [ge(month), ge(const(11), month)], RV, "the month is out of range"):
            return False
        ok = True
        for m in range(12):
            z = s.copy()
            z.cs.append(eqc(month, const(m)))
            if not z.feasible():
                continue
            k = (m + 10) % 12
            y = plus(year, const(-2000 - (1 if m < 2 else 0)))
            f4, f100, f400 = z.floor(y, 4), z.floor(y, 100), z.floor(y, 400)
            n = day_of(z)
            cnt = plus(plus(plus(plus(scale(y, 365), f4), f100, -1), f400), plus(day, const(MSTART[k] - 1)))
            ok = j.goal(z, [eqc(cnt, n)], RD, "the date is wrong") and \
                j.goal(z, [ge(day, const(1)), ge(const(MLEN[k]), day)], RV, "the day is not in its month") and ok
            if k == 11:
                y1 = plus(y, const(1))
                a = z.copy()
                r = ("j", 0)
                q = a.floor(y1, 4)
                a.cs += [eqc(day, const(29)), ge(plus(y1, q, -4), const(1))]
                ok = j.empty(a, [], RV, "29 February in a year that is no leap year") and ok
                a = z.copy()
                q = a.floor(y1, 400)
                a.cs += [eqc(day, const(29)), eqc(plus(y1, q, -400), ({r: 100}, 0)), ge(var(r), const(1)), ge(const(3), var(r))]
                ok = j.empty(a, [], RV, "29 February in a century year that is no leap year") and ok
        return ok

    group(("sec", "min", "hour"), clock, RT)
    group(("week",), week, RW)
    group(("year", "month", "day"), date, RD)
