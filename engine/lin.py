"""Linear-inequality abstract domain over integer-valued terms.

Facts collected on the way to a program point (comparisons taken, successful
overflow checks) together with the axioms of the terms involved (lengths are
non-negative, an index returned by `find` lies inside the string, ...) form a
conjunction of linear inequalities.  `entails` eliminates variables
(Fourier-Motzkin projection, integer-tightened) to see whether a further
inequality follows.  Anything it cannot show is simply "not entailed".
"""
from terms import *

UNSIGNED = {"usize", "u8", "u16", "u32", "u64", "u128"}
TYPES = {}  # term -> type string, filled by the interpreter


def lin(t, depth=0):
    """term -> ({atom: coef}, const)"""
    if is_c(t, "int") or is_c(t, "char"):
        return {}, cval(t)
    if t.op == "bin" and t.a[0] in ("Add", "Sub"):
        a, ca = lin(t.a[1])
        b, cb = lin(t.a[2])
        s = 1 if t.a[0] == "Add" else -1
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v}, ca + s * cb
    if t.op == "bin" and t.a[0] == "Mul":
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if is_c(x, "int"):
                b, cb = lin(y)
                return {k: v * cval(x) for k, v in b.items() if v * cval(x)}, cb * cval(x)
    if t.op == "len" and depth < 40:
        x = t.a[0]
        if x.op == "slice":
            b, lo, hi = x.a
            return lin(sub(hi, lo) if hi is not None else sub(mklen(b), lo), depth + 1)
        if x.op == "push":
            a, c = lin(mklen(x.a[0]), depth + 1)
            return a, c + 1
        if x.op in ("sorted", "iset", "sortedby", "reversed"):
            return lin(mklen(x.a[0]), depth + 1)
        if x.op == "concat":
            tot, c = {}, 0
            for s in x.a[0]:
                a, cc = lin(mklen(s), depth + 1)
                c += cc
                for k, v in a.items():
                    tot[k] = tot.get(k, 0) + v
            return {k: v for k, v in tot.items() if v}, c
        if x.op == "mut" and x.a[0] == "AsyncReadExt::read" and x.a[1] == 1:
            return lin(mklen(x.a[2][1]), depth + 1)
        if x.op == "popped":
            a, c = lin(mklen(x.a[0]), depth + 1)
            return a, c - 1
        if x.op == "fromelem":
            return lin(x.a[1], depth + 1)
        if x.op == "cat":
            tot, c = {}, 0
            for s in x.a[0]:
                a, cc = lin(mklen(s), depth + 1)
                c += cc
                for k, v in a.items():
                    tot[k] = tot.get(k, 0) + v
            return tot, c
    if t.op == "cast" and t.a[0] in ("usize", "u64", "i64", "u128", "i128") and t.a[1] in ("usize", "u64", "u32", "u16", "u8"):
        return lin(t.a[2], depth + 1)
    return {t: 1}, 0


def axioms(t):
    """inequalities (dict, const) meaning sum + const >= 0, for an atom"""
    out = []

    def ge0(e):
        out.append(e)

    def leq(a, b):  # a <= b
        x, cx = lin(a)
        y, cy = lin(b)
        r = dict(y)
        for k, v in x.items():
            r[k] = r.get(k, 0) - v
        out.append(({k: v for k, v in r.items() if v}, cy - cx))

    if t.op == "len":
        ge0(({t: 1}, 0))
        # nothing in memory has more elements than there are addresses
        ge0(({t: -1}, 1 << 56))
        x = t.a[0]
        if x.op == "display":
            ge0(({t: 1}, -1)) if x.a[1] in UNSIGNED | {"i8", "i16", "i32", "i64", "i128", "isize"} else None
        if x.op == "app" and x.a[0] in ("str::trim", "str::trim_matches", "str::trim_start", "str::trim_end",
                                        "str::trim_start_matches", "str::trim_end_matches"):
            leq(t, mklen(x.a[1][0]))
        if x.op == "mut" and x.a[0] == "Vec::extend_from_slice":
            leq(mklen(x.a[2][0]), t)
    elif TYPES.get(t) in UNSIGNED:
        ge0(({t: 1}, 0))
        if TYPES[t] == "u8":
            ge0(({t: -1}, 255))
    if t.op == "vfld" and t.a[1] == "Some" and t.a[0].op == "app":
        f, args = t.a[0].a[0], t.a[0].a[1]
        if f in ("str::find", "str::rfind"):
            ge0(({t: 1}, 0))
            p = args[1]
            n = mklen(p) if p.op != "charset" else I(1)
            leq(add(t, n), mklen(args[0]))
        elif f.endswith("find_in_slice"):
            ge0(({t: 1}, 0))
            leq(add(t, mklen(args[1])), mklen(args[0]))
        elif f in ("Iterator::position", "Iterator::rposition"):
            ge0(({t: 1}, 0))
            src = args[0]
            while src.op == "it" and src.a[0] in ("rev", "elems", "chars", "map", "cloned"):
                src = src.a[1]
            leq(add(t, I(1)), mklen(src))
        elif f in ("slice::binary_search",):
            leq(t, mklen(args[0]))
    if t.op == "vfld" and t.a[1] == "Ok" and t.a[0].op == "await" and t.a[0].a[0].op == "app" and t.a[0].a[0].a[0] in ("AsyncReadExt::read",):
        ge0(({t: 1}, 0))
        leq(t, mklen(t.a[0].a[0].a[1][1]))
    if t.op == "elem":
        it = t.a[0]
        if it.op == "it" and it.a[0] == "range":
            leq(it.a[1], t)
            leq(t if it.a[3] else add(t, I(1)), it.a[2])
        if it.op == "it" and it.a[0] == "count":
            src = it.a[1]
            ge0(({t: 1}, 0))
            while src.op == "it" and src.a[0] in ("rev", "elems", "map", "cloned"):
                src = src.a[1]
            if src.op != "it":
                leq(add(t, I(1)), mklen(src))
            elif src.a[0] == "zip":
                for s in (src.a[1], src.a[2]):
                    while s.op == "it" and s.a[0] in ("rev", "elems", "map", "cloned"):
                        s = s.a[1]
                    if s.op != "it":
                        leq(add(t, I(1)), mklen(s))
    if t.op == "app" and t.a[0] in ("Ord::min", "cmp::min"):
        leq(t, t.a[1][0])
        leq(t, t.a[1][1])
    if t.op == "app" and t.a[0].endswith("saturating_sub"):
        leq(t, t.a[1][0])
        ge0(({t: 1}, 0))
    if t.op == "bin" and t.a[0] == "Rem" and is_c(t.a[2], "int") and cval(t.a[2]) > 0:
        ge0(({t: -1}, cval(t.a[2]) - 1))
        if TYPES.get(t.a[1]) in UNSIGNED:
            ge0(({t: 1}, 0))
    if t.op == "bin" and t.a[0] == "Div" and is_c(t.a[2], "int") and cval(t.a[2]) > 0 and TYPES.get(t.a[1]) in UNSIGNED:
        ge0(({t: 1}, 0))
        leq(t, t.a[1])
    return out


def _sub(b, a):
    r = dict(b[0])
    for k, v in a[0].items():
        r[k] = r.get(k, 0) - v
    return {k: v for k, v in r.items() if v}, b[1] - a[1]


def is_intlike(t):
    return is_c(t, "int") or t.op in ("len", "bin") or TYPES.get(t) in UNSIGNED | {"i8", "i16", "i32", "i64", "isize", "i128"} or (
        t.op == "elem" and t.a[0].op == "it" and t.a[0].a[0] in ("range", "count")) or t.op == "cast"


def from_facts(facts):
    cs = []
    for t, v in facts.items():
        if t.op == "lt":
            a, b = t.a
            if is_c(a, "char") or is_c(b, "char"):
                pass
            d = _sub(lin(b), lin(a))
            if v:  # b - a - 1 >= 0
                cs.append((d[0], d[1] - 1))
            else:  # a - b >= 0
                cs.append(({k: -x for k, x in d[0].items()}, -d[1]))
        elif t.op == "eq" and v and (is_intlike(t.a[0]) or is_intlike(t.a[1])):
            d = _sub(lin(t.a[0]), lin(t.a[1]))
            cs.append(d)
            cs.append(({k: -x for k, x in d[0].items()}, -d[1]))
        elif t.op == "eq" and v and not is_intlike(t.a[0]):
            # equal strings have equal lengths
            d = _sub(lin(mklen(t.a[0])), lin(mklen(t.a[1])))
            cs.append(d)
            cs.append(({k: -x for k, x in d[0].items()}, -d[1]))
        elif t.op == "app" and v and t.a[0] in ("str::starts_with", "slice::starts_with", "str::ends_with", "str::contains") and t.a[1][1].op != "charset":
            cs.append(_sub(lin(mklen(t.a[1][0])), lin(mklen(t.a[1][1]))))
        elif t.op == "app" and v and t.a[0] in ("str::starts_with", "str::ends_with", "str::contains", "slice::contains"):
            d = lin(mklen(t.a[1][0]))
            cs.append((d[0], d[1] - 1))
        elif t.op == "inset" and v and t.a[1].op == "charset" and t.a[1].a[0]:
            cs.append(({t.a[0]: 1}, -min(lo for lo, hi in t.a[1].a[0])))
            cs.append(({t.a[0]: -1}, max(hi for lo, hi in t.a[1].a[0])))
        elif t.op == "app" and v and t.a[0] == "str::is_char_boundary":
            cs.append(_sub(lin(mklen(t.a[1][0])), lin(t.a[1][1])))
    # disequalities with a boundary value
    for t, v in facts.items():
        if t.op == "eq" and not v and is_c(t.a[1], "int"):
            cs.append(("ne", t))
    return cs


def one_char(p):
    """code ranges of a one-character search pattern"""
    if p.op == "charset":
        return tuple(p.a[0])
    if p.op == "c" and p.a[0] in ("char", "int"):
        return ((p.a[1], p.a[1]),)
    s = cstr(p) if p.op == "c" else None
    if s is not None and len(s) == 1:
        return ((ord(s), ord(s)),)
    return None


def search_of(t):
    """(string, pattern, function) of the position `t` a search returned"""
    if t.op == "vfld" and t.a[1] == "Some" and t.a[0].op == "app" and t.a[0].a[0] in ("str::find", "str::rfind"):
        return t.a[0].a[1][0], t.a[0].a[1][1], t.a[0].a[0]
    return None


def unslice(b):
    """(whole string, offset) of a part of it"""
    off = I(0)
    while b.op == "slice":
        off = add(off, b.a[1])
        b = b.a[0]
    return b, off


def search_lemmas(facts, atoms):
    """what is known of the positions of searches: (disequalities, inequalities)"""
    ne, cs = [], []
    pos = [(a, search_of(a)) for a in atoms if search_of(a)]
    for a, (s, p, f) in pos:
        # the first occurrence is not after the last one
        if f == "str::find":
            for b, (s2, p2, f2) in pos:
                if f2 == "str::rfind" and s2 is s and p2 is p:
                    cs.append(_sub(lin(b), lin(a)))
        rs = one_char(p)
        if rs is None:
            continue

        def outside(k):
            return not any(lo <= k <= hi for lo, hi in rs)
        for t, v in facts.items():
            if t.op == "eq" and v and is_c(t.a[1], "int") and t.a[0].op == "index" and cval(t.a[1]) < 128:
                b, off = unslice(t.a[0].a[0])
                s0, off0 = unslice(s)
                if b is s0 and outside(cval(t.a[1])):
                    ne.append((add(off0, a), add(off, t.a[0].a[1])))
            elif t.op == "app" and v and t.a[0] in ("str::ends_with", "str::starts_with") and t.a[1][0] is s:
                q = one_char(t.a[1][1])
                if q and all(hi < 128 and all(outside(k) for k in range(lo, hi + 1)) for lo, hi in q):
                    ne.append((a, sub(mklen(s), I(1)) if t.a[0] == "str::ends_with" else I(0)))
    return ne, cs


LIM = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767), "u32": (0, 2**32 - 1), "i32": (-2**31, 2**31 - 1),
       "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1), "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1)}


def entails(facts, goal, extra=(), all_facts=False):
    """goal: (dict, const) meaning sum + const >= 0"""
    if not goal[0] and not all_facts:
        return goal[1] >= 0
    raw = from_facts(facts)
    nes = [(c[1].a[0], c[1].a[1]) for c in raw if c[0] == "ne"]
    cs = [c for c in raw if c[0] != "ne"] + list(extra)
    # relevant atoms
    atoms = set(goal[0])
    if all_facts:
        for c in cs:
            atoms |= set(c[0])
    used, pool = [], list(cs)
    done_ax = set()
    for _ in range(6):
        for a in list(atoms):
            if a not in done_ax:
                done_ax.add(a)
                for ax in axioms(a):
                    pool.append(ax)
        new = [c for c in pool if any(k in atoms for k in c[0])]
        pool = [c for c in pool if not any(k in atoms for k in c[0])]
        if not new:
            break
        used += new
        for c in new:
            atoms |= set(c[0])
    # conversions whose operand is known to fit keep the value
    seen = set()

    def convert(a):
        if a in seen or a.op != "cast" or a.a[0] not in LIM:
            return
        seen.add(a)
        lo, hi = LIM[a.a[0]]
        x, cx = lin(a.a[2])
        for y in x:
            if y not in done_ax:
                done_ax.add(y)
                used.extend(axioms(y))
            if y not in atoms:
                atoms.add(y)
                used.extend(c for c in pool if y in c[0])
            if y.op == "elem" and (a.a[1] == "char" or a.a[1] in UNSIGNED):
                used.append(({y: 1}, 0))
            convert(y)
        if _infeasible(used + [(x, cx - hi - 1)]) and _infeasible(used + [({k: -v for k, v in x.items()}, -cx + lo - 1)]):
            d = _sub(({a: 1}, 0), (x, cx))
            used.extend([d, ({k: -v for k, v in d[0].items()}, -d[1])])
        else:
            used.extend([({a: 1}, -lo), ({a: -1}, hi)])
    for a in list(atoms):
        convert(a)
    # x != c with x >= c known gives x >= c + 1 (and dually)
    ne2, cs2 = search_lemmas(facts, atoms)
    used += cs2
    for a, b in nes + ne2:
        l = _sub(lin(a), lin(b))
        if l[0] and all(k in atoms for k in l[0]):
            if _infeasible(used + [({k: -x for k, x in l[0].items()}, -l[1] - 1)]):
                used.append((l[0], l[1] - 1))
            elif _infeasible(used + [(l[0], l[1] - 1)]):
                used.append(({k: -x for k, x in l[0].items()}, -l[1] - 1))
    negg = ({k: -x for k, x in goal[0].items()}, -goal[1] - 1)
    return _infeasible(used + [negg])


def _infeasible(cs):
    cs = _dedup(cs)
    for _ in range(40):
        for d, c in cs:
            if not d and c < 0:
                return True
        cs = [x for x in cs if x[0]]
        if not cs:
            return False
        # eliminate the atom with the fewest products
        cnt = {}
        for d, _c in cs:
            for k, v in d.items():
                p, n = cnt.get(k, (0, 0))
                cnt[k] = (p + 1, n) if v > 0 else (p, n + 1)
        k = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1], x.id))
        pos = [x for x in cs if x[0].get(k, 0) > 0]
        ng = [x for x in cs if x[0].get(k, 0) < 0]
        rest = [x for x in cs if k not in x[0]]
        for p in pos:
            for n in ng:
                a, b = p[0][k], -n[0][k]
                d = {}
                for q, v in p[0].items():
                    d[q] = d.get(q, 0) + b * v
                for q, v in n[0].items():
                    d[q] = d.get(q, 0) + a * v
                d = {q: v for q, v in d.items() if v}
                rest.append((d, b * p[1] + a * n[1]))
        cs = _dedup(rest)
        if len(cs) > 4000:
            return False
    return False


def _dedup(cs):
    best = {}
    from math import gcd
    for d, c in cs:
        g = 0
        for v in d.values():
            g = gcd(g, abs(v))
        if g > 1:
            d = {k: v // g for k, v in d.items()}
            c = c // g  # floor: integer tightening
        key = frozenset(d.items())
        if key not in best or best[key][1] > c:
            best[key] = (d, c)
    return list(best.values())


def prove_lt(facts, a, b, extra=()):
    d = _sub(lin(b), lin(a))
    return entails(facts, (d[0], d[1] - 1), extra)


def prove_le(facts, a, b, extra=()):
    d = _sub(lin(b), lin(a))
    return entails(facts, d, extra)
