"""Integer polyhedra: emptiness of a conjunction of linear constraints over the integers.

A constraint is (coefs, const, eq): sum(coef*var) + const >= 0 (or == 0). Equalities are solved by substitution (with
the Omega test's symmetric modulo step when no coefficient is a unit), inequalities are tightened by the gcd of their
coefficients, variables are eliminated by Fourier-Motzkin. `solve` answers ("empty", None) - a proof -, ("point", m)
with integers that satisfy every constraint, or ("unknown", None)."""
from math import gcd

LIMIT = 1500


def C(e, eq=False):
    return (dict(e[0]), e[1], eq)


def plus(a, b, s=1):
    r = dict(a[0])
    for k, v in b[0].items():
        x = r.get(k, 0) + s * v
        if x:
            r[k] = x
        else:
            r.pop(k, None)
    return r, a[1] + s * b[1]


def scale(a, n):
    return ({k: v * n for k, v in a[0].items()} if n else {}), a[1] * n


def _sub(e, v, by):
    """e with v replaced by the form `by`"""
    c = e[0].get(v)
    if not c:
        return e
    r = dict(e[0])
    del r[v]
    return plus((r, e[1]), by, c)


class Empty(Exception):
    pass


def _norm(e, eq):
    co, k = e
    if not co:
        if (eq and k != 0) or (not eq and k < 0):
            raise Empty
        return None
    g = 0
    for v in co.values():
        g = gcd(g, v)
    if g > 1:
        if eq:
            if k % g:
                raise Empty
            k //= g
        else:
            k //= g  # floor: integer tightening
        co = {v: c // g for v, c in co.items()}
    return co, k


def _ineqs(es):
    """tightest of the parallel constraints; opposite ones that meet become equalities"""
    best = {}
    for e in es:
        n = _norm(e, False)
        if n is None:
            continue
        key = frozenset(n[0].items())
        if key not in best or n[1] < best[key][1]:
            best[key] = n
    eqs = []
    for key, (co, k) in list(best.items()):
        o = best.get(frozenset((v, -c) for v, c in co.items()))
        if o is not None:
            if k + o[1] < 0:
                raise Empty
            if k + o[1] == 0:
                eqs.append((co, k))
    return list(best.values()), eqs


_fresh = [0]


def solve(cs, tries=200):
    trail = []  # (var, form) substituted or (var, lower constraints, upper constraints) eliminated, in order
    try:
        eqs = [(c[0], c[1]) for c in cs if c[2]]
        ine = [(c[0], c[1]) for c in cs if not c[2]]
        exact = True
        while True:
            while eqs:
                e = _norm(eqs.pop(), True)
                if e is None:
                    continue
                co, k = e
                v = min(co, key=lambda x: (abs(co[x]), str(x)))
                a = co[v]
                if abs(a) == 1:
                    rest = ({x: c for x, c in co.items() if x != v}, k)
                    by = scale(rest, -a)
                else:
                    # Omega: a new variable s with m*s = sum(modhat(c, m)*x) + modhat(k, m)
                    m = abs(a) + 1

                    def mh(x):
                        r = x % m
                        return r - m if 2 * r >= m else r
                    _fresh[0] += 1
                    s = ("sigma", _fresh[0])
                    f = ({x: mh(c) for x, c in co.items() if mh(c)}, mh(k))
                    f = plus(f, ({s: 1}, 0), -m)
                    # mh(a) is -sign(a)
                    av = f[0].pop(v)
                    by = scale(f, -av)
                    eqs.append((co, k))
                trail.append((v, by))
                eqs = [_sub(x, v, by) for x in eqs]
                ine = [_sub(x, v, by) for x in ine]
            ine, eqs = _ineqs(ine)
            if eqs:
                continue
            if not ine:
                break
            if len(ine) > LIMIT:
                return "unknown", None
            occ = {}
            for e in ine:
                for v, c in e[0].items():
                    o = occ.setdefault(v, [0, 0, True, True])
                    o[0 if c > 0 else 1] += 1
                    if abs(c) != 1:
                        o[2 if c > 0 else 3] = False
            v = min(occ, key=lambda x: (not (occ[x][2] or occ[x][3]), occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1], str(x)))
            lo = [e for e in ine if e[0].get(v, 0) > 0]
            up = [e for e in ine if e[0].get(v, 0) < 0]
            new = [e for e in ine if not e[0].get(v)]
            for a in lo:
                for b in up:
                    x, y = a[0][v], -b[0][v]
                    if x != 1 and y != 1:
                        exact = False
                    new.append(plus(scale(a, y), scale(b, x)))
            trail.append((v, lo, up))
            ine = new
    except Empty:
        return "empty", None
    # an integer point: assign in the reverse order of elimination
    budget = [tries]

    def val(form, m):
        return sum(c * m[x] for x, c in form[0].items()) + form[1]

    def back(i, m):
        if i < 0:
            return m
        if len(trail[i]) == 2:
            v, by = trail[i]
            for x in by[0]:
                m.setdefault(x, 0)
            m[v] = val(by, m)
            return back(i - 1, m)
        v, lo, up = trail[i]
        for e in lo + up:
            for x in e[0]:
                if x != v and x not in m:
                    m[x] = 0
        L = [-(val(({x: c for x, c in e[0].items() if x != v}, e[1]), m) // e[0][v]) for e in lo]
        U = [val(({x: c for x, c in e[0].items() if x != v}, e[1]), m) // -e[0][v] for e in up]
        a = max(L) if L else None
        b = min(U) if U else None
        if a is None and b is None:
            cand = [0]
        elif a is None:
            cand = [b]
        elif b is None:
            cand = [a]
        else:
            if a > b:
                return None
            cand = sorted({a, b, (a + b) // 2, a + (b - a) // 3, min(b, a + 1), max(a, b - 1)}, key=lambda x: (abs(x - (a + b) // 2), x))
        for x in cand:
            if budget[0] <= 0:
                return None
            budget[0] -= 1
            n = dict(m)
            n[v] = x
            r = back(i - 1, n)
            if r is not None:
                return r
        return None

    m = back(len(trail) - 1, {})
    if m is None:
        return "unknown", None
    for co, k, eq in cs:
        for x in co:
            m.setdefault(x, 0)
        s = val((co, k), m)
        assert s == 0 if eq else s >= 0, "model does not satisfy a constraint"
    return "point", m
