"""Routes: registration, mounting, matching, the handler chain."""
from rl import *
from models import app
from . import prop
from .server import RUN, is_mut, vfact, base, is_app, unpay, loop_events, changes

INSERT = "path::PathNode::<T>::insert"
PGET = "path::PathNode::<T>::get"
DFS = "path::PathNode::<T>::dfs"
MATCHES = "path::PathBuf::check_matches"
PPARSE = "path::PathBuf::parse"
ROUTE = "<router::Router as router::Route>::"
OROUTE = "<server::Octane as router::Route>::"
VERBS = {"head": "Head", "put": "Put", "get": "Get", "delete": "Delete", "post": "Post", "patch": "Patch", "add_route": "All"}


def stripnode(t):
    return t


def chain(t):
    """(base map, [(key, value)]) of a map after insertions, first insertion first"""
    out = []
    while t.op in ("minsert", "mset"):
        out.append((t.a[1], t.a[2]))
        t = t.a[0]
    return t, out[::-1]


def emptynode(t):
    return t.op == "agg" and t.a[1] == "Node" and t.a[3][0] is EMPTYMAP


def offset(t, b):
    """k if t is b + k (a constant), else None"""
    for k in range(-3, 65):
        if add(b, I(k)) is t:
            return k
    return None


def register(c, fn, verb, where, cell):
    names = ["self", "path", "closure"] if verb != "add" else ["self", "closure"]
    r = c.run(fn, names, opaque=[PPARSE, INSERT])
    path, clo = mk("arg", "path"), mk("arg", "closure")
    n = 0
    for st, v in r:
        rv = r.ret(st, v)
        old = cell(mk("arg", "self"))
        new = r.ip.strip(st, cell(r.cell(st, "self")))
        oldp, oldm, oldc = (field(old, x) for x in ("paths", "middlewares", "route_counter"))
        newp, newm, newc = (r.ip.strip(st, field(new, x)) for x in ("paths", "middlewares", "route_counter"))
        b, ins = chain(newp)
        kn = (PPARSE, INSERT)
        k = offset(newc, oldc)
        if variant(rv) == "Err":
            pe = [q for q, val in st.facts.items() if q.op == "isvar" and q.a[0].op == "app" and q.a[0].a[0] == PPARSE and (val is (q.a[1] != "Ok"))]
            judge(c, bool(pe) and verb != "add", "a registration fails only for an invalid path", where, "fails although the path was accepted", [rv], kn)
            judge(c, b is oldp and all(emptynode(x) for _, x in ins) and newm is oldm, "a failed registration stores nothing", where, "stores %s" % sh(newp, 150), [newp, newm], kn)
            judge(c, k is not None and k >= 0, "positions only grow", where, "counter becomes %s" % sh(newc, 80), [newc])
            n += 1
            continue
        if variant(rv) != "Ok":
            c.und("coverage", where, "result %s" % sh(rv, 100))
            continue
        n += 1
        if verb == "add":
            parts = acc(r.ip, st, newm)
            judge(c, len(parts) == 2 and parts[0] is oldm and isinstance(parts[1], T), "the handler is stored once, after the others", where, "middlewares become %s" % sh(newm, 200), [newm], kn + ("Vec::insert",))
            judge(c, newp is oldp, "registering leaves every other registration in place", where, "paths become %s" % sh(newp, 150), [newp], kn)
            data = parts[1] if len(parts) == 2 and isinstance(parts[1], T) else None
        else:
            judge(c, newm is oldm, "registering leaves every other registration in place", where, "middlewares become %s" % sh(newm, 150), [newm], kn)
            judge(c, b is oldp, "registering leaves every other registration in place", where, "paths become %s" % sh(newp, 200), [newp], kn)
            if b is not oldp:
                continue
            keys = {q for q, _ in ins}
            good = len(keys) == 1 and variant(list(keys)[0]) == VERBS[verb]
            judge(c, good, "a handler is stored under exactly the method it was registered for", where, "stored under %s" % sorted(variant(q) or sh(q, 60) for q in keys), list(keys))
            if not good:
                continue
            key = list(keys)[0]
            val = ins[-1][1]
            had = vfact(st, mk("mget", oldp, key), "Some")
            muts = 0
            data = pathv = None
            root = val
            while root.op == "mut" and root.a[0] == INSERT and root.a[1] == 0:
                muts += 1
                args = root.a[2]
                pathv, data = args[1], args[2]
                root = args[0]
            judge(c, muts == 1, "the handler is stored once", where, "%d insertions: %s" % (muts, sh(val, 150)), [val], kn)
            if muts != 1:
                continue
            okr = (emptynode(root) and had is False) or root is payload(mk("mget", oldp, key), "Some")
            judge(c, okr, "registering leaves every other registration in place", where, "the routes of the method become %s%s" % (sh(root, 100), " although there were some" if had else ""), [root], kn)
            judge(c, pathv is payload(app(PPARSE, path), "Ok"), "a handler is stored under exactly the path it was registered for", where, "stored under %s" % sh(pathv, 100), [pathv], kn)
        if data is None:
            continue
        if data.op != "agg":
            c.und("the handler given is the one stored", where, sh(data, 100))
            continue
        judge(c, field(data, "closure") is clo, "the handler given is the one stored", where, "stored: %s" % sh(field(data, "closure"), 100), [field(data, "closure")])
        i = offset(field(data, "index"), oldc)
        judge(c, i is not None and k is not None and 0 <= i < k, "a handler's position is after all earlier and before all later registrations", where,
              "position %s, next %s" % (sh(field(data, "index"), 60), sh(newc, 60)), [field(data, "index"), newc])
    c.req(n >= (1 if verb == "add" else 2), "coverage", where, "%d outcomes" % n)


@prop("P16")
def p16(c):
    structural(c, "request::RequestMethod", "path::PathChunk")
    for verb in list(VERBS) + ["add"]:
        register(c, c.anchor(ROUTE + verb), verb, "Router::" + verb, lambda t: t)
        register(c, c.anchor(OROUTE + verb), verb, "Octane::" + verb, lambda t: field(t, "router"))
    r = c.run(c.anchor(INSERT), ["self", "path", "data"])
    n = 0
    for st, v in r:
        n += 1
        lost = losses(st)
        judge(c, not lost, "earlier registrations stay in place", "PathNode::insert", "%s drops what was registered before" % lost)
    c.req(n >= 1, "coverage", "PathNode::insert", "no exits")


# ---------------------------------------------------------------- mounting
SKIPPERS = ("skip", "take", "stepby", "skipwhile", "takewhile", "filter", "fmap", "filter_map", "rev")


def lossy(it):
    """an adapter in the iterator chain that drops elements"""
    while isinstance(it, T) and it.op == "it":
        if it.a[0] in ("skip", "take", "stepby", "skipwhile", "takewhile", "filter", "filter_map", "map_while"):
            return it.a[0]
        it = it.a[1] if len(it.a) > 1 else None
    return None


def exhausted(st, L):
    return any(k.op == "more" and not b and k.a[1] == L.id for k, b in st.facts.items())


def shifted(t, x, by):
    """t is the registration x with its position moved up by `by`, everything else unchanged"""
    if t.op == "with" and t.a[0] is x:
        d = dict(t.a[1])
        return set(d) == {("f", "index")} and d[("f", "index")] is add(by, field(x, "index"))
    if t.op == "agg" and "index" in t.a[2]:
        return all(field(t, n) is (field(x, n) if n != "index" else add(by, field(x, "index"))) for n in t.a[2])
    return False


def node_items(t):
    """the node whose registrations an iterator value yields: the argument of into_iter for a route tree"""
    src = t
    while src.op == "it" and src.a[0] in ("map", "inspect"):
        src = src.a[1]
    if src.op == "agg" and "PathNodeIterator" in src.a[0]:
        st_, cv = field(src, "stack"), field(src, "curvec")
        if st_.op == "seq" and not st_.a[0] and variant(cv) == "Some":
            p = payload(cv, "Some")
            return p.a[0] if p.op == "vfld" and p.a[1] == "Leaf" else None
        if variant(cv) == "None" and st_.op == "seq" and len(st_.a[0]) == 1:
            p = src_of(st_.a[0][0])
            if p.op == "it" and p.a[0] in ("entries", "values") and p.a[1].op == "vfld" and p.a[1].a[1] == "Node":
                return p.a[1].a[0]
    return None


def all_inserted(c, ip, L, phi, key, node, by, where, rule):
    """every registration of `node`, moved up by `by`, is inserted into phi (a tree, or with a key, the map's tree under it)"""
    if L.drv is None or node_items(L.drv) is not node:
        s = lossy(L.drv) if L.drv is not None else None
        if s:
            c.bad(rule, where, "registrations are dropped by %s" % s)
        else:
            c.und(rule, where, "the walk over the mounted routes is %s" % (sh(L.drv, 120) if L.drv else None))
        return False
    good = True
    for st, vals in L.backs:
        v = ip.strip(st, vals[phi])
        m = v
        if key is not None:
            if not (v.op in ("mset", "minsert") and v.a[0] is phi and v.a[1] is key):
                judge(c, False, rule, where, "an iteration leaves %s" % sh(v, 160), [v], (INSERT,))
                return False
            m = v.a[2]
        okk = m.op == "mut" and m.a[0] == INSERT and m.a[1] == 0
        if not okk:
            judge(c, False, rule, where, "a registration is not inserted: %s" % sh(m, 160), [m], (INSERT,))
            return False
        root, pv, dv = m.a[2]
        want = phi if key is None else payload(mk("mget", phi, key), "Some")
        judge(c, root is want, rule, where, "inserted into %s" % sh(root, 120), [root], (INSERT,))
        xs = [x for x in subterms(pv) if x.op == "elem" and x.a[1] == L.id]
        x = xs[0] if xs else None
        okx = x is not None and pv is field(x, "orig_path")
        judge(c, okx, "a mounted route keeps its path", where, "path is %s" % sh(pv, 120), [pv])
        if okx:
            good &= judge(c, shifted(dv, field(x, "data"), by), "mounted registrations move behind all earlier ones, in unchanged order", where, "registration becomes %s" % sh(dv, 200), [dv])
    return good


def walked(c, st, L, rule, where, msg):
    """Every item of L's driver was taken when st left L; unknown drivers do not decide."""
    if L.drv is None:
        c.und(rule, where, "walk not recognised")
    else:
        c.req(exhausted(st, L), rule, where, msg)


@prop("P17")
def p17(c):
    structural(c, "request::RequestMethod", "path::PathChunk")
    fn = c.anchor("router::Router::append")
    r = c.run(fn, ["self", "router"], opaque=[INSERT])
    ip = r.ip
    where = "Router::append"
    s, o = mk("arg", "self"), mk("arg", "router")
    oc, op_, om = (field(s, x) for x in ("route_counter", "paths", "middlewares"))
    RM = "every middleware of the mounted router is added after the existing ones"
    RP = "every route of the mounted router is added under its own method"
    RK = "nothing of the receiving router is lost"
    n = 0
    for st, v in r:
        n += 1
        new = r.cell(st, "self")
        nc, np, nm = (ip.strip(st, field(new, x)) for x in ("route_counter", "paths", "middlewares"))
        if st.facts.get(eq(oc, I(0))) is True and all(t is field(o, x) for t, x in ((nc, "route_counter"), (np, "paths"), (nm, "middlewares"))):
            c.ok(RK, where, "an unused router becomes the mounted one")
            continue
        k = offset(nc, add(oc, field(o, "route_counter")))
        judge(c, k is not None and k >= 0, "later registrations come after the mounted ones", where, "the next position is %s" % sh(nc, 100), [nc])
        # middlewares
        ps = acc(ip, st, nm)
        if not (ps and ps[0] is om):
            judge(c, False, RK, where, "middlewares become %s" % sh(nm, 150), [nm])
        elif len(ps) != 2 or not isinstance(ps[1], Star):
            judge(c, False, RM, where, "middlewares become %s" % [sh(x, 100) if isinstance(x, T) else x for x in ps], [x for x in ps[1:] if isinstance(x, T)])
        else:
            z = ps[1]
            d = z.drv
            if d is None or src_of(d) is not mk("it", "elems", field(o, "middlewares")):
                (c.bad if d is not None and (lossy(d) or d.op == "it" and d.a[0] == "rev") else c.und)(RM, where, "walk over %s" % sh(d, 100) if d is not None else "walk not recognised")
            else:
                ld = lossy(z.loop.drv) if z.loop.drv is not None else None
                c.req(not ld, RM, where, "middlewares are dropped by %s" % ld)
                for cond, items in z.alts:
                    if len(items) != 1 or not isinstance(items[0], T):
                        c.bad(RM, where, "a middleware adds %s" % [sh(x, 80) if isinstance(x, T) else x for x in items])
                    else:
                        judge(c, shifted(items[0], X, oc), "mounted registrations move behind all earlier ones, in unchanged order", where, "middleware becomes %s" % sh(items[0], 150), [items[0]])
                c.req(exhausted(st, z.loop) or z.loop.drv is None, RM, where, "the walk over the middlewares ends early")
        # routes
        if np is op_:
            c.bad(RP, where, "the routes are not added")
            continue
        if not (np.op == "phi" and np in ip.phi_loop):
            judge(c, False, RP, where, "paths become %s" % sh(np, 150), [np])
            continue
        L = ip.phi_loop[np]
        i0 = ip.strip(L.pre, L.init[np])
        judge(c, i0 is op_, RK, where, "paths start as %s" % sh(i0, 100), [i0])
        d = L.drv
        if d is None or src_of(d) is not mk("it", "entries", field(o, "paths")):
            (c.bad if d is not None and lossy(d) else c.und)(RP, where, "walk over %s" % (sh(d, 100) if d is not None else None))
            continue
        if lossy(d):
            c.bad(RP, where, "methods are dropped by %s" % lossy(d))
        c.req(exhausted(st, L), RP, where, "the walk over the methods ends early")
        e = mk("elem", src_of(d), L.id, 0)
        key, node = field(e, "0"), field(e, "1")
        for bs, vals in L.backs:
            w = ip.strip(bs, vals[np])
            had = vfact(bs, mk("mget", np, key), "Some")
            old = payload(mk("mget", np, key), "Some")
            if w is np:
                c.bad(RP, where, "a method's routes are left out when %s" % [("" if b else "!") + sh(q, 80) for q, b in newfacts(L, bs)])
                continue
            # (a) the map itself walked
            if w.op == "phi" and w in ip.phi_loop:
                L2 = ip.phi_loop[w]
                i2 = ip.strip(L2.pre, L2.init[w])
                b, ins = chain(i2)
                okk = b is np and (not ins or (had is False and [q for q, _ in ins] == [key] and emptynode(ins[0][1])))
                judge(c, okk, RK, where, "the routes of a method start as %s" % sh(i2, 120), [i2])
                walked(c, bs, L2, RP, where, "the walk over a method's routes ends early")
                all_inserted(c, ip, L2, w, key, node, oc, where, RP)
                continue
            # (b) a tree built aside and stored
            if w.op in ("minsert", "mset") and w.a[0] is np or (w.op == "mset" and w.a[0].op == "minsert" and w.a[0].a[0] is np):
                if w.a[1] is not key:
                    judge(c, False, RP, where, "stored under %s" % sh(w.a[1], 100), [w.a[1]])
                    continue
                t = ip.strip(bs, w.a[2])
                if t is node and had is False:
                    c.bad("mounted registrations move behind all earlier ones, in unchanged order", where, "a method's routes are taken over without moving their positions")
                    continue
                if t.op == "phi" and t in ip.phi_loop:
                    L2 = ip.phi_loop[t]
                    i2 = ip.strip(L2.pre, L2.init[t])
                    okk = (emptynode(i2) and had is False) or i2 is old
                    judge(c, okk, RK, where, "the routes of a method start as %s%s" % (sh(i2, 120), " although there are some" if had is not False else ""), [i2])
                    walked(c, bs, L2, RP, where, "the walk over a method's routes ends early")
                    all_inserted(c, ip, L2, t, None, node, oc, where, RP)
                    continue
            judge(c, False, RP, where, "paths become %s" % sh(w, 200), [w], (INSERT,))
    c.req(n >= 1, "coverage", where, "no exit")
    # the bulk operations it is made of
    for f, nm_, cellname in (("<path::PathNode<T> as std::iter::Extend<path::PathData<T>>>::extend", "PathNode::extend", "self"),
                             ("<path::PathNode<T> as std::iter::FromIterator<path::PathData<T>>>::from_iter", "PathNode::from_iter", None)):
        g = c.find(f)
        if g is None:
            continue
        rr = c.run(g, ["self", "iter"] if cellname else ["iter"], opaque=[INSERT])
        RB = "every given registration is inserted as it is"
        for st, v in rr:
            t = rr.cell(st, "self") if cellname else rr.ret(st, v)
            if t.op != "phi" or t not in rr.ip.phi_loop:
                judge(c, False, RB, nm_, "result %s" % sh(t, 150), [t])
                continue
            L = rr.ip.phi_loop[t]
            i0 = rr.ip.strip(L.pre, L.init[t])
            judge(c, i0 is mk("arg", "self") if cellname else emptynode(i0), RB, nm_, "starts as %s" % sh(i0, 100), [i0])
            if L.drv is None or src_of(L.drv) is not mk("arg", "iter"):
                (c.bad if L.drv is not None and lossy(L.drv) else c.und)(RB, nm_, "walk over %s" % (sh(L.drv, 100) if L.drv else None))
                continue
            c.req(not lossy(L.drv), RB, nm_, "registrations are dropped by %s" % lossy(L.drv))
            c.req(exhausted(st, L), RB, nm_, "the walk ends early")
            e = mk("elem", src_of(L.drv), L.id, 0)
            for bs, vals in L.backs:
                w = rr.ip.strip(bs, vals[t])
                good = w.op == "mut" and w.a[0] == INSERT and w.a[1] == 0 and w.a[2][0] is t and w.a[2][1] is field(e, "orig_path") and w.a[2][2] is field(e, "data")
                judge(c, good, RB, nm_, "an item leads to %s when %s" % (sh(w, 120), [sh(q, 60) for q, _ in newfacts(L, bs)]), [w], (INSERT,))
    walk(c)


def walk(c):
    """into_iter of a route tree yields every registration: contents move, they are never dropped"""
    for f in sorted(c.prog().fns):
        if "PathNodeIterator<" not in f or not f.endswith("::next"):
            continue
        where = f.split(" as ")[0].strip("<").split("<")[0].split("::")[-1] + "::next"
        r = c.run(f, ["self"], keep=200)
        ip = r.ip
        RW = "walking a route tree yields every registration"
        s = mk("arg", "self")
        loops = [L for L in ip.loops.values() if any(p.op == "phi" for p in L.init)]
        if len(loops) != 1:
            c.und(RW, where, "%d loops" % len(loops))
            continue
        L = loops[0]

        def ph(name):
            for p, i in L.init.items():
                if ip.strip(L.pre, i) is field(s, name):
                    return p
            return None
        cv, sk, ci = ph("curvec"), ph("stack"), ph("curind")
        if cv is None or sk is None:
            c.und(RW, where, "state not recognised")
            continue

        def drained(st):
            """nothing is left in the current leaf"""
            if vfact(st, cv, "Some") is False:
                return True
            v = payload(cv, "Some")
            if ci is not None:
                return st.facts.get(lt(ci, mklen(v))) is False
            if st.facts.get(eq(mklen(v), I(0))) is True:
                return True
            return any(k.op == "isvar" and k.a[1] == "Some" and not b and k.a[0].op == "app" and k.a[0].a[0] in ("Vec::pop", "Vec::last") and k.a[0].a[1][0] is v for k, b in st.facts.items())

        def nostack(st):
            if st.facts.get(eq(mklen(sk), I(0))) is True:
                return True
            return any(k.op == "isvar" and k.a[1] == "Some" and not b and k.a[0].op == "app" and k.a[0].a[1] and k.a[0].a[1][0] is sk for k, b in st.facts.items())
        for st, v in r:
            rv = r.ret(st, v)
            if variant(rv) == "None":
                judge(c, drained(st) and nostack(st), RW, where, "the walk ends when %s" % [("" if b else "!") + sh(k, 80) for k, b in st.facts.items()], list(st.facts), ("Vec::pop", "Iterator::next"))
            elif variant(rv) == "Some" or rv.op == "app":
                p = payload(rv, "Some")
                src = payload(cv, "Some")
                if ci is None:
                    good = p is payload(app("Vec::pop", src), "Some") or rv is app("Vec::pop", src)
                else:
                    good = p is mk("index", src, ci)
                judge(c, good, RW, where, "yields %s" % sh(p, 120), [p], ("Vec::pop",))
                fin = r.cell(st, "self")
                if good and ci is not None:
                    judge(c, ip.strip(st, field(fin, "curind")) is add(ci, I(1)), RW, where, "goes on at %s" % sh(field(fin, "curind"), 80), [field(fin, "curind")])
                if good:
                    judge(c, ip.strip(st, field(fin, "stack")) is sk, RW, where, "the stack becomes %s" % sh(field(fin, "stack"), 100), [field(fin, "stack")])
        for st, vals in L.backs:
            nxt = [k.a[0] for k in st.facts if k.op == "isvar" and k.a[1] == "Some" and k.a[0].op == "app" and k.a[0].a[0] == "Iterator::next" and contains(k.a[0], sk)]
            ncv, nsk = ip.strip(st, vals[cv]), ip.strip(st, vals[sk])
            if not drained(st):
                judge(c, ncv is cv, RW, where, "a leaf is left before all of it was yielded", [ncv])
                continue
            if ci is not None and vals[ci] is not I(0) and not (variant(ncv) == "None" and nxt and st.facts.get(isvar(nxt[0], "Some")) is False):
                judge(c, ip.strip(st, vals[ci]) is I(0), RW, where, "a leaf is started at %s" % sh(vals[ci], 60), [vals[ci]])
            if len(nxt) != 1:
                c.und(RW, where, "step not recognised")
                continue
            it = nxt[0]
            adv = [x for x in subterms(nsk) if is_mut(x, "Iterator::next", 0)]
            keep = nsk
            if st.facts.get(isvar(it, "Some")) is False:
                good = nsk.op == "popped" and root_of(nsk) is sk and (variant(ncv) == "None" or ncv is cv)
                judge(c, good, RW, where, "after an exhausted level the stack is %s" % sh(nsk, 120), [nsk], ("Iterator::next",))
                continue
            node = payload(it, "Some")
            if vfact(st, node, "Leaf") is True:
                good = variant(ncv) == "Some" and payload(ncv, "Some") is payload(node, "Leaf") and root_of(nsk) is sk and nsk.op != "popped"
                judge(c, good, RW, where, "a leaf is followed by (%s, %s)" % (sh(ncv, 80), sh(nsk, 80)), [ncv, nsk], ("Iterator::next",))
            elif vfact(st, node, "Node") is True or vfact(st, node, "Leaf") is False:
                good = nsk.op == "push" and root_of(nsk.a[0]) is sk and nsk.a[0].op != "popped" and contains(nsk.a[1], payload(node, "Node")) and not lossy(nsk.a[1])
                judge(c, good, RW, where, "an inner node is followed by (%s, %s)" % (sh(ncv, 80), sh(nsk, 160)), [ncv, nsk], ("Iterator::next",))
            else:
                c.und(RW, where, "step not recognised")


def root_of(t):
    while t.op in ("iset", "popped", "push"):
        t = t.a[0]
    return t


@prop("P17")
def p17b(c):
    APPEND = "router::Router::append"
    c.anchor(APPEND)
    r = c.run(c.anchor("server::Octane::with_router"), ["self", "router"], opaque=[APPEND])
    where = "Octane::with_router"
    s = mk("arg", "self")
    for st, v in r:
        new = r.cell(st, "self")
        t = r.ip.strip(st, field(new, "router"))
        good = is_mut(t, APPEND, 0) and t.a[2][0] is field(s, "router") and t.a[2][1] is mk("arg", "router")
        judge(c, good, "mounting on the application mounts on its router", where, "the router becomes %s" % sh(t, 120), [t], (APPEND,))
        ch = changes(new, s)
        c.req(all(x.split(".")[0] == "router" for x in ch), "mounting changes nothing else", where, "changes %s" % ch)


# ---------------------------------------------------------------- matching
def isvarseg(st, ch):
    """is the pattern segment known (not) to start with a colon on this path"""
    for k, b in st.facts.items():
        if k.op == "eq" and k.a[0].op == "index" and k.a[0].a[0] is ch and k.a[0].a[1] is I(0) and k.a[1] is I(58):
            return b
        if k.op == "app" and k.a[0] in ("str::starts_with", "slice::starts_with") and k.a[1][0] is ch:
            x = k.a[1][1]
            if cstr(x) == ":" or (x.op == "charset" and tuple(x.a[0]) == ((58, 58),)) or (x.op == "seq" and x.a[0] == (I(58),)):
                return b
    # decided character by character
    e = mk("index", ch, I(0))
    fs = [(k, b) for k, b in st.facts.items() if contains(k, e)]
    if fs:
        a58 = consistent(fs, {e: 58})
        oth = any(consistent(fs, {e: x}) for x in range(256) if x != 58)
        if a58 != oth:
            return a58
    return None


def okvar(st, ch):
    return isvarseg(st, ch)


def entry_step(t, cur):
    """key if t is the (new or existing) child of `cur` under that key"""
    if t.op == "vfld" and t.a[1] in ("Node", "Leaf"):
        t = t.a[0]
    if t.op == "app" and t.a[0].startswith("Entry::or_") and t.a[1][0].op == "app" and t.a[1][0].a[0] == "HashMap::entry" and t.a[1][0].a[1][0] is cur:
        return t.a[1][0].a[1][1]
    return None


@prop("P14", ("default", "rustls"), ("default", "rustls", "openssl", "lenient", "nocookies"))
def p14(c):
    structural(c, "path::PathChunk", "path::PathBuf")
    insertion(c)
    lookup_tree(c)
    lookup_get(c)
    binding(c)


@prop("P14", ("nofeatures",), ("nofeatures", "faithful", "novars"))
def p14n(c):
    # without URL variables: exact matches only
    lookup_tree(c)
    lookup_get(c)


def insertion(c):
    where = "PathNode::insert"
    r = c.run(c.anchor(INSERT), ["self", "path", "data"])
    ip = r.ip
    path, data = mk("arg", "path"), mk("arg", "data")
    chunks = field(path, "chunks")
    R1 = "a pattern is stored segment by segment, variables as catch-alls"
    R2 = "the handler is stored at the end of its pattern, with the pattern"
    n = 0
    for st, v in r:
        lost = losses(st)
        judge(c, not lost, "earlier registrations stay in place", where, "%s drops what was registered before" % lost)
        pushes = [e for e in st.events() if e.kind == "call" and e.name in ("Vec::push", "Vec::insert", "Vec::extend", "VecDeque::push_back")]
        ends = []
        for e in pushes:
            t = e.args[0]
            b = t.a[0] if t.op == "vfld" and t.a[1] == "Leaf" else t
            if b.op == "app" and b.a[0].startswith("Entry::or_"):
                ends.append((e, b))
        if not ends:
            if lost:
                continue
            if not [e for e in strange_calls(st) if any(contains(x, data) for x in e.args)]:
                c.bad(R2, where, "nothing is stored when %s" % [("" if b else "!") + sh(k, 60) for k, b in st.facts.items()][-2:])
            else:
                c.und(R2, where, "insertion not recognised")
            continue
        n += 1
        c.req(len(ends) == 1, R2, where, "%d entries stored" % len(ends))
        e, b = ends[0]
        d = e.args[-1]
        ent = b.a[1][0]
        if not (ent.op == "app" and ent.a[0] == "HashMap::entry"):
            c.und(R2, where, "stored in %s" % sh(b, 100))
            continue
        cur, key = ent.a[1]
        judge(c, variant(key) == "End", R2, where, "stored under %s" % sh(key, 60), [key])
        judge(c, d.op == "agg" and field(d, "orig_path") is path and field(d, "data") is data, R2, where, "stored: %s" % sh(d, 120), [d])
        if cur.op != "phi" or cur not in ip.phi_loop:
            judge(c, False, R1, where, "stored in %s" % sh(cur, 100), [cur])
            continue
        L = ip.phi_loop[cur]
        i0 = ip.strip(L.pre, L.init[cur])
        c.req(root_arg(L.init[cur], i0), R1, where, "the walk starts at %s" % sh(i0, 80))
        drv, spec = loop_norm(ip, L)
        if drv is None or drv is not mk("it", "elems", chunks):
            bad = drv is not None and (lossy(drv) or (drv.op == "it" and drv.a[0] == "rev"))
            (c.bad if bad else c.und)(R1, where, "walk over %s" % (sh(drv, 100) if drv is not None else None))
            continue
        c.req(not lossy(L.drv) if L.drv is not None else True, R1, where, "segments are dropped by %s" % (L.drv is not None and lossy(L.drv)))
        c.req(exhausted(st, L) or L.drv is None, R1, where, "the walk ends early")
        for bs, vals in L.backs:
            w = ip.strip(bs, vals[cur])
            k = entry_step(w, cur)
            if k is None:
                judge(c, False, R1, where, "a segment leads to %s" % sh(w, 120), [w], ("Entry::or_default", "HashMap::entry", "Entry::or_insert_with", "Entry::or_insert"))
                continue
            k = item_subst(L, spec, k)
            seg = segterm(L, spec, bs)
            isv = None
            for s_ in seg:
                x = isvarseg(bs, s_)
                isv = x if x is not None else isv
            if variant(k) == "CatchAll":
                judge(c, isv is True, R1, where, "a segment that is no variable is stored as a catch-all", list(bs.facts) if isv is None else [])
            elif variant(k) == "Chunk":
                judge(c, field(k, "0") is X, R1, where, "a segment is stored as %s" % sh(field(k, "0"), 80), [field(k, "0")])
                judge(c, isv is False, R1, where, "a variable is stored as a literal segment", list(bs.facts) if isv is None else [])
            else:
                judge(c, False, R1, where, "a segment is stored under %s" % sh(k, 80), [k])
    c.req(n >= 1, "coverage", where, "no storing path")


def losses(st):
    """calls that remove or replace entries of the tree being inserted into"""
    out = []
    for e in st.events():
        if e.kind != "call" or not re.match(r"^(HashMap|Vec|HashSet|BTreeMap|OccupiedEntry|Entry)::", e.name):
            continue
        nm = e.name.split("::")[1]
        if nm in ("clear", "truncate", "remove", "retain", "drain", "pop", "swap_remove", "remove_entry", "split_off", "insert_entry", "dedup_by_key", "dedup_by"):
            out.append(e.name)
        elif e.name == "HashMap::insert":
            cur, key = e.args[0], e.args[1]
            absent = any((k.op == "isvar" and k.a[1] == "Some" and not b or k.op in ("mhas", "app") and not b) and contains(k, cur) for k, b in st.facts.items())
            if not absent:
                out.append("inserting over %s" % sh(key, 40))
    return out


def strange_calls(st):
    return [e for e in st.events() if e.kind == "call"]


def root_arg(raw, t):
    """the tree being inserted into"""
    s = mk("arg", "self")
    return contains(t, s) or "arg" in show(t) and "self" in show(t)


def segterm(L, spec, bs):
    """the terms that stand for the current segment in the facts of an iteration"""
    out = set()
    kind, s, ix = spec
    for k in bs.facts:
        for x in subterms(k):
            if x.op == "elem" and x.a[1] == L.id and kind == "elem" and x.a[0] is s:
                out.add(x)
            elif kind == "index" and x.op == "index" and x.a[0] is s:
                out.add(x)
    return out


def lookup_tree(c):
    where = "PathNode::dfs"
    fn = c.anchor(DFS)
    r = c.run(fn, ["self", "chunks"], keep=200)
    ip = r.ip
    me, ch = mk("arg", "self"), mk("arg", "chunks")
    node = payload(me, "Node")
    E = agg_key(r, "End")
    R1 = "the end of a path finds exactly the handlers stored there"
    R2 = "a segment is looked up literally%s, below with the remaining segments" % (" and as a variable" if c.feature("url_variables") else "")
    n = 0
    for st, v in r:
        rv = r.ret(st, v)
        empty = st.facts.get(eq(mklen(ch), I(0)))
        if empty is None:
            for k, b in st.facts.items():
                if k.op == "isvar" and k.a[1] == "Some" and k.a[0].op == "app" and k.a[0].a[0] in ("slice::first", "slice::split_first") and k.a[0].a[1][0] is ch:
                    empty = not b
        if empty is None:
            c.und(R1, where, "end of path not recognised")
            continue
        look = {}
        for k, b in st.facts.items():
            if k.op == "isvar" and k.a[1] == "Some" and k.a[0].op == "mget" and k.a[0].a[0] is node:
                look[variant(k.a[0].a[1])] = (k.a[0], b)
        n += 1
        if empty:
            m, b = look.get("End", (None, None))
            if b is True:
                judge(c, rv is payload(payload(m, "Some"), "Leaf"), R1, where, "found: %s" % sh(rv, 120), [rv])
            elif b is False:
                judge(c, rv is EMPTYSEQ, R1, where, "found: %s" % sh(rv, 120), [rv])
            else:
                judge(c, False, R1, where, "found without looking: %s" % sh(rv, 120), [rv] + list(st.facts))
            continue
        parts = acc(ip, st, rv)
        got = []
        und = False
        for p in parts:
            x = p
            if isinstance(p, Star):
                if len(p.alts) == 1 and p.alts[0][1] == [X] and p.drv is not None:
                    x = src_of(p.drv)
                    if x.op == "it" and x.a[0] == "elems":
                        x = x.a[1]
                else:
                    und = True
                    continue
            elif isinstance(p, T) and p.op == "more_from":
                x = src_of(p.a[0])
                if x.op == "it" and x.a[0] == "elems":
                    x = x.a[1]
            got.append(x)
        want = []
        rest = mkslice(ch, I(1), None)
        keys = [("Chunk", True), ("CatchAll", c.feature("url_variables"))]
        bad = None
        for name, on in keys:
            if not on:
                continue
            m, b = look.get(name, (None, None))
            if b is None:
                if any(x.op == "mget" for k in st.facts for x in subterms(k)) or not strange(rv, fn, DFS):
                    bad = "%s children are not looked at" % name
                continue
            if name == "Chunk" and field(m.a[1], "0") is not mk("index", ch, I(0)):
                bad = "the segment looked up is %s" % sh(field(m.a[1], "0"), 80)
            if b:
                want.append(app(DFS, payload(m, "Some"), rest))
        if und:
            c.und(R2, where, "result %s" % sh(rv, 120))
            continue
        good = bad is None and sorted(x.id for x in got) == sorted(x.id for x in want)
        judge(c, good, R2, where, bad or "found %s, expected %s" % ([sh(x, 120) for x in got], [sh(x, 120) for x in want]), got, (DFS,))
    c.req(n >= 4, "coverage", where, "%d outcomes" % n)


def agg_key(r, name):
    return None


def lookup_get(c):
    where = "PathNode::get"
    r = c.run(c.anchor(PGET), ["self", "path"], opaque=[DFS, MATCHES])
    ip = r.ip
    me, path = mk("arg", "self"), mk("arg", "path")
    R1 = "a lookup returns every handler found, each with the variables of its own pattern"
    src = app(DFS, me, field(path, "chunks"))
    for st, v in r:
        rv = r.ret(st, v)
        if rv is src:
            c.und(R1, where, "returned as found")
            continue
        ps = acc(ip, st, rv)
        if len(ps) != 1 or not isinstance(ps[0], Star) or ps[0].drv is None:
            judge(c, False, R1, where, "result %s" % sh(rv, 150), [rv], (DFS, MATCHES))
            continue
        z = ps[0]
        d = src_of(z.drv)
        if d.op == "it" and d.a[0] == "elems":
            d = d.a[1]
        if d is not src:
            judge(c, False, R1, where, "handlers from %s" % sh(d, 150), [d], (DFS,))
            continue
        lo = z.loop.drv is not None and lossy(z.loop.drv)
        if lo:
            c.und(R1, where, "handlers filtered by %s" % lo)
            continue
        c.req(exhausted(st, z.loop) or z.loop.drv is None, R1, where, "the walk ends early")
        for cond, items in z.alts:
            mf = any(k.op == "isvar" and is_app(k.a[0], MATCHES) and not b for k, b in cond)
            if len(items) != 1 or not isinstance(items[0], T):
                c.req(mf, R1, where, "a handler that was found is left out when %s" % [("" if b else "!") + sh(k, 80) for k, b in cond])
                continue
            it = items[0]
            if it.op != "agg":
                c.und(R1, where, "item %s" % sh(it, 100))
                continue
            judge(c, field(it, "data") is field(X, "data"), R1, where, "handler %s" % sh(field(it, "data"), 80), [field(it, "data")])
            if c.feature("url_variables"):
                vs = field(it, "vars")
                want = payload(app(MATCHES, field(X, "orig_path"), path), "Some")
                good = vs is want
                if mf:
                    good = True   # no such handler: the walk above returns matching patterns only
                elif not good and vs.op == "phi" and vs in ip.phi_loop:
                    L = ip.phi_loop[vs]
                    e = None
                    if L.init[vs] is EMPTYMAP and L.drv is not None and not lossy(L.drv):
                        s_ = src_of(L.drv)
                        if s_.op == "it" and s_.a[0] == "entries":
                            m = s_.a[1]
                            m2 = generalise(m, z.loop)
                            e = mk("elem", s_, L.id, 0)
                            good = m2 is want and all(ip.strip(b, vl[vs]) is mk("minsert", vs, field(e, "0"), field(e, "1")) for b, vl in L.backs)
                judge(c, good, R1, where, "variables are %s" % sh(vs, 120), [vs], (MATCHES,))


def generalise(t, L):
    m = {}
    for x in subterms(t):
        if x.op == "elem" and x.a[1] == L.id and x.a[2] == 0:
            m[x] = X
    return subst(t, m) if m else t


def binding(c):
    where = "PathBuf::check_matches"
    r = c.run(c.anchor(MATCHES), ["self", "other"], keep=200)
    ip = r.ip
    a_, b_ = field(mk("arg", "self"), "chunks"), field(mk("arg", "other"), "chunks")
    R1 = "a pattern matches a path of the same length whose segments are equal or variables"
    R2 = "each variable is bound to the segment at its own position"
    leneq = eq(mklen(a_), mklen(b_))
    n = 0
    for st, v in r:
        rv = r.ret(st, v)
        fact_ = st.facts.get(leneq)
        if variant(rv) == "None":
            if fact_ is False:
                c.ok(R1, where)
                continue
            good = False
            for L in ip.loops.values():
                pr = zipitems(L, a_, b_)
                if pr is None:
                    continue
                x, y = pr
                if fact_ is True and y.op == "elem" and st.facts.get(mk("more", *y.a)) is False and st.facts.get(mk("more", *x.a)) is True:
                    good = True    # cannot happen: both have the same length
                if st.facts.get(eq(x, y)) is False:
                    good = okvar(st, x) is False
            judge(c, good, R1, where, "rejected when %s" % [("" if q else "!") + sh(k, 80) for k, q in st.facts.items()], list(st.facts))
            continue
        if variant(rv) != "Some":
            c.und(R1, where, "result %s" % sh(rv, 100))
            continue
        n += 1
        judge(c, fact_ is True, R1, where, "paths of different length match", list(st.facts))
        vs = payload(rv, "Some")
        if vs.op != "phi" or vs not in ip.phi_loop:
            judge(c, False, R2, where, "variables are %s" % sh(vs, 100), [vs])
            continue
        L = ip.phi_loop[vs]
        judge(c, L.init[vs] is EMPTYMAP, R2, where, "variables start as %s" % sh(L.init[vs], 80), [L.init[vs]])
        pr = zipitems(L, a_, b_)
        if pr is None:
            lo = L.drv is not None and lossy(L.drv)
            (c.bad if lo or (L.drv is not None and anyrev(L.drv)) else c.und)(R1, where, "segments are compared along %s" % (sh(L.drv, 120) if L.drv is not None else None))
            continue
        x, y = pr
        c.req(exhausted(st, L) or L.drv is None, R1, where, "the comparison ends early")
        for bs, vals in L.backs:
            w = ip.strip(bs, vals[vs])
            isv = okvar(bs, x)
            same = bs.facts.get(eq(x, y))
            if w is vs:
                if isv is True:
                    c.bad(R2, where, "a variable is not bound")
                elif isv is False:
                    judge(c, same is True, R1, where, "a segment is accepted although it differs", list(bs.facts) if same is None else [])
                else:
                    judge(c, False, R2, where, "a segment is accepted without looking for a variable", list(bs.facts))
                continue
            judge(c, isv is True, R2, where, "a segment that is no variable is bound", list(bs.facts) if isv is None else [])
            good = w.op == "minsert" and w.a[0] is vs and w.a[1] is mkslice(x, I(1), None) and w.a[2] is y
            judge(c, good, R2, where, "bound: %s" % sh(w, 120), [w])
    c.req(n >= 1, "coverage", where, "no matching outcome")


def anyrev(it):
    return any(x.op == "it" and x.a[0] in ("rev", "skip", "take", "stepby", "skipwhile", "takewhile", "filter") for x in subterms(it))


def zipitems(L, a_, b_):
    """the current elements of two sequences walked in step"""
    d = L.drv
    if d is None:
        for phi in counter_of(L):
            return mk("index", a_, phi), mk("index", b_, phi)
        return None
    while d.op == "it" and d.a[0] in ("enum", "inspect"):
        d = d.a[1]
    ea, eb = mk("it", "elems", a_), mk("it", "elems", b_)
    if d.op == "it" and d.a[0] == "zip":
        if d.a[1] is ea and d.a[2] is eb or d.a[1] is eb and d.a[2] is ea:
            return mk("elem", ea, L.id, 0), mk("elem", eb, L.id, 0)
        return None
    if d is ea:
        # for (i, a) in self.iter().enumerate(): other[i]
        yb = mk("elem", eb, L.id, 0)
        if any(x is yb for bs, vals in L.backs for t in list(bs.facts) + list(vals.values()) if isinstance(t, T) for x in subterms(t)):
            return mk("elem", ea, L.id, 0), yb     # a second iterator advanced in step
        cnt = mk("elem", mk("it", "count", ea), L.id, 0)
        return mk("elem", ea, L.id, 0), mk("index", b_, cnt)
    if d.op == "it" and d.a[0] == "range" and is_c(d.a[1], "int") and cval(d.a[1]) == 0 and d.a[2] in (mklen(a_), mklen(b_)):
        i = mk("elem", d, L.id, 0)
        return mk("index", a_, i), mk("index", b_, i)
    return None


# ---------------------------------------------------------------- the handler chain
def flow_next(st, ret):
    a, b = vfact(st, ret, "Next"), vfact(st, ret, "Stop")
    return a if a is not None else (None if b is None else not b)


@prop("P15", ("default", "nofeatures"))
def p15(c):
    structural(c, "request::RequestMethod", "request::Request", "request::MatchedRequest")
    fn = c.anchor(RUN)
    c.anchor(PGET)
    r = c.run(fn, ["self", "req", "res"], opaque=[PGET], keep=200)
    ip = r.ip
    where = "Router::run"
    me, req = mk("arg", "self"), mk("arg", "req")
    line = field(req, "request_line")
    paths, method, path = field(me, "paths"), field(line, "method"), field(line, "path")
    mws = field(me, "middlewares")
    R1 = "the handlers of the request's method and path, of all methods, and the middlewares take part"
    R2 = "handlers run in registration order, each once"
    R3 = "the chain goes on exactly while handlers say so"
    R4 = "a handler sees the request and the variables of its own pattern"
    kn = (PGET, "callback", "Iterator::sum")
    outer = {}
    for L in ip.loops.values():
        for bs, vals in L.backs:
            es = [e for e in loop_events(L, bs) if e.kind in ("call", "await") and e.name == "callback"]
            if es:
                outer.setdefault(L.id, []).append((bs, vals, es))
    if not outer:
        cbs = [e for st, v in r for e in st.events() if e.name == "callback"]
        if cbs:
            c.bad(R3, where, "no further handler runs after a handler, whatever it says")
        else:
            c.und("coverage", where, "no handler call found")
        return
    lists = {}  # loop id -> the sequence of lists (or list) it runs through

    def source(L, st, e):
        """check one handler call; returns nothing"""
        clo, matched = e.args[0], e.args[1]
        if not (clo.op == "fld" and clo.a[1] == "closure"):
            judge(c, False, R1, where, "runs %s" % sh(clo, 120), [clo], kn)
            return
        item = clo.a[0]
        if item.op == "fld" and item.a[1] == "data":
            item = item.a[0]
        # what the handler is given
        if matched.op == "agg":
            rq = field(matched, "request")
            judge(c, rq is req, R4, where, "the request is %s" % sh(rq, 100), [rq])
            if c.feature("url_variables"):
                vs = field(matched, "vars")
                judge(c, vs is field(item, "vars"), R4, where, "variables are %s, the handler's are %s" % (sh(vs, 100), sh(field(item, "vars"), 100)), [vs], kn)
        else:
            c.und(R4, where, "the handler is given %s" % sh(matched, 100))
        rs = e.args[2] if len(e.args) > 2 else None
        if rs is not None:
            root = rs
            if rs.op == "phi" and rs in ip.phi_loop:
                root = ip.strip(ip.phi_loop[rs].pre, ip.phi_loop[rs].init[rs])
            judge(c, contains(root, mk("arg", "res")), R4, where, "the response is %s" % sh(rs, 100), [rs], kn)
        # where the handler comes from
        if item.op == "index" and item.a[0].op == "index" and item.a[0].a[0].op == "seq" and item.a[1].op == "index" and item.a[1].a[1] is item.a[0].a[1]:
            merged(L, st, e, item)
        elif item.op == "elem" and item.a[0].op == "it" and item.a[0].a[0] == "elems":
            single(L, st, e, item)
        else:
            c.und(R2, where, "order of %s" % sh(item, 120))

    def expect(st, seqs, loop):
        """the lists are the three sources, each ordered by position"""
        rest = list(seqs)
        for name, key in (("the request's method", method), ("all methods", None)):
            hit = None
            for k, b in st.facts.items():
                if k.op == "isvar" and k.a[1] == "Some" and k.a[0].op == "mget" and k.a[0].a[0] is paths:
                    q = k.a[0].a[1]
                    if q is key or (key is None and variant(q) == "All"):
                        hit = (k.a[0], b)
            if hit is None:
                judge(c, False, R1, where, "the routes of %s are not looked up" % name, [k for k in st.facts if contains(k, paths)], kn)
                continue
            m, b = hit
            want = app(PGET, payload(m, "Some"), path)
            mine = [x for x in rest if contains(x, payload(m, "Some"))]
            if not b:
                judge(c, not mine, R1, where, "routes although there are none", [])
                continue
            if len(mine) != 1:
                judge(c, False, R1, where, "the routes of %s are taken %d times" % (name, len(mine)), seqs, kn)
                continue
            rest.remove(mine[0])
            x = mine[0]
            if x is want:
                yield name, x
                continue
            if x.op == "sorted" and x.a[0] is want:
                okk = show(x.a[1]) == "$item.data.index"
                if x.a[1].op == "unknownkey":
                    c.und(R2, where, "sorted in a way that is not understood")
                else:
                    c.req(okk, R2, where, "the routes of %s are sorted by %s" % (name, sh(x.a[1], 80)))
                c.ok(R1, where)
            else:
                judge(c, False, R1, where, "the routes of %s are %s" % (name, sh(x, 150)), [x], kn)
        mw = 0
        for x in rest:
            ps = acc(ip, st, x)
            if not (len(ps) == 1 and isinstance(ps[0], Star) and ps[0].drv is not None):
                judge(c, False, R1, where, "also runs %s" % sh(x, 120), [x], kn)
                continue
            z = ps[0]
            if src_of(z.drv) is not mk("it", "elems", mws):
                (c.bad if lossy(z.drv) else c.und)(R1, where, "middlewares from %s" % sh(z.drv, 100))
                continue
            mw += 1
            if z.loop.drv is not None and lossy(z.loop.drv):
                c.bad(R1, where, "middlewares are dropped by %s" % lossy(z.loop.drv))
            for cond, items in z.alts:
                if len(items) != 1 or not isinstance(items[0], T) or items[0].op != "agg":
                    c.bad(R1, where, "a middleware is left out when %s" % [("" if b else "!") + sh(k, 80) for k, b in cond])
                    continue
                it = items[0]
                judge(c, field(it, "data") is X, R1, where, "a middleware runs %s" % sh(field(it, "data"), 80), [field(it, "data")])
                if c.feature("url_variables"):
                    judge(c, field(it, "vars") is EMPTYMAP, R4, where, "a middleware gets variables %s" % sh(field(it, "vars"), 80), [field(it, "vars")])
        judge(c, mw == 1, R1, where, "the middlewares are taken %d times" % mw, rest, kn)

    def merged(L, st, e, item):
        """several ordered lists, the one whose next element is first is taken"""
        seqs = item.a[0].a[0]
        mi = item.a[0].a[1]
        idx = item.a[1].a[0]
        unsorted = list(expect(st, list(seqs.a[0]), L))
        for name, x in unsorted:
            c.bad(R2, where, "the routes of %s are not ordered by position: %s" % (name, sh(x, 120)))
        if idx.op != "phi" or idx not in ip.phi_loop or ip.phi_loop[idx] is not L:
            c.und(R2, where, "positions %s" % sh(idx, 80))
            return
        i0 = ip.strip(L.pre, L.init[idx])
        z0 = i0.op == "seq" and len(i0.a[0]) == len(seqs.a[0]) and all(x is I(0) for x in i0.a[0])
        judge(c, z0, R2, where, "the lists start at %s" % sh(i0, 80), [i0])
        for bs, vals, es in outer[L.id]:
            w = ip.strip(bs, vals[idx])
            want = mk("iset", idx, mi, add(mk("index", idx, mi), I(1)))
            judge(c, w is want, R2, where, "after a handler the lists stand at %s" % sh(w, 120), [w])
        # enough rounds
        tot = None
        d = L.drv
        if d is not None and d.op == "it" and d.a[0] == "range" and d.a[1] is I(0):
            tot = d.a[2]
        elif d is None and rounds(L) is not None:
            tot = rounds(L)
        else:
            c.und(R2, where, "rounds driven by %s" % (sh(d, 100) if d is not None else None))
        if tot is not None:
            if tot.op == "app" and tot.a[0] == "Iterator::sum":
                s_ = tot.a[1][0]
                full = s_.op == "it" and s_.a[0] == "map" and s_.a[1] is mk("it", "elems", seqs) and "len" in show(s_.a[2])
                judge(c, full, R2, where, "the number of handlers run is %s" % sh(tot, 120), [])
            else:
                lens = sumof([mklen(x) for x in seqs.a[0]])
                judge(c, tot is lens, R2, where, "the number of handlers run is %s" % sh(tot, 120), [tot])
        # the choice
        if mi.op != "phi" or mi not in ip.phi_loop:
            c.und(R2, where, "choice %s" % sh(mi, 100))
            return
        M = ip.phi_loop[mi]
        es_, ei = mk("it", "elems", seqs), mk("it", "elems", idx)
        dd = M.drv
        walked = None
        if dd is not None and dd.op == "it" and dd.a[0] == "enum" and dd.a[1].op == "it" and dd.a[1].a[0] == "zip" and {dd.a[1].a[1], dd.a[1].a[2]} == {es_, ei}:
            walked = (mk("elem", mk("it", "count", dd.a[1]), M.id, 0), mk("elem", es_, M.id, 0), mk("elem", ei, M.id, 0))
        elif dd is not None and dd is mk("it", "enum", es_):
            n_ = mk("elem", mk("it", "count", es_), M.id, 0)
            walked = (n_, mk("elem", es_, M.id, 0), mk("index", idx, n_))
        elif dd is not None and dd.op == "it" and dd.a[0] == "range" and dd.a[1] is I(0) and (dd.a[2] is mklen(seqs) or dd.a[2] is mklen(idx)):
            n_ = mk("elem", dd, M.id, 0)
            walked = (n_, mk("index", seqs, n_), mk("index", idx, n_))
        if walked is None:
            c.und(R2, where, "choice made along %s" % (sh(dd, 120) if dd is not None else None))
            return
        n_, lst, pos = walked
        cand = field(field(mk("index", lst, pos), "data"), "index")
        inside = lt(pos, mklen(lst))
        mv = [p for p in M.init if any(ip.strip(bs, vals[p]) is cand for bs, vals in M.backs)]
        if len(mv) != 1:
            ok_other = False
            c.und(R2, where, "choice by %d criteria" % len(mv))
            return
        mv = mv[0]
        judge(c, M.init[mv].op == "c" and cval(M.init[mv]) == 2 ** 64 - 1, R2, where, "the search for the first handler starts at %s" % sh(M.init[mv], 60), [M.init[mv]])
        for bs, vals in M.backs:
            nm, nv = ip.strip(bs, vals[mi]), ip.strip(bs, vals[mv])
            ins = bs.facts.get(inside)
            less = bs.facts.get(lt(cand, mv))
            if less is None:
                q = bs.facts.get(lt(mv, cand))
                less = None if q is None else not q
            if nm is n_ and nv is cand:
                judge(c, ins is True and less is True, R2, where, "a handler is preferred under %s" % [("" if b else "!") + sh(k, 80) for k, b in newfacts(M, bs)], [])
            elif nm is mi and nv is mv:
                judge(c, ins is False or less is False, R2, where, "an earlier handler is passed over under %s" % [("" if b else "!") + sh(k, 80) for k, b in newfacts(M, bs)], [])
            else:
                judge(c, False, R2, where, "the choice becomes (%s, %s)" % (sh(nm, 60), sh(nv, 60)), [nm, nv])

    def single(L, st, e, item):
        """one list, ordered as a whole"""
        seq = item.a[0].a[1]
        if item.a[1] != L.id:
            c.und(R2, where, "order of %s" % sh(item, 120))
            return
        if L.drv is not None and lossy(L.drv):
            c.bad(R2, where, "handlers are dropped by %s" % lossy(L.drv))
        s_ = seq
        if s_.op != "sorted":
            ps = acc(ip, st, s_)
            if len([p for p in ps if not (isinstance(p, T) and p is EMPTYSEQ)]) > 1:
                c.bad(R2, where, "the handlers are not ordered by position")
                return
            c.und(R2, where, "order of %s" % sh(seq, 120))
            return
        c.req(show(s_.a[1]) == "$item.data.index" or s_.a[1].op == "unknownkey", R2, where, "handlers sorted by %s" % sh(s_.a[1], 80))
        parts = []
        for p in acc(ip, st, s_.a[0]):
            if isinstance(p, Star) and p.drv is not None and len(p.alts) == 1 and p.alts[0][1] == [X]:
                d = src_of(p.drv)
                if d.op == "it" and d.a[0] == "flatten" and d.a[1].op == "it" and d.a[1].a[0] == "elems" and d.a[1].a[1].op == "seq":
                    parts += list(d.a[1].a[1].a[0])
                    continue
                parts.append(d.a[1] if d.op == "it" and d.a[0] == "elems" else d)
            elif isinstance(p, Star):
                # the middlewares, mapped on the way
                parts.append([q for q in p.loop.init if q in ip.phi_loop][0])
            elif p.op == "more_from":
                d = src_of(p.a[0])
                parts.append(d.a[1] if d.op == "it" and d.a[0] == "elems" else d)
            else:
                parts.append(p)
        for name, x in expect(st, parts, L):
            c.ok(R1, where)

    for lid, bl in outer.items():
        L = ip.loops[lid]
        for bs, vals, es in bl:
            c.req(len(es) == 1, R2, where, "%d handlers run in one round" % len(es))
            for e in es:
                source(L, bs, e)
                nx = flow_next(bs, e.ret)
                judge(c, nx is True, R3, where, "the chain goes on %s" % ("after a handler stopped it" if nx is False else "without asking the handler"), [k for k in bs.facts if contains(k, e.ret)], ("callback", PGET))
    n = 0
    for st, v in r:
        n += 1
        cb = [e for e in st.events() if e.kind in ("call", "await") and e.name == "callback"]
        for e in cb:
            nx = flow_next(st, e.ret)
            judge(c, nx is False, R3, where, "the chain ends although the handler said to go on" if nx else "the chain ends without asking the handler", [k for k in st.facts if contains(k, e.ret)], ("callback", PGET))
        if not cb:
            done = [L for L in ip.loops.values() if L.id in outer and exhausted(st, L)]
            if not done and not any(L.drv is None for L in ip.loops.values() if L.id in outer):
                # left before the loop: only if there was nothing to run
                judge(c, False, R3, where, "returns without running the handlers when %s" % [("" if b else "!") + sh(k, 60) for k, b in st.facts.items()][-2:], list(st.facts), kn)
    c.req(n >= 2, "coverage", where, "%d outcomes" % n)


def rounds(L):
    """the bound of a loop counted up by one from zero"""
    cs = set(counter_of(L))
    bounds = set()
    for bs, vals in L.backs:
        mine = {k.a[1] for k, b in newfacts(L, bs) if k.op == "lt" and b and k.a[0] in cs}
        if len(mine) != 1:
            return None
        bounds |= mine
    return bounds.pop() if len(bounds) == 1 else None


def sumof(ts):
    t = ts[0]
    for x in ts[1:]:
        t = add(t, x)
    return t


@prop("P15")
def p15flow(c):
    r = c.run(c.anchor("router::Flow::should_continue"), ["self"])
    for st, v in r:
        rv = r.ret(st, v)
        s = mk("arg", "self")
        nx = vfact(st, s, "Next")
        nx = nx if nx is not None else (None if vfact(st, s, "Stop") is None else not vfact(st, s, "Stop"))
        if rv is isvar(s, "Next"):
            c.ok("only Flow::Next continues the chain", "Flow::should_continue")
        elif is_c(rv, "bool") and nx is not None:
            c.req(cval(rv) == nx, "only Flow::Next continues the chain", "Flow::should_continue", "%s for Flow::%s" % (cval(rv), "Next" if nx else "Stop"))
        else:
            judge(c, False, "only Flow::Next continues the chain", "Flow::should_continue", "is %s" % sh(rv, 80), [rv])
