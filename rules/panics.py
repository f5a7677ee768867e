"""Panic freedom: every construct that can panic on the way from a connection's bytes to its answer.

The analysis walks each function from arbitrary arguments (arbitrary bytes, arbitrary results of reads and
writes).  At every construct that can panic (index, slice, character boundary, unwrap/expect, checked
arithmetic, explicit panic, allocation of a size taken from the request) it owes the condition under which
the construct does not panic, to be derived from the conditions on the path (linear inequalities, variants
known, positions of searches, loop invariants found by weakening)."""
from rl import *
import lin
from . import prop
from .server import is_empty, SERVE, SEND, RUN, HPARSE, LPARSE, FROMRAW, VALID, READER, FIND, GETDATA, PARTS

GET, DFS, MATCH = "path::PathNode::<T>::get", "path::PathNode::<T>::dfs", "path::PathBuf::check_matches"
LOCAL = set()
CPARSE = "cookie::Cookie::<'a>::parse"
QUERIES = ["query::parse_query", "query::parse_extended_query"]

# function, parts analysed on their own, leaves looked into, needed (its absence leaves the property undecided)
ROOTS = [
    (SERVE, tuple(x for x in PARTS if x != VALID), (), True),
    (READER, (FIND,), (), True),
    (FIND, (), (), False),
    (VALID, (), (), True),
    (FROMRAW, (CPARSE,), (), True),
    (HPARSE, (), (), True),
    (LPARSE, (), (), True),
    ("request::KeepAlive::parse", (), (), False),
    (RUN, (GET,), (), True),
    (GET, (DFS, MATCH), (), True),
    (DFS, (), (), False),
    (MATCH, (), (), False),
    ("path::PathBuf::parse", (), (), True),
    ("request::Request::<'a>::get_query", tuple(QUERIES), (), False),
    ("request::Request::<'a>::get_extended_query", tuple(QUERIES), (), False),
    (QUERIES[0], (), (), False),
    (QUERIES[1], (), (), False),
    ("query::unescape_hex", (), ("query::from_hex",), True),
    (CPARSE, (), (), False),
    ("cookie::Cookie::<'a>::serialise", (), (), False),
    (SEND, (), (), True),
    ("error::Error::send", (SEND,), (), True),
    (GETDATA, (), (), True),
    ("<util::AsyncReader<T> as tokio::io::AsyncRead>::poll_read", (), (), True),
    ("<util::Spliterator<'a, T> as std::iter::Iterator>::next", (), (), False),
]
ACCEPT = ["server_builder::ServerBuilder::listen", "server_builder::ServerBuilder::listen_ssl"]

# results of these depend on the peer or the file system alone: no earlier condition rules the failure out
IO = re.compile(r"^(AsyncReadExt::|AsyncWriteExt::|AsyncRead::|AsyncWrite::|io::copy|AsyncBufReadExt::|TcpStream::|TcpListener::accept|TlsAcceptor::accept|time::timeout|Read::|Write::)")
# partial functions of the standard library, applied to a text or a sequence
PARTIAL = re.compile(r"^(from_utf8|Cookie::parse|Cookie::parse_encoded|str::(find|rfind|split_once|rsplit_once|strip_prefix|strip_suffix|parse|from_utf8|get|chars)|String::from_utf8|converts::from_utf8|slice::(first|last|get|split_first|split_last|iter)|"
                     r"Iterator::(next|nth|last|position|rposition|find|max|min)|Vec::(pop|first|last|get)|DoubleEndedIterator::next_back|char::(to_digit|from_u32)|convert::(from_digit|from_u32)|"
                     r"FromStr::from_str|TryFrom::try_from|TryInto::try_into)$")
PLAINFN = re.compile(r"^(from_utf8|io::split|Error::kind|File::open|BufReader::new|pemfile::\w+|Cookie::parse|str::(find|rfind|trim\w*|to_\w+|as_bytes|len|parse|split_\w+|strip_\w+|from_utf8)|slice::to_vec|String::from_utf8|String::from_utf8_lossy|converts::from_utf8|FromStr::from_str|"
                     r"AsyncReadExt::read\w*|Iterator::(position|rposition|count)|u8::\w+|char::\w+)$")


# ------------------------------------------------------------------ what a condition is about
DESC = ("not", "eq", "lt", "bin", "cast", "len", "isvar", "vfld", "await", "more", "fld")


def texts(t):
    """the texts, sequences and numbers a term is directly about"""
    out = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.op in ("c", "charset", "fn", "zst", "clo"):
            continue
        if x.op == "app":
            if IO.match(x.a[0]):
                out.add(x)
                continue
            todo += [y for y in x.a[1] if isinstance(y, T)]
            continue
        if x.op == "it":
            todo += [y for y in x.a[1:] if isinstance(y, T)]
            continue
        if x.op in DESC and not (x.op == "fld" and not (x.a[0].op in ("vfld", "await", "app"))):
            todo += [y for y in x.a if isinstance(y, T)]
            continue
        if x.op == "index":
            todo += [x.a[0], x.a[1]]
            continue
        out.add(x)
    return out


def whole(ts):
    """with what they are parts of"""
    out = set()
    todo = list(ts)
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        if x.op == "slice":
            todo.append(x.a[0])
        elif x.op == "elem":
            todo += list(texts(x.a[0]))
        elif x.op in ("mut",):
            todo += [y for y in x.a[2] if isinstance(y, T)]
        elif x.op in ("concat", "cat"):
            todo += [y for y in x.a[0] if isinstance(y, T)]
    return out


def about(k, g):
    """the two conditions are about one text, or about a text and a part of it"""
    a, b = texts(k), texts(g)
    if a & whole(b) or b & whole(a):
        return True
    return any(x.op == "slice" and y.op == "slice" and lin.unslice(x)[0] is lin.unslice(y)[0] and not apart(x, y) for x in a for y in b)


def span(x):
    """(from, to or None) of a part, in the whole text"""
    b, lo = lin.unslice(x)
    hi = None
    if x.a[2] is not None:
        hi = add(lo, sub(x.a[2], x.a[1]))
    elif x.a[0].op == "slice":
        hi = span(x.a[0])[1]
    return lo, hi


def apart(x, y):
    (l1, h1), (l2, h2) = span(x), span(y)
    return h1 is not None and lin.prove_le({}, h1, l2) or h2 is not None and lin.prove_le({}, h2, l1)


def linear(k):
    return k.op in ("lt", "eq") and any(lin.is_intlike(x) or is_c(x, "char") for x in k.a)


def odd(x):
    """a part of a term that may hide a relation the domain does not know"""
    if x.op in ("phi", "acc", "unk", "top", "havoc", "undef", "ite", "clo"):
        return True
    if x.op == "mut":
        return not IO.match(x.a[0])
    if x.op == "app":
        return not (PLAINFN.match(x.a[0]) or IO.match(x.a[0]) or x.a[0] == FIND or x.a[0] in LOCAL)
    return False


def strange(t):
    """an odd part outside the arguments of reads and writes"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if odd(x):
            return x
        if x.op in ("app", "mut") and IO.match(x.a[0]):
            continue
        for y in x.a:
            todo += [y] if isinstance(y, T) else [z for z in y if isinstance(z, T)] if isinstance(y, tuple) else []
    return None


def plain_fact(k, v, goal=None):
    """a condition whose whole bearing on lengths and positions the linear domain knows"""
    while k.op == "not":
        k = k.a[0]
    if k.op == "more":
        return True
    if k.op == "isvar":
        x = k.a[0]
        while x.op == "await":
            x = x.a[0]
        if goal is not None and contains(goal, x):
            return True
        return x.op in ("arg", "fld", "mget") or x.op == "app" and bool(x.a[0] in LOCAL or PLAINFN.match(x.a[0]) or IO.match(x.a[0]) or x.a[0] == FIND)
    if linear(k):
        return strange(k) is None
    if k.op == "eq":
        return not v or any(x.op == "c" for x in k.a)
    if k.op == "app" and k.a[0] in ("str::starts_with", "str::ends_with", "slice::starts_with") or k.op == "isbound":
        return True
    if k.op == "app" and k.a[0] in ("str::contains", "slice::contains"):
        # says that something occurs, not where
        return not v or goal is not None and linear(goal) and is_c(k.a[1][1])
    return False


def walked_over(r, t, facts):
    """a loop on the path ran over what the condition is about"""
    ts = whole(texts(t))
    return any(k.op == "more" and not v and (texts(k) & ts) for k, v in facts.items())


def core(g):
    while g.op == "not":
        g = g.a[0]
    return g


def related(facts, goal, but=None):
    """a condition of the path about the same thing as the goal, of a kind the domain does not fully know"""
    for k, v in facts.items():
        if k is not but and about(k, goal) and not plain_fact(k, v, core(goal)):
            return k
    return None


# ------------------------------------------------------------------ the first time round
def first_time(r, o):
    """the condition and the path as they are when every loop it is in runs for the first time; None if that is not a path"""
    g, facts = o["goal"], o["facts"]
    for _ in range(4):
        phis = {x for t in ([g] if g is not None else []) + list(facts) for x in subterms(t) if x.op == "phi"}
        if not phis:
            break
        m = {}
        for x in phis:
            L = r.ip.phi_loop.get(x)
            L = r.ip.loops.get(L) if not hasattr(L, "init") else L
            if L is None or x not in L.init:
                return None
            if L.drv is not None and not any(k.op == "more" and v and L.id in k.a for k, v in facts.items()):
                return None
            m[x] = L.init[x]
        g = subst(g, m) if g is not None else None
        nf = {}
        for k, v in facts.items():
            k2 = subst(k, m)
            while k2.op == "not":
                k2, v = k2.a[0], not v
            if is_c(k2, "bool"):
                if bool(cval(k2)) != v:
                    return None
                continue
            if nf.get(k2, v) != v:
                return None
            nf[k2] = v
        facts = nf
    if lin.entails(facts, ({}, -1), all_facts=True):
        return None
    return dict(o, goal=g, facts=facts)


# ------------------------------------------------------------------ what loops over the peer's text can leave behind
GENERIC = [0]


def anything(what):
    GENERIC[0] += 1
    return mk("arg", "%s#%d" % (what, GENERIC[0]))


def peer_loop(L):
    """the text whose pieces the loop takes one by one"""
    d = L.drv
    if d is None or d.op != "it" or d.a[0] not in ("split", "chars", "lines", "split_ws", "bytes", "elems"):
        return None
    t = d.a[1]
    return t if not is_c(t) and strange(t) is None else None


def pushed(v, phi):
    """the element if v is phi with one element more"""
    if v is None:
        return None
    if v.op == "push" and v.a[0] is phi:
        return v.a[1]
    if v.op == "concat" and len(v.a[0]) == 2 and v.a[0][0] is phi and v.a[0][1].op == "seq" and len(v.a[0][1].a[0]) == 1:
        return v.a[0][1].a[0][0]
    return None


def grows(L, phi):
    """the sequence starts empty and gets one more element in a round that depends on the piece of text alone: it can have any length"""
    t = peer_loop(L)
    if t is None or not is_empty(L.init[phi]):
        return False
    for st, vals in L.backs:
        if pushed(vals.get(phi), phi) is not None:
            if not any(has(k, lambda x: x.op == "phi" and x in L.init) for k, _ in newfacts(L, st)):
                return True
    return False


def computed_bytes(L, phi):
    """a round appends a byte that is calculated, not one of a text"""
    for st, vals in L.backs:
        x = pushed(vals.get(phi), phi)
        if x is not None and x.op in ("bin", "add", "mul", "or", "shl", "sub") and not is_c(x) and not lin.prove_lt(st.facts, x, I(128)):
            return True
    return False


def stored_variants(L, phi):
    """variants of the values that rounds store in the map under a key taken from the text"""
    out = set()
    for st, vals in L.backs:
        v = vals.get(phi)
        while v is not None and v.op in ("minsert", "mset"):
            if variant(v.a[2]) is not None and not is_c(v.a[1]):
                out.add(variant(v.a[2]))
            v = v.a[0]
    return out


def loop_results(r, o):
    """the obligation with what loops over the peer's text leave behind replaced by something arbitrary, where it can be anything"""
    g, facts = o["goal"], dict(o["facts"])

    def terms():
        return ([g] if g is not None else []) + list(facts)

    def replace(m, drop=()):
        nonlocal g, facts
        g = subst(g, m) if g is not None else None
        facts = {subst(k, m): v for k, v in facts.items() if k not in drop}

    for phi in {x for t in terms() for x in subterms(t) if x.op == "phi"}:
        L = r.ip.phi_loop.get(phi)
        L = r.ip.loops.get(L) if not hasattr(L, "init") else L
        if L is None or phi not in L.init:
            continue
        if mklen(phi).op == "len" and grows(L, phi):
            bare = {t: subst(t, {mklen(phi): I(0)}) for t in terms()}
            text = lin.unslice(peer_loop(L))[0]
            if not any(has(t, lambda x: x is phi) for t in bare.values()) and \
                    not any(linear(core(k)) and has(k, lambda x: x.op == "len" and lin.unslice(x.a[0])[0] is text) for k in facts):
                replace({mklen(phi): mklen(anything("grown"))})
                continue
        utf = [x for t in terms() for x in subterms(t) if x.op in ("from_utf8", "app") and "from_utf8" in (x.op if x.op != "app" else x.a[0]) and phi in (x.a if x.op != "app" else x.a[1])]
        if utf and computed_bytes(L, phi):
            # what else the loop leaves behind says nothing about the bytes
            replace({phi: mk("mut", "Read::read", 0, (), phi.id)}, {k for k in facts if has(k, lambda x: x.op == "phi" and x in L.init) and not has(k, lambda x: x is phi)})
            continue
        vs = stored_variants(L, phi)
        for q in {x for t in terms() for x in subterms(t) if x.op == "mget" and x.a[0] is phi and not is_c(x.a[1])} if vs else ():
            some_ = isvar(q, "Some")
            if facts.get(some_) is not True:
                continue
            pay = payload(q, "Some")
            asked = [(k, v) for k, v in facts.items() if k.op == "isvar" and k.a[0] is pay]
            if asked and any(all((x == k.a[1]) == v for k, v in asked) for x in vs):
                replace({pay: anything("stored")}, {some_})
    return dict(o, goal=g, facts=facts)


# ------------------------------------------------------------------ loop invariants
def bounds(r):
    """inequalities phi <= k that hold at every loop head: all candidates, weakened until inductive"""
    consts = set()
    for o in r.ip.obl:
        if o["ok"] or o["goal"] is None:
            continue
        for x in subterms(o["goal"]):
            if is_c(x, "int") and -2 < cval(x) < 10000:
                consts |= {cval(x) - 1, cval(x), cval(x) + 1}
    cand = []
    for L in r.ip.loops.values():
        for phi in L.init:
            if lin.TYPES.get(phi) in lin.UNSIGNED or phi.op == "phi" and is_c(L.init[phi], "int") or any(is_c(v.get(phi), "int") for _, v in L.backs if v.get(phi) is not None):
                for k in sorted(consts):
                    cand.append((phi, k, L))
    cand = cand[:200]
    for _ in range(12):
        ineq = [(({p: -1}, k)) for p, k, _ in cand]
        keep = []
        for p, k, L in cand:
            ok = L.pre is not None and lin.prove_le(L.pre.facts, L.init[p], I(k), ineq)
            if ok:
                for bs, vals in L.backs:
                    v = vals.get(p, p)
                    if v is not p and not lin.prove_le(bs.facts, v, I(k), ineq):
                        ok = False
                        break
            if ok:
                keep.append((p, k, L))
        if len(keep) == len(cand):
            break
        cand = keep
    return [(({p: -1}, k)) for p, k, _ in cand]


def by_bounds(inv, o):
    g = o["goal"]
    if g is None or not inv:
        return False
    pos = True
    while g.op == "not":
        g, pos = g.a[0], not pos
    if g.op != "lt":
        return False
    a, b = g.a
    return lin.prove_lt(o["facts"], a, b, inv) if pos else lin.prove_le(o["facts"], b, a, inv)


# ------------------------------------------------------------------ what other rules establish
def settled(o):
    """a condition that another property's rule decides; the name of that rule"""
    g, facts = o["goal"], o["facts"]
    fn = o["fn"]
    if g is None:
        # the shape of the route tree: inner nodes are nodes, ends are leaves
        if fn.startswith("path::") and any(k.op == "isvar" and k.a[1] in ("Node", "Leaf") for k in facts):
            return "shape of the route tree (P14)"
        return None
    if g.op == "isvar" and g.a[0].op == "app" and g.a[0].a[0] == MATCH:
        a = g.a[0].a[1]
        if a[0].op == "fld" and a[0].a[1] == "orig_path" and has(a[0], lambda x: x.op == "app" and x.a[0] == DFS):
            return "routes found by the search match the path (P14)"
    x = g
    while x.op == "not":
        x = x.a[0]
    if x.op == "lt" and is_c(x.a[0], "int") and cval(x.a[0]) == 0 and x.a[1].op == "len":
        e = x.a[1].a[0]
        if (e.op == "elem" or (e.op == "index" and e.a[0].op == "fld")) and has(e.a[0], lambda y: y.op == "fld" and y.a[1] == "chunks"):
            return "path segments are not empty (P13)"
    if o["fn"].startswith(RUN) and o["kind"] == "bounds" and x.op == "lt" and has(x.a[0], lambda y: y.op == "phi") and has(x.a[1], lambda y: y.op == "phi"):
        return "the merge stays inside its lists (P15)"
    return None


def fails(c, runs, name):
    """whether a function of the crate has an exit with a failure (None: not known)"""
    r = runs.get(name)
    if r is None:
        return None
    for st, v in r:
        v = r.ip.strip(st, r.ip.deref(st, v))
        if variant(v) in ("Err", "None"):
            return True
    return None


def possible(r, facts, i):
    """None if nothing before the i-th condition of the path has a bearing on it that the domain does not know, else what may"""
    ks = list(facts)
    k, v = ks[i], facts[ks[i]]
    x = core(k)
    y = x.a[0] if x.op == "isvar" else x
    while y.op in ("await", "vfld"):
        y = y.a[0]
    if strange(y) is not None:
        return k
    before = {q: facts[q] for q in ks[:i]}
    if y.op == "app" and "from_utf8" in y.a[0] and not v and not from_io(y):
        return k
    q = related(before, k)
    if q is not None:
        return q
    if not plain_fact(k, v, None):
        q = next((q for q in before if about(q, k) and q.op != "more"), None)
        if q is not None:
            return q
    if x.op != "isvar" and not linear(x) and x.op != "more" and walked_over(r, x, before):
        return x
    return None


def reached(r, o):
    """a construct that fails whenever it is reached: can the conditions on the way to it hold together?"""
    facts = o["facts"]
    if not facts:
        return "bad", "reached on every run"
    n = len(facts)
    last = list(facts)[-1]
    how = "reached when %s%s" % ("" if facts[last] else "not ", sh(last, 150))
    why = possible(r, facts, n - 1)
    if why is None and last.op != "more":
        return "bad", how
    whys = [possible(r, facts, i) for i in range(n)]
    if all(w is None for w in whys):
        return "bad", how
    return "und", "reached under %s" % sh(next(w for w in whys if w is not None), 120)


def from_io(t):
    """made from bytes a peer sent"""
    return has(t, lambda x: x.op == "mut" and bool(IO.match(x.a[0])))


def classify(c, r, runs, o):
    """('bad'|'und', reason) of a condition that was not derived"""
    o = first_time(r, loop_results(r, o))
    if o is None:
        return "und", "depends on a loop"
    g, facts, kind = o["goal"], o["facts"], o["kind"]
    if g is TRUE:
        return "und", "depends on a loop"
    if g is None or g is FALSE:
        if g is FALSE or kind.startswith("panic:") or kind.startswith("diverge:"):
            return reached(r, o)
        return "und", "no condition known"
    x, pos = g, True
    while x.op == "not":
        x, pos = x.a[0], not pos
    if facts.get(x) == (not pos):
        return reached(r, o)
    if x.op == "isvar":
        v = x.a[0]
        while v.op == "await":
            v = v.a[0]
        if v.op == "app":
            if IO.match(v.a[0]):
                return "bad", "%s can fail" % v.a[0]
            if v.a[0] in runs:
                return ("bad", "%s can fail" % v.a[0]) if fails(c, runs, v.a[0]) and not related(facts, g) else ("und", "result of " + v.a[0])
            if PARTIAL.match(v.a[0]) or v.a[0] == FIND:
                k = related(facts, g)
                if k is not None:
                    return "und", "under %s" % sh(k, 120)
                if "from_utf8" in v.a[0] and not from_io(v):
                    return "und", "of text that may be known to be valid"
                if walked_over(r, g, facts):
                    return "und", "its argument was walked over"
                if strange(v) is not None:
                    return "und", "unknown argument"
                return "bad", "%s can fail" % v.a[0]
        if v.op == "mget":
            if related(facts, g) is None and strange(v) is None:
                return "bad", "the key may be absent"
        return "und", "not understood"
    if x.op == "lt":
        if strange(x) is not None:
            return "und", "not understood"
        k = related(facts, g)
        if k is not None:
            return "und", "under %s" % sh(k, 120)
        ps = [lin.search_of(y) for y in subterms(x) if lin.search_of(y)]
        if len({(s.id, p.id) for s, p, f in ps}) > 1 and len({s.id for s, p, f in ps}) < len({(s.id, p.id) for s, p, f in ps}):
            return "und", "two searches of one text"
        if lin.prove_lt(facts, *x.a) if pos else lin.prove_le(facts, x.a[1], x.a[0]):
            return "und", "depends on a loop"
        return "bad", "not implied by the conditions on the path"
    if x.op == "app" and x.a[0] == "str::is_char_boundary":
        text = x.a[1][0]
        n = has(x.a[1][1], lambda y: y.op == "app" and y.a[0] in ("Iterator::position", "Iterator::rposition", "Iterator::count") and has(y, lambda z: z.op == "it" and z.a[0] == "chars"))
        if (any(strange(y) is not None for y in x.a[1]) and not (n and strange(text) is None)) or walked_over(r, text, facts):
            return "und", "not understood"
        k = related({k: v for k, v in facts.items() if not (n and k.op == "isvar")}, g)
        if k is not None:
            return "und", "under %s" % sh(k, 120)
        if n:
            return "bad", "a count of characters used as a byte offset"
        if any(k.op in ("eq", "lt") and has(k, lambda y: y.op == "index" and about(y, x)) for k, v in facts.items() if v):
            return "und", "a byte of it was looked at"
        return "bad", "may fall inside a character"
    return "und", "not understood"


@prop("P01", cfgs=("default", "rustls"))
def p01(c):
    p = c.prog()
    runs = {}
    for fn, opq, tr, need in ROOTS:
        if fn not in p.fns:
            if need:
                c.und("coverage", fn, "no such function; what it did is analysed where it is called")
            continue
        runs[fn] = c.run(fn, ["a%d" % i for i in range(p.fns[fn]["argc"])], opaque=opq, transparent=tr)
    LOCAL.clear()
    LOCAL.update(runs)
    for fn, r in runs.items():
        report(c, r, runs, fn, None)
    recursion(c, p, set(runs))
    # the accept loop: what a connecting peer can cause
    for fn in ACCEPT:
        if fn in p.fns:
            r = c.run(fn, None, opaque=[])
            report(c, r, runs, fn, re.compile(r"accept|peer_addr|TcpStream|TlsStream|handshake|AsyncRead|AsyncWrite"))


def recursion(c, p, roots):
    """the stack is finite: what serves a request calls itself only along a structure the program itself built"""
    g = {}
    for n, f in p.fns.items():
        out = g.setdefault(n, set())
        for b in f["blocks"]:
            t = b["t"]
            k = t["f"].get("fn") if t["k"] == "call" else None
            if k:
                r = (k.get("resolved") or k["path"]).replace("octane_http::", "")
                if r in p.fns:
                    out.add(r)
        if f.get("parent"):
            g.setdefault(f["parent"], set()).add(n)

    def reach(a):
        seen, w = set(), list(g.get(a, ()))
        while w:
            x = w.pop()
            if x not in seen:
                seen.add(x)
                w += g.get(x, ())
        return seen
    live = set(roots)
    for n in roots:
        live |= reach(n)
    rec = {a for a, d in p.adts.items() if any(re.search(r"\b%s\b" % re.escape(a.split("::")[-1]), x["ty"]) for v in d["variants"] for x in v["fields"])}
    loops = {n for n in live if n in p.fns and n in reach(n)}
    if not loops:
        c.ok("no unbounded recursion", "%d functions" % len(live), "no function reached from serving a request calls itself")
    for n in sorted(loops):
        f = p.fns[n]
        tys = [x["ty"] for x in f["locals"][1:f["argc"] + 1]]
        where = "%s (%s)" % (n, f["span"])
        if any(re.search(r"\b%s\b" % re.escape(a), t) for a in rec for t in tys):
            c.ok("no unbounded recursion", where, "descends a %s the application built" % [a for a in rec if any(a in t for t in tys)][0])
        elif f.get("parent") in loops:
            continue
        elif any(re.search(r"str\b|String|\[u8\]|\[|Vec<|Split|Chars|Iter", t) for t in tys) and not f.get("derived"):
            c.rec("violated", "no unbounded recursion", where, "calls itself with %s: each piece of what the client sends adds a stack frame" % ", ".join(tys))
        else:
            c.und("no unbounded recursion", where, "calls itself with %s" % ", ".join(tys))


def report(c, r, runs, fn, only):
    inv = None
    groups = {}
    for o in r.ip.obl:
        if only is not None and not any(only.search(show(t)) for t in ([o["goal"]] if o["goal"] not in (None, TRUE, FALSE) else (o["facts"] or ()))):
            continue
        groups.setdefault((o["fn"], o["kind"], o["span"]), []).append(o)
    for (f, kind, span), os_ in sorted(groups.items(), key=lambda x: (x[0][2] or "", x[0][1])):
        rule = "cannot panic: " + re.sub(r"^panic:.*", "explicit panic", kind)
        where = "%s (%s)" % (f, span)
        worst = None
        how = ""
        for o in os_:
            if o["ok"]:
                continue
            s = settled(o)
            if s:
                how = s
                continue
            if inv is None:
                inv = bounds(r)
            if by_bounds(inv, o):
                how = "loop invariant"
                continue
            v, why = classify(c, r, runs, o)
            d = "%s: %s" % (why, o["detail"] if len(o["detail"]) < 300 else o["detail"][:300] + "...")
            if worst is None or v == "bad" and worst[0] != "bad":
                worst = (v, d)
        if worst is None:
            c.ok(rule, where, how)
        elif worst[0] == "bad":
            c.bad(rule, where, worst[1])
        else:
            c.und(rule, where, worst[1])
