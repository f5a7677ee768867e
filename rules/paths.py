"""Path values: writing, joining and cutting them."""
from rl import *
import lin
from . import prop

P = "path::PathBuf::"
PARSE = P + "parse"
ALL = ("default", "rustls", "openssl", "nofeatures")


def exits(c, fn, names, opaque=()):
    f = c.find(fn)
    if f is None:
        return None, []
    r = c.run(f, names, opaque=list(opaque))
    return r, [(st, r.ret(st, v)) for st, v in r]


def written(c, r, st, t, chunks, skip):
    """is the text t each of the chunks in order followed by a slash: True, False or None"""
    parts = acc(r.ip, st, t)
    if skip and parts and parts[0] is skip:
        parts = parts[1:]
    if len(parts) != 1 or not isinstance(parts[0], Star):
        return None if any(isinstance(x, T) and strange(x) for x in parts) or any(isinstance(x, T) and x.op in ("phi", "app", "mut") for x in parts) else False
    s = parts[0]
    d = s.loop.drv if s.loop.drv is not None else s.drv
    if d is None:
        return None
    drop = None
    while d.op == "it":
        if d.a[0] in ("skip", "take", "stepby", "skipwhile", "takewhile", "filter", "fmap", "rev"):
            drop = d.a[0]
        d = d.a[1]
    if d is not chunks:
        return None
    if drop:
        return False
    if len(s.alts) != 1 or s.alts[0][0]:
        return None if any(strange(k) for cs, _ in s.alts for k, _b in cs) else False
    if any(k.op == "more" and k.a[1] == s.loop.id and b for k, b in st.facts.items()):
        return False
    items = s.alts[0][1]
    if [x for x in items if not isinstance(x, T)]:
        return None
    if list(items) == [X, S("/")]:
        return True
    return None if any(strange(x) for x in items) else False


def walk(d):
    """(the sequence an iterator walks, an adapter on the way that drops or reorders items)"""
    drop = None
    while d.op == "it":
        if d.a[0] not in ("elems", "map", "inspect"):
            drop = drop or d.a[0]
        d = d.a[1]
    return d, drop


def say(c, good, rule, where, detail):
    if good is None:
        c.und(rule, where, detail)
    else:
        c.req(good, rule, where, detail)


@prop("P39", ALL)
def p39(c):
    """paths are written, joined and cut segment by segment"""
    structural(c, "path::PathBuf")
    me, o = mk("arg", "self"), mk("arg", "o")
    a, b = field(me, "chunks"), field(o, "chunks")
    n = 0
    # joining
    for fn in ("concat", "concat_owned"):
        r, xs = exits(c, P + fn, ["self", "o"])
        for st, rv in xs:
            n += 1
            parts = acc(r.ip, st, field(rv, "chunks"))
            good = len(parts) == 2 and parts[0] is a and parts[1] is b
            if not good:
                # element by element
                def flat(x):
                    if isinstance(x, Star) and x.loop.drv is not None and len(x.alts) == 1 and not x.alts[0][0] and list(x.alts[0][1]) == [X]:
                        d = x.loop.drv
                        while d.op == "it" and d.a[0] in ("map", "elems", "inspect"):
                            d = d.a[1]
                        return d if d.op != "it" else None
                    return x if isinstance(x, T) else None
                fl = [flat(x) for x in parts]
                if len(parts) == 1 and isinstance(parts[0], Star) and parts[0].loop.drv is not None:
                    fl, d = [], parts[0].loop.drv
                    while d.op == "it" and d.a[0] in ("map", "inspect"):
                        d = d.a[1]
                    if d.op == "it" and d.a[0] == "chain" and walk(d.a[1])[0] is a and walk(d.a[2])[0] is b:
                        its = [x for _, items in parts[0].alts for x in items]
                        ok = all(isinstance(x, T) and x.op == "elem" and walk(x.a[0])[0] in (a, b) for x in its) and all(len(items) == 1 for _, items in parts[0].alts)
                        if walk(d.a[1])[1] or walk(d.a[2])[1]:
                            good = False
                            fl = [a]
                        elif ok and len(its) == 2 and its[0] is not its[1] and all(len(cs) == 1 and cs[0][0].op == "inleft" for cs, _ in parts[0].alts):
                            fl = [a, b]
                    fl = fl or [None]
                good = len(fl) == 2 and fl[0] is a and fl[1] is b
                if not good and (None in fl or any(strange(x) or has(x, lambda y: y.op in ("phi", "it")) for x in fl)):
                    good = None
            say(c, good, "joining keeps the segments of both paths, in order", "PathBuf::" + fn, "the segments are %s" % [sh(x, 100) if isinstance(x, T) else repr(x)[:600] for x in parts])
    # cutting
    rule = "a path is cut off another exactly if it is a prefix, and the rest is kept"
    r, xs = exits(c, P + "subtract", ["self", "o"])
    got = set()
    for st, rv in xs:
        n += 1
        where = "PathBuf::subtract"
        short = lin.prove_lt(st.facts, mklen(a), mklen(b))
        pre = None
        for k, v in st.facts.items():
            if k.op == "eq" and b in k.a:
                x = k.a[1] if k.a[0] is b else k.a[0]
                if x.op == "slice" and x.a[0] is a and is_c(x.a[1], "int") and cval(x.a[1]) == 0 and x.a[2] is mklen(b):
                    pre = v
            if k.op == "app" and k.a[0] == "slice::starts_with" and k.a[1][0] is a and k.a[1][1] is b:
                pre = v
            if k.op == "isvar" and k.a[1] == "Some" and k.a[0].op == "app" and k.a[0].a[0] == "slice::strip_prefix" and k.a[0].a[1] == (a, b):
                pre = v
        compared = False
        for L in r.ip.loops.values():
            d = L.drv
            m = [v for k, v in st.facts.items() if k.op == "more" and k.a[1] == L.id]
            if d is None or not m or d.op != "it" or d.a[0] != "zip" or {walk(x) for x in d.a[1:3]} != {(a, None), (b, None)}:
                continue
            compared = True

            def same(k):
                return k.op == "eq" and {walk(x.a[0])[0] if x.op == "elem" else None for x in k.a} == {a, b}
            if m[0]:
                pre = False if any(same(k) and not v for k, v in st.facts.items()) else pre
            elif all(any(same(k) and v for k, v in newfacts(L, s2)) for s2, _ in L.backs):
                pre = True
        known = not any(strange(k, "str::eq_ignore_ascii_case") or k.op == "more" and not compared for k in st.facts)
        if variant(rv) == "None":
            got.add("None")
            say(c, True if short or pre is False else (False if known else None), rule, where, "nothing is returned under %s" % [(sh(k, 80), v) for k, v in st.facts.items()])
        elif variant(rv) == "Some":
            got.add("Some")
            t = field(payload(rv, "Some"), "chunks")
            rest = t.op == "vfld" and t.a[0].op == "app" and t.a[0].a[0] == "slice::strip_prefix" and t.a[0].a[1] == (a, b) or t.op == "slice" and t.a[0] is a and t.a[1] is mklen(b) and (t.a[2] is None or t.a[2] is mklen(a))
            say(c, True if rest else (None if strange(t) or has(t, lambda y: y.op in ("phi", "it")) else False), rule, where, "what is left is %s" % sh(t, 120))
            say(c, True if pre else (False if known else None), rule, where, "something is cut off without comparing the segments, under %s" % [(sh(k, 80), v) for k, v in st.facts.items()])
        else:
            c.und(rule, where, "returns %s" % sh(rv))
    # writing
    rule = "a path is written as its segments in order, each followed by a slash"
    r, xs = exits(c, P + "to_std_pathbuf", ["self"])
    for st, rv in xs:
        n += 1
        say(c, written(c, r, st, rv, a, None), rule, "PathBuf::to_std_pathbuf", "written as %s" % sh(rv, 150))
    r, xs = exits(c, "<path::PathBuf as std::fmt::Display>::fmt", ["self", "f"])
    for st, rv in xs:
        n += 1
        f = r.cell(st, "f")
        if variant(rv) == "Err":
            continue
        say(c, written(c, r, st, f, a, mk("arg", "f")), rule, "Display for PathBuf", "written as %s" % sh(f, 150))
    r, xs = exits(c, "path::<impl std::convert::From<path::PathBuf> for std::path::PathBuf>::from", ["p"])
    for st, rv in xs:
        n += 1
        rule = "a filesystem path is made of the segments in order"
        where = "From<PathBuf> for std::path::PathBuf"
        src = field(mk("arg", "p"), "chunks")
        good = None
        L = r.ip.phi_loop.get(rv)
        if written(c, r, st, rv, src, None):
            good = True
        elif L is not None and L.drv is not None and has(L.drv, lambda x: x is src):
            vals = [r.ip.strip(s, v[rv]) for s, v in L.backs]
            d, drop = L.drv, None
            while d.op == "it":
                drop = drop or (d.a[0] if d.a[0] not in ("elems", "map", "inspect", "enum") else None)
                d = d.a[1]
            done = any(k.op == "more" and k.a[1] == L.id and not b for k, b in st.facts.items())
            if d is src and L.init.get(rv) is not None and (L.init[rv].op == "emptypath" or L.init[rv] is S("")) and done:
                item = [v for v in vals if v.op == "pathjoin" and v.a[0] is rv and v.a[1].op == "elem" and contains(v.a[1], src)]
                good = not drop and len(item) == len(vals) == 1
                if not good and any(strange(v) for v in vals):
                    good = None
        say(c, good, rule, where, "it is %s" % sh(rv, 150))
    # reading
    rule = "a path made from text is the parsed text"
    for fn in ("<path::PathBuf as std::str::FromStr>::from_str", "<path::PathBuf as std::convert::TryFrom<std::string::String>>::try_from", "<path::PathBuf as std::convert::TryFrom<&str>>::try_from"):
        r, xs = exits(c, fn, ["s"], [PARSE])
        for st, rv in xs:
            n += 1
            good = rv.op == "app" and rv.a[0] == PARSE and rv.a[1] == (mk("arg", "s"),)
            if not good and variant(rv) in ("Ok", "Err"):
                p = [k.a[0] for k in st.facts if k.op == "isvar" and k.a[0].op == "app" and k.a[0].a[0] == PARSE and k.a[0].a[1] == (mk("arg", "s"),)]
                good = bool(p) and payload(rv, variant(rv)) is payload(p[0], variant(rv))
            judge(c, good, rule, fn, "it is %s" % sh(rv, 150), [rv], (PARSE,))
    r, xs = exits(c, P + "chunks", ["self"])
    for st, rv in xs:
        c.req(rv is a, "chunks are the segments", "PathBuf::chunks", "returns %s" % sh(rv))
    c.req(n >= 5, "coverage", "path operations", "only %d results" % n)
