"""P31 route macros, P32 entry-point macros, P37 path!: witness programs type-checked against the current tree, whose
MIR is compared with the same programs written out by hand; the token splitter itself for every token stream."""
import ai
import build
from rl import *
from . import prop
from .routing import judge, exhausted
from .server import vfact

USER = ("flow", "unit", "value", "test", "note", "step", "ok", "wait")
SETUP = ("extern location for", "E0463", "E0460", "E0461", "E0514", "E0786", "E0519")


def wprog(c, name):
    """the witness crate together with the crates it uses"""
    k = "witness_" + name
    if k not in c.progs:
        w = build.witness()
        p = ai.Prog(w["dir"], "default")
        import json
        with open(os.path.join(w["dir"], "witness", k + ".json")) as fh:
            d = json.loads(fh.read().replace("octane_http::", "").replace("octane::", ""))
        p.harness = []
        for f in d["fns"]:
            f["crate"] = k
            if name == "entry" and f["kind"] == "Closure" and not f["coroutine"] and "::{closure" in f["path"]:
                p.harness.append(f)
                continue
            p.fns[f["path"]] = f
        for x in d["adts"]:
            p.adts[x["path"]] = x
        p.wconsts = {x["path"]: x for x in d["consts"]}
        c.progs[k] = p
    return c.progs[k]


def compiles(c, prog, rule, where):
    """the witness program is accepted; otherwise a violation naming the first diagnostic"""
    w = build.witness()
    e = w["programs"].get(prog)
    if e is None:
        return True
    first = next((l for l in e.splitlines() if l.startswith("error")), e[:200])
    if any(x in e for x in SETUP):
        c.und(rule, where, "witness program could not be set up: %s" % first[:200])
    else:
        at = next((l.strip() for l in e.splitlines() if "-->" in l), "")
        c.bad(rule, where, "witness %s is rejected: %s %s" % (prog, first[:300], at))
    return False


def rejected(c, prog, rule, where):
    w = build.witness()
    e = w["programs"].get("fail/" + prog + ".rs", "")
    if e is None:
        c.bad(rule, where, "witness fail/%s.rs compiles" % prog)
    elif any(x in e for x in SETUP) or not e:
        c.und(rule, where, "witness program could not be set up")
    else:
        c.ok(rule, where, "fail/%s.rs is rejected" % prog)


def canon(r, skip=()):
    """exits as comparable values: user calls in order, result, conditions, final response"""
    out = set()
    for st, v in r:
        ren = {}

        def text(t):
            s = show(r.ip.strip(st, t)) if isinstance(t, T) else str(t)

            def tag(m):
                return "#%d" % ren.setdefault(m.group(1), len(ren))
            return re.sub(r"#(\d+)", tag, s)
        ev = []
        for e in events(st):
            if e.name in USER:
                ev.append("%s %s(%s)" % (e.kind, e.name, ", ".join(text(a) for a in e.args)))
        facts = sorted(("" if b else "!") + text(k) for k, b in st.facts.items() if not has(k, lambda x: x.op == "app" and x.a[0].startswith(("Builder::", "Runtime::"))))
        cells = [text(r.cell(st, n)) for n in ("req", "res") if ("arg", n) in st.mem]
        out.add((tuple(ev), text(v), tuple(facts), tuple(cells)))
    return out


def twins(c, p, pairs, rule):
    old = c.progs.get(c.cfg)
    c.progs[c.cfg] = p
    try:
        for a, b, names in pairs:
            ra = c.run(a, names, opaque=list(USER))
            rb = c.run(b, [n for n in names] + ["rt"], opaque=list(USER)) if b.startswith("hand::") else c.run(b, names, opaque=list(USER))
            if any(has(v, lambda x: x.op == "phi") for _, v in list(ra) + list(rb)):
                c.und(rule, a, "loops in the expansion")
                continue
            ca, cb = canon(ra), canon(rb)
            if ca == cb and cb:
                c.ok(rule, a, "%d exits, same as %s" % (len(cb), b))
                continue
            odd = [x for x in ca if x not in cb]
            opaque = any(e.name not in USER and e.kind == "call" and not e.name.startswith(("Builder::", "Runtime::", "Into::", "From::", "String::")) for st, _ in ra for e in events(st))
            d = "expected %s, found %s" % ([list(x[0]) + ["-> " + x[1]] for x in sorted(cb)], [list(x[0]) + ["-> " + x[1]] for x in sorted(ca)])
            (c.und if opaque else c.bad)(rule, a, d[:900])
    finally:
        if old is not None:
            c.progs[c.cfg] = old


def events(st):
    out = []
    e = st.ev
    while e is not None:
        out.append(e[1])
        e = e[0]
    out.reverse()
    return out


ROUTE = [("m_flow", "h_flow"), ("m_const_stop", "h_const_stop"), ("m_const_next", "h_const_next"), ("m_names", "h_names"), ("m_branch", "h_branch"), ("m_env", "h_env"), ("m_same", "h_same")]
NEXT = [("n_unit", "g_unit"), ("n_value", "g_value"), ("n_flow", "g_flow"), ("n_block", "g_block"), ("n_return", "g_return")]
STOP = [("s_unit", "t_unit"), ("s_value", "t_value"), ("s_flow", "t_flow"), ("s_block", "t_block"), ("s_return", "t_return")]


@prop("P31", thorough=("default",))
def p31(c):
    RC = "the documented forms of the route macros are accepted"
    if compiles(c, "routes.rs", RC, "route macros"):
        c.ok(RC, "route macros", "witness/routes.rs type-checks")
        p = wprog(c, "routes")
        n = ["req", "res", "env"]
        twins(c, p, [(a, b, n) for a, b in ROUTE], "route! runs the code as written, and its value decides whether later handlers run")
        twins(c, p, [(a, b, n) for a, b in NEXT], "route_next! runs the code as written, then lets later handlers run")
        twins(c, p, [(a, b, n) for a, b in STOP], "route_stop! runs the code as written, then lets no later handler run")
    RF = "handlers own what they capture and must yield a Flow"
    for f in ("route_not_flow", "route_captures_by_reference"):
        rejected(c, f, RF, "route!")


# ------------------------------------------------------------------ P32
def tokens_split(c):
    """the token splitter, for every token stream"""
    old = c.progs.get(c.cfg)
    p = ai.Prog(c.dir, c.cfg, crates=("octane_macros",))
    c.progs[c.cfg] = p
    try:
        fn = c.anchor("stream_parser::StreamParser::parse")
        r = c.run(fn, ["self"])
        ip = r.ip
        where = "StreamParser::parse"
        RS = "the signature is every token before the body, in order, except async"
        RB = "the body is the first block"
        RA = "async is noticed exactly when it is written"
        s = mk("arg", "self")
        seen = 0
        for st, v in r:
            v = r.ret(st, v)
            sig, rest, asy = (ip.strip(st, field(v, x)) for x in ("signature", "rest", "is_async"))
            while sig.op == "app" and sig.a[0] in ("Iterator::collect", "FromIterator::from_iter"):
                sig = sig.a[1][0]
                if sig.op == "it" and sig.a[0] == "map" and "TokenStream as std::convert::From" in show(sig.a[2]):
                    sig = sig.a[1]
                if sig.op == "it" and sig.a[0] == "elems":
                    sig = sig.a[1]
            if not (sig.op == "phi" and sig in ip.phi_loop):
                judge(c, False, RS, where, "signature is %s" % sh(sig, 200), [sig])
                continue
            L = ip.phi_loop[sig]
            if L.drv is not mk("it", "elems", field(s, "items")):
                (c.bad if L.drv is not None and lossy(L.drv) else c.und)(RS, where, "walk over %s" % (sh(L.drv, 120) if L.drv is not None else None))
                continue
            seen += 1
            x = mk("elem", L.drv, L.id, 0)
            isgroup = isvar(x, "Group")
            grp = payload(x, "Group")
            brace = isvar(mk("app", "Group::delimiter", (grp,), None), "Brace")

            def fact(q, t):
                for k, b in q.facts.items():
                    if show(k) == show(t):
                        return b
                return None
            i0 = ip.strip(L.pre, L.init[sig])
            judge(c, i0 is EMPTYSEQ, RS, where, "signature starts as %s" % sh(i0, 80), [i0])

            def isasync(q):
                """True / False / None: the token is the word async on this path"""
                if vfact(q, x, "Ident") is False or vfact(q, x, "Group") or vfact(q, x, "Punct") or vfact(q, x, "Literal"):
                    return False
                for k, b in q.facts.items():
                    if k.op == "eq" and any(is_c(y, "str") and cstr(y) == "async" for y in k.a) and has(k, lambda z: z is x):
                        return b
                return None

            def isbody(q):
                for k, b in q.facts.items():
                    if "Group::delimiter" in show(k) and show(k).endswith("is Brace"):
                        return b
                return False if vfact(q, x, "Group") is False or vfact(q, x, "Ident") or vfact(q, x, "Punct") or vfact(q, x, "Literal") else None
            for bs, vals in L.backs:
                w = ip.strip(bs, vals[sig])
                a, b = isasync(bs), isbody(bs)
                cond = [("" if f else "!") + sh(k, 80) for k, f in newfacts(L, bs)]
                if b:
                    c.bad(RB, where, "a block does not end the signature when %s" % cond)
                    continue
                kept = w.op == "push" and w.a[0] is sig and w.a[1] is x
                if a is None or b is None:
                    # nothing tells this token from async or from a body
                    if kept and a is None:
                        c.bad(RA, where, "async can be kept in the signature when %s" % cond)
                    else:
                        judge(c, False, RS, where, "token handled as %s when %s" % (sh(w, 100), cond), [w])
                    continue
                if a:
                    judge(c, w is sig, RS, where, "async leaves %s" % sh(w, 100), [w])
                else:
                    judge(c, kept, RS, where, "a token gives %s when %s" % (sh(w, 100), cond), [w])
                if asy in vals:
                    y = ip.strip(bs, vals[asy])
                    judge(c, (is_c(y) and cval(y) is True) if a else y is asy, RA, where, "is_async becomes %s when %s" % (sh(y, 60), cond), [y])
                elif a:
                    c.bad(RA, where, "async is not noted")
            if asy in L.init:
                y0 = ip.strip(L.pre, L.init[asy])
                judge(c, y0 is field(s, "is_async") or (is_c(y0) and cval(y0) is False), RA, where, "is_async starts as %s" % sh(y0, 80), [y0])
            else:
                judge(c, False, RA, where, "is_async is %s" % sh(asy, 80), [asy])
            b = isbody(st)
            if b:
                judge(c, rest.op == "app" and rest.a[0] == "Group::stream" and rest.a[1][0] is grp, RB, where, "body is %s" % sh(rest, 120), [rest], ("Group::stream",))
            else:
                c.req(exhausted(st, L), RS, where, "the walk ends before the body")
        c.req(seen >= 1, "coverage", where, "no walk over the tokens found")
        g = c.find("stream_parser::StreamParser::new")
        if g:
            for st, v in c.run(g, ["items"]):
                y = field(v, "items")
                judge(c, y is mk("arg", "items"), RS, "StreamParser::new", "starts with %s" % sh(y, 80), [y])
                y = field(v, "is_async")
                judge(c, is_c(y) and cval(y) is False, RA, "StreamParser::new", "starts as %s" % sh(y, 80), [y])
    finally:
        if old is not None:
            c.progs[c.cfg] = old


ENTRY = [("m_unit::entry", "hand::m_unit", []), ("m_result::entry", "hand::m_result", []), ("m_value::other_name", "hand::m_value", []),
         ("m_args::entry", "hand::m_args", ["a", "b"]), ("attributes", "hand::attributes", []),
         ("t_unit", "hand::t_unit", []), ("t_result", "hand::t_result", []), ("t_panic", "hand::t_panic", [])]


@prop("P32", thorough=("default",))
def p32(c):
    RC = "marked functions keep their name, parameters, attributes and return type"
    if compiles(c, "entry.rs", RC, "entry-point macros"):
        c.ok(RC, "entry-point macros", "witness/entry.rs type-checks")
        p = wprog(c, "entry")
        twins(c, p, ENTRY, "the whole body runs to its end on the runtime, and its result is returned")
        old = c.progs.get(c.cfg)
        c.progs[c.cfg] = p
        try:
            for a, _, names in ENTRY:
                test = a.startswith("t_")
                RI = "the runtime can do network I/O"
                RT = "programs get a multi-threaded runtime"
                for st, v in c.run(a, names, opaque=list(USER)):
                    evs = events(st)
                    on = [e for e in evs if e.name == "Runtime::block_on"]
                    if len(on) != 1:
                        c.und(RI, a, "no single block_on found")
                        continue
                    rt = show(on[0].args[0])
                    c.req("enable_io" in rt or "enable_all" in rt, RI, a, "the runtime is %s" % rt[:200]) if "Builder::build" in rt else c.und(RI, a, "the runtime is %s" % rt[:200])
                    if not test:
                        c.req("new_multi_thread" in rt or "Runtime::new" in rt, RT, a, "the runtime is %s" % rt[:200])
            RH = "a marked test is run by the test harness"
            tested = set()
            for f in p.harness:
                for b in f["blocks"]:
                    t = b["t"]
                    if t["k"] == "call" and isinstance(t["f"].get("fn"), dict):
                        tested.add(t["f"]["fn"].get("path"))
            for t in ("t_unit", "t_result", "t_panic"):
                c.req(t in tested, RH, t, "no test is registered for it")
        finally:
            if old is not None:
                c.progs[c.cfg] = old
    for f in ("main_not_async", "main_not_async_value", "test_not_async"):
        rejected(c, f, "a function that is not async is rejected", f.split("_")[0])
    tokens_split(c)


# ------------------------------------------------------------------ P37
@prop("P37", thorough=("default",))
def p37(c):
    R = "path! is the crate's own directory followed by the given text"
    where = "path!"
    w = build.witness()
    if compiles(c, "paths.rs", R, where):
        p = wprog(c, "paths")
        for n, tail in (("FILE", "/data/file.txt"), ("DIR", "/data"), ("DEEP", "/data/sub dir/x{y}.html"), ("DOUBLE", "//data/./sub dir//x{y}.html")):
            k = p.wconsts.get(n)
            v = (k or {}).get("v", {}).get("str")
            if v is None:
                c.und(R, where, "value of %s not known" % n)
            else:
                c.req(v == w["root"] + tail, R, where, "path!(%r) is %r in the crate at %r" % (tail, v, w["root"]))
    RJ = "a path that does not exist, or is not a literal, is rejected when compiling"
    for f in ("path_missing", "path_not_literal"):
        rejected(c, f, RJ, where)
    # every use: what is inserted into the program is what was looked for
    old = c.progs.get(c.cfg)
    c.progs[c.cfg] = ai.Prog(c.dir, c.cfg, crates=("octane_macros",))
    try:
        fn = c.find("path")
        if fn is None:
            return
        RX = "the path in the program is one that was found to exist"
        for st, v in c.run(fn, ["input"]):
            looked = [(k, b) for k, b in st.facts.items() if has(k, lambda x: x.op == "app" and any(n in x.a[0] for n in ("exists", "metadata", "canonicalize", "is_file", "is_dir")))]
            if not looked:
                if has(v, lambda x: x.op == "app" and x.a[0].startswith("env::")):
                    c.bad(RX, "path", "%s is used without being looked for" % sh(v, 200))
                else:
                    c.und(RX, "path", "result %s" % sh(v, 200))
                continue
            good = any(b and k.op == "app" and contains(v, k.a[1][0]) for k, b in looked) or any(b and k.op == "is" and k.a[0].op == "app" and contains(v, k.a[0].a[1][0]) for k, b in looked)
            if good:
                c.ok(RX, "path", sh(v, 200))
            elif all(k.op == "app" for k, _ in looked):
                c.bad(RX, "path", "result %s, looked for %s" % (sh(v, 200), [("" if b else "!") + sh(k, 150) for k, b in looked]))
            else:
                c.und(RX, "path", "looked for %s" % [sh(k, 150) for k, _ in looked])
    finally:
        if old is not None:
            c.progs[c.cfg] = old
