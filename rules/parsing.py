"""What requests are parsed into: request line, headers, paths, queries, escapes, cookies."""
import lin
from rl import *
from models import app, charset, CLS
from . import prop
from .server import LPARSE, HPARSE, FROMRAW, vfact, is_app, unpay, base, cbytes, serve_run, PARTS

HDR = "request::Header::parse"
PPARSE = "path::PathBuf::parse"
UNHEX = "query::unescape_hex"
FROMHEX = "query::from_hex"
NOCHECK = object()


def pat(p):
    """the characters a search pattern stands for"""
    if p.op == "charset":
        return tuple(p.a[0])
    s = cbytes(p) if cbytes(p) is not None else cstr(p)
    if s is not None and len(s) == 1:
        return ((ord(s), ord(s)),)
    if p.op == "c" and p.a[0] == "char":
        return ((p.a[1], p.a[1]),)
    return s


def found(st, s, ch):
    """(search term, whether it succeeded) of the search for a one-character pattern in s on this path"""
    want = ((ord(ch), ord(ch)),)
    for k, v in st.facts.items():
        if k.op == "isvar" and k.a[1] == "Some" and k.a[0].op == "app" and k.a[0].a[0] == "str::find" and k.a[0].a[1][0] is s and pat(k.a[0].a[1][1]) == want:
            return k.a[0], v
    # a comparison of the position implies success
    return None, None


def truth(st, t):
    """the value of a boolean term under the facts of the path"""
    if is_c(t, "bool"):
        return cval(t)
    if t.op == "not":
        v = truth(st, t.a[0])
        return None if v is None else not v
    return st.facts.get(t)


def streq(st, t, s):
    v = st.facts.get(eq(t, S(s)))
    if v is not None:
        return v
    e = eq(t, S(s))
    if is_c(e, "bool"):
        return cval(e)
    for k, b in st.facts.items():
        if k.op == "eq" and b and t in k.a:
            o = k.a[0] if k.a[1] is t else k.a[1]
            x = cbytes(o) if cbytes(o) is not None else cstr(o)
            if x is not None:
                return x == s
    return None


def foreign_cut(t):
    """a way of cutting text that is not cutting at a single character"""
    for x in subterms(t):
        if x.op == "it" and x.a[0] in ("split_whitespace", "split_ascii_whitespace", "lines", "rsplit", "rsplitn", "split_terminator", "split_inclusive", "skip", "take", "rev", "stepby", "skipwhile", "takewhile", "filter", "fmap"):
            return "it(%s)" % x.a[0]
        if x.op == "app" and x.a[0] in ("str::rfind", "str::to_lowercase", "str::to_ascii_lowercase", "str::to_uppercase", "str::to_ascii_uppercase", "str::trim_matches", "str::trim_start_matches",
                                        "str::trim_end_matches", "str::eq_ignore_ascii_case", "str::replace"):
            return x.a[0]
    return None


METHODS = {"POST": "Post", "GET": "Get", "DELETE": "Delete", "PUT": "Put", "OPTIONS": "Options", "HEAD": "Head", "TRACE": "Trace", "CONNECT": "Connect", "PATCH": "Patch"}
VERSIONS = {"1.1": "Http11", "1.0": "Http10", "2.0": "Http02", "0.9": "Http09"}


def named(c, st, t, text, table, none, rule, where):
    """variant t is the one the exact text names, `none` for a text not in the table"""
    if t.op != "agg" or t.a[1] is None:
        fc = foreign_cut(t)
        if fc:
            c.bad(rule, where, "%s is compared through %s" % (sh(text, 60), fc))
        else:
            c.und(rule, where, "%s is %s" % (sh(text, 60), sh(t, 80)))
        return
    v = t.a[1]
    inv = {b: a for a, b in table.items()}
    true = [s for s in table if streq(st, text, s)]
    if v in inv:
        good = streq(st, text, inv[v]) is True
        if not good and not any(eq(text, S(s)) in st.facts for s in table) and not true:
            # compared in some other way
            other = [k for k in st.facts if contains(k, text) and k.op == "eq" and any(cstr(x) is not None for x in k.a)]
            fc = [foreign_cut(k) for k in st.facts if contains(k, text) and foreign_cut(k)]
            if other or fc:
                c.bad(rule, where, "%s is recognised under %s" % (v, [sh(k, 80) for k in st.facts if contains(k, text)][-3:]))
            else:
                c.und(rule, where, "%s is recognised in a way that is not understood" % v)
            return
        c.req(good, rule, where, "%s is recognised for %s" % (v, true or [sh(k, 80) for k, b in st.facts.items() if b and contains(k, text)][-2:]))
    elif v == none:
        c.req(not true, rule, where, "%s is not recognised" % true)
        miss = [s for s in table if streq(st, text, s) is None]
        if miss and len(miss) < len(table):
            c.bad(rule, where, "%s falls through to %s" % (miss, none))
        elif miss:
            c.und(rule, where, "fallback to %s without comparing" % none)
        else:
            c.ok(rule, where)
    else:
        c.req(False, rule, where, "unexpected %s for %s" % (v, true))


@prop("P12", ("default", "nofeatures"), ("default", "nofeatures", "rustls", "openssl", "faithful", "lenient"))
def p12(c):
    """request line = method SP target SP version; query split at the first '?'"""
    structural(c, "request::RequestMethod", "request::RequestLine")
    where = "RequestLine::parse"
    r = c.run(c.anchor(LPARSE), ["line"], opaque=[PPARSE], keep=600)
    line = mk("arg", "line")
    strict = c.feature("faithful")
    ns = nn = 0
    R1 = "the line is cut at single blanks into method, target and version"
    R2 = "the method is recognised only by its exact name"
    R3 = "the version is recognised only by its exact number"
    R4 = "path and query are what precedes and follows the first question mark of the target"
    R5 = "a malformed request line is rejected"
    R6 = "a well-formed request line is accepted"
    for st, v in r:
        rv = r.ret(st, v)
        vn = variant(rv)
        f1, b1 = found(st, line, " ")
        t0 = tgt = ver = rest2 = None
        b2 = b3 = None
        if b1:
            i1 = payload(f1, "Some")
            t0 = mkslice(line, I(0), i1)
            rest = mkslice(line, add(i1, I(1)), None)
            f2, b2 = found(st, rest, " ")
            if b2:
                i2 = payload(f2, "Some")
                tgt = mkslice(rest, I(0), i2)
                rest2 = mkslice(rest, add(i2, I(1)), None)
                f3, b3 = found(st, rest2, " ")
                ver = rest2 if not b3 else mkslice(rest2, I(0), payload(f3, "Some"))
        pathres = [k.a[0] for k in st.facts if k.op == "isvar" and is_app(k.a[0], PPARSE)]
        if vn == "None":
            nn += 1
            why = b1 is False or b2 is False
            if tgt is not None:
                fq, bq = found(st, tgt, "?")
                p = tgt if not bq else mkslice(tgt, I(0), payload(fq, "Some"))
                why = why or vfact(st, app(PPARSE, p), "Ok") is False
                if ver is not None:
                    why = why or bool(short(st, ver))
                if strict:
                    why = why or b3 is True or (ver is not None and (streq(st, mkslice(ver, I(0), I(5)), "HTTP/") is False or st.facts.get(app("str::starts_with", ver, S("HTTP/"))) is False))
            if not why and not strict and any(k.op == "eq" and not b and "HTTP/" in show(k) for k, b in st.facts.items()):
                why = False
            if why:
                c.ok(R6, where)
            elif f1 is None and b1 is None:
                fc = [foreign_cut(k) for k in st.facts if foreign_cut(k)]
                (c.bad if fc else c.und)(R1, where, "the line is cut with %s" % (fc[:1] or [sh(k, 80) for k in st.facts][:2]))
            else:
                c.bad(R6, where, "rejected under %s" % [("" if b else "!") + sh(k, 100) for k, b in st.facts.items()][-3:])
            continue
        if vn != "Some":
            c.und(R1, where, "result %s" % sh(rv))
            continue
        ns += 1
        q = payload(rv, "Some")
        if f1 is None:
            fc = foreign_cut(q) or next((foreign_cut(k) for k in st.facts if foreign_cut(k)), None)
            (c.bad if fc else c.und)(R1, where, "the line is cut with %s" % (fc or "something else"))
            continue
        if not c.req(b1 is True and b2 is True, R5, where, "a line with fewer than three parts is accepted"):
            continue
        if strict:
            pre = streq(st, mkslice(ver, I(0), I(5)), "HTTP/") is True or st.facts.get(app("str::starts_with", ver, S("HTTP/"))) is True
            c.req(pre, R5, where, "accepted without the HTTP/ prefix")
            c.req(b3 is False, R5, where, "accepted although there may be a fourth part")
        named(c, st, field(q, "method"), t0, METHODS, "None", R2, where)
        vt = mkslice(ver, I(5), None)
        named(c, st, field(q, "version"), vt, VERSIONS, "HttpInvalid", R3, where)
        path, query = field(q, "path"), field(q, "query")
        fq, bq = found(st, tgt, "?")
        if bq is None:
            c.bad(R4, where, "the target is used without looking for '?': path is %s" % sh(path, 100))
            continue
        p = tgt if not bq else mkslice(tgt, I(0), payload(fq, "Some"))
        qq = S("") if not bq else mkslice(tgt, add(payload(fq, "Some"), I(1)), None)
        c.req(path is payload(app(PPARSE, p), "Ok"), R4, where, "path is %s" % sh(path, 160))
        c.req(vfact(st, app(PPARSE, p), "Ok") is True, R5, where, "accepted although the path is invalid")
        c.req(query is qq, R4, where, "query is %s" % sh(query, 160))
    c.req(ns >= 10 and nn >= 3, "coverage", where, "%d accepting and %d rejecting paths" % (ns, nn))


def short(st, ver):
    """the version is known to be too short (or not cuttable) for a prefix of five bytes"""
    for k, b in st.facts.items():
        if k.op == "isbound" and k.a[0] is ver and not b:
            return True
        if k.op == "lt" and b and is_c(k.a[1]) and cval(k.a[1]) == 5 and k.a[0] is mklen(ver):
            return True
    return False


# ---------------------------------------------------------------- headers
BLANKS = ((9, 9), (32, 32))
TOKENS = set(map(ord, "!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"))


def charloops(r, st, text):
    """loops over the characters of `text` that ran to completion on this path"""
    out = []
    for L in r.ip.loops.values():
        if L.drv is None:
            continue
        s = src_of(L.drv)
        if s.op == "it" and s.a[0] in ("chars", "elems") and s.a[1] is text:
            out.append((L, s))
    return out


def done_(st, L):
    return any(k.op == "more" and not b and k.a[1] == L.id for k, b in st.facts.items())


@prop("P10", ("default", "nofeatures", "rustls"))
def p10(c):
    """every header line: split at the first colon, value trimmed, stored lower-cased, combined when repeated, none lost"""
    structural(c, "request::Headers", "request::Header")
    where = "Header::parse"
    r = c.run(c.anchor(HDR), ["h"])
    h = mk("arg", "h")
    R1 = "a header is cut at its first colon and its value trimmed of blanks"
    R2 = "a header with a name and a colon is accepted"
    n = 0
    for st, v in r:
        rv = r.ret(st, v)
        f, b = found(st, h, ":")
        if variant(rv) == "Some":
            n += 1
            hd = payload(rv, "Some")
            if f is None:
                fc = foreign_cut(hd)
                bad = fc and fc not in ("str::trim_matches",)
                (c.bad if bad else c.und)(R1, where, "header is %s" % sh(hd, 120))
                continue
            if not c.req(b is True, R1, where, "a line without a colon is accepted"):
                continue
            i = payload(f, "Some")
            name, val = field(hd, "name"), field(hd, "value")
            c.req(name is mkslice(h, I(0), i), R1, where, "name is %s" % sh(name, 100))
            raw = mkslice(h, add(i, I(1)), None)
            okv = val.op == "app" and val.a[0] == "str::trim_matches" and val.a[1][0] is raw and pat(val.a[1][1]) == BLANKS
            if not okv and val.op == "app" and val.a[0] == "str::trim_matches" and val.a[1][0] is raw and val.a[1][1].op != "charset":
                c.und(R1, where, "value trimmed by %s" % sh(val.a[1][1], 80))
            else:
                c.req(okv, R1, where, "value is %s" % sh(val, 160))
        elif variant(rv) == "None":
            why = b is False or (f is not None and b and st.facts.get(eq(payload(f, "Some"), I(0))) is True) or st.facts.get(eq(mklen(h), I(0))) is True
            if c.feature("faithful"):
                why = why or any(k.op == "more" and bb for k, bb in st.facts.items())  # a character was refused: P11
            if f is None and b is None and not why:
                c.und(R2, where, "rejected under %s" % [sh(k, 80) for k in st.facts][:3])
            else:
                c.req(why, R2, where, "rejected under %s" % [("" if x else "!") + sh(k, 100) for k, x in st.facts.items()][-3:])
    c.req(n >= 1, "coverage", where, "no accepting path")
    # accessors
    for fn, fld in (("request::Header::name", "name"), ("request::Header::value", "value")):
        f = c.find(fn)
        if f:
            rr = c.run(f, ["self"])
            for st, v in rr:
                c.req(rr.ret(st, v) is field(mk("arg", "self"), fld), "the accessors return name and value", fn, "returns %s" % sh(rr.ret(st, v)))
    headers_block(c)


def walks(ip, text):
    """the loops that go through the text; all loops if none can be told to"""
    ls = [L for L in ip.loops.values() if L.backs]
    if len(ls) <= 1:
        return ls

    def over(L):
        if L.drv is not None:
            t = L.drv
            while t.op == "it" and len(t.a) > 1 and isinstance(t.a[1], T):
                t = t.a[1]
            return contains(t, text)
        return any(ip.strip(L.pre, L.init[p]) is text for p in L.init)

    own = [L for L in ls if over(L)]
    # a walk inside the body of another looks at a piece only
    outer = [L for L in own if not any(k.op == "more" and b and any(k.a[1] == o.id for o in own if o is not L) for k, b in L.pre.facts.items())]
    return outer or own or ls


def many(c, loops, text, where, rule):
    """several loops go through the text: a violation if one of them leaves part of it out"""
    for L in loops:
        t = L.drv
        while t is not None and t.op == "it" and len(t.a) > 1 and isinstance(t.a[1], T):
            t = t.a[1]
        if t is not None and t.op == "slice" and t.a[0] is text:
            c.bad(rule, where, "only %s is looked at" % sh(t, 100))
            return
    c.und(rule, where, "%d loops" % len(loops))


# what the cookie crate tells about a cookie
FAMILIAR = ("Cookie::name", "Cookie::value", "Cookie::name_value")


def segments(c, r, L, text, sep, where, rule):
    """for a loop that walks the pieces of `text` between separators: [(back state, values, piece)], or None if not recognised.
    Also reports pieces that are skipped or a walk that ends early."""
    ip = r.ip
    out = []
    if L.drv is not None:
        s = src_of(L.drv)
        if s.op == "it" and s.a[0] == "split" and s.a[1] is text and (cbytes(s.a[2]) or cstr(s.a[2])) == sep:
            e = mk("elem", s, L.id, 0)
            return [(st, vals, e) for st, vals in L.backs], (lambda st: any(k.op == "more" and not b and k.a[1] == L.id for k, b in st.facts.items()))
        if s.op == "it" and (s.a[0] in ("split", "bsplit", "lines", "split_whitespace", "rsplit", "split_terminator", "skip", "take", "stepby", "rev", "splitn", "rsplitn", "skipwhile", "takewhile")):
            inner = s
            while inner.op == "it" and len(inner.a) > 1 and isinstance(inner.a[1], T) and inner.a[1].op == "it":
                inner = inner.a[1]
            if len(inner.a) > 1 and inner.a[1] is text:
                c.bad(rule, where, "the pieces are taken with %s" % sh(s, 120))
                return [], None
            if len(inner.a) > 1 and contains(inner.a[1], text):
                apps = [x for x in subterms(inner.a[1]) if x.op in ("app", "mut")]
                if apps and all(x.op == "app" and re.match(r"^(str::to_(lower|upper|ascii_lower|ascii_upper)case|query::unescape_hex)$", x.a[0]) for x in apps):
                    c.bad(rule, where, "what is cut is not the text itself but %s" % sh(inner.a[1], 120))
                    return [], None
        if s.op == "it" and s.a[0] in ("skip", "take", "stepby") and isinstance(s.a[1], T) and s.a[1].op not in ("it", "app", "mut") and show(s.a[1]).startswith("Spliterator"):
            c.bad(rule, where, "the pieces are taken with %s" % sh(s, 120))
            return [], None
        return None, None
    # a cursor: rest = text; piece = rest[..i], rest = rest[i+len(sep)..]; the last piece when there is no separator
    cur = [p for p in L.init if ip.strip(L.pre, L.init[p]) is text]
    if len(cur) != 1:
        return None, None
    s = cur[0]
    fin = None
    for st, vals in L.backs:
        nf = [k.a[0] for k, b in st.facts.items() if k.op == "isvar" and k.a[1] == "Some" and k.a[0].op == "app" and k.a[0].a[0] in ("http1x::find_in_slice", "str::find") and k.a[0].a[1][0] is s]
        if len(nf) != 1 or (cbytes(nf[0].a[1][1]) or cstr(nf[0].a[1][1])) != sep:
            if nf:
                c.bad(rule, where, "pieces end at %s" % sh(nf[0], 120))
                return [], None
            return None, None
        hit = st.facts[isvar(nf[0], "Some")]
        i = payload(nf[0], "Some")
        if hit:
            piece = mkslice(s, I(0), i)
            nxt = ip.strip(st, vals[s])
            if nxt is not mkslice(s, add(i, I(len(sep))), None):
                c.bad(rule, where, "after a piece the walk goes on at %s" % sh(nxt, 120))
        else:
            piece = s
            fl = [p for p in L.init if is_c(L.init[p], "bool") and p in vals and is_c(vals[p], "bool") and cval(vals[p]) != cval(L.init[p])]
            if not fl:
                c.bad(rule, where, "the last piece does not end the walk")
            else:
                fin = fl[0]
        out.append((st, vals, piece))
    if fin is None:
        return None, None
    init = cval(L.init[fin])
    return out, (lambda st: st.facts.get(fin) is (not init))


def headers_block(c):
    where = "Headers::parse"
    r = c.run(c.anchor(HPARSE), ["text"], opaque=[HDR])
    ip = r.ip
    text = mk("arg", "text")
    RW = "the header block is taken line by line, none skipped, to its end"
    RM = "headers are stored under their lower-cased name, repeated ones combined with a comma and a blank"
    RR = "every header is kept in raw form, in order"
    RE = "a header block is rejected only for a malformed line"
    loops = [L for L in ip.loops.values() if L.backs and any(has(v, lambda x: is_app(x, HDR)) for _, vals in L.backs for v in vals.values())]
    if len(loops) != 1:
        c.und(RW, where, "%d loops over header lines" % len(loops))
        return
    L = loops[0]
    segs, ended = segments(c, r, L, text, "\r\n", where, RW)
    if segs is None:
        c.und(RW, where, "walk not recognised: %s" % (L.drv and sh(L.drv, 100)))
        return
    if ended is None:
        return
    c.ok(RW, where)
    mphi = rphi = None
    for st, v in r:
        rv = r.ret(st, v)
        if variant(rv) == "Some":
            c.req(ended(st), RW, where, "the parser returns before the last line: %s" % [sh(k, 80) for k in st.facts][:3])
            hs = payload(rv, "Some")
            mphi = ip.strip(st, field(hs, "parsed"))
            rphi = ip.strip(st, field(hs, "raw")) if c.feature("raw_headers") else None
        elif variant(rv) == "None":
            good = False
            for k, b in st.facts.items():
                if k.op == "isvar" and not b and (is_app(k.a[0], HDR) or "from_utf8" in show(k.a[0])[:40]):
                    good = True
            c.req(good, RE, where, "rejected under %s" % [("" if b else "!") + sh(k, 80) for k, b in st.facts.items()][-3:])
    if mphi is None or mphi not in L.init:
        (c.bad if mphi is not None and mphi.op in ("emptymap", "minsert", "mset") else c.und)(RM, where, "stored headers are %s" % (mphi and sh(mphi, 120)))
        return
    c.req(L.init[mphi].op == "emptymap", RM, where, "the map starts as %s" % sh(L.init[mphi]))
    if rphi is not None:
        if rphi not in L.init:
            c.bad(RR, where, "raw headers are %s" % sh(rphi, 120))
            return
        c.req(L.init[rphi] is EMPTYSEQ, RR, where, "the raw list starts as %s" % sh(L.init[rphi]))
    for st, vals, piece in segs:
        hp = app(HDR, piece)
        H = payload(hp, "Some")
        cand = [x for x in subterms(vals[mphi]) if is_app(x, HDR)]
        if not any(x is hp for x in cand):
            c.bad(RM, where, "a line is passed over without being stored: %s" % sh(vals[mphi], 120))
            continue
        key = app("str::to_ascii_lowercase", field(H, "name"))
        key2 = app("str::to_lowercase", field(H, "name"))
        new = ip.strip(st, vals[mphi])
        val = field(H, "value")
        if new.op not in ("minsert", "mset") or new.a[0] is not mphi:
            c.bad(RM, where, "map becomes %s" % sh(new, 160))
            continue
        k = new.a[1]
        if not c.req(k is key or k is key2, RM, where, "stored under %s" % sh(k, 120)):
            continue
        old = mget(mphi, k)
        known = st.facts.get(isvar(old, "Some"))
        nv = ip.strip(st, new.a[2])
        if known is None:
            c.bad(RM, where, "an earlier header of the same name is overwritten: %s" % sh(nv, 120))
        elif known is False:
            c.req(nv is val, RM, where, "first value stored as %s" % sh(nv, 120))
        else:
            ov = ip.strip(st, payload(old, "Some"))
            want = cat(ov, S(", "), val)
            c.req(nv is want, RM, where, "repeated value stored as %s" % sh(nv, 200))
        if rphi is not None:
            rv2 = ip.strip(st, vals[rphi])
            c.req(rv2 is mk("push", rphi, H), RR, where, "raw list becomes %s" % sh(rv2, 120))


@prop("P11", ("default", "rustls"), ("default", "rustls", "openssl", "faithful", "novars"))
def p11(c):
    """strict builds: name characters exactly the token characters, no control characters in the value"""
    if not c.feature("faithful"):
        return
    where = "Header::parse"
    r = c.run(c.anchor(HDR), ["h"])
    h = mk("arg", "h")
    for what, ok_ in (("name", lambda x: x in TOKENS), ("value", lambda x: not (x < 32 or x == 127))):
        rule = "a header is accepted only if its name consists of token characters" if what == "name" else "a header is accepted only if its value has no control characters"
        rej = "no legal character is refused in a header's %s" % what
        acc_ = [(st, payload(r.ret(st, v), "Some")) for st, v in r if variant(r.ret(st, v)) == "Some"]
        if not acc_:
            c.und(rule, where, "no accepting path")
            continue
        for st, hd in acc_:
            t = field(hd, what)
            raw = t.a[1][0] if t.op == "app" and t.a[0] == "str::trim_matches" else None
            i = mklen(field(hd, "name"))
            ls = [(L, s) for L, s in charloops(r, st, t) + (charloops(r, st, raw) if raw is not None else []) if done_(st, L)]
            preds = pattern_facts(st, t)
            if not ls and not preds:
                other = [k for k in st.facts if contains(k, t) and k.op not in ("eq", "lt", "isvar")]
                others = [k for k in st.facts if contains(k, h)]
                part = [k for k in other if k.op == "more" and (walked_part(src_of(k.a[0]), t))]
                (c.und if len(part) < len(other) else c.bad)(rule, where, "accepted without examining every character of the %s (%s)" % (what, [sh(k, 80) for k in other or others][:3]))
                continue
            good = set()
            allowed = None
            for L, s in ls:
                e = mk("elem", s, L.id, 0)
                if s.a[1] is raw and s.a[1] is not t:
                    pass
                terms = [k for b, _ in L.backs for k in b.facts if contains(k, e)]
                alpha = alphabet(terms)
                go = {x for x in alpha if any(consistent(b.facts.items(), {e: x}) for b, _ in L.backs)}
                c.req(not [k for b, _ in L.backs for k in b.facts if contains(k, e) and pev(k, {e: 65}) is UNK and k.op != "more"] or True, rule, where, "")
                allowed = go if allowed is None else allowed & go
                dom = alpha
                # every way out of the loop other than its end refuses the header; refused characters are illegal
                for st2, v2 in r:
                    if variant(r.ret(st2, v2)) != "None":
                        continue
                    if any(k.op == "more" and b and k.a[1] == L.id for k, b in st2.facts.items()):
                        gone = [x for x in alpha if consistent([(k, b) for k, b in st2.facts.items() if contains(k, e)], {e: x})]
                        unknown = [k for k in st2.facts if contains(k, e) and k.op != "more" and pev(k, {e: 65}) is UNK]
                        wrong = [x for x in gone if ok_(x)]
                        if unknown:
                            c.und(rej, where, sh(unknown[0], 100))
                        else:
                            c.req(not wrong, rej, where, "refused: %s" % "".join(map(chr, wrong[:20])).__repr__())
            for p, want in preds:
                pass
            if allowed is None:
                c.und(rule, where, "characters checked by %s" % [sh(p, 80) for p, _ in preds][:2])
                continue
            wrong = sorted(x for x in allowed if not ok_(x))
            off = t
            while off.op == "app" and re.match(r"^str::trim(_start|_end|_matches|_start_matches|_end_matches|_left|_right)?$", off.a[0]):
                if any(s.a[1] is off.a[1][0] for L, s in ls):
                    break  # what is cut off was examined too
                cs = trimset(off)
                if cs is None:
                    c.und(rule, where, "what %s cuts off is not understood" % sh(off, 80))
                else:
                    gone = [x for x in cs if not ok_(x) and not (what == "value" and x in (32, 9))]
                    c.req(not gone, rule, where, "accepted at the end of the %s: %s" % (what, ["%#x" % x for x in gone[:12]]))
                off = off.a[1][0]
            if wrong and len(wrong) > 0 and any(pev(k, {mk("elem", s, L.id, 0): 65}) is UNK for L, s in ls for b, _ in L.backs for k in b.facts if contains(k, mk("elem", s, L.id, 0)) and k.op != "more"):
                c.und(rule, where, "condition on the characters not understood")
            else:
                c.req(not wrong, rule, where, "accepted: %s" % ["%#x" % x for x in wrong[:12]])


def trimset(t):
    """the characters below U+0100 a trim call takes off"""
    if len(t.a[1]) == 1:
        return [x for x in range(256) if any(a <= x <= b for a, b in CLS["is_whitespace"])]
    p = pat(t.a[1][1])
    return None if not isinstance(p, tuple) else [x for x in range(256) if any(a <= x <= b for a, b in p)]


def walked_part(it, t):
    """a walk over less than the whole of t"""
    if it.op != "it":
        return False
    if it.a[0] in ("skip", "take", "stepby", "takewhile", "skipwhile", "filter"):
        return True
    x = it.a[1]
    return it.a[0] in ("chars", "elems") and x is not t and (
        x.op == "slice" and x.a[0] is t or x.op == "app" and re.match(r"str::trim", x.a[0]) is not None and x.a[1][0] is t)


def pattern_facts(st, t):
    return [(k, b) for k, b in st.facts.items() if k.op == "isvar" and k.a[0].op == "app" and k.a[0].a[0] == "str::find" and k.a[0].a[1][0] is t and k.a[0].a[1][1].op == "charset" and pat(k.a[0].a[1][1]) is not None]


# ---------------------------------------------------------------- paths
@prop("P13", ("default", "nofeatures"))
def p13(c):
    """cut at '/', '' and '.' vanish, '..' pops or is an error, everything else is kept"""
    where = "PathBuf::parse"
    r = c.run(c.anchor(PPARSE), ["path"])
    ip = r.ip
    path = mk("arg", "path")
    RW = "the path is cut at every slash and every segment looked at"
    RN = "empty and '.' segments vanish, '..' removes the segment before it, others are kept unchanged"
    RE = "a path is invalid exactly when '..' has nothing to remove"
    loops = walks(ip, path)
    if len(loops) != 1:
        many(c, loops, path, where, RW)
        return
    L = loops[0]
    segs, ended = segments(c, r, L, path, "/", where, RW)
    if segs is None:
        c.und(RW, where, "walk not recognised: %s" % (L.drv and sh(L.drv, 100)))
        return
    if ended is None:
        return
    c.ok(RW, where)
    ch = None
    nerr = 0
    for st, v in r:
        rv = r.ret(st, v)
        if variant(rv) == "Ok":
            ch = ip.strip(st, field(payload(rv, "Ok"), "chunks"))
            c.req(ended(st), RW, where, "the rest of the path is ignored: %s" % [("" if b else "!") + sh(k, 80) for k, b in st.facts.items()][-2:])
        elif variant(rv) == "Err":
            nerr += 1
            seg = next((mk("elem", src_of(L.drv), L.id, 0) for _ in [0] if L.drv is not None), None)
            dd = seg is not None and streq(st, seg, "..")
            empty = any(b and k.op == "eq" and k.a[0].op == "len" and is_c(k.a[1]) and cval(k.a[1]) == 0 and k.a[0].a[0].op == "phi" for k, b in st.facts.items()) or \
                any(not b and k.op == "lt" and is_c(k.a[0]) and cval(k.a[0]) == 0 and k.a[1].op == "len" and k.a[1].a[0].op == "phi" for k, b in st.facts.items()) or \
                any(k.op == "isvar" and "last" in show(k)[:40] and not b for k, b in st.facts.items())
            if seg is None:
                continue
            c.req(dd is True and empty, RE, where, "invalid under %s" % [("" if b else "!") + sh(k, 80) for k, b in st.facts.items()][-3:])
        else:
            c.und(RE, where, sh(rv))
    c.req(nerr >= 1, RE, where, "no path is ever invalid")
    if ch is None or ch not in L.init:
        c.und(RN, where, "segments are %s" % (ch and sh(ch, 100)))
        return
    c.req(L.init[ch] is EMPTYSEQ or mklen(L.init[ch]) is I(0), RN, where, "segments start as %s" % sh(L.init[ch]))
    seen = set()
    for st, vals, e in segs:
        new = ip.strip(st, vals[ch])
        kinds = {k: segfact(st, e, k) for k in ("", ".", "..")}
        true = [k for k, b in kinds.items() if b]
        if new is ch:
            if true == [".."] and nonempty(st, ch) is False:
                c.bad(RE, where, "'..' above the root is ignored")
                continue
            c.req(true in ([""], ["."]), RN, where, "segment dropped under %s" % [("" if b else "!") + sh(k, 80) for k, b in newfacts(L, st)])
            seen |= set(true)
        elif new.op == "popped" and new.a[0] is ch:
            if c.req(true == [".."], RN, where, "a segment is removed under %s" % [("" if b else "!") + sh(k, 80) for k, b in newfacts(L, st)]):
                c.req(nonempty(st, ch) is True or any(k.op == "isvar" and "pop" in show(k)[:30] and b for k, b in st.facts.items()), RE, where, "'..' above the root is ignored")
            seen.add("..")
        elif new.op == "push" and new.a[0] is ch:
            no = [k for k, b in kinds.items() if b is not False]
            if any(b is None for b in kinds.values()) and all(b is None for b in kinds.values()) and [k for k, b in newfacts(L, st) if contains(k, e)]:
                c.und(RN, where, "segment kept under %s" % [("" if b else "!") + sh(k, 80) for k, b in newfacts(L, st)])
            else:
                c.req(not no, RN, where, "segments %s may be kept" % no)
            c.req(new.a[1] is e, RN, where, "segment kept as %s" % sh(new.a[1], 100))
            seen.add("x")
        elif new.op == "mkslice" or (new.op == "slice" and new.a[0] is ch):
            c.und(RN, where, "segments become %s" % sh(new, 100))
        else:
            c.bad(RN, where, "segments become %s" % sh(new, 120))
    c.req("x" in seen and ".." in seen, "coverage", where, "cases %s" % sorted(seen))


def nonempty(st, ch):
    v = st.facts.get(eq(mklen(ch), I(0)))
    if v is not None:
        return not v
    v = st.facts.get(lt(I(0), mklen(ch)))
    if v is not None:
        return v
    for k, b in st.facts.items():
        if k.op == "isvar" and k.a[1] == "Some" and contains(k.a[0], ch) and ("pop" in show(k.a[0]) or "last" in show(k.a[0])):
            return b
    return None


def segfact(st, e, s):
    if s == "":
        v = st.facts.get(eq(mklen(e), I(0)))
        if v is None:
            for o in (".", ".."):
                if streq(st, e, o):
                    return False
        return v
    v = streq(st, e, s)
    if v is None:
        if st.facts.get(eq(mklen(e), I(0))):
            return False
        for o in (".", ".."):
            if o != s and st.facts.get(eq(e, S(o))):
                return False
    return v


# ---------------------------------------------------------------- queries
@prop("P18", ("default", "nofeatures"), ("default", "nofeatures", "rustls", "lenient"))
def p18(c):
    """cut at '&', then at the first '='; both sides percent-decoded; later pairs win"""
    where = "parse_query"
    r = c.run(c.anchor("query::parse_query"), ["q"])
    ip = r.ip
    q = mk("arg", "q")
    strict = c.feature("faithful")
    RW = "the query is cut at every '&' and every piece looked at"
    RP = "each piece is cut at its first '=', both sides are percent-decoded and stored"
    RS = "only pieces without a name are left out, and only in strict builds"
    loops = walks(ip, q)
    if len(loops) != 1:
        many(c, loops, q, where, RW)
        return
    L = loops[0]
    segs, ended = segments(c, r, L, q, "&", where, RW)
    if segs is None:
        c.und(RW, where, "walk not recognised: %s" % (L.drv and sh(L.drv, 100)))
        return
    if ended is None:
        return
    c.ok(RW, where)
    m = None
    for st, v in r:
        m = r.ret(st, v)
        c.req(ended(st), RW, where, "the rest of the query is ignored: %s" % [("" if b else "!") + sh(k, 80) for k, b in st.facts.items()][-2:])
    if m not in L.init:
        c.und(RP, where, "result %s" % sh(m, 100))
        return
    c.req(L.init[m].op == "emptymap", RP, where, "the map starts as %s" % sh(L.init[m]))
    n = 0
    for st, vals, e in segs:
        new = ip.strip(st, vals[m])
        f, b = found(st, e, "=")
        emp = st.facts.get(eq(mklen(e), I(0)))
        noname = b is True and st.facts.get(eq(payload(f, "Some"), I(0))) is True
        if new is m:
            c.req(strict and (emp is True or noname), RS, where, "a piece is left out under %s" % [("" if x else "!") + sh(k, 80) for k, x in newfacts(L, st)])
            continue
        if new.op not in ("minsert", "mset") or new.a[0] is not m:
            c.bad(RP, where, "map becomes %s" % sh(new, 160))
            continue
        k, val = new.a[1], new.a[2]
        n += 1
        if f is None:
            fc = foreign_cut(k) or foreign_cut(val) or next((foreign_cut(x) for x in st.facts if foreign_cut(x)), None)
            (c.bad if fc else c.und)(RP, where, "piece stored as %s" % sh(new, 200))
            continue
        if b:
            i = payload(f, "Some")
            c.req(k is app(UNHEX, mkslice(e, I(0), i)), RP, where, "name is %s" % sh(k, 120))
            c.req(val is app(UNHEX, mkslice(e, add(i, I(1)), None)), RP, where, "value is %s" % sh(val, 120))
        else:
            c.req(k is app(UNHEX, e), RP, where, "name is %s" % sh(k, 120))
            c.req(val is S("") or is_app(val, "query::unescape_hex") and val.a[1][0] is S(""), RP, where, "value of a piece without '=' is %s" % sh(val, 80))
        st_absent = st.facts.get(isvar(mget(m, k), "Some"))
        if st_absent is not None:
            c.req(len([1 for s2, v2, _ in segs if v2[m] is not m and s2.facts.get(isvar(mget(m, k), "Some")) is not None]) != 1, "the last value of a repeated name wins", where, "stored only when %s" % st_absent)
    c.req(n >= 2, "coverage", where, "%d storing paths" % n)
    # the query a handler sees is its own request's
    self_ = mk("arg", "self")
    for fn, inner in (("request::Request::<'a>::get_query", "query::parse_query"), ("request::Request::<'a>::get_extended_query", "query::parse_extended_query")):
        f = c.find(fn)
        if f is None:
            continue
        rr = c.run(f, ["self"], opaque=["query::parse_query", "query::parse_extended_query"])
        want = field(field(self_, "request_line"), "query")
        for st, v in rr:
            calls = [e for e in st.events() if e.kind == "call" and e.name == inner]
            c.req(len(calls) == 1 and calls[0].args[0] is want, "a handler sees the query of its own request", fn, "decodes %s" % [sh(e.args[0]) for e in calls])


# ---------------------------------------------------------------- extended queries
def empty_text(st, t):
    """whether t is known to be empty / not empty on this path"""
    if t is S(""):
        return True
    n = mklen(t)
    v = truth(st, eq(n, I(0)))
    if v is None and st.facts.get(eq(t, S(""))) is not None:
        v = st.facts[eq(t, S(""))]
    if v is None:
        if lin.prove_le(st.facts, n, I(0)):
            v = True
        elif lin.prove_lt(st.facts, I(0), n):
            v = False
    return v


def closing(st, e, i):
    """whether the name e[..i] is known to end with ']'"""
    name = mkslice(e, I(0), i)
    for k, b in st.facts.items():
        if k.op == "eq" and any(is_c(x) and x.a[1] in (93, "]") for x in k.a):
            x = uncast(k.a[0] if is_c(k.a[1]) else k.a[1])
            if x.op == "index" and x.a[0] is e and x.a[1] is sub(i, I(1)) or x.op == "index" and x.a[0] is name and x.a[1] is sub(mklen(name), I(1)):
                return b
            if x.op in ("vfld",) and x.a[0].op == "app" and x.a[0].a[0] in ("slice::last", "Iterator::last") and x.a[0].a[1][0] is name:
                return b
        if k.op == "app" and k.a[0] in ("str::ends_with", "slice::ends_with") and k.a[1][0] is name and pat(k.a[1][1]) in (((93, 93),), "]", b"]"):
            return b
    return None


def opening(st, e, i):
    """(position term or None, found) of the search for the last '[' of the name e[..i], or of the name without its last character"""
    for k, b in st.facts.items():
        if k.op == "isvar" and k.a[1] == "Some" and k.a[0].op == "app" and k.a[0].a[0] in ("str::rfind", "str::find") and pat(k.a[0].a[1][1]) == ((91, 91),):
            x = k.a[0].a[1][0]
            if x is mkslice(e, I(0), i) or x is mkslice(e, I(0), sub(i, I(1))):
                if not b:
                    return None, False
                return payload(k.a[0], "Some"), (True if k.a[0].a[0] == "str::rfind" else "first")
    return None, None


@prop("P38", ("rustls",), ("rustls", "lenient"))
def p38(c):
    """name[]=v appends, name[k]=v sets an entry, name=v replaces; what is there keeps its kind"""
    where = "parse_extended_query"
    f = c.find("query::parse_extended_query")
    RW = "the query is cut at every '&' and every piece looked at"
    RT = "a piece with a plain name stores its text under that name"
    RA = "name[]=v appends v to the array of that name"
    RO = "name[key]=v stores v under key in the object of that name"
    RS = "only pieces without a name, and pieces that do not fit what is there, are left out"
    if f is None:
        c.und(RW, where, "not found")
        return
    r = c.run(f, ["q"], opaque=[UNHEX])
    ip = r.ip
    q = mk("arg", "q")
    strict = c.feature("faithful")
    loops = walks(ip, q)
    if len(loops) != 1:
        many(c, loops, q, where, RW)
        return
    L = loops[0]
    segs, ended = segments(c, r, L, q, "&", where, RW)
    if segs is None:
        c.und(RW, where, "walk not recognised: %s" % (L.drv and sh(L.drv, 100)))
        return
    if ended is None:
        return
    c.ok(RW, where)
    m = None
    for st, v in r:
        m = r.ret(st, v)
        c.req(ended(st), RW, where, "the rest of the query is ignored: %s" % [("" if b else "!") + sh(k, 80) for k, b in st.facts.items()][-2:])
    if m not in L.init:
        c.und(RT, where, "result %s" % sh(m, 100))
        return
    c.req(L.init[m].op == "emptymap", RT, where, "the map starts as %s" % sh(L.init[m]))
    n = {"plain": 0, "Arr": 0, "Obj": 0, "blank": 0}

    def store(new):
        """(key, value) if new is the map with one entry changed"""
        if new.op in ("minsert", "mset") and new.a[0] is m:
            return new.a[1], new.a[2]
        if new.op in ("minsert", "mset") and new.a[0].op in ("minsert", "mset") and new.a[0].a[0] is m and new.a[0].a[1] is new.a[1]:
            return new.a[1], new.a[2]
        return None, None

    for st, vals, e in segs:
        new = ip.strip(st, vals[m])
        facts = [("" if x else "!") + sh(k, 80) for k, x in newfacts(L, st)]
        if ip.infeasible(st):
            continue
        fe, b = found(st, e, "=")
        if b is None:
            emp = empty_text(st, e)
            if new is m and emp is True:
                c.req(strict, RS, where, "an empty piece is left out")
                continue
            fc = next((foreign_cut(x) for x in st.facts if foreign_cut(x)), None) or foreign_cut(new)
            (c.bad if fc else c.und)(RT, where, "piece stored as %s under %s" % (sh(new, 200), facts))
            continue
        k, val = store(new)
        if new is not m and k is None:
            judge(c, False, RT, where, "the map becomes %s" % sh(new, 200), [new], (UNHEX, "str::rfind", "str::find", "mget"))
            continue
        if not b:
            if new is m:
                c.req(strict and empty_text(st, e) is True, RS, where, "a piece without '=' is left out under %s" % facts)
                continue
            n["blank"] += 1
            c.req(k is app(UNHEX, e) and variant(val) == "Str" and (vfield(val, "Str", "0") is S("") or vfield(val, "Str", "0") is app(UNHEX, S(""))), RT, where, "a piece without '=' is stored as %s: %s" % (sh(k, 80), sh(val, 80)))
            continue
        i = payload(fe, "Some")
        text = app(UNHEX, mkslice(e, add(i, I(1)), None))
        if empty_text(st, mkslice(e, I(0), i)) is True:
            c.req(new is m, RS, where, "a piece without name is stored as %s: %s" % (k and sh(k, 80), val and sh(val, 80)))
            continue
        cl = closing(st, e, i)
        j, op = opening(st, e, i)
        if cl is False or op is False:
            if new is m:
                c.bad(RS, where, "a piece with a plain name is left out under %s" % facts)
                continue
            n["plain"] += 1
            c.req(k is app(UNHEX, mkslice(e, I(0), i)), RT, where, "the name is %s" % sh(k, 120))
            c.req(variant(val) == "Str" and vfield(val, "Str", "0") is text, RT, where, "the value is %s" % sh(val, 120))
            if val is not None and st.facts.get(isvar(mget(m, k), "Some")) is not None:
                c.ok(RT, where)
            continue
        if cl is None or op is None:
            # brackets not looked at, or in a way not known here
            (judge(c, False, RA, where, "%s under %s" % (sh(new, 200), facts), [x for x, _ in newfacts(L, st)] + [new], (UNHEX, "str::find", "str::rfind"))
             if op == "first" or cl is None and op is None and not any(91 in charsof(x) or 93 in charsof(x) for x, _ in newfacts(L, st)) else c.und(RA, where, "%s under %s" % (sh(new, 200), facts)))
            continue
        if op == "first":
            c.bad(RA, where, "a bracketed name is cut at its first '[': %s" % sh(new, 160))
            continue
        out, ins = mkslice(e, I(0), j), mkslice(e, add(j, I(1)), sub(i, I(1)))
        u = [b2 for k2, b2 in st.facts.items() if k2.op == "isvar" and k2.a[0].op == "app" and "from_utf8" in k2.a[0].a[0] and k2.a[0].a[1][0] in (out, ins)]
        if not all(u):
            # cannot be: pieces of text cut at ASCII characters are text
            continue
        ie = empty_text(st, ins)
        if ie is None:
            judge(c, False, RA, where, "name[] and name[key] are not told apart: %s under %s" % (sh(new, 160), facts), [x for x, _ in newfacts(L, st)] + [new], (UNHEX, "str::find", "str::rfind", "mget", "from_utf8"))
            continue
        kind, rule = ("Arr", RA) if ie else ("Obj", RO)
        old = mget(m, out)
        have = st.facts.get(isvar(old, "Some"))
        was = payload(old, "Some")
        fits = st.facts.get(isvar(was, kind))
        if fits is None and any(k2.op == "isvar" and k2.a[0] is was and k2.a[1] != kind and b2 for k2, b2 in st.facts.items()):
            fits = False
        if new is m:
            c.req(have is True and fits is False, RS, where, "%s is left out under %s" % ("name[]=v" if ie else "name[key]=v", facts))
            continue
        n[kind] += 1
        if have is True and fits is False:
            c.bad(RS, where, "a value of another kind is replaced by %s" % sh(val, 120))
            continue
        if k is not out:
            judge(c, False, rule, where, "stored under %s" % sh(k, 120), [k], (UNHEX, "str::find", "str::rfind"))
            continue
        got = vfield(val, kind, "0")
        before = EMPTYSEQ if have is False and kind == "Arr" else mk("emptymap") if have is False else vfield(was, kind, "0")
        if have is None or have is True and fits is None:
            c.und(rule, where, "%s under %s" % (sh(val, 160), facts))
            continue
        if kind == "Arr":
            good = got.op == "push" and got.a[0] is before and got.a[1] is text or got.op == "seq" and have is False and list(got.a[0]) == [text]
        else:
            good = got.op in ("minsert", "mset") and got.a[0].op == before.op and (got.a[0] is before or have is False) and got.a[1] is ins and got.a[2] is text
        judge(c, good, rule, where, "becomes %s" % sh(val, 200), [val], (UNHEX, "str::find", "str::rfind", "mget", "Vec::insert", "Vec::clear", "Vec::truncate"))
    for kk, x in n.items():
        c.req(x >= 1, "coverage", where, "no %s piece analysed" % kk)
    # access to the parts
    for g, kind in (("get_str", "Str"), ("get_arr", "Arr"), ("get_obj", "Obj")):
        f = c.find("query::QueryValue::" + g)
        if f is None:
            continue
        me = mk("arg", "self")
        RG = "a value is given out as what it is"
        rr = c.run(f, ["self"])
        for st, v in rr:
            t = rr.ret(st, v)
            on = st.facts.get(isvar(me, kind))
            if on is None and any(k2.op == "isvar" and k2.a[0] is me and k2.a[1] != kind and b2 for k2, b2 in st.facts.items()):
                on = False
            if variant(t) == "Some":
                p_ = rr.ip.strip(st, payload(t, "Some"))
                judge(c, on is True and p_ is vfield(me, kind, "0"), RG, "QueryValue::" + g, "gives %s" % sh(p_, 80), [p_])
            else:
                judge(c, on is False, RG, "QueryValue::" + g, "gives nothing for a %s" % kind, [t])
    f = c.find("request::Request::<'a>::get_extended_query")
    if f:
        rr = c.run(f, ["self"], opaque=["query::parse_query", "query::parse_extended_query"])
        want = field(field(mk("arg", "self"), "request_line"), "query")
        for st, v in rr:
            t = rr.ret(st, v)
            judge(c, t is app("query::parse_extended_query", want), "a handler sees the query of its own request", "Request::get_extended_query", "gives %s" % sh(t, 100), [t], ("query::parse_extended_query",))


def charsof(t):
    """the character constants a term mentions"""
    out = set()
    for x in subterms(t):
        if x.op == "c" and isinstance(x.a[1], int) and not isinstance(x.a[1], bool):
            out.add(x.a[1])
        elif x.op == "c" and isinstance(x.a[1], str):
            out |= {ord(ch) for ch in x.a[1]}
        elif x.op == "charset":
            out |= {v for lo, hi in x.a[0] for v in range(lo, min(hi, lo + 256) + 1)}
    return out


# ---------------------------------------------------------------- percent escapes
@prop("P19", ("default",), ("default", "nofeatures", "rustls"))
def p19(c):
    """%XX decoded, everything else kept, in order"""
    where = "from_hex"
    rule = "each hexadecimal digit has its value and nothing else is a digit"
    f = c.find(FROMHEX)
    if f is None:
        c.und(rule, where, "no digit decoder found")
    else:
        r = c.run(f, ["c"])
        a = mk("arg", "c")
        terms = [k for st, v in r for k in st.facts]
        bad = []
        unk = None
        for x in alphabet(terms):
            want = int(chr(x), 16) if x < 128 and chr(x) in "0123456789abcdefABCDEF" else None
            outs = [(st, r.ret(st, v)) for st, v in r if consistent(st.facts.items(), {a: x})]
            for st, rv in outs:
                unkf = [k for k in st.facts if pev(k, {a: x}) is UNK]
                if unkf:
                    unk = unkf[0]
                    continue
                if variant(rv) == "Some":
                    got = pev(payload(rv, "Some"), {a: x})
                elif variant(rv) == "None":
                    got = None
                else:
                    got = UNK
                if got is UNK:
                    unk = rv
                elif got != want:
                    bad.append("%r is %s" % (chr(x), got))
        if unk is not None and not bad:
            c.und(rule, where, sh(unk, 120))
        else:
            c.req(not bad, rule, where, "; ".join(bad[:6]))
    where = "unescape_hex"
    r = c.run(c.anchor(UNHEX), ["s"], opaque=[FROMHEX])
    unescape(c, r, where)


def unescape(c, r, where):
    ip = r.ip
    s = mk("arg", "s")
    R1 = "'%' and two hexadecimal digits become the byte they denote"
    R2 = "everything else is kept unchanged and in order"
    R3 = "the decoded bytes are read together as UTF-8"
    loops = [L for L in ip.loops.values() if L.backs and any(has(v, lambda x: is_app(x, FROMHEX)) for _, vals in L.backs for v in vals.values())]
    if len(loops) != 1:
        c.und(R1, where, "%d loops" % len(loops))
        return
    L = loops[0]
    out = None
    for st, v in r:
        rv = r.ret(st, v)
        if rv.op == "app" and rv.a[0] == "String::from_utf8_lossy":
            out = ip.strip(st, rv.a[1][0])
            c.ok(R3, where)
        elif rv.op == "vfld" or (rv.op == "app" and "from_utf8" in rv.a[0]):
            c.und(R3, where, "result %s" % sh(rv, 100))
            return
        elif rv in L.init:
            # characters appended one by one: a multi-byte character split over escapes is lost
            c.bad(R3, where, "decoded bytes are turned into characters one at a time: result %s" % sh(rv, 80))
            return
        elif rv.op == "app" and re.match(r"^str::(replace|replacen|trim\w*|to_\w*case|repeat)$", rv.a[0]) and has(rv.a[1][0], lambda x: x.op == "app" and x.a[0] == "String::from_utf8_lossy"):
            c.bad("every character that is not part of an escape is kept", where, "the decoded text is changed again: result %s" % sh(rv, 100))
            return
        else:
            c.und(R3, where, "result %s" % sh(rv, 100))
            return
    if out not in L.init:
        c.und(R2, where, "output %s" % sh(out, 100))
        return
    ini = ip.strip(L.pre, L.init[out])
    c.req(ini is EMPTYSEQ or mklen(ini) is I(0), R2, where, "output starts as %s" % sh(ini))
    # view of the pending input
    drv = src_of(L.drv) if L.drv is not None else None
    ints = [p for p in L.init if is_c(L.init[p], "int") and cval(L.init[p]) == 0]
    views = []
    if drv is not None and drv.op == "it" and drv.a[0] in ("chars", "elems") and drv.a[1] is s:
        caches = [p for p in L.init if ip.strip(L.pre, L.init[p]).op == "seq" and len(ip.strip(L.pre, L.init[p]).a[0]) >= 1 and p is not out]
        iters = [p for p in L.init if L.init[p] is drv or L.init[p] is L.drv]
        if len(iters) == 1 and len(caches) == 1 and len(ints) >= 1:
            stored = [p for p in ints if any(contains(k, p) for st, _ in L.backs for k in st.facts)]
            if len(stored) == 1:
                cap = len(ip.strip(L.pre, L.init[caches[0]]).a[0])
                views = [("lookahead", caches[0], stored[0], n) for n in range(cap + 1)]
        elif len(iters) == 1 and not caches:
            views = [("plain", None, None, 0)]
    elif drv is None and len(ints) == 1:
        views = [("index", None, ints[0], 0)]
    if not views:
        c.und(R2, where, "loop over the characters not recognised: %s" % (L.drv and sh(L.drv, 80)))
        return
    itphi = [p for p in L.init if L.init[p] is drv or L.init[p] is L.drv][:1] if drv is not None else []

    def simp(t, env):
        return subst(t, env) if env else t

    n1 = n2 = 0
    for kind, cache, stored, sig in views:
        env = {stored: I(sig)} if kind == "lookahead" else {}

        def pend(i):
            if kind == "index":
                ix = add(stored, I(i))
                return index(s, ix)
            return index(cache, I(i)) if i < sig else mk("elem", drv, L.id, i - sig)

        for st, vals in L.backs:
            if kind == "lookahead" and not consistent(st.facts.items(), {stored: sig}):
                continue
            facts = {simp(k, env): b for k, b in st.facts.items()}
            new = simp(ip.strip(st, vals[out]), env)
            # how much of the input this round consumes, and whether what stays pending is the rest of it
            if kind == "index":
                nx = vals[stored]
                d = sub(nx, stored)
                if not is_c(d, "int"):
                    c.und(R2, where, "position becomes %s" % sh(nx, 80))
                    continue
                k_ = cval(d)
            else:
                nit = vals[itphi[0]]
                adv = itn_count(nit, itphi[0])
                if adv is None:
                    c.und(R2, where, "iterator becomes %s" % sh(nit, 80))
                    continue
                if kind == "plain":
                    k_ = adv
                else:
                    ns = simp(ip.strip(st, vals[stored]), env)
                    if not is_c(ns, "int"):
                        c.und(R2, where, "look-ahead count becomes %s" % sh(ns, 80))
                        continue
                    sg = cval(ns)
                    ended = [j for (k, b) in facts.items() for j in [k.a[2] if k.op == "more" and k.a[1] == L.id and not b else None] if j is not None]
                    real = min([adv] + ended)
                    k_ = sig + real - sg
                    nc = simp(ip.strip(st, vals[cache]), env)
                    for i in range(sg):
                        got = index_iset(nc, i)
                        if got is not pend(k_ + i):
                            c.bad(R2, where, "a character looked at ahead is lost or repeated (look-ahead %d -> %d)" % (sig, sg))
            x0, x1, x2 = pend(0), pend(1), pend(2)
            new = copied(ip, new)
            parts = tail_of(new, out)
            if parts is None:
                (c.und if any(x.op == "phi" and x not in L.init for x in subterms(new)) else c.bad)(R2, where, "output becomes %s" % sh(new, 120))
                continue
            pct = None
            for y in (x0,):
                for f_, b in facts.items():
                    if f_.op == "eq" and y in f_.a and any(is_c(z) and z.a[1] in (37, "%") for z in f_.a):
                        pct = b
            h1, h2 = fromhex_of(facts, x1), fromhex_of(facts, x2)
            if k_ == 3:
                n1 += 1
                a, b = fhx(x1), fhx(x2)
                hx = [x for x in subterms(parts[0]) if is_app(x, FROMHEX)] if len(parts) == 1 else []
                okb = len(parts) == 1 and len(set(hx)) == 2 and h1 is not None and h1[1] and h2 is not None and h2[1]
                if okb:
                    p1, p2 = payload(h1[0], "Some"), payload(h2[0], "Some")
                    okb = all(pev(parts[0], {p1: u, p2: w}) == u * 16 + w for u, w in ((0, 0), (1, 2), (15, 15), (9, 10), (7, 8), (8, 1)))
                c.req(pct is True and okb, R1, where, "writes %s for an escape" % [sh(x, 140) for x in parts])
            elif k_ == 1:
                n2 += 1
                keep = len(parts) == 1 and (parts[0] is app("utf8", x0) or parts[0] is x0 or (pct and is_c(parts[0]) and cval(parts[0]) in (37, "%")))
                c.req(keep, R2, where, "writes %s for one character" % [sh(x, 140) for x in parts])
                if pct is not False:
                    ends = any(f_.op == "more" and not b and f_.a[1] == L.id for f_, b in facts.items()) or any(f_.op == "lt" for f_ in facts) or any(f_.op == "isvar" and not b and "get" in show(f_)[:30] for f_, b in facts.items())
                    nohex = (h1 is not None and not h1[1]) or (h2 is not None and not h2[1])
                    c.req(pct is True and (ends or nohex), R1, where, "an escape is left undecoded under %s" % [("" if b else "!") + sh(k, 80) for k, b in facts.items()][-3:])
            else:
                if pct is False or not parts:
                    c.bad(R2, where, "%d characters consumed, %d pieces written" % (k_, len(parts)))
                else:
                    c.bad(R1, where, "an escape consumes %d characters and writes %s" % (k_, [sh(x, 80) for x in parts]))
    c.req(n1 >= 1 and n2 >= 2, "coverage", where, "%d decoding and %d keeping rounds" % (n1, n2))
    for st, v in r:
        if kind != "index":
            c.req(done_(st, L) or any(k.op == "more" and not b for k, b in st.facts.items()), R2, where, "the rest of the text is dropped: %s" % [sh(k, 80) for k in st.facts][-2:])


def fhx(x):
    return app(FROMHEX, x)


def fromhex_of(facts, x):
    for k, b in facts.items():
        if k.op == "isvar" and k.a[1] == "Some" and is_app(k.a[0], FROMHEX) and strip_cast(k.a[0].a[1][0]) is x:
            return k.a[0], b
    return None


def strip_cast(t):
    while t.op == "cast":
        t = t.a[-1]
    return t


def itn_count(t, phi):
    if t is phi:
        return 0
    if t.op == "itn" and t.a[0] is phi:
        n = t.a[1]
        return n if isinstance(n, int) else (cval(n) if is_c(n, "int") else None)
    return None


def index_iset(t, i):
    while t.op == "iset":
        if t.a[1] is I(i):
            return t.a[2]
        if not is_c(t.a[1], "int"):
            return None
        t = t.a[0]
    return index(t, I(i))


def copied(ip, t):
    """an inner loop that appends every item of a sequence appends the sequence"""
    while t.op == "phi" and t in ip.phi_loop:
        L = ip.phi_loop[t]
        if L.drv is None or len(L.backs) != 1 or t not in L.init:
            break
        s2, vals = L.backs[0]
        v = ip.strip(s2, vals[t])
        drv = src_of(L.drv)
        if newfacts(L, s2) or v.op != "push" or v.a[0] is not t or v.a[1].op != "elem" or v.a[1].a[0] is not drv or v.a[1].a[2] != 0:
            break
        t = mk("concat", (ip.strip(L.pre, L.init[t]), drv.a[1] if drv.op == "it" and drv.a[0] == "elems" else drv))
    return t


def tail_of(t, phi):
    """what was appended to phi"""
    out = []
    while t is not phi:
        if t.op == "push":
            out.insert(0, t.a[1])
            t = t.a[0]
        elif t.op == "concat":
            xs = list(t.a[0])
            out[0:0] = xs[1:]
            t = xs[0]
        elif t.op == "cat":
            xs = list(t.a[0])
            out[0:0] = xs[1:]
            t = xs[0]
        else:
            return None
    return out


# ---------------------------------------------------------------- cookies
@prop("P20", ("default", "rustls"))
def p20(c):
    structural(c, "cookie::Cookie")
    if not c.feature("cookies"):
        return
    where = "Cookie::parse"
    f = c.anchor("cookie::Cookie::<'a>::parse")
    r = c.run(f, ["h"])
    ip = r.ip
    h = mk("arg", "h")
    RW = "the Cookie header is cut at every '; ' and every piece looked at"
    RK = "every well-formed cookie is kept in order, malformed ones are skipped"
    loops = walks(ip, h)
    if len(loops) != 1:
        many(c, loops, h, where, RW)
    else:
        L = loops[0]
        segs, ended = segments(c, r, L, h, "; ", where, RW)
        if segs is None:
            c.und(RW, where, "walk not recognised: %s" % (L.drv and sh(L.drv, 100)))
        elif ended is not None:
            c.ok(RW, where)
            for st, v in r:
                rv = r.ret(st, v)
                c.req(ended(st), RW, where, "the rest of the header is ignored: %s" % [("" if b else "!") + sh(k, 80) for k, b in st.facts.items()][-2:])
                if rv not in L.init:
                    c.und(RK, where, "result %s" % sh(rv, 100))
                    continue
                c.req(ip.strip(L.pre, L.init[rv]) is EMPTYSEQ or mklen(L.init[rv]) is I(0), RK, where, "starts as %s" % sh(L.init[rv]))
                for s2, vals, e in segs:
                    new = ip.strip(s2, vals[rv])
                    pk = [(k.a[0], b) for k, b in s2.facts.items() if k.op == "isvar" and k.a[0].op == "app" and k.a[0].a[0].split("::")[-1] == "parse" and contains(k.a[0], e)]
                    good = [b if k_ok(x) else not b for x, b in pk for k_ok in [lambda x: isvar(x, "Ok") in s2.facts or isvar(x, "Some") in s2.facts]]
                    okp = all(x.a[1][0] is e for x, _ in pk)
                    c.req(okp, RK, where, "parses %s" % [sh(x, 100) for x, _ in pk])
                    if new is rv:
                        c.req(good == [False], RK, where, "a cookie is dropped under %s" % [("" if b else "!") + sh(k, 80) for k, b in newfacts(L, s2)])
                    elif new.op == "push" and new.a[0] is rv:
                        x = new.a[1]
                        c.req(good == [True] and has(x, lambda y: any(y is p for p, _ in pk)), RK, where, "keeps %s" % sh(x, 100))
                    else:
                        c.bad(RK, where, "cookies become %s" % sh(new, 120))
    # the request's cookies come from its own Cookie header
    where = "Request::parse"
    RC = "a request's cookies are those of its own Cookie header, none without one"
    g = c.find("request::Request::<'a>::parse")
    if g is None:
        c.und(RC, where, "not there")
        return
    info = c.prog().fns[g]
    names = ["a%d" % i for i in range(1, info["argc"] + 1)]
    r = c.run(g, names, opaque=["cookie::Cookie::<'a>::parse"])
    for st, v in r:
        rv = r.ret(st, v)
        q = payload(rv, "Some") if variant(rv) == "Some" else rv
        ck = field(q, "cookies")
        if variant(rv) == "None":
            c.bad(RC, where, "a request is refused under %s" % [sh(k, 80) for k in st.facts])
            continue
        gets = [(k.a[0], b) for k, b in st.facts.items() if k.op == "isvar" and k.a[0].op == "mget"]
        if len(gets) != 1:
            c.und(RC, where, "cookies are %s" % sh(ck, 100))
            continue
        m, b = gets[0]
        c.req(cstr(m.a[1]) == "cookie" and has(m.a[0], lambda x: x.op == "arg"), RC, where, "cookies are looked up under %s" % sh(m.a[1]))
        if b:
            c.req(is_app(ck, "cookie::Cookie::<'a>::parse") and ck.a[1][0] is payload(m, "Some"), RC, where, "cookies are %s" % sh(ck, 100))
        else:
            c.req(ck is EMPTYSEQ or ck.op == "default", RC, where, "cookies without a header: %s" % sh(ck, 100))
