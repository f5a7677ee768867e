"""The connection: reading, dispatching, answering, accepting; shared state; TLS; configuration."""
from rl import *
import lin
from . import prop
from .response import R, ALL, root_is, content_src

SERVE = "server::Octane::serve"
SEND = "server::Octane::send"
RUN = "router::Router::run"
HPARSE = "request::Headers::parse"
LPARSE = "request::RequestLine::parse"
FROMRAW = "request::Request::<'a>::from_raw"
VALID = "http::Http::<'a>::validate"
READER = "http1x::Http1xReader::<'a, T>::new"
FIND = "http1x::find_in_slice"
GETDATA = R + "get_data"
PARTS = [HPARSE, LPARSE, FROMRAW, VALID, RUN, SEND, READER, GETDATA]


def appname(t):
    while t.op in ("await", "vfld", "fld"):
        t = t.a[0]
    return t.a[0] if t.op == "app" else None


def is_mut(t, name, i=None):
    """the value an argument has after a call changed it"""
    return t.op == "mut" and t.a[0] == name and (i is None or t.a[1] == i)


def base(t):
    """peel an await"""
    return t.a[0] if t.op == "await" else t


def is_app(t, name):
    t = base(t)
    return t.op == "app" and t.a[0] == name


def serve_run(c):
    for p in PARTS:
        c.anchor(p)
    return c.run(c.anchor(SERVE), ["stream", "server"], opaque=PARTS)


def stages(st):
    """what is known on this path about each validation stage: name -> bool"""
    out = {}
    for k, v in st.facts.items():
        if k.op != "isvar":
            continue
        x = k.a[0]
        b = base(x)
        if k.a[1] == "Ok" and is_app(x, READER):
            out["read"] = v
        elif k.a[1] == "Some" and is_app(x, HPARSE):
            out["headers"] = v
        elif k.a[1] == "Some" and is_app(x, LPARSE):
            out["line"] = v
        elif k.a[1] == "Some" and is_app(x, FROMRAW):
            out["body"] = v
        elif k.a[1] == "Some" and x.op == "fld" and x.a[1] == "err_code" and is_app(x.a[0], VALID):
            out["valid"] = not v
        elif x.op == "fld" and x.a[1] == "method" and k.a[1] == "None":
            out["method"] = not v
        elif x.op == "fld" and x.a[1] == "method" and k.a[1] == "Some":
            out["method"] = v
    return out


def answers(st):
    """what is written to the client on this path: awaited sends (and anything else written to the stream)"""
    out = []
    for e in st.events():
        if e.kind == "await" and e.name == SEND:
            out.append(("send", e.args[0], e.args[1], e))
        elif e.kind == "await" and e.name in ("AsyncWriteExt::write_all", "AsyncWriteExt::write", "io::copy", "AsyncWriteExt::write_buf"):
            out.append(("raw", e.args[0], e.args[-1], e))
    return out


def started(st):
    return [e for e in st.events() if e.kind == "call" and e.name == SEND]


def sent_response(pair):
    """the response value a (head, body) pair was serialised from"""
    if pair.op == "app" and pair.a[0] == GETDATA:
        return pair.a[1][0]
    return None


def code_of(resp):
    sc = field(resp, "status_code")
    return sc


def writer_of(stream):
    return mk("fld", mk("app", "io::split", (stream,), None), "1")


@prop("P02", ALL)
def p02(c):
    """every path through a connection answers exactly once, on the connection's own stream; a failed write ends it"""
    r = serve_run(c)
    where = "Octane::serve"
    n = 0
    for st, v in r:
        n += 1
        rv = r.ret(st, v)
        a = answers(st)
        path = ", ".join("%s%s" % ("" if b else "!", k) for k, b in sorted(stages(st).items()))
        c.req(len(a) == 1, "exactly one response on every path", where, "%d responses are sent when (%s)" % (len(a), path))
        c.req(len(started(st)) == len([x for x in a if x[0] == "send"]), "every response that is started is driven to completion", where, "a response is created but never sent when (%s)" % path)
        for kind, pair, w, e in a:
            s = mk("arg", "stream")
            c.req(contains(w, s) and not contains(w, mk("arg", "server")), "the response goes to the connection that asked", where, "response written to %s" % sh(w))
            if kind == "send":
                c.req(sent_response(pair) is not None, "what is written is a serialised response", where, "written: %s" % sh(pair))
        if variant(rv) == "Err":
            c.req(any(contains(rv, e.ret) for _, _, _, e in a if e.ret is not None), "an error result only when writing failed", where, "error returned: %s" % sh(rv))
    c.req(n >= 8, "coverage", where, "only %d paths" % n)
    check_send(c)


def check_send(c):
    """the writer: head first, completely, then the whole body"""
    r = c.run(c.anchor(SEND), ["response", "stream"])
    resp, stream = mk("arg", "response"), mk("arg", "stream")
    where = "Octane::send"
    for st, v in r:
        rv = r.ret(st, v)
        ws = [e for e in st.events() if e.kind == "await"]
        names = [e.name for e in ws]
        okh = bool(ws) and names[0] == "AsyncWriteExt::write_all" and root_is(ws[0].args[0], stream) and ws[0].args[1] is mk("fld", resp, "0")
        c.req(okh, "the head is written first and completely", where, "first write is %s" % (ws and sh(ws[0].ret)))
        if variant(rv) == "Ok":
            body = mk("fld", resp, "1")
            okb = len(ws) >= 2 and names[1] in ("io::copy", "tokio::io::copy", "copy::copy") and ws[1].args[0] is body and contains(ws[1].args[1], stream)
            c.req(okb, "then the whole body", where, "after the head: %s" % [sh(e.ret, 100) for e in ws[1:]])
            c.req(all(x in ("AsyncWriteExt::flush", "AsyncWriteExt::shutdown") for x in names[2:]), "nothing else is written", where, "also written: %s" % names[2:])
        else:
            c.req(any(k.op == "isvar" and k.a[0].op == "await" and not b for k, b in st.facts.items()), "an error result only when writing failed", where, "error without a failed write")


@prop("P03", ("default", "faithful"), ALL + ("faithful", "lenient", "novars", "nocookies"))
def p03(c):
    """status code per failed stage; handlers only when every stage passed"""
    structural(c, "request::RequestMethod", "HttpVersion")
    r = serve_run(c)
    where = "Octane::serve"
    want = {"headers": "BadRequest", "line": "BadRequest", "body": "BadRequest", "method": "NotImplemented"}
    seen = set()
    for st, v in r:
        s = stages(st)
        bad = [k for k, b in s.items() if not b]
        runs = [e for e in st.events() if e.kind == "call" and e.name == RUN]
        a = [x for x in answers(st) if x[0] == "send"]
        if bad:
            seen |= set(bad)
            c.req(not runs, "no handler runs for a request that fails validation", where, "handlers run although %s failed" % bad)
            for _, pair, w, e in a:
                resp = sent_response(pair)
                if resp is None:
                    continue
                sc = code_of(resp)
                good = False
                for k in bad:
                    if k in want:
                        good |= variant(sc) == want[k]
                    elif k == "read":
                        good |= sc.op == "vfld" and sc.a[1] == "Err" and is_app(sc.a[0], READER) or variant(sc) == "BadRequest"
                    elif k == "valid":
                        good |= sc.op == "vfld" and is_app(base(root(sc)), VALID) or variant(sc) == "BadRequest"
                c.req(good, "the status names what was wrong with the request (400, or 501 for an unknown method)", where, "%s failed but the status is %s" % (bad, sh(sc, 80)))
        elif runs:
            miss = [k for k in ("read", "headers", "line", "body", "valid", "method") if s.get(k) is not True]
            c.req(not miss, "handlers run only after every validation stage has passed", where, "handlers run without checking %s" % miss)
        else:
            for _, pair, w, e in a:
                c.bad("a request is refused only when validation fails", where, "refused without a failed stage, facts: %s" % [sh(k, 50) for k in st.facts][:8])
    c.req(seen == {"read", "headers", "line", "body", "valid", "method"}, "every validation stage can refuse the request", where, "stages with no refusing path: %s" % sorted({"read", "headers", "line", "body", "valid", "method"} - seen))
    # the values: headers and line come from the same head
    for st, v in r:
        for e in st.events():
            if e.kind == "call" and e.name in (HPARSE, LPARSE):
                c.req(e.args[0].op == "fld" and is_app(unpay(e.args[0].a[0]), READER), "the parsed head is the one that was read", where, "%s parses %s" % (e.name, sh(e.args[0])))
            if e.kind == "call" and e.name == VALID:
                c.req(is_app(unpay(e.args[0]), FROMRAW), "the validated request is the parsed one", where, "validates %s" % sh(e.args[0]))
    # reading the head can only fail with 400
    rr = c.run(c.anchor(READER), ["req", "data"])
    n = 0
    for st, v in rr:
        rv = rr.ret(st, v)
        if variant(rv) == "Err":
            n += 1
            c.req(variant(payload(rv, "Err")) == "BadRequest", "an unreadable head is a 400", "Http1xReader::new", "status %s" % sh(rv))
    c.req(n >= 3, "coverage", "Http1xReader::new", "error exits: %d" % n)
    # HTTP/1.1 requires Host
    rr = c.run(c.anchor(VALID), ["request"], keep=600)
    ver = field(field(mk("arg", "request"), "request_line"), "version")
    host = mget(field(field(mk("arg", "request"), "headers"), "parsed"), S("host"))
    n = 0
    for st, v in rr:
        rv = rr.ret(st, v)
        is11 = vfact(st, ver, "Http11")
        hh = st.facts.get(isvar(host, "Some"))
        ec = field(rv, "err_code")
        if is11 and hh is False:
            n += 1
            c.req(ec.op == "agg" and variant(ec) == "Some" and variant(payload(ec, "Some")) == "BadRequest", "HTTP/1.1 without Host is a 400", "Http::validate", "err_code is %s" % sh(ec))
        elif is11 is not False and hh is not True and not (variant(ec) == "Some" and hh is False):
            odd = [k for k in st.facts if k.op not in ("isvar", "eq") and (contains(k, ver) or contains(k, host))]
            (c.und if odd else c.bad)("HTTP/1.1 without Host is a 400", "Http::validate", "an HTTP/1.1 request is judged without looking for Host" if hh is None else "an HTTP/1.1 request without Host is accepted")
        else:
            c.req(ec.op == "agg" and variant(ec) == "None", "no other request is refused at this stage", "Http::validate", "err_code is %s for version facts %s" % (sh(ec), [sh(k, 60) for k in st.facts]))
    c.req(n >= 1, "HTTP/1.1 without Host is a 400", "Http::validate", "no path refuses a missing Host")


def root(t):
    while t.op in ("fld", "vfld"):
        t = t.a[0]
    return t


def unpay(t):
    """the call a payload comes from"""
    while t.op in ("vfld", "fld"):
        t = t.a[0]
    return t


def vfact(st, t, name):
    """is enum value t known (not) to be variant `name` on this path"""
    for k, v in st.facts.items():
        if k.op == "isvar" and k.a[0] is t:
            if k.a[1] == name:
                return v
            if v:
                return False
        if k.op == "eq" and v and t in k.a:
            o = k.a[0] if k.a[1] is t else k.a[1]
            if o.op == "agg":
                return o.a[1] == name
    return None


@prop("P04", ALL)
def p04(c):
    """404 exactly when the handlers leave no body, otherwise their response unmodified; a fresh response per request"""
    structural(c, "request::Request", "request::RequestMethod")
    r = serve_run(c)
    where = "Octane::serve"
    n4 = nok = 0
    for st, v in r:
        runs = [e for e in st.events() if e.kind == "call" and e.name == RUN]
        if not runs:
            continue
        c.req(len(runs) == 1, "the handlers run once per request", where, "the handler chain runs %d times" % len(runs))
        e = runs[0]
        req = [x for x in e.args if is_app(unpay(x), FROMRAW)]
        c.req(len(req) == 1 and req[0] is payload(base_ret(req[0]), "Some") if req else False, "handlers get the parsed request unmodified", where, "handlers get %s" % [sh(x, 80) for x in e.args])
        c.req(any(x is field(mk("arg", "server"), "router") for x in e.args), "the server's router decides", where, "router is %s" % sh(e.args[0]))
        res0 = [x for x in e.args if x.op == "agg" and x.a[0].endswith("Response")]
        if res0:
            r0 = res0[0]
            c.req(variant(field(r0, "status_code")) == "OK" or variant(field(r0, "status_code")) == "Ok", "handlers start from status 200", where, "initial status %s" % sh(field(r0, "status_code")))
            c.req(variant(field(r0, "body")) == "None", "handlers start without a body", where, "initial body %s" % sh(field(r0, "body")))
            c.req(field(r0, "headers").op == "emptymap", "handlers start without headers", where, "initial headers %s" % sh(field(r0, "headers")))
            if c.feature("cookies"):
                c.req(field(r0, "cookies") is EMPTYSEQ, "handlers start without cookies", where, "initial cookies %s" % sh(field(r0, "cookies")))
            c.req(cstr(field(r0, "http_version")) == "1.1", "responses say HTTP/1.1", where, "initial version %s" % sh(field(r0, "http_version")))
        else:
            c.und("a fresh response per request", where, "response argument not recognised: %s" % [sh(x, 80) for x in e.args])
        # after
        a = [x for x in answers(st) if x[0] == "send"]
        hasbody = None
        for k, b in st.facts.items():
            if k.op == "isvar" and k.a[1] in ("Some", "None") and k.a[0].op == "fld" and k.a[0].a[1] == "body" and is_mut(k.a[0].a[0], RUN):
                hasbody = b if k.a[1] == "Some" else not b
        for _, pair, w, ev in a:
            resp = sent_response(pair)
            if resp is None:
                continue
            if hasbody is True:
                nok += 1
                c.req(is_mut(resp, RUN), "the response the handlers built is sent unmodified", where, "sent response is %s" % sh(resp))
            elif hasbody is False:
                n4 += 1
                c.req(variant(code_of(resp)) == "NotFound", "404 when no handler produced a body", where, "no body, but status %s" % sh(code_of(resp), 80))
            else:
                c.bad("404 exactly when no handler produced a body", where, "answered with %s without looking at the body the handlers left" % sh(resp, 100))
    c.req(n4 >= 1 and nok >= 1, "coverage", where, "404 paths %d, handler paths %d" % (n4, nok))
    # has_body means there is a body
    rr = c.run(c.anchor(R + "has_body"), ["self"])
    b = field(mk("arg", "self"), "body")
    for st, v in rr:
        rv = rr.ret(st, v)
        f = st.facts.get(isvar(b, "Some"))
        ok = (is_c(rv, "bool") and f is not None and cval(rv) == f) or rv is isvar(b, "Some") or (is_c(rv, "bool") and vfact(st, b, "None") is not None and cval(rv) != vfact(st, b, "None"))
        c.req(ok, "a response has a body exactly when one was set", "Response::has_body", "returns %s under %s" % (sh(rv), [(sh(k, 40), x) for k, x in st.facts.items()]))


def base_ret(t):
    """the Option/Result a payload was taken from"""
    return t.a[0] if t.op == "vfld" else t


# ---------------------------------------------------------------- request bodies
def cl_of(headers):
    return mget(field(headers, "parsed"), S("content-length"))


def serve_args(c, st_events, name):
    for e in st_events:
        if e.kind == "call" and e.name == name:
            return e.args
    return None


@prop("P07", ALL)
def p07(c):
    """the handler sees exactly the Content-Length bytes that follow the head, or the request is refused"""
    structural(c, "request::Request", "request::Headers")
    where = "Request::from_raw"
    f = c.anchor(FROMRAW)
    info = c.prog().fns[f]
    names = [info["locals"][i].get("n") or "a%d" % i for i in range(1, info["argc"] + 1)]
    tys = [info["locals"][i]["ty"] for i in range(1, info["argc"] + 1)]
    # what serve passes for each argument
    sr = serve_run(c)
    passed = None
    for st, v in sr:
        passed = passed or serve_args(c, st.events(), FROMRAW)
    if passed is None or len(passed) != len(names):
        c.bad("the body is read for every request", "Octane::serve", "the body reader is never called")
        return
    role = {}
    for i, x in enumerate(passed):
        if is_app(unpay(x), READER):
            role.setdefault("reader" if "ReadHalf" in tys[i] or "Read" in tys[i] else "rem", i)
        elif is_app(unpay(x), HPARSE):
            role["headers"] = i
        elif is_app(unpay(x), LPARSE):
            role["line"] = i
    if set(role) != {"reader", "rem", "headers", "line"}:
        c.und("roles of the arguments", where, "arguments not recognised: %s" % role)
        return
    A = [mk("arg", "a%d" % i) for i in range(len(names))]
    # the rest (buffers) as serve passes them
    r = c.run(f, ["a%d" % i for i in range(len(names))], opaque=["cookie::Cookie::<'a>::parse"], keep=600)
    empties = {}
    for i, x in enumerate(passed):
        if i not in role.values():
            c.req(x is EMPTYSEQ or x is S("") or x.op == "default", "the body buffer starts empty", "Octane::serve", "buffer passed in is %s" % sh(x))
            empties[A[i]] = EMPTYSEQ
    headers, rem, reader = A[role["headers"]], A[role["rem"]], A[role["reader"]]
    H = cl_of(headers)
    P = None
    n = {"none": 0, "have": 0, "read": 0, "bad": 0}
    for st, v in r:
        rv = r.ret(st, v)
        has_cl = st.facts.get(isvar(H, "Some"))
        ps = [k.a[0] for k in st.facts if k.op == "isvar" and k.a[0].op == "app" and k.a[0].a[0] == "str::parse" and k.a[0].a[1][0] is payload(H, "Some")]
        parsed = st.facts.get(isvar(ps[0], "Ok")) if ps else None
        cl = payload(ps[0], "Ok") if ps else None
        if variant(rv) == "None":
            n["bad"] += 1
            short = any(k.op == "lt" and not isinstance(k.a[1], str) and k.a[1] is cl and b for k, b in st.facts.items())
            failed = any(k.op == "isvar" and k.a[0].op == "await" and not b for k, b in st.facts.items())
            c.req(has_cl is True and (parsed is False or short or failed), "a request is refused only for a bad Content-Length or a body that ends early", where,
                  "refused under %s" % [(sh(k, 60), b) for k, b in st.facts.items()])
            continue
        if variant(rv) != "Some":
            c.und("result", where, sh(rv))
            continue
        req = payload(rv, "Some")
        body = subst(field(req, "body"), empties)
        c.req(field(req, "request_line") is A[role["line"]], "the request keeps its request line", where, "request line is %s" % sh(field(req, "request_line")))
        c.req(field(req, "headers") is headers, "the request keeps its headers", where, "headers are %s" % sh(field(req, "headers")))
        if has_cl is None:
            c.bad("Content-Length decides the length of the body", where, "body %s without looking at Content-Length" % sh(body))
            continue
        if has_cl is False:
            n["none"] += 1
            c.req(is_empty(body) or lin.prove_le(st.facts, mklen(body), I(0)), "no Content-Length, no body", where, "body is %s" % sh(body))
            continue
        if parsed is not True:
            c.bad("a Content-Length that is not a number is refused", where, "accepted with body %s" % sh(body, 80))
            continue
        zero = st.facts.get(lt(I(0), cl)) is False or st.facts.get(eq(cl, I(0))) is True or st.facts.get(lt(cl, I(1))) is True or lin.prove_le(st.facts, cl, I(0))
        if is_empty(body):
            n["have"] += 1
            c.req(zero, "the body has the declared length", where, "empty body although Content-Length may be positive")
        elif body.op == "slice" and body.a[0] is rem:
            n["have"] += 1
            c.req(is_c(body.a[1]) and cval(body.a[1]) == 0 and (body.a[2] is cl or same_len(st.facts, body.a[2], cl)), "the body is the first Content-Length bytes after the head", where, "body is %s" % sh(body))
        elif body is rem:
            n["have"] += 1
            c.req(st.facts.get(eq(mklen(rem), cl)) is True or same_len(st.facts, mklen(rem), cl), "the body is the first Content-Length bytes after the head", where, "all buffered bytes are the body although they may be more than Content-Length")
        else:
            parts = body_parts(body, rem, reader, empties)
            if parts is None and body.op == "slice" and body_parts(body.a[0], rem, reader, empties) is not None:
                # a part of what was collected: right if it is the first Content-Length bytes
                lo, hi = body.a[1], body.a[2]
                if is_c(lo, "int") and cval(lo) == 0 and (hi is cl or hi is None):
                    body = body.a[0]
                    parts = body_parts(body, rem, reader, empties)
                else:
                    off = [sub(hi if hi is not None else mklen(body.a[0]), mklen(body.a[0])), lo]
                    short = any(is_c(x, "int") and cval(x) != 0 for x in off)
                    (c.bad if short else c.und)("the body is the Content-Length bytes after the head", where, "body is %s" % sh(body))
                    continue
            if parts is None:
                known = not any(x.op in ("app", "mut", "phi", "acc") for x in subterms(body))
                (c.bad if known else c.und)("the body is the Content-Length bytes after the head", where, "body is %s" % sh(body))
                continue
            n["read"] += 1
            reads = [p for p in parts if p[0] == "read"]
            c.req(parts[0][0] == "rem", "bytes that arrived with the head come first", where, "body is %s" % sh(body))
            c.req([p[0] for p in parts].count("rem") == 1 and len(reads) == 1 and len(parts) == 2, "the body is the Content-Length bytes after the head", where, "body is %s" % sh(body))
            for _, amount, exact in reads:
                if exact is None:
                    c.bad("exactly the missing bytes are read from the connection", where, "reads to the end of the connection: %s" % sh(body))
                    continue
                c.req(uncast(amount) is sub(cl, mklen(rem)), "exactly the missing bytes are read from the connection", where, "reads %s" % sh(amount))
                full = exact or [k for k, b in st.facts.items() if (k.op == "lt" and b is False and uncast(k.a[1]) is uncast(amount) and has_op(k.a[0], ("await",)))
                                 or (k.op == "eq" and b and has_op(k, ("await",)) and any(uncast(y) is uncast(amount) for y in k.a)) or (k.op == "lt" and b is False and k.a[1] is cl and has_op(k.a[0], ("mut", "await"))) or (k.op == "eq" and b and cl in k.a and any(y.op == "len" for y in k.a))]
                c.req(bool(full), "a body that ends early is refused", where, "accepted without checking that all bytes arrived")
                okr = any(k.op == "isvar" and k.a[0].op == "await" and b == (k.a[1] == "Ok") for k, b in st.facts.items())
                # all bytes arrived whatever the read said, if the buffer was found to hold them
                held = not exact and any(k.op == "lt" and b is False and k.a[1] is cl and k.a[0].op == "len" or k.op == "eq" and b and cl in k.a and any(y.op == "len" for y in k.a) for k, b in st.facts.items())
                c.req(okr or held, "a read error is refused", where, "the read result is ignored")
    c.req(n["none"] and n["have"] and n["read"] and n["bad"], "coverage", where, "paths %s" % n)


def has_op(t, ops):
    return any(x.op in ops for x in subterms(t))


def body_parts(t, rem, reader, empties):
    """t as a sequence of buffered and read parts: ("rem",) the bytes after the head, ("read", amount, exact?) bytes from the connection; None if not understood"""
    t = subst(t, empties)
    if is_empty(t):
        return []
    if t is rem:
        return [("rem",)]
    if t.op == "concat":
        out = []
        for x in t.a[0]:
            p = body_parts(x, rem, reader, empties)
            if p is None:
                return None
            out += p
        return out
    if is_mut(t, "AsyncReadExt::read_to_end", 1):
        src, buf = t.a[2][0], t.a[2][1]
        pre = body_parts(buf, rem, reader, empties)
        if pre is None:
            return None
        if src.op == "app" and src.a[0] == "AsyncReadExt::take" and src.a[1][0] is reader:
            return pre + [("read", src.a[1][1], False)]
        return pre + [("read", None, None)] if src is reader else None
    if is_mut(t, "AsyncReadExt::read_exact", 1) and t.a[2][0] is reader and t.a[2][1].op == "fromelem":
        return [("read", t.a[2][1].a[1], True)]
    return None


def same_len(facts, a, b):
    return a is not None and lin.prove_le(facts, a, b) and lin.prove_le(facts, b, a)


def is_empty(t):
    if t.op == "slice" and t.a[1] is t.a[2]:
        return True
    return t is EMPTYSEQ or t is S("") or t.op in ("default", "emptyseq")


ALLOCS = ("alloc",)


@prop("P08", ALL)
def p08(c):
    """nothing is allocated in proportion to a number the client merely claims"""
    rule = "no allocation sized by a number taken from the request"
    n = 0
    for fn, names, opq in ((FROMRAW, None, ["cookie::Cookie::<'a>::parse"]), (READER, ["req", "data"], []), (HPARSE, ["request"], []), (LPARSE, ["line"], []),
                           (SERVE, ["stream", "server"], PARTS), ("query::parse_query", None, []), ("cookie::Cookie::<'a>::parse", None, []), ("path::PathBuf::parse", None, []),
                           (VALID, None, []), ("http::http10::http10_check", None, []), ("request::KeepAlive::parse", None, [])):
        f = c.find(fn)
        if f is None:
            continue
        r = c.run(f, names, opaque=opq)
        seen = set()
        evs = []
        for st, v in r:
            evs += st.events()
        for L in r.ip.loops.values():
            for s, v in L.backs:
                evs += s.events()
        for e in evs:
            if e.kind == "alloc" and id(e) not in seen:
                seen.add(id(e))
                n += 1
                size = e.args[0]
                claim = claimed(size, r.ip) and lin.prove_le(e.facts or {}, size, I(1 << 20)) is not True
                c.req(not claim, rule, "%s at %s" % (fn, e.span), "%s is sized by %s" % (e.name, sh(size)))
        c.ok(rule, fn, "%d allocation sites" % len(seen))
        # reads with a client chosen amount are incremental: read_to_end over take, never into a buffer of that size
    c.req(True, rule, "all", "")


def claimed(t, ip=None, seen=()):
    if t.op == "min" or (t.op == "app" and t.a[0] in ("cmp::min", "Ord::min", "usize::min")):
        args = t.a[1] if t.op == "app" else t.a
        return all(claimed(x, ip, seen) for x in args if isinstance(x, T))
    if t.op == "app" and t.a[0] in ("str::parse", "from_str_radix", "usize::from_str_radix", "u64::from_str_radix"):
        return True
    # what a loop may leave in a variable, or in a part of it
    path, b = [], t
    while b.op in ("fld", "vfld"):
        path.append(b)
        b = b.a[0]
    if ip is not None and b in ip.phi_loop and b not in seen:
        L = ip.phi_loop[b]
        for v in [L.init.get(b)] + [vals.get(b) for _, vals in L.backs]:
            for x in reversed(path) if v is not None else ():
                v = field(v, x.a[1]) if x.op == "fld" else vfield(v, x.a[1], x.a[2])
            if v is not None and claimed(v, ip, seen + (b,)):
                return True
    for x in t.a:
        if isinstance(x, T) and claimed(x, ip, seen):
            return True
        if isinstance(x, tuple) and any(isinstance(y, T) and claimed(y, ip, seen) for y in x):
            return True
    return False


# ---------------------------------------------------------------- reading the head
@prop("P09", ("default", "rustls"))
def p09(c):
    """the head is found in everything received so far, however it was split, and cut exactly at the blank line"""
    where = "Http1xReader::new"
    r = c.run(c.anchor(READER), ["req", "data"])
    ip = r.ip
    # where serve takes the pieces from
    sr = serve_run(c)
    pos = {}
    for st, v in sr:
        for e in st.events():
            if e.kind == "call" and e.name == HPARSE:
                pos["headers"] = e.args[0]
            elif e.kind == "call" and e.name == LPARSE:
                pos["line"] = e.args[0]
            elif e.kind == "call" and e.name == FROMRAW:
                for x in e.args:
                    if is_app(unpay(x), READER) and x not in pos.values():
                        ty = None
                        pos.setdefault("rest", []).append(x) if x not in pos.get("rest", []) else None
    okloops = [L for L in ip.loops.values() if L.backs and any(contains(v, x) for _, vals in L.backs for v in vals.values() for x in [v] if "AsyncReadExt::read" in appnames(v))]
    if not okloops:
        c.und("the head is collected in a loop of reads", where, "no read loop recognised")
        return
    L = okloops[-1]
    data = None
    for phi in L.init:
        for _, vals in L.backs:
            v = vals[phi]
            if v.op == "concat" and v.a[0][0] is phi:
                data = phi
    if data is None:
        c.bad("everything received is kept until the head is complete", where, "no buffer accumulates the bytes read: %s" % [(sh(p, 40), sh(vals[p], 100)) for _, vals in L.backs for p in L.init])
        return
    c.req(ip.strip(L.pre, L.init[data]) is mk("arg", "data") or is_empty(L.init[data]), "the buffer starts with what the caller passed", where, "starts as %s" % sh(L.init[data]))
    # serve starts it empty
    for st, v in sr:
        for e in st.events():
            if e.kind == "call" and e.name == READER:
                c.req(all(not (x.op in ("seq", "concat") and x is not EMPTYSEQ) for x in e.args), "the buffer starts empty", "Octane::serve", "starts with %s" % [sh(x) for x in e.args])

    def chunk_ok(t):
        """chunk[0..n] with n the count the read returned into chunk"""
        if t.op != "slice" or not (is_c(t.a[1]) and cval(t.a[1]) == 0):
            return False
        b, n = t.a[0], t.a[2]
        return is_mut(b, "AsyncReadExt::read", 1) and n.op == "vfld" and n.a[1] == "Ok" and is_app(n.a[0], "AsyncReadExt::read") and \
            base(n.a[0]).a[1] == b.a[2]

    def data_ok(t):
        return t.op == "concat" and len(t.a[0]) == 2 and t.a[0][0] is data and chunk_ok(t.a[0][1])

    def window(st, t):
        """(everything received, offset) if t is that from an offset before which no blank line can begin: what was searched in earlier rounds, less three bytes"""
        if data_ok(t):
            return t, I(0)
        if t.op == "slice" and data_ok(t.a[0]) and (t.a[2] is None or t.a[2] is mklen(t.a[0])):
            if lin.prove_le(st.facts, add(t.a[1], I(3)), mklen(data)) or (is_c(t.a[1]) and cval(t.a[1]) == 0):
                return t.a[0], t.a[1]
        return None

    def finds(st):
        return [(k.a[0], v) for k, v in st.facts.items() if k.op == "isvar" and is_app(k.a[0], FIND)]

    def counts(st):
        return list(dict.fromkeys(x for k in st.facts for x in subterms(k) if x.op == "vfld" and x.a[1] == "Ok" and is_app(x.a[0], "AsyncReadExt::read")))

    def own_search(st):
        """does the path go through an inner loop"""
        return any(e.kind == "loop" and e.info["loop"] is not L for e in loop_events(L, st))

    for st, vals in L.backs:
        c.req(data_ok(ip.strip(st, vals[data])), "each round appends exactly the bytes that were read", where, "buffer becomes %s" % sh(vals[data]))
        fs = finds(st)
        good = [v for t, v in fs if window(st, t.a[1][0]) and cbytes(t.a[1][1]) == "\r\n\r\n"]
        if not fs:
            whole = ip.strip(st, vals[data])
            rule = "reading continues only while the blank line is missing"
            # a byte of the blank line is not among those just read, or not among all of them; or there are fewer than four
            none = [k for k, b in st.facts.items() if not b and is_app(k, "slice::contains") and
                    (k.a[1][0] is whole and byte_of(k.a[1][1]) in (10, 13) or chunk_ok(k.a[1][0]) and byte_of(k.a[1][1]) == 10)]
            odd = [k for k in st.facts if strange(k, "AsyncReadExt::read") and not (is_app(k, "slice::contains") and chunk_ok(k.a[1][0]) and byte_of(k.a[1][1]) is not None)]
            if none or lin.prove_lt(st.facts, mklen(whole), I(4)):
                c.ok(rule, where, "no blank line can have ended")
            elif own_search(st) or odd:
                c.und(rule, where, "no search recognised")
            else:
                c.bad(rule, where, "reading goes on without looking for the blank line when %s" % [("" if b else "not ") + sh(k, 100) for k, b in st.facts.items()])
        else:
            c.req(good == [False], "reading continues exactly while no blank line is in everything received", where, "search is %s" % [sh(t) for t, v in fs])
        rd = any(lin.prove_lt(st.facts, I(0), n) for n in counts(st))
        c.req(rd, "a closed connection ends the reading", where, "reading goes on after a read of 0 bytes")
    nok = 0
    for st, v in r:
        rv = r.ret(st, v)
        fs = [(t, b) for t, b in finds(st)]
        if variant(rv) == "Err":
            rdok = [b for k, b in st.facts.items() if k.op == "isvar" and k.a[1] == "Ok" and is_app(k.a[0], "AsyncReadExt::read")]
            zero = [lin.prove_le(st.facts, n, I(0)) for n in counts(st)]
            utf = [b for k, b in st.facts.items() if k.op == "isvar" and k.a[0].op == "from_utf8"] + [b for k, b in st.facts.items() if k.op == "isvar" and k.a[0].op == "app" and "from_utf8" in k.a[0].a[0]]
            crlf = [b for k, b in st.facts.items() if k.op == "isvar" and is_app(k.a[0], "str::find")]
            found = any(b for t, b in fs)
            if not fs and own_search(st):
                c.und("a head is refused only when reading fails or ends, or the head is not text with a request line", where, "the search is not recognised")
                continue
            c.req(False in rdok or True in zero or (found and (False in utf or False in crlf)), "a head is refused only when reading fails or ends, or the head is not text with a request line", where,
                  "refused under %s" % [(sh(k, 50), b) for k, b in st.facts.items()])
            continue
        if variant(rv) != "Ok":
            c.und("result", where, sh(rv))
            continue
        nok += 1
        pay = payload(rv, "Ok")
        got = [t for t, b in fs if b]
        if not got:
            (c.und if own_search(st) else c.bad)("the head ends at the first blank line", where, "accepted without finding the blank line")
            continue
        t = got[0]
        win = window(st, t.a[1][0])
        D, I0 = win[0] if win else t.a[1][0], add(win[1], payload(t, "Some")) if win else payload(t, "Some")
        c.req(bool(win) and cbytes(t.a[1][1]) == "\r\n\r\n", "the head ends at the first blank line in everything received", where, "searches %s for %s" % (sh(D, 120), sh(t.a[1][1])))

        def at(x):
            # same projection of this payload as serve uses
            path = []
            while not (x.op == "vfld" and is_app(x.a[0], READER)):
                if x.op != "fld":
                    return None
                path.append(x.a[1])
                x = x.a[0]
            y = pay
            for p in reversed(path):
                y = field(y, p)
            return ip.strip(st, y)

        head = slice_(D, I(0), I0)
        ln = at(pos["line"]) if "line" in pos else None
        hd = at(pos["headers"]) if "headers" in pos else None
        rest = [at(x) for x in pos.get("rest", [])]
        cr = [k.a[0] for k, b in st.facts.items() if k.op == "isvar" and is_app(k.a[0], "str::find") and b]
        good = len(cr) == 1 and cr[0].a[1][0] is head and cbytes(cr[0].a[1][1]) == "\r\n"
        c.req(good, "the request line ends at the first line break of the head", where, "line break searched as %s" % [sh(x) for x in cr])
        if good:
            m = payload(cr[0], "Some")
            c.req(ln is slice_(D, I(0), m), "the request line is the first line", where, "request line is %s" % (ln and sh(ln)))
            c.req(hd is slice_(D, add(m, I(2)), I0), "the headers are the remaining lines", where, "headers are %s" % (hd and sh(hd)))
        c.req(any(x is slice_(D, add(I0, I(4)), mklen(D)) for x in rest if x is not None), "the body starts right after the blank line", where, "bytes kept for the body: %s" % [x and sh(x, 150) for x in rest])
        c.req(any(x is not None and is_mut(x, "AsyncReadExt::read", 0) for x in rest), "the rest of the body comes from the same connection", where, "reader passed on: %s" % [x and sh(x, 100) for x in rest])
    c.req(nok >= 1, "coverage", where, "no success exit")
    check_find(c)


def byte_of(t):
    return cval(t) if is_c(t, "int") or is_c(t, "char") else None


def appnames(t):
    return " ".join(x.a[0] for x in subterms(t) if x.op in ("app", "mut"))


def cbytes(t):
    if is_c(t, "str"):
        return cval(t)
    if t.op == "seq" and all(is_c(x, "int") for x in t.a[0]):
        return "".join(chr(cval(x)) for x in t.a[0])
    return None


def slice_(s, a, b):
    return mkslice(s, a, b)


def check_find(c):
    """the substring search returns the first occurrence"""
    rule = "the search returns the first position where the needle occurs"
    where = "find_in_slice"
    f = c.find(FIND)
    if f is None:
        c.ok(rule, where, "not there, the searches are checked where they are made")
        return
    r = c.run(f, ["hay", "needle"], keep=200)
    ip = r.ip
    h, nd = mk("arg", "hay"), mk("arg", "needle")
    n = 0
    unknown = []
    outer = {}

    def position(t):
        """the loop whose current position t is"""
        if t.op == "elem" and t.a[0].op == "it" and t.a[0].a[0] == "range" and t.a[2] == 0:
            return next((L for L in ip.loops.values() if L.id == t.a[1]), None)
        if t.op == "phi" and t in ip.phi_loop and t in counter_of(ip.phi_loop[t]):
            return ip.phi_loop[t]
        return None

    def compared(k, i):
        """does the equality k compare the needle, or one of its elements, with the haystack at position i: "all", the index term, or None"""
        if is_app(k, "slice::starts_with"):
            o = k.a[1][0]
            return "all" if k.a[1][1] is nd and o.op == "slice" and o.a[0] is h and o.a[1] is i and (o.a[2] is None or o.a[2] is mklen(h)) else None
        if k.op != "eq":
            return None
        a, b_ = k.a
        if nd in (a, b_):
            o = a if b_ is nd else b_
            return "all" if o.op == "slice" and o.a[0] is h and o.a[1] is i and o.a[2] is add(i, mklen(nd)) else None
        for x, y in ((a, b_), (b_, a)):
            if x.op == "index" and x.a[0] is nd and y.op == "index" and y.a[0] is h and y.a[1] is add(i, x.a[1]):
                return x.a[1]
        return None

    def full_range(L):
        rng = L.drv
        lo, hi, incl = rng.a[1], rng.a[2], (rng.a[3] if len(rng.a) > 3 else False)
        last = hi if incl is True or (isinstance(incl, T) and is_c(incl) and cval(incl)) else sub(hi, I(1))
        return is_c(lo) and cval(lo) == 0, last

    for st, v in r:
        rv = r.ret(st, v)
        if variant(rv) == "Some":
            i = payload(rv, "Some")
            L = position(i)
            if L is None:
                unknown.append("position %s" % sh(i))
                continue
            n += 1
            outer[L] = i
            if L.drv is not None:
                lo, last = full_range(L)
                c.req(lo and last is sub(mklen(h), mklen(nd)), rule, where, "positions tried are %s" % sh(L.drv))
            # the whole needle was compared at i
            got = [compared(k, i) for k, b in st.facts.items() if b]
            if "all" in got:
                c.ok(rule, where)
                continue
            inner = []
            for M in ip.loops.values():
                if M is L or not M.backs:
                    continue
                j = mk("elem", M.drv, M.id, 0) if M.drv is not None and M.drv.op == "it" and M.drv.a[0] == "range" else next(iter(counter_of(M)), None)
                if j is None:
                    continue
                if not all(any(x is not None and x != "all" and x is j for x in [compared(k, i) for k, b in s2.facts.items() if k.op == "eq" and b]) for s2, _ in M.backs):
                    continue
                if M.drv is not None:
                    lo, last = full_range(M)
                    c.req(lo and last is sub(mklen(nd), I(1)), rule, where, "compares positions %s of the needle" % sh(M.drv))
                    done = any(k.op == "more" and k.a[1] == M.id and not b for k, b in st.facts.items())
                else:
                    done = lin.prove_le(st.facts, mklen(nd), j)
                if done:
                    inner.append(M)
            if inner:
                c.ok(rule, where)
            else:
                odd = [x for k in st.facts for x in subterms(k) if x.op in ("app", "mut") or (x.op == "it" and x.a[0] not in ("range",))]
                if odd:
                    unknown.append("comparison not recognised: %s" % sh(odd[0], 80))
                else:
                    c.bad(rule, where, "a position is accepted before the whole needle was compared")
        elif is_app(rv, FIND):
            c.req(rv.a[1][0] is h and rv.a[1][1] is nd, rule, where, "searches %s for %s" % (sh(rv.a[1][0]), sh(rv.a[1][1])))
            n += 1
        elif is_app(rv, "Iterator::position") and rv.a[1][0].op == "it" and rv.a[1][0].a[:3] == ("windows", h, mklen(nd)) and rv.a[1][1].op == "clo":
            # the first window of the needle's length that the closure accepts
            e = mk("elem", rv.a[1][0], -1, 0)
            for s2, x in call_closure(ip, st, rv.a[1][1], [e]):
                x = ip.strip(s2, x)
                judge(c, x is eq(e, nd), rule, where, "accepts windows where %s" % sh(x), [x])
            n += 1
        elif variant(rv) != "None":
            unknown.append("result %s" % sh(rv))
    for st, v in r:
        if variant(r.ret(st, v)) != "None":
            continue
        good = st.facts.get(lt(mklen(h), mklen(nd))) is True
        for L, i in outer.items():
            if L.drv is not None:
                good |= any(k.op == "more" and b is False and k.a[1] == L.id for k, b in st.facts.items())
            else:
                good |= lin.prove_lt(st.facts, mklen(h), add(i, mklen(nd)))
        if not good and not outer:
            unknown.append("search loop not recognised")
        else:
            c.req(good, rule, where, "gives up before every position was tried: %s" % [("" if b else "!") + sh(k, 60) for k, b in st.facts.items()])
    def impossible(st):
        """a counter of the needle is both at least and not its length, although it is incremented only below it"""
        n = mklen(nd)
        for M in ip.loops.values():
            for j in counter_of(M) if M.backs and M.drv is None else ():
                if all(lin.prove_lt(s2.facts, j, n) for s2, _ in M.backs) and is_c(M.init[j]) and cval(M.init[j]) == 0 and \
                        st.facts.get(eq(j, n)) is False and lin.prove_le(st.facts, n, j):
                    return True
        return False

    for L, i in outer.items():
        for s2, _ in L.backs:
            if impossible(s2):
                continue
            no = [1 for k, b in s2.facts.items() if not b and compared(k, i) is not None]
            odd = [x for k, _ in newfacts(L, s2) for x in subterms(k) if x.op in ("app", "mut") or (x.op == "it" and x.a[0] not in ("range",))]
            if no or not odd:
                c.req(bool(no), rule, where, "a position is passed over without a difference")
            else:
                unknown.append("comparison not recognised: %s" % sh(odd[0], 80))
    for u in unknown[:3]:
        c.und(rule, where, u)
    c.req(n >= 1 or unknown, rule, where, "never finds anything")


# ---------------------------------------------------------------- accepting
def listeners(c):
    out = []
    for fn in ("server_builder::ServerBuilder::listen", "server_builder::ServerBuilder::listen_ssl"):
        if fn.endswith("ssl") and not (c.feature("rustls") or c.feature("openSSL")):
            continue
        out.append(fn)
    return out


@prop("P21", ("default", "rustls", "openssl"))
def p21(c):
    """the accept loop goes on after failed accepts, never waits for a connection, and starts one task per connection"""
    for fn in listeners(c):
        where = fn.split("::", 1)[1]
        r = c.run(c.anchor(fn), ["self", "exec", "server"], opaque=["tls::rustls::acceptor", "tls::openssl::acceptor"])
        loops = [L for L in r.ip.loops.values() if L.backs and accepts(L)]
        if not loops:
            once = any(e.kind == "await" and is_accept(e.name) for st, _ in r for e in st.events())
            (c.bad if once else c.und)("the server accepts connections in a loop", where, "no accept loop found")
            continue
        L = loops[-1]
        nsp = nerr = 0
        for st, vals in L.backs:
            evs = loop_events(L, st)
            waits = [e for e in evs if e.kind == "await"]
            acc_ = [e for e in waits if is_accept(e.name)]
            c.req(len(acc_) == 1 and len(waits) == 1, "the accept loop waits for nothing but the next connection", where, "also waits for %s" % [e.name + " at " + e.span for e in waits if not is_accept(e.name)])
            sp = [e for e in evs if e.kind == "spawn"]
            conn = [(k, b) for k, b in st.facts.items() if k.op == "isvar" and k.a[1] == "Ok" and is_accept(appname(k.a[0]) or "")]
            okc = [b for k, b in conn]
            if okc == [False]:
                nerr += 1
                c.req(not sp, "no task for a failed accept", where, "a task is started for a failed accept")
            elif okc == [True]:
                nsp += 1
                c.req(len(sp) == 1, "every accepted connection gets its own task", where, "%d tasks are started for a connection" % len(sp))
                for e in sp:
                    check_task(c, r, e, where, payload(conn[0][0].a[0], "Ok"))
            else:
                c.bad("every accepted connection gets its own task", where, "loop continues without looking whether the accept succeeded")
        c.req(nsp >= 1, "every accepted connection gets its own task", where, "no path starts a task")
        c.req(nerr >= 1, "a failed accept does not stop the server", where, "the loop does not continue after a failed accept")
        for st, v in r:
            inloop = any(e.kind == "loop" and e.info["loop"] is L for e in st.events())
            if not inloop:
                continue
            ended = [b for k, b in st.facts.items() if k.op == "isvar" and k.a[1] == "Some" and is_accept(appname(k.a[0]) or "")]
            failed = [x for x in (k.a[0] for k, b in st.facts.items() if k.op == "isvar" and (k.a[1], b) in (("Ok", False), ("Err", True))) if re.match(r"^(TcpStream|TcpListener|SslStream|TlsStream)::\w+$", appname(x) or "")]
            if False not in ended and failed:
                c.bad("the server stops only when the listener ends", where, "accept loop left when %s fails" % show(failed[0])[:120])
                continue
            c.req(False in ended, "the server stops only when the listener ends", where, "accept loop left under %s" % [(sh(k, 60), b) for k, b in st.facts.items()])
            for k, b in st.facts.items():
                if k.op == "isvar" and k.a[1] == "Some" and not b and is_accept(appname(k.a[0]) or ""):
                    for x in subterms(k.a[0]):
                        src = r.ip.strip(L.pre, L.init[x]) if x in L.init else x
                        for y in subterms(src):
                            if y.op in ("app", "mut") and re.match(r"^(StreamExt|Stream)::(take|take_while|skip|timeout|fuse_after)$", y.a[0]):
                                c.req(y.a[0].endswith("skip"), "the server stops only when the listener ends", where, "connections are taken from %s" % show(y)[:120])
    # listen starts the plain listener on the given port with serve
    r = c.run(c.anchor("server::Octane::listen"), None, opaque=[SERVE, "server_builder::ServerBuilder::listen", "server_builder::ServerBuilder::listen_ssl", "server_builder::ServerBuilder::new"])
    f = c.prog().fns["server::Octane::listen"]
    port = mk("arg", f["locals"][2].get("n") or "arg2")
    n = 0
    for st, v in r:
        rv = r.ret(st, v)
        calls = [e for e in st.events() if e.kind == "await" and e.name == "server_builder::ServerBuilder::listen"]
        news = [e for e in st.events() if e.kind == "call" and e.name == "server_builder::ServerBuilder::new"]
        c.req(any(e.args[0] is port for e in news), "the plain listener binds the given port", "Octane::listen", "binds %s" % [sh(e.args[0]) for e in news])
        if variant(rv) == "Ok":
            n += 1
            c.req(len(calls) == 1, "listening only ends when the listener does", "Octane::listen", "returns without listening")
        for e in calls:
            b = [x for x in e.args if x.op == "vfld" and is_app(x.a[0], "server_builder::ServerBuilder::new")]
            c.req(len(b) == 1 and base(b[0].a[0]).a[1][0] is port, "the plain listener listens on the given port", "Octane::listen", "listens with %s" % [sh(x, 80) for x in e.args])
            clos = [x for x in e.args if x.op in ("clo", "fn")]
            c.req(len(clos) == 1 and (clos[0].op == "fn" and clos[0].a[0] == SERVE or clos[0].op == "clo" and closure_serves(c, r, st, clos[0])), "connections are handed to the request loop", "Octane::listen", "connection handler is %s" % [sh(x, 80) for x in e.args])
    c.req(n >= 1, "coverage", "Octane::listen", "no exits")


def closure_serves(c, r, st, clo):
    f = c.prog().fns.get(clo.a[0])
    s2 = st.copy()
    outs = call_closure(r.ip, s2, clo, [mk("arg", "conn"), mk("arg", "srv")])
    if not outs:
        return False
    for s, v in outs:
        v = r.ip.deref(s, v)
        res = r.ip.run_coro(s, v) if v.op == "coro" else [(s, v)]
        for s3, v3 in res:
            aw = [e for e in s3.events() if e.kind == "await" and e.name == SERVE]
            if len(aw) != 1 or aw[0].args[0] is not mk("arg", "conn") or aw[0].args[1] is not mk("arg", "srv"):
                return False
    return True


def call_closure(ip, st, clo, args):
    f = ip.p.fns[clo.a[0]]
    c = ai.CallSite(ip, None, None, "", "", [])
    return c.invoke(st, clo, args)


def is_accept(name):
    return bool(name) and (name.startswith("StreamExt::next") or name.startswith("TcpListener::accept") or name.startswith("Incoming"))


def accepts(L):
    return any(e.kind == "await" and is_accept(e.name) for st, _ in L.backs for e in loop_events(L, st))


def loop_events(L, st):
    """events of one iteration ending in back state st"""
    pre = len(L.pre.events())
    return st.events()[pre:]


def check_task(c, r, e, where, conn):
    exits = e.info.get("exits") or []
    if not exits:
        c.und("a connection's task serves that connection", where, "task body not analysed")
        return
    n = 0
    for st, v in exits:
        cbs = [x for x in st.events() if x.kind == "await" and x.name == "callback"]
        tls = [(k, b) for k, b in st.facts.items() if k.op == "isvar" and k.a[1] == "Ok" and k.a[0].op == "await" and ("accept" in (appname(k.a[0]) or ""))]
        okh = [b for k, b in tls]
        if okh == [False]:
            c.req(not cbs, "a failed handshake ends only its own connection", where, "a connection is served although its handshake failed")
            continue
        n += 1
        good = len(cbs) == 1
        if good:
            s = cbs[0].args
            good = any(contains(x, conn) for x in s) and any(x is mk("arg", "server") for x in s)
        c.req(good, "a connection's task serves that connection once", where, "task does %s" % [sh(repr(x), 120) for x in cbs])
        calls = [x for x in st.events() if x.kind == "call" and x.name == "callback"]
        c.req(len(calls) == len(cbs), "the task drives the connection to its end", where, "the connection's future is dropped")
    c.req(n >= 1, "a connection's task serves that connection once", where, "no path of the task serves the connection")


# ---------------------------------------------------------------- shared state
@prop("P22", ALL)
def p22(c):
    """requests share nothing they can change: no interior mutability in the crate's types or statics, server only behind a shared reference"""
    p = c.prog()
    n = 0
    rule = "no state shared between requests can be modified by one of them"
    for a in p.adts.values():
        if a.get("crate") not in ("octane", "octane_http"):
            continue
        for v in a["variants"]:
            for f in v["fields"]:
                n += 1
                ty = f["ty"]
                bad = re.search(r"\b(Mutex|RwLock|RefCell|Cell|UnsafeCell|OnceCell|OnceLock|LazyCell|LazyLock|Once|Atomic\w+|\*mut|DashMap|Sender|Receiver|Semaphore|Notify|LocalKey)\b", ty)
                c.req(not bad, rule, "%s.%s" % (a["path"], f["name"]), "field of type %s" % ty)
                c.req(f.get("freeze") is not False or generic(ty) or opaque_ty(ty), rule, "%s.%s" % (a["path"], f["name"]), "field %s has interior mutability" % ty)
    for k in p.consts.values():
        if not k.get("static"):
            continue
        n += 1
        c.req(not k.get("mutstatic"), rule, k["path"], "mutable static")
        if k.get("freeze") is False:
            ty = k["ty"]
            good = "lazy_static" in ty or "Lazy" in ty or k["path"].endswith("LAZY")
            inner = re.search(r"\b(Mutex|RwLock|RefCell|Cell|OnceCell|Atomic\w+)\b", ty)
            c.req(good and not inner, rule, k["path"], "static with interior mutability: %s" % ty)
    # no mutable statics / thread locals through the back door: all calls into modules that mutate process state
    for f in p.fns.values():
        for b in f["blocks"]:
            t = b["t"]
            if t["k"] == "call" and "fn" in t["f"]:
                path = t["f"]["fn"].get("path", "")
                if re.search(r"(env::set_var|env::remove_var|env::set_current_dir|LocalKey|Atomic\w+::<?.*>?::(store|swap|fetch_|compare)|mem::transmute)", path):
                    c.bad(rule, "%s at %s" % (f["path"], t.get("s", "")), "calls %s" % path)
    c.req(n >= 20, "coverage", "types", "only %d fields" % n)
    # the server and router are reached through shared references only
    for fn, ix in ((RUN, 1), (SERVE, 2)):
        f = p.fns.get(fn)
        if f is None:
            continue
        ty = f["locals"][ix]["ty"]
        c.req(not ty.startswith("&mut") and "Mutex" not in ty and "RwLock" not in ty, "the server is shared read-only between connections", fn, "takes %s" % ty)


def generic(ty):
    return re.search(r"(^|[<\[ (,&])[A-Z]\w?([>\]; ),]|$)", ty) is not None


def opaque_ty(ty):
    return any(x in ty for x in ("TcpListener", "dyn ", "ReadHalf", "Closure", "Box<", "BoxReader"))


# ---------------------------------------------------------------- TLS
@prop("P23", ("rustls", "openssl"))
def p23(c):
    """TLS connections use the configured key and certificate and are served only after the handshake"""
    import copy
    s = mk("arg", "settings")
    ssl = field(s, "ssl")
    key, cert = field(ssl, "key"), field(ssl, "cert")
    if c.feature("rustls"):
        where = "tls::rustls::acceptor"
        r = c.run(c.anchor(where), ["settings"])
        n = 0
        for st, v in r:
            rv = r.ret(st, v)
            if variant(rv) != "Ok":
                continue
            n += 1
            sets = [e for e in st.events() if e.kind == "call" and e.name.startswith("ServerConfig::set_single_cert")]
            c.req(len(sets) == 1, "the acceptor has exactly the configured certificate", where, "%d certificates set" % len(sets))
            for e in sets:
                ce, ke = e.args[-2], e.args[-1]
                judge(c, fileitems(ce, "pemfile::certs") is cert, "the certificate chain is everything the configured file holds, in its order", where, "certificate is %s" % sh(ce), [ce], PEM)
                ks, at = taken(ke)
                src = fileitems(ks, "pemfile::rsa_private_keys", "pemfile::pkcs8_private_keys") if ks is not None else None
                judge(c, src is key and at == 0, "the key is the first one of the configured file", where, "key is %s" % sh(ke), [ke], PEM)
                c.req(st.facts.get(isvar(e.ret, "Ok")) is True, "a key or certificate that cannot be loaded is an error", where, "result of %s is ignored" % e.name)
            for e in st.events():
                if e.kind != "call" or not e.name.startswith("ServerConfig::") or e in sets:
                    continue
                if e.name == "ServerConfig::new":
                    who = appname(e.args[0]) or ""
                    if not who.startswith("NoClientAuth") and not who.startswith("AllowAny"):
                        c.und("clients need no certificate", where, "client authentication is %s" % sh(e.args[0]))
                    else:
                        c.req(who.startswith("NoClientAuth"), "clients need no certificate", where, "client authentication is %s" % sh(e.args[0]))
                elif e.name == "ServerConfig::set_protocols":
                    ps = {cval(x) for x in subterms(e.args[-1]) if is_c(x, "str") or is_c(x, "bytes")}
                    c.req(not any(x in (b"h2", "h2", b"h2c", "h2c") for x in ps), "no protocol is negotiated that the server does not speak", where, "offers %s" % sorted(map(str, ps)))
                else:
                    c.und("no other TLS setting is changed", where, e.name)
            c.req(contains_app(rv, "ServerConfig::set_single_cert"), "the acceptor uses the configured certificate", where, "acceptor is %s" % sh(rv))
        c.req(n >= 1, "coverage", where, "no success exit")
    else:
        where = "tls::openssl::acceptor"
        r = c.run(c.anchor(where), ["settings"])
        n = 0
        for st, v in r:
            rv = r.ret(st, v)
            if variant(rv) != "Ok":
                continue
            n += 1
            ks = [e for e in st.events() if e.kind == "call" and "set_private_key_file" in e.name]
            cs = [e for e in st.events() if e.kind == "call" and ("set_certificate_chain_file" in e.name or "set_certificate_file" in e.name)]
            c.req(len(ks) == 1 and any(x is key for x in ks[0].args), "the key is read from the configured file", where, "key from %s" % [sh(x, 60) for e in ks for x in e.args])
            c.req(all("set_certificate_chain_file" in e.name for e in cs), "the whole configured certificate chain is presented", where, "%s reads the first certificate alone" % [e.name for e in cs])
            c.req(not any("ASN1" in show(x) for e in ks + cs for x in e.args), "key and certificate are PEM files", where, "%s" % [sh(x, 60) for e in ks + cs for x in e.args[1:]])
            c.req(len(cs) == 1 and any(x is cert for x in cs[0].args), "the certificate is read from the configured file", where, "certificate from %s" % [sh(x, 60) for e in cs for x in e.args])
            c.req("mozilla_" in appnames(rv), "the acceptor starts from a server profile", where, "acceptor is %s" % sh(rv))
            vf = [e for e in st.events() if e.kind == "call" and "set_verify" in e.name]
            c.req(not vf, "no other TLS setting is changed", where, "%s" % [e.name for e in vf])
            for e in ks + cs:
                c.req(st.facts.get(isvar(e.ret, "Ok")) is True, "a key or certificate that cannot be loaded is an error", where, "result of %s is ignored" % e.name)
        c.req(n >= 1, "coverage", where, "no success exit")
    # listener: settings of this server, its own port, handshake before serving
    where = "ServerBuilder::listen_ssl"
    r = c.run(c.anchor("server_builder::ServerBuilder::listen_ssl"), ["self", "exec", "server"], opaque=["tls::rustls::acceptor", "tls::openssl::acceptor"])
    n = 0
    for L in r.ip.loops.values():
        for st, vals in L.backs:
            for e in loop_events(L, st):
                if e.kind != "spawn":
                    continue
                for s2, v2 in e.info.get("exits") or []:
                    cbs = [x for x in s2.events() if x.kind == "await" and x.name == "callback"]
                    hs = [(k.a[0], b) for k, b in s2.facts.items() if k.op == "isvar" and k.a[1] == "Ok" and k.a[0].op == "await" and "accept" in (appname(k.a[0]) or "")]
                    for x in cbs:
                        n += 1
                        good = len(hs) == 1 and hs[0][1] is True and any(y is payload(hs[0][0], "Ok") for y in x.args)
                        c.req(good, "a TLS connection is served only after its handshake, over the encrypted stream", where, "served with %s" % [sh(y, 100) for y in x.args])
                        c.req(any(y is mk("arg", "server") for y in x.args), "TLS connections are served by the same application", where, "served with %s" % [sh(y, 100) for y in x.args])
                        acc_ = [y for y in subterms(hs[0][0]) if y.op in ("app", "vfld") and appname(y) in ("tls::rustls::acceptor", "tls::openssl::acceptor")] if hs else []
                        c.req(bool(acc_), "the handshake uses the configured acceptor", where, "handshake with %s" % (hs and sh(hs[0][0], 150)))
    c.req(n >= 1, "coverage", where, "no path serves a TLS connection")
    calls = [e for st, v in r for e in st.events() if e.kind == "call" and e.name in ("tls::rustls::acceptor", "tls::openssl::acceptor")]
    c.req(calls and all(e.args[0] is field(mk("arg", "server"), "settings") for e in calls), "the acceptor is built from the server's own settings", where, "built from %s" % [sh(e.args[0]) for e in calls])
    for st, v in r:
        rv = r.ret(st, v)
        bad = [b for k, b in st.facts.items() if k.op == "isvar" and appname(k.a[0]) in ("tls::rustls::acceptor", "tls::openssl::acceptor") and not b]
        if bad:
            c.req(variant(rv) == "Err" and not any(e.kind == "spawn" for e in st.events()), "no TLS connection is accepted without a valid key and certificate", where, "goes on without an acceptor")
    # Octane::listen starts it on the configured TLS port with the same server
    where = "Octane::listen"
    r = c.run(c.anchor("server::Octane::listen"), None, opaque=[SERVE, "server_builder::ServerBuilder::listen", "server_builder::ServerBuilder::listen_ssl", "server_builder::ServerBuilder::new"])
    self_ = mk("arg", c.prog().fns["server::Octane::listen"]["locals"][1].get("n") or "arg1")
    n = 0
    for st, v in r:
        sp = [e for e in st.events() if e.kind == "spawn"]
        c.req(len(sp) == 1, "the TLS listener runs beside the plain one", where, "%d tasks started" % len(sp))
        for e in sp:
            for s2, v2 in e.info.get("exits") or []:
                news = [x for x in s2.events() if x.kind == "call" and x.name == "server_builder::ServerBuilder::new"]
                ls = [x for x in s2.events() if x.kind == "await" and x.name == "server_builder::ServerBuilder::listen_ssl"]
                c.req(all(x.args[0] is field(field(field(self_, "settings"), "ssl"), "port") for x in news[-1:]), "the TLS listener binds the configured TLS port", where, "binds %s" % [sh(x.args[0]) for x in news])
                for x in ls:
                    n += 1
                    c.req(any(y is self_ for y in x.args), "the TLS listener serves the same application", where, "serves %s" % [sh(y, 60) for y in x.args])
                    clos = [y for y in x.args if y.op == "clo"]
                    c.req(len(clos) == 1 and closure_serves(c, r, s2, clos[0]), "TLS connections are handed to the request loop", where, "handler is %s" % [sh(y, 60) for y in x.args])
        break
    c.req(n >= 1, "coverage", where, "the TLS listener is never started")


PEM = ("pemfile::certs", "pemfile::rsa_private_keys", "pemfile::pkcs8_private_keys", "BufReader::new", "File::open", "fs::metadata", "fs::symlink_metadata", "Vec::remove", "Vec::swap_remove", "Vec::pop", "Iterator::last")


def fileitems(t, *readers):
    """the file whose PEM items, all of them and in order, t is"""
    if t.op == "vfld" and t.a[1] == "Ok":
        t = t.a[0]
        if appname(t) in readers:
            o = opened(t)
            if len(o) == 1:
                return o[0]
    return None


def taken(t):
    """(sequence, index) of an element taken out of a sequence"""
    if is_app(t, "Vec::remove") or is_app(t, "Vec::swap_remove"):
        s, i = t.a[1][0], t.a[1][1]
        return s, cval(i) if is_c(i, "int") else None
    if t.op == "index":
        return t.a[0], cval(t.a[1]) if is_c(t.a[1], "int") else None
    if t.op == "elem" and t.a[0].op == "it" and t.a[0].a[0] == "elems":
        at = [cval(x) if hasattr(x, "op") and is_c(x, "int") else x for x in t.a[1:]]
        return t.a[0].a[1], at[0] if at and all(x == 0 for x in at) else None
    if t.op == "vfld" and t.a[1] == "Some":
        return taken(t.a[0])
    return None, None


def opened(t):
    return [x.a[1][0] for x in subterms(t) if x.op == "app" and x.a[0] == "File::open"]


def contains_app(t, name):
    return any(x.op in ("app", "mut") and x.a[0].startswith(name) for x in subterms(t))


# ---------------------------------------------------------------- configuration
@prop("P30", ("default", "rustls"))
def p30(c):
    """every setting the user makes ends up where it is read, and only that"""
    where = "config"
    self_ = mk("arg", "self")

    def final(fn, names):
        r = c.run(c.anchor(fn), names)
        return [(r.ret(st, v), r.cell(st, "self")) for st, v in r]

    def chk(fn, names, want, rule):
        for rv, s in final(fn, names):
            for path, val in want.items():
                t = s
                for p in path.split("."):
                    t = field(t, p)
                c.req(t is val, rule, fn, "%s becomes %s" % (path, sh(t)))
            ch = changes(s, self_)
            extra = [x for x in ch if not any(x == w or w.startswith(x + ".") or x.startswith(w + ".") for w in want)]
            for x in ch:
                # a part replaced as a whole: what was not named stays as it was
                if x and any(w.startswith(x + ".") for w in want):
                    t, o = s, self_
                    for p in x.split("."):
                        t, o = field(t, p), field(o, p)
                    for n in (tls if x.split(".")[-1] == "ssl" else t.a[2] if t.op == "agg" else ()):
                        if not any(w == x + "." + n or w.startswith(x + "." + n + ".") for w in want) and field(t, n) is not field(o, n):
                            extra.append(x + "." + n)
            c.req(not extra, "a setting changes nothing else", fn, "also changes %s" % extra)

    tls = ()
    for rv, s in [(r_.ret(st, v), None) for r_ in [c.run(c.anchor("config::Ssl::new"), [])] for st, v in r_]:
        tls = rv.a[2] if rv.op == "agg" else tls
    A, B_ = mk("arg", "a"), mk("arg", "b")
    chk("config::OctaneConfig::append", ["self", "a"], {"ssl": field(A, "ssl"), "keep_alive": field(A, "keep_alive")}, "a config replaces the previous settings")
    chk("server::Octane::with_config", ["self", "a"], {"settings.ssl": field(A, "ssl"), "settings.keep_alive": field(A, "keep_alive")}, "with_config applies every setting of the config")
    for pre, pp in (("<config::OctaneConfig as config::Config>::", ""), ("<server::Octane as config::Config>::", "settings.")):
        chk(pre + "set_keepalive", ["self", "a"], {pp + "keep_alive": some(A)}, "set_keepalive stores the duration")
        chk(pre + "with_ssl_config", ["self", "a"], {pp + "ssl.key": field(A, "key"), pp + "ssl.cert": field(A, "cert")}, "with_ssl_config stores key and certificate")
        chk(pre + "ssl", ["self", "a"], {pp + "ssl.port": A}, "ssl stores the port")
        r = c.run(c.anchor(pre + "ssl"), ["self", "a"])
        for st, v in r:
            v = v
            good = v.op == "ref" and v.a[0] == ("arg", "self")
            c.req(good, "ssl gives access to the stored TLS settings", pre + "ssl", "returns %s" % sh(v))
    pbuf = lambda t: t
    for m in ("key", "cert"):
        for rv, s in final("config::Ssl::" + m, ["self", "a"]):
            t = field(s, m)
            c.req(t is A or (t.op == "app" and t.a[0].endswith("from") and t.a[1][0] is A), "%s stores the given path" % m, "Ssl::" + m, "%s becomes %s" % (m, sh(t)))
            ch = changes(s, self_)
            c.req(set(ch) <= {m}, "a setting changes nothing else", "Ssl::" + m, "also changes %s" % ch)
    r = c.run(c.anchor("config::Ssl::new"), [])
    for st, v in r:
        rv = r.ret(st, v)
        c.req(is_c(field(rv, "port")) and cval(field(rv, "port")) == 443, "the default TLS port is 443", "Ssl::new", "port is %s" % sh(field(rv, "port")))
    # the port that is listened on
    r = c.run(c.anchor("server::Octane::listen"), ["self", "port"], opaque=[SERVE, "server_builder::ServerBuilder::listen", "server_builder::ServerBuilder::listen_ssl", "server_builder::ServerBuilder::new"])
    R = "the server listens on the port it was given"
    n = 0
    for st, v in r:
        for e in st.events():
            if e.kind == "call" and e.name == "server_builder::ServerBuilder::new":
                n += 1
                judge(c, e.args[0] is mk("arg", "port") or e.args[0].op == "fld" and e.args[0].a[1] == "port", R, "Octane::listen", "port %s is opened" % sh(e.args[0], 80), [e.args[0]])
    c.req(n >= 1, "coverage", "Octane::listen", "no port is opened")
    # listening socket: all interfaces, given port, non-blocking
    r = c.run(c.anchor("server_builder::ServerBuilder::new"), ["port"])
    n = 0
    for st, v in r:
        rv = r.ret(st, v)
        if variant(rv) != "Ok":
            continue
        n += 1
        ev = [e for e in st.events() if e.kind == "call"]
        b = [e for e in ev if e.name == "Socket::bind"]
        c.req(len(b) == 1 and contains(b[0].args[1], mk("arg", "port")) and not any(x.op in ("add", "sub", "mul", "cast") for x in subterms(b[0].args[1])), "the socket is bound to the given port", "ServerBuilder::new", "binds %s" % [sh(e.args[1]) for e in b])
        if b:
            ips = addresses(b[0].args[1])
            rule = "the socket accepts connections on every interface"
            if ips and all(ips) or any("UNSPECIFIED" in show(x) for x in subterms(b[0].args[1])):
                c.ok(rule, "ServerBuilder::new")
            else:
                (c.bad if ips else c.und)(rule, "ServerBuilder::new", "binds %s" % sh(b[0].args[1]))
        names = [e.name for e in ev]
        c.req("Socket::listen" in names and ("Socket::bind" in names and names.index("Socket::bind") < names.index("Socket::listen")), "the socket listens after it is bound", "ServerBuilder::new", "calls %s" % names)
        nb = [e for e in ev if e.name == "Socket::set_nonblocking"]
        c.req(len(nb) == 1 and is_c(nb[0].args[1]) and cval(nb[0].args[1]) is True, "the listening socket does not block the runtime", "ServerBuilder::new", "non-blocking mode not set")
    c.req(n >= 1, "coverage", "ServerBuilder::new", "no success exit")


def addresses(t):
    """for every IPv4 address in the term, whether it is 0.0.0.0"""
    out = []
    for x in subterms(t):
        parts = None
        if x.op == "app" and x.a[0].endswith("Ipv4Addr::new"):
            parts = x.a[1]
        elif x.op == "agg" and len(x.a) > 2 and isinstance(x.a[2], tuple) and len(x.a[2]) == 4:
            parts = [v[1] if isinstance(v, tuple) else v for v in x.a[2]]
        elif x.op == "seq" and len(x.a[0]) == 4:
            parts = x.a[0]
        elif x.op == "agg" and "Ipv4Addr" in str(x.a[0]):
            bs = [y for y in subterms(x) if cbytes(y) is not None]
            if bs:
                out.append(all(ch in ("\0", 0) for ch in cbytes(bs[0])))
        if parts is not None and all(is_c(y) for y in parts):
            out.append(all(cval(y) == 0 for y in parts))
    return out


def changes(t, base_, pre=""):
    """dotted paths at which t differs from base_"""
    if t is base_:
        return []
    if t.op == "with" and t.a[0] is base_:
        out = []
        for k, v in t.a[1]:
            if k[0] == "f":
                out += [pre + k[1] + ("" if not x else "." + x) for x in (changes(v, mk("fld", base_, k[1])) or [""])]
            else:
                out.append(pre + str(k))
        return out
    return [pre] if pre else [""]
