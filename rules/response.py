"""Responses: what the responder writes for every response value."""
from rl import *
import lin
from . import prop

R = "responder::Response::<'a>::"
ALL = ("default", "rustls", "openssl", "nofeatures")


def lit(x, s):
    return isinstance(x, T) and cstr(x) == s


def is_fetch(t, ix, arg):
    return t.op == "fld" and t.a[1] == ix and t.a[0].op == "app" and t.a[0].a[0].endswith("StatusCode::fetch") and (arg is None or t.a[0].a[1][0] is arg)


def split_lines(parts):
    """group parts into CRLF-terminated lines: (lines, rest); a Star stands alone"""
    lines, cur = [], []
    for p in parts:
        if isinstance(p, Star):
            if cur:
                lines.append(("open", cur))
                cur = []
            lines.append(("star", p))
            continue
        if is_c(p, "str"):
            segs = cval(p).split("\r\n")
            for i, s in enumerate(segs):
                if s:
                    cur.append(S(s))
                if i < len(segs) - 1:
                    lines.append(("line", cur))
                    cur = []
        else:
            cur.append(p)
    if cur:
        lines.append(("open", cur))
    return lines


def head_of(c, ip, st, v, rule, where):
    """(status line parts, list of stars, extra lines, reader) of a serialised response, or None after reporting"""
    v = ip.strip(st, v)
    if v.op != "agg" or len(v.a[3]) != 2:
        c.und(rule, where, "the serialiser no longer returns a (head, body) pair")
        return None
    parts = acc(ip, st, v.a[3][0])
    lines = split_lines(parts)
    return lines, v.a[3][1]


def status_line(p, self_, anycase=False):
    """(version right, code and reason right, parts, parts after the version) of the parts of a status line"""
    p = list(p)
    ver = field(self_, "http_version")
    okv = len(p) >= 2 and lit(p[0], "HTTP/") and p[1] is ver
    if not okv and p and is_c(ver, "str") and is_c(p[0], "str"):
        # a known version is merged with the literal
        pre = "HTTP/" + cval(ver) + " "
        if cval(p[0]).startswith(pre):
            p = [S("HTTP/"), ver, S(" ")] + ([S(cval(p[0])[len(pre):])] if cval(p[0]) != pre else []) + p[1:]
            okv = True
    sc = field(self_, "status_code")
    rest = p[2:]
    ok = len(rest) == 4 and lit(rest[0], " ") and lit(rest[2], " ") and rest[1].op == "display" and is_fetch(rest[1].a[0], "0", sc)
    why = rest[3] if ok else None
    if ok and why.op == "app" and why.a[0] in CASE:
        why = why.a[1][0]
    elif ok and not anycase:
        ok = False
    return okv, ok and is_fetch(why, "1", sc), p, rest


CASE = ("str::to_uppercase", "str::to_ascii_uppercase", "str::to_lowercase", "str::to_ascii_lowercase")


def status_lines(c, what, rule):
    """the status line of an arbitrary response states its own version ("version") or its own status ("status")"""
    r = c.run(c.anchor(R + "get_data"), ["self"])
    me = mk("arg", "self")
    where = "Response::get_data"
    n = 0
    for st, v in r:
        h = head_of(c, r.ip, st, v, rule, where)
        if h is None:
            continue
        lines = h[0]
        if not lines or lines[0][0] not in ("line", "open"):
            c.und(rule, where, "no status line in %s" % sh(v))
            continue
        n += 1
        okv, oks, p, rest = status_line(lines[0][1], me, True)
        c.req(okv if what == "version" else oks, rule, where, "the status line is %s" % [sh(x, 80) for x in p])
    c.req(n >= 1, "coverage", where, "no status line analysed")


def check_head(c, ip, st, v, self_, where):
    rule = "response head = status line CRLF *(name ': ' value CRLF) CRLF"
    h = head_of(c, ip, st, v, rule, where)
    if h is None:
        return
    lines, reader = h
    if not lines or lines[0][0] != "line":
        c.bad(rule, where, "the head does not start with a CRLF-terminated status line: %s" % sh(v))
        return
    okv, oks, p, rest = status_line(lines[0][1], self_)
    c.req(okv, rule, where, "status line does not start with HTTP/<version>: %s" % [sh(x, 60) for x in p])
    c.req(oks, rule, where, "status line is not '<code> <REASON>' of the response's status: %s" % [sh(x, 80) for x in rest])
    body = lines[1:]
    c.req(bool(body) and body[-1] == ("line", []), rule, where, "the head does not end with one blank line")
    hdr = ck = 0
    for kind, x in body[:-1]:
        if kind == "star":
            s = src_of(x.drv) if x.drv is not None else None
            if s is None or s.op != "it":
                c.bad(rule, where, "header lines are not produced from the response's headers: %s" % sh(x))
                continue
            src = s.a[1]
            for conds, items in x.alts:
                ls = split_lines(mergelit(items)) if items and items[0] != "reset" else []
                if src is field(self_, "headers"):
                    hdr += 1
                    want = [mk("fld", X, "0"), S(": "), mk("fld", X, "1")]
                    good = len(ls) == 1 and ls[0][0] == "line" and ls[0][1] == want and not conds
                    c.req(good, "every header of the response is written once as 'name: value' CRLF", where,
                          "header line written as %s %s" % ([sh(i, 60) for i in items], "only when " + ", ".join(sh(k, 60) for k, _ in conds) if conds else ""))
                elif src is field(self_, "cookies"):
                    ck += 1
                    good = len(ls) == 1 and ls[0][0] == "line" and len(ls[0][1]) == 2 and lit(ls[0][1][0], "Set-Cookie: ") and \
                        ls[0][1][1].op == "display" and root_is(ls[0][1][1].a[0], X) and not conds
                    c.req(good, "every cookie of the response is written once as 'Set-Cookie: <cookie>' CRLF", where,
                          "cookie line written as %s" % [sh(i, 60) for i in items])
                else:
                    c.bad(rule, where, "lines written for something that is not a header or cookie of the response: %s" % sh(src))
        else:
            c.bad(rule, where, "extra text between the headers and the blank line: %s %s" % (kind, [sh(i, 60) for i in x]))
    c.req(hdr == 1, "every header of the response is written once as 'name: value' CRLF", where, "the response's headers are written %d times" % hdr)
    if c.feature("cookies"):
        c.req(ck == 1, "every cookie of the response is written once as 'Set-Cookie: <cookie>' CRLF", where, "the response's cookies are written %d times" % ck)
    # the loops ran to the end
    for e in st.events():
        if e.kind == "loop":
            L = e.info["loop"]
            m = [k for k, v2 in st.facts.items() if k.op == "more" and k.a[1] == L.id]
            bad = any(st.facts[k] for k in m)
            c.req(not bad, rule, where, "a header loop can stop before the last header")
    return reader


def root_is(t, r):
    while t.op in ("fld", "vfld"):
        t = t.a[0]
    return t is r


@prop("P05", ALL)
def p05(c):
    """for an arbitrary response value the serialised head has exactly the HTTP/1 shape and the body reader is the response's"""
    f = c.anchor(R + "get_data")
    r = c.run(f, ["self"])
    n = 0
    self_ = mk("arg", "self")
    for st, v in r:
        n += 1
        reader = check_head(c, r.ip, st, v, self_, "Response::get_data")
        if reader is None:
            continue
        body = [k for k in st.facts if k.op == "isvar" and root_is(k.a[0], self_)]
        empty = any(k.a[1] == "Some" and not st.facts[k] for k in body)
        if empty:
            ok = not contains(reader, self_) and all(not (is_c(x) and cstr(x)) for x in subterms(reader)) and has(reader, lambda x: x is EMPTYSEQ or x.op == "default" or x is S(""))
            c.req(ok, "a response without a body is followed by no bytes", "Response::get_data", "body of an empty response comes from %s" % sh(reader))
        else:
            ok = reader.op == "vfld" and root_is(reader, self_)
            c.req(ok, "the body bytes come from the response's own body", "Response::get_data", "body comes from %s" % sh(reader))
    c.req(n >= 2, "coverage", "Response::get_data", "no exits analysed")
    from .server import check_send
    check_send(c)
    check_reader(c)


READ = "<util::AsyncReader<T> as tokio::io::AsyncRead>::poll_read"


def check_reader(c):
    """the adapter between a blocking reader and the connection: hands on exactly the bytes it read"""
    rule = "the bytes read from the body are handed on, all of them and no others"
    where = "AsyncReader::poll_read"
    if READ not in c.prog().fns:
        c.und(rule, where, "no such function")
        return
    r = c.run(READ, ["self", "cx", "buf"])
    buf = mk("arg", "buf")
    n = 0
    for st, v in r:
        n += 1
        rv = r.ret(st, v)
        evs = list(st.events())
        reads = [e for e in evs if e.name == "Read::read"]
        moves = [e for e in evs if e.name in ("ReadBuf::advance", "ReadBuf::put_slice", "ReadBuf::set_filled", "ReadBuf::clear")]
        inner = payload(rv, "Ready") if variant(rv) == "Ready" else None
        if any(e.kind == "loop" for e in evs) or inner is None or len(reads) != 1 or len(moves) > 1:
            c.und(rule, where, "%s after %s" % (sh(rv, 80), [e.name for e in evs]))
            continue
        count, into = reads[0].ret, reads[0].args[1]
        if variant(inner) == "Err":
            c.req(contains(inner, count) or vfact_ok(st, count) is False, rule, where, "an error that is not the reader's: %s" % sh(inner))
            continue
        if vfact_ok(st, count) is False:
            c.bad(rule, where, "a failed read is reported as the end of the body: %s" % sh(rv))
            continue
        got = payload(count, "Ok")
        if not moves:
            judge(c, lin.prove_le(st.facts, got, I(0)), rule, where, "what was read is not handed on", [got], ("Read::read", "ReadBuf::initialize_unfilled"))
            continue
        e = moves[0]
        if e.name == "ReadBuf::advance" and into.op == "app" and into.a[0] == "ReadBuf::initialize_unfilled" and into.a[1] == (buf,):
            c.req(e.args[1] is got, rule, where, "%s bytes are handed on of the %s that were read" % (sh(e.args[1], 100), sh(got, 100)))
        elif e.name == "ReadBuf::advance" and not contains(e.args[1], count):
            c.bad(rule, where, "%s bytes are handed on whatever was read" % sh(e.args[1], 100))
        else:
            c.und(rule, where, "%s(%s) after reading into %s" % (e.name, sh(e.args[1], 100), sh(into, 100)))
    c.req(n >= 2, "coverage", where, "only %d exits" % n)


def vfact_ok(st, t):
    return st.facts.get(isvar(t, "Ok"))


def body_of(c, ip, st, resp, where):
    """reader the serialiser returns for response value resp in state st"""
    f = c.anchor(R + "get_data")
    out = []
    for s2, v in ip.run(f, args=[resp], st=st.copy()):
        if ip.infeasible(s2):
            continue
        v = ip.strip(s2, v)
        out.append((s2, v.a[3][0], v.a[3][1]) if v.op == "agg" else (s2, None, v))
    return out


def content_src(t):
    """the bytes an in-memory reader yields, or the file"""
    while True:
        if t.op == "app" and t.a[0] in ("Cursor::new",) and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == "agg" and len(t.a[3]) == 1 and t.a[0].endswith("AsyncReader"):
            t = t.a[3][0]
        elif t.op == "agg" and t.a[0].endswith("Cursor"):
            t = t.a[3][0]
        else:
            return t


def declared_len(headers):
    v = lookup(headers, "Content-Length")
    if v is None:
        return None
    if is_c(v, "str") and cval(v).isdigit():
        return I(int(cval(v)))
    return v.a[0] if v.op == "display" else v


@prop("P06", ALL)
def p06(c):
    """Content-Length equals the number of body bytes for send, send_file and generated error pages"""
    check_reader(c)
    rule = "Content-Length is the length of the body that is sent"
    f = c.anchor(R + "send")
    r = c.run(f, ["self", "body"])
    n = 0
    for st, v in r:
        resp = r.cell(st, "self")
        n += 1
        dl = declared_len(field(resp, "headers"))
        for s2, head, reader in body_of(c, r.ip, st, resp, "Response::send"):
            src = content_src(reader)
            c.req(src is mk("arg", "body"), "send makes exactly the given bytes the body", "Response::send", "body bytes come from %s" % sh(src))
            c.req(dl is not None and dl is mklen(src), rule, "Response::send", "Content-Length is %s, body is %s" % (dl and sh(dl), sh(src)))
    c.req(n >= 1, "coverage", "Response::send", "no exits analysed")
    f = c.anchor(R + "send_file")
    r = c.run(f, ["self", "file"])
    n = 0
    for st, v in r:
        rv = r.ret(st, v)
        resp = r.cell(st, "self")
        if variant(rv) == "Err":
            c.req(resp is mk("arg", "self"), "a failed send_file leaves the response unchanged", "Response::send_file", "response changed although an error is returned: %s" % sh(resp))
            continue
        n += 1
        dl = declared_len(field(resp, "headers"))
        for s2, head, reader in body_of(c, r.ip, st, resp, "Response::send_file"):
            src = content_src(reader)
            dd = dl and uncast(dl)
            okf = dd is not None and dd.op == "app" and dd.a[0] == "Metadata::len"
            if okf:
                meta = dd.a[1][0]
                okf = meta.op == "vfld" and meta.a[0].op == "app" and meta.a[0].a[0] == "File::metadata" and meta.a[0].a[1][0] is src
            c.req(okf, rule, "Response::send_file", "Content-Length is %s, body is %s" % (dl and sh(dl), sh(src)))
    c.req(n >= 1, "coverage", "Response::send_file", "no success exits analysed")
    # error pages
    f = c.anchor("error::Error::err")
    r = c.run(f, ["code", "stream"], opaque=["server::Octane::send"])
    n = 0
    for st, v in r:
        for e in st.events():
            if e.kind == "call" and e.name == "server::Octane::send":
                n += 1
                pair = e.args[0]
                if pair.op != "agg":
                    c.und(rule, "Error::err", "response not recognised")
                    continue
                head, reader = pair.a[3]
                src = content_src(reader)
                # the head's header loop ran over a map built here
                ent = [L.drv for L in r.ip.loops.values() if L.drv is not None and src_of(L.drv).op == "it" and src_of(L.drv).a[0] == "entries"]
                dls = set(declared_len(src_of(d).a[1]) for d in ent)
                good = len(dls) >= 1 and all(d is not None and d is mklen(src) for d in dls)
                c.req(good, rule, "Error::err", "Content-Length is %s, body is %d bytes" % ([d and sh(d) for d in dls], cval(mklen(src)) if is_c(mklen(src)) else -1))
                cts = set(lookup(src_of(d).a[1], "Content-Type") for d in ent)
                c.req(all(x is not None and is_c(x, "str") and cval(x).startswith("text/html") for x in cts) and cts,
                      "generated error pages are declared as text/html", "Error::err", "Content-Type of an error page is %s" % [x and sh(x) for x in cts])
    c.req(n >= 1, "coverage", "Error::err", "no response found in the error path")
    # responses made from given bytes, before anything is sent with them
    f = R + "new_from_slice"
    if f in c.prog().fns:
        r = c.run(f, ["body"])
        for st, v in r:
            resp = r.ret(st, v)
            cl = field(resp, "content_len") if resp.op == "agg" and "content_len" in resp.a[2] else None
            if variant(cl) != "Some" if cl is not None else True:
                continue
            for s2, head, reader in body_of(c, r.ip, st, resp, "Response::new_from_slice"):
                src = content_src(reader)
                judge(c, payload(cl, "Some") is mklen(src), rule, "Response::new_from_slice", "the length is %s, the body is %s" % (sh(cl), sh(src)), [cl, src])


# other paths a path can be turned into
PATHS = ("Path::with_extension", "Path::join", "Path::parent", "Path::with_file_name", "Path::file_name", "Path::file_stem", "PathBuf::push", "PathBuf::pop", "PathBuf::set_extension", "fs::canonicalize", "Path::canonicalize", "Path::strip_prefix")


@prop("P27", ALL)
def p27(c):
    """send_file: the body is the named file, only regular files, type from the extension; errors reported"""
    check_reader(c)
    f = c.anchor(R + "send_file")
    r = c.run(f, ["self", "file"])
    arg = mk("arg", "file")
    ns = ne = 0
    for st, v in r:
        rv = r.ret(st, v)
        resp = r.cell(st, "self")
        opens = [e for e in st.events() if e.kind == "call" and e.name in ("File::open", "OpenOptions::open")]
        c.req(all(e.args[-1] is arg for e in opens), "only the named file is opened", "Response::send_file", "a different path is opened: %s" % [sh(e.args[-1]) for e in opens])
        isfile = [x for k, x in st.facts.items() if k.op == "app" and k.a[0] == "Metadata::is_file"]
        opened = [x for k, x in st.facts.items() if k.op == "isvar" and k.a[0].op == "app" and k.a[0].a[0] == "File::open"]
        if variant(rv) == "Ok":
            ns += 1
            if not isfile and any(b is True and k.op == "app" and k.a[0] in ("Path::is_file", "FileType::is_file") for k, b in st.facts.items()):
                c.und("success only for a regular file", "Response::send_file", "checked by other means than the metadata of the opened file")
                continue
            c.req(isfile == [True], "success only for a regular file", "Response::send_file", "success is reported without checking that the path is a regular file")
            for s2, head, reader in body_of(c, r.ip, st, resp, "Response::send_file"):
                src = content_src(reader)
                good = src.op == "vfld" and src.a[0].op == "app" and src.a[0].a[0] == "File::open" and src.a[0].a[1][0] is arg
                c.req(good, "the body is the content of the named file", "Response::send_file", "body is %s" % sh(src))
            ct = lookup(field(resp, "headers"), "Content-Type")
            okc = ct is not None and ct.op == "app" and ct.a[0].endswith("mime_type")
            if okc:
                e = ct.a[1][0]
                okc = lit(e, "") or has(e, lambda x: x.op == "app" and x.a[0] == "Path::extension" and x.a[1][0] is arg)
                ext = [x for k, x in st.facts.items() if k.op == "isvar" and k.a[0].op == "app" and k.a[0].a[0] in ("Path::extension", "OsStr::to_str") and "extension" in show(k)]
                if okc and lit(e, ""):
                    okc = not ext or not all(ext)
            c.req(okc, "Content-Type is derived from the file's extension", "Response::send_file", "Content-Type is %s" % (ct and sh(ct)))
            c.req(not has(resp, lambda x: x.op == "fld" and False) and field(resp, "status_code") is field(mk("arg", "self"), "status_code"),
                  "send_file does not change the status", "Response::send_file", "status becomes %s" % sh(field(resp, "status_code")))
        elif variant(rv) == "Err":
            ne += 1
            c.req(resp is mk("arg", "self"), "a failed send_file leaves the response unchanged", "Response::send_file", "response changed although an error is returned")
            c.req((opened and not all(opened)) or (isfile and not all(isfile)) or any(k.op == "isvar" and k.a[0].op == "app" and k.a[0].a[0] == "File::metadata" and not x for k, x in st.facts.items()),
                  "an error only when the file cannot be opened or is not a regular file", "Response::send_file", "error returned under %s" % [sh(k, 60) for k in st.facts])
        else:
            c.und("result", "Response::send_file", sh(rv))
    c.req(ns >= 1 and ne >= 2, "coverage", "Response::send_file", "expected success and error exits, found %d and %d" % (ns, ne))
    # the reader over a file yields exactly what was read
    f = c.anchor("<util::AsyncReader<T> as tokio::io::AsyncRead>::poll_read")
    r = c.run(f, ["self", "cx", "buf"])
    n = 0
    for st, v in r:
        n += 1
        rv = r.ret(st, v)
        reads = [e for e in st.events() if e.kind == "call" and e.name.endswith("Read::read")]
        adv = [e for e in st.events() if e.kind == "call" and e.name.endswith("ReadBuf::advance")]
        okres = has(rv, lambda x: x.op == "agg" and x.a[1] == "Ok")
        if okres:
            good = len(reads) == 1 and len(adv) == 1 and adv[0].args[-1] is payload(reads[0].ret, "Ok")
            if not good and len(adv) == 1 and len(reads) == 1:
                good = contains(adv[0].args[-1], reads[0].ret)
            if not adv:
                put = [e for e in st.events() if e.kind == "call" and e.name.endswith("ReadBuf::put_slice")]
                good = len(put) == 1 and len(reads) == 1
            c.req(good, "the file reader reports exactly the bytes it read", "AsyncReader::poll_read", "buffer advanced by %s" % [sh(e.args[-1]) for e in adv])
            if reads and adv:
                c.req("initialize_unfilled" in show(reads[0].args[-1]) or "unfilled" in show(reads[0].args[-1]), "the file reader fills the caller's unfilled buffer", "AsyncReader::poll_read",
                      "reads into %s" % sh(reads[0].args[-1]))
    c.req(n >= 2, "coverage", "AsyncReader::poll_read", "no exits")


@prop("P28", ("default", "nofeatures"))
def p28(c):
    """response builder: each call changes exactly what it names; automatic headers never override the handler's"""
    self_ = mk("arg", "self")
    h0 = field(self_, "headers")

    def delta(fn, names):
        r = c.run(c.anchor(R + fn), names)
        out = []
        for st, v in r:
            out.append((r, st, r.ret(st, v), r.cell(st, "self") if ("arg", "self") in st.mem else None))
        return out

    def changed(resp):
        if resp is self_:
            return {}
        if resp.op == "with" and resp.a[0] is self_:
            return {k[1]: v for k, v in resp.a[1] if k[0] == "f"}
        return None

    def hdrs(resp):
        return mapform(field(resp, "headers"))

    def only(fn, names, want, chain=True):
        for r, st, rv, resp in delta(fn, names):
            ch = changed(resp)
            c.req(ch is not None and set(ch) <= set(want), "a builder call changes only what it names", "Response::" + fn, "also changes %s" % (ch and sorted(set(ch) - set(want))))
            yield st, rv, resp, ch or {}

    A, B_ = mk("arg", "a1"), mk("arg", "a2")
    for st, rv, resp, ch in only("set", ["self", "a1", "a2"], ["headers"]):
        c.req(hdrs(resp) == (h0, {A: B_}), "set stores exactly the given header", "Response::set", "headers become %s" % sh(field(resp, "headers")))
    for r, st, rv, resp in delta("get", ["self", "a1"]):
        c.req(rv is mget(h0, A), "get returns the stored header", "Response::get", "returns %s" % sh(rv))
    for st, rv, resp, ch in only("status", ["self", "a1"], ["status_code"]):
        c.req(ch.get("status_code") is A, "status stores the given code", "Response::status", "status becomes %s" % sh(ch.get("status_code")))
    for st, rv, resp, ch in only("with_type", ["self", "a1"], ["headers"]):
        c.req(hdrs(resp) == (h0, {S("Content-Type"): A}), "with_type sets Content-Type", "Response::with_type", "headers become %s" % sh(field(resp, "headers")))
    for st, rv, resp, ch in only("redirect", ["self", "a1"], ["headers", "status_code"]):
        sc = ch.get("status_code")
        c.req(sc is not None and variant(sc) == "Found" and hdrs(resp) == (h0, {S("Location"): A}), "redirect is 302 with the given Location", "Response::redirect", "response becomes %s" % sh(resp))
    for st, rv, resp, ch in only("charset", ["self", "a1"], ["charset"]):
        c.req(ch.get("charset") is some(A), "charset stores the charset", "Response::charset", "charset becomes %s" % sh(ch.get("charset")))
    for st, rv, resp, ch in only("attachment", ["self"], ["headers"]):
        c.req(hdrs(resp) == (h0, {S("Content-Disposition"): S("attachment")}), "attachment sets Content-Disposition", "Response::attachment", "headers become %s" % sh(field(resp, "headers")))
    for st, rv, resp, ch in only("attachment_with_filename", ["self", "a1"], ["headers"]):
        b, d = hdrs(resp)
        cd, ct = lookup(field(resp, "headers"), "Content-Disposition"), lookup(field(resp, "headers"), "Content-Type")
        okc = b is h0 and len(d) == 2 and cd is not None and cd.op == "cat" and lit(cd.a[0][0], "attachment; filename = ") and contains(cd, A) and \
            ct is not None and ct.op == "app" and ct.a[0].endswith("mime_type")
        c.req(okc, "attachment_with_filename names the file and types it", "Response::attachment_with_filename", "headers become %s" % sh(field(resp, "headers")))
    if c.feature("cookies"):
        for st, rv, resp, ch in only("cookie", ["self", "a1"], ["cookies"]):
            c.req(ch.get("cookies") is mk("push", field(self_, "cookies"), A), "cookie appends the cookie", "Response::cookie", "cookies become %s" % sh(ch.get("cookies")))
    # a response nothing was set on
    for fn, names in (("new_empty", []), ("new", ["body", "len"]), ("new_from_slice", ["body"])):
        f = c.find(R + fn)
        if f is None:
            continue
        r = c.run(f, names)
        for st, v in r:
            resp = r.ret(st, v)
            rule = "a new response is 200 and has no headers, charset or cookies"
            for k, good in (("status_code", lambda t: variant(t) == "Ok"), ("charset", lambda t: variant(t) == "None"), ("headers", lambda t: t.op == "emptymap"),
                            ("cookies", lambda t: t is EMPTYSEQ)):
                if k == "cookies" and not c.feature("cookies"):
                    continue
                t = field(resp, k)
                judge(c, good(t), rule, "Response::" + fn, "%s is %s" % (k, sh(t, 100)), [t])
    # default headers
    n = 0
    for fn, names in (("send", ["self", "body"]), ("default_headers", ["self"])):
        for r, st, rv, resp in delta(fn, names):
            n += 1
            b, d = hdrs(resp)
            keys = {cstr(k): v for k, v in d.items()}
            c.req(b is h0 and set(keys) <= {"Content-Length", "Date", "Content-Type"}, "only the automatic headers are added", "Response::" + fn, "headers become %s" % sh(field(resp, "headers")))
            had = st.facts.get(isvar(mget(h0, S("Content-Type")), "Some"))
            if had is None:
                t = mget(field(resp, "headers"), S("Content-Type"))
                had = None
            if had is True:
                c.req("Content-Type" not in keys, "a Content-Type chosen by the handler is kept", "Response::" + fn, "Content-Type overwritten with %s" % sh(keys.get("Content-Type")))
            elif had is False:
                cs = field(self_, "charset")
                hc = st.facts.get(isvar(cs, "Some"))
                ct = keys.get("Content-Type")
                want = cat(S("text/html; charset="), payload(cs, "Some")) if hc else S("text/html")
                c.req(ct is want, "the default Content-Type is text/html with the charset if one was set", "Response::" + fn, "default Content-Type is %s" % (ct and sh(ct)))
            else:
                c.bad("a Content-Type chosen by the handler is kept", "Response::" + fn, "Content-Type is set without looking whether the handler set one")
            now = [x for k, x in st.facts.items() if k.op == "isvar" and k.a[0].op == "app" and k.a[0].a[0].endswith("Time::now")]
            if now == [True]:
                dt = keys.get("Date")
                c.req(dt is not None and dt.op == "app" and dt.a[0].endswith("Time::format") and "Time::now" in show(dt), "Date is the formatted current time", "Response::" + fn, "Date is %s" % (dt and sh(dt)))
            ch = changed(resp)
            allowed = {"headers"} | ({"body", "content_len"} if fn == "send" else set())
            extra = set({"?": 1} if ch is None else ch) - allowed
            priv = {f["name"] for a in c.prog().adts.values() if a["path"].endswith("responder::Response") for vv in a["variants"] for f in vv["fields"] if not f.get("pub")}
            extra -= priv if fn == "send" else set()
            c.req(not extra, "send changes only body, length and automatic headers", "Response::" + fn, "also changes %s" % sorted(extra))
    c.req(n >= 8, "coverage", "Response::default_headers", "only %d exits" % n)
