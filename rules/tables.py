"""Fixed vocabularies: status codes, versions, media types, dates."""
from rl import *
import lin
from models import app
from . import prop
from .routing import judge, strange
from .server import vfact
from .response import status_lines, R as RESP
from .parsing import LPARSE, PPARSE, named, VERSIONS, found

FETCH = "StatusCode::fetch"
MIME = "file_handler::FileHandler::mime_type"
STATUS = {
    100: "Continue", 101: "Switching Protocol", 102: "Processing", 103: "Early Hints", 200: "OK", 201: "Created", 202: "Accepted",
    203: "Non-Authoritative Information", 204: "No Content", 205: "Reset Content", 206: "Partial Content", 207: "Multi-Status",
    208: "Already Reported", 226: "IM Used", 300: "Multiple Choice", 301: "Moved Permanently", 302: "Found", 303: "See Other",
    304: "Not Modified", 307: "Temporary Redirect", 308: "Permanent Redirect", 400: "Bad Request", 401: "Unauthorized",
    402: "Payment Required", 403: "Forbidden", 404: "Not Found", 405: "Method Not Allowed", 406: "Not Acceptable",
    407: "Proxy Authentication Required", 408: "Request Timeout", 409: "Conflict", 410: "Gone", 411: "Length Required",
    412: "Precondition Failed", 413: "Payload Too Large", 414: "URI Too Long", 415: "Unsupported Media Type",
    416: "Range Not Satisfiable", 417: "Expectation Failed", 418: "I'm a teapot", 421: "Misdirected Request",
    422: "Unprocessable Entity", 423: "Locked", 424: "Failed Dependency", 425: "Too Early", 426: "Upgrade Required",
    428: "Precondition Required", 429: "Too Many Requests", 431: "Request Header Fields Too Large",
    451: "Unavailable For Legal Reasons", 500: "Internal Server Error", 501: "Not Implemented", 502: "Bad Gateway",
    503: "Service Unavailable", 504: "Gateway Timeout", 505: "HTTP Version Not Supported", 506: "Variant Also Negotiates",
    507: "Insufficient Storage", 508: "Loop Detected", 510: "Not Extended", 511: "Network Authentication Required",
}
# other registered phrases of the same codes
ALSO = {101: ["Switching Protocols"], 300: ["Multiple Choices"], 413: ["Content Too Large", "Request Entity Too Large"], 422: ["Unprocessable Content"],
        414: ["Request-URI Too Long"], 418: ["(Unused)"]}


def norm(s):
    return "".join(ch for ch in s.lower() if ch.isalnum())


@prop("P24")
def p24(c):
    structural(c, "StatusCode")
    where = "StatusCode::fetch"
    r = c.run(c.anchor(FETCH), ["self"], keep=600)
    me = mk("arg", "self")
    RC = "a status has the code registered for it"
    RP = "a status has its own reason phrase"
    byname = {}
    for k, s in STATUS.items():
        for x in [s] + ALSO.get(k, []):
            byname[norm(x)] = k
    seen = {}
    n = 0
    for st, v in r:
        rv = r.ret(st, v)
        on = [k.a[1] for k, b in st.facts.items() if k.op == "isvar" and k.a[0] is me and b]
        if len(on) != 1:
            c.und(RC, where, "case %s" % on)
            continue
        name = on[0]
        if rv.op == "agg" and len(rv.a[3]) == 2:
            code, why = rv.a[3]
        else:
            c.und(RC, where, "%s is %s" % (name, sh(rv, 80)))
            continue
        if name == "Other":
            want = [vfield(me, "Other", "0"), vfield(me, "Other", "1")]
            judge(c, code is want[0] and why is want[1], "a custom status has the code and phrase it was made with", where, "Other is (%s, %s)" % (sh(code, 60), sh(why, 60)), [code, why])
            continue
        n += 1
        if not is_c(code, "int") or cstr(why) is None:
            c.und(RC, where, "%s is %s" % (name, sh(rv, 80)))
            continue
        if norm(name) in byname:
            c.req(cval(code) == byname[norm(name)], RC, where, "%s is sent as %d" % (name, cval(code)))
            c.req(byname.get(norm(cstr(why))) == byname[norm(name)] or norm(cstr(why)) == norm(name), RP, where, "%s is sent with reason %r" % (name, cstr(why)))
        elif cval(code) in STATUS:
            c.bad(RC, where, "%s is sent as %d, which is %s" % (name, cval(code), STATUS[cval(code)]))
        else:
            c.und(RC, where, "unregistered status %s" % name)
        if cval(code) in seen:
            c.bad("no two statuses share a code", where, "%s and %s are both %d" % (name, seen[cval(code)], cval(code)))
        else:
            c.ok("no two statuses share a code", where)
        seen[cval(code)] = name
    c.req(n >= 40, "coverage", where, "%d statuses" % n)
    # the conversions used for the status line
    f = c.find("<StatusCode as std::convert::Into<i32>>::into")
    if f:
        rr = c.run(f, ["self"])
        for st, v in rr:
            t = rr.ret(st, v)
            judge(c, t is field(app(FETCH, me), "0"), "the code of a status is the one in the table", "StatusCode::into", "is %s" % sh(t, 80), [t], (FETCH,))
    f = c.find("<StatusCode as std::fmt::Display>::fmt")
    if f:
        rr = c.run(f, ["self", "f"])
        for st, v in rr:
            t = rr.cell(st, "f")
            good = contains(t, field(app(FETCH, me), "1")) and not contains(t, field(app(FETCH, me), "0"))
            (c.ok("the phrase of a status is the one in the table", "StatusCode::fmt") if good else
             judge(c, False, "the phrase of a status is the one in the table", "StatusCode::fmt", "is %s" % sh(t, 80), [t], (FETCH,)))
    status_lines(c, "status", "a response is sent with the code and phrase of its own status")
    stored(c, "status", "status_code", "the status a handler chooses is the one of the response")


def stored(c, setter, fld, rule, text=None):
    """a setter of the response stores what it is given, and changes nothing else"""
    f = c.find(RESP + setter)
    where = "Response::" + setter
    if f is None:
        c.und(rule, where, "not found")
        return
    r = c.run(f, ["self", "value"])
    me, val = mk("arg", "self"), mk("arg", "value")
    for st, v in r:
        cell = r.cell(st, "self")
        got = field(cell, fld)
        want = text(st, val, got) if text else got is val
        if want is None:
            c.und(rule, where, "stored as %s" % sh(got, 80))
        else:
            judge(c, want, rule, where, "stored as %s" % sh(got, 80), [got])


# ---------------------------------------------------------------- versions
@prop("P25")
def p25(c):
    structural(c, "HttpVersion")
    where = "HttpVersion::to_string"
    me = mk("arg", "self")
    r = c.run(c.anchor("<HttpVersion as std::string::ToString>::to_string"), ["self"], keep=600)
    inv = {v: k for k, v in VERSIONS.items()}
    R1 = "a version is written as its own number"
    variants = list(inv) + ["HttpInvalid"]
    n = 0
    for vn in variants:
        hits = []
        for st, v in r:
            ok_ = True
            for k, b in st.facts.items():
                if k.op == "isvar" and k.a[0] is me:
                    ok_ &= ((k.a[1] == vn) == b)
            if ok_:
                hits.append(r.ret(st, v))
        if len(hits) != 1:
            c.und(R1, where, "%d outcomes for %s" % (len(hits), vn))
            continue
        t = hits[0]
        s = cstr(t)
        if s is None:
            judge(c, False, R1, where, "%s is written %s" % (vn, sh(t, 80)), [t, app("x")])
            continue
        n += 1
        if vn in inv:
            c.req(s == inv[vn], R1, where, "%s is written %r" % (vn, s))
        else:
            c.req(s not in inv.values(), R1, where, "an invalid version is written %r" % s)
    c.req(n >= 5, "coverage", where, "%d versions" % n)
    # read
    where = "RequestLine::parse"
    rr = c.run(c.anchor(LPARSE), ["line"], opaque=[PPARSE], keep=600)
    line = mk("arg", "line")
    n = 0
    for st, v in rr:
        rv = rr.ret(st, v)
        if variant(rv) != "Some":
            continue
        f1, b1 = found(st, line, " ")
        if not b1:
            continue
        rest = mkslice(line, add(payload(f1, "Some"), I(1)), None)
        f2, b2 = found(st, rest, " ")
        if not b2:
            continue
        rest2 = mkslice(rest, add(payload(f2, "Some"), I(1)), None)
        f3, b3 = found(st, rest2, " ")
        ver = rest2 if not b3 else mkslice(rest2, I(0), payload(f3, "Some"))
        n += 1
        named(c, st, field(payload(rv, "Some"), "version"), mkslice(ver, I(5), None), VERSIONS, "HttpInvalid", "a version is recognised only by its own number", where)
    c.req(n >= 5, "coverage", where, "%d accepting paths" % n)
    # responses
    for f in ("responder::Response::new_empty", "responder::Response::new"):
        g = c.find(f) or c.find(f.replace("Response::", "Response::<'a>::"))
        if g is None:
            continue
        rr = c.run(g, ["body", "len"][:c.prog().fns[g]["argc"]])
        for st, v in rr:
            t = field(rr.ret(st, v), "http_version")
            judge(c, cstr(t) == "1.1", "a response states version 1.1 unless told otherwise", f, "states %s" % sh(t, 60), [t])
    status_lines(c, "version", "a response states its own version")

    def text(st, val, got):
        """the text stored is that of the version given"""
        if got.op == "app" and got.a[0].endswith("HttpVersion as std::string::ToString>::to_string") and len(got.a[1]) == 1:
            return got.a[1][0] is val
        seen = [x for x in list(inv) + ["HttpInvalid"] if all((k.a[1] == x) == b for k, b in st.facts.items() if k.op == "isvar" and k.a[0] is val)]
        if cstr(got) is None:
            return False if got is field(mk("arg", "self"), "http_version") else None
        return all(inv[x] == cstr(got) if x in inv else cstr(got) not in inv.values() for x in seen)
    stored(c, "http_version", "http_version", "the version a handler chooses is the one of the response", text)


# ---------------------------------------------------------------- media types
MIMES = """css text/css
csv text/csv
html text/html
htm text/html
ics text/calendar
js text/javascript
mjs text/javascript
txt text/plain
abw application/x-abiword
arc application/x-freearc
azw application/vnd.amazon.ebook
bin application/octet-stream
bz application/x-bzip
bz2 application/x-bzip2
csh application/x-csh
doc application/msword
docx application/vnd.openxmlformats-officedocument.wordprocessingml.document
eot application/vnd.ms-fontobject
epub application/epub+zip
gz application/gzip
java application/java-archive
json application/json
jsonld application/ld+json
mpkg application/vnd.apple.installer+xml
odp application/vnd.oasis.opendocument.presentation
ods application/vnd.oasis.opendocument.spreadsheet
odt application/vnd.oasis.opendocument.text
ogx application/ogg
pdf application/pdf
php application/x-httpd-php
ppt application/vnd.ms-powerpoint
pptx application/vnd.openxmlformats-officedocument.presentationml.presentation
rar application/vnd.rar
rtf application/rtf
sh application/x-sh
swf application/x-shockwave-flash
tar application/x-tar
vsd application/vnd.visio
xhtml application/xhtml+xml
xls application/vnd.ms-excel
xlsx application/vnd.openxmlformats-officedocument.spreadsheetml.sheet
xml application/xml
xul application/vnd.mozilla.xul+xml
zip application/zip
7z application/x-7z-compressed
bmp image/bmp
gif image/gif
ico image/vnd.microsoft.icon
jpeg image/jpeg
jpg image/jpeg
png image/png
svg image/svg+xml
tif image/tiff
tiff image/tiff
webp image/webp
aac audio/aac
mid audio/midi
midi audio/x-midi
mp3 audio/mpeg
oga audio/ogg
opus audio/opus
wav audio/wav
weba audio/webm
avi video/x-msvideo
mpeg video/mpeg
ogv video/ogg
ts video/mp2t
webm video/webm
otf font/otf
ttf font/ttf
woff font/woff
woff2 font/woff2"""
MIMES = dict(l.split(" ", 1) for l in MIMES.split("\n"))


def select(r, env):
    """exits whose facts are not refuted by the values in env, and whether a fact stayed open"""
    hit, open_ = [], False
    for st, v in r:
        good = True
        for k, b in st.facts.items():
            x = pev(k, env)
            if x is UNK:
                if k.op != "more":
                    open_ = True
            elif bool(x) != bool(b):
                good = False
                break
        if good:
            hit.append((st, r.ret(st, v)))
    return hit, open_


def rowlookup(st, t):
    """value of a field of the current element of a search through a constant table"""
    if t.op == "fld" and t.a[0].op == "elem" and t.a[0].a[0].op == "it" and t.a[0].a[0].a[0] == "elems" and t.a[0].a[0].a[1].op == "seq":
        return t.a[0], t.a[0].a[0].a[1].a[0]
    return None, None


@prop("P26")
def p26(c):
    where = "FileHandler::mime_type"
    r = c.run(c.anchor(MIME), ["ext"], keep=600)
    ext = mk("arg", "ext")
    R1 = "a file extension has the media type registered for it"
    R2 = "an unknown extension has the default type"
    R3 = "extensions are recognised in either case"

    def typed(s):
        env = {ext: s}
        h, o = select(r, env)
        if len(h) == 1 and cstr(h[0][1]) is not None:
            return cstr(h[0][1])
        out = set()
        for st, t in h:
            el, rows = rowlookup(st, t)
            if el is None:
                if cstr(t) is not None:
                    out.add(("const", cstr(t)))
                    continue
                return None
            for row in rows:
                e2 = dict(env)
                e2.update({x: cstr(field(row, x.a[1])) for k in st.facts for x in subterms(k) if x.op == "fld" and x.a[0] is el and cstr(field(row, x.a[1])) is not None})
                if consistent(st.facts.items(), e2):
                    out.add(("row", cstr(field(row, t.a[1]))))
                    break
        rows = [x for x in out if x[0] == "row"]
        pick = rows or list(out)
        return pick[0][1] if len(pick) == 1 else None
    n = 0
    for s, want in MIMES.items():
        got = typed(s)
        if got is None:
            c.und(R1, where, "type of %s" % s)
            continue
        n += 1
        c.req(got == want, R1, where, "%s is served as %s" % (s, got))
        up = typed(s.upper())
        if up is not None:
            c.req(up == got, R3, where, "%s is served as %s" % (s.upper(), up))
    # extensions the code knows beyond the table are its own business
    own = set()
    for st, v in r:
        for k in st.facts:
            for x in subterms(k):
                if x.op == "eq" or x.op == "app" and x.a[0] == "str::eq_ignore_ascii_case":
                    own |= {cstr(y).lower() for y in (x.a if x.op == "eq" else x.a[1]) if cstr(y) is not None}
                if x.op == "it" and x.a[0] == "elems" and x.a[1].op == "seq":
                    own |= {cstr(y).lower() for y in subterms(x.a[1]) if cstr(y) is not None}
    near = {f(s) for s in MIMES for f in (lambda s: s + "x", lambda s: "x" + s, lambda s: s + "1", lambda s: s[:-1], lambda s: s[1:], lambda s: s + " ", lambda s: " " + s, lambda s: "." + s, lambda s: s + "." + s, lambda s: s + "~", lambda s: s + ".bak")}
    for s in sorted({"", "zzzz", "unknownext", "j", "gif89", "htm l", "s", "tar.gz"} | near):
        if s.lower() in MIMES or s and s.lower() in own:
            continue
        got = typed(s)
        if got is None:
            c.und(R2, where, "type of %r" % s)
        else:
            c.req(got == "text/plain", R2, where, "%r is served as %s" % (s, got))
    c.req(n >= 40, "coverage", where, "%d extensions" % n)
    # where the extension comes from
    g = c.find("file_handler::FileHandler::get_extension")
    path = mk("arg", "path")
    if g:
        rr = c.run(g, ["path"], opaque=[MIME])
        where = "FileHandler::get_extension"
        for st, v in rr:
            t = rr.ret(st, v)
            a = t.a[1][0] if t.op == "app" and t.a[0] == MIME else None
            extension(c, st, a, path, where) if a is not None else judge(c, False, "the extension is the one of the file name", where, "type %s" % sh(t, 80), [t])
    g = c.anchor("file_handler::FileHandler::handle_file")
    rr = c.run(g, ["path"])
    where = "FileHandler::handle_file"
    for st, v in rr:
        t = rr.ret(st, v)
        if variant(t) == "Ok":
            extension(c, st, field(payload(t, "Ok"), "extension"), path, where)


def extension(c, st, a, path, where):
    R = "the extension is the one of the file name"
    e = app("Path::extension", path)
    s = app("OsStr::to_str", payload(e, "Some"))
    has, txt = vfact(st, e, "Some"), vfact(st, s, "Some")
    if cstr(a) == "":
        judge(c, has is False or txt is False, R, where, "an existing extension is ignored", [k for k in st.facts], ("Path::extension", "OsStr::to_str"))
    else:
        judge(c, a is payload(s, "Some"), R, where, "the extension used is %s" % sh(a, 100), [a], ("Path::extension", "OsStr::to_str"))


# ---------------------------------------------------------------- dates
WEEK = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"]
MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def strtab(t):
    if t.op == "seq" and all(cstr(x) is not None for x in t.a[0]):
        return [cstr(x) for x in t.a[0]]
    return None


def nameof(st, t):
    """(table, index) if t is an entry of a constant table at an index"""
    if t.op == "index":
        tab = strtab(t.a[0])
        if tab:
            return tab, uncast(t.a[1])
    if t.op == "vfld" and t.a[0].op == "app" and t.a[0].a[0] in ("slice::get",):
        tab = strtab(t.a[0].a[1][0])
        if tab:
            return tab, uncast(t.a[0].a[1][1])
    if t.op == "elem" and t.a[0].op == "it" and t.a[0].a[0] == "elems":
        tab = strtab(t.a[0].a[1])
        cnt = mk("elem", mk("it", "count", t.a[0]), t.a[1], t.a[2])
        if tab:
            for k, b in st.facts.items():
                if k.op == "eq" and b and cnt in (uncast(k.a[0]), uncast(k.a[1])):
                    o = k.a[1] if uncast(k.a[0]) is cnt else k.a[0]
                    return tab, uncast(o)
            return tab, None
    if t.op == "app" and t.a[0] == "Iterator::nth":
        pass
    return None, None


def pad2(t):
    """x if t is x written with at least two digits (for 0 <= x < 100)"""
    if t.op == "slice" and t.a[2] is None:
        b, lo, _ = t.a
        if b.op == "cat" and len(b.a[0]) == 2 and cstr(b.a[0][0]) in ("0", "00") and b.a[0][1].op == "display" and lo is sub(mklen(b), I(2)):
            return b.a[0][1].a[0]
    if t.op == "padded" and t.a[0].op == "display":
        spec = dict(t.a[1])
        fl = spec.get("flags")
        fl = getattr(fl, "a", [fl])[0] if not isinstance(fl, int) else fl
        w = spec.get("width")
        w = getattr(w, "a", [w])[0] if not isinstance(w, int) else w
        if isinstance(fl, int) and fl & (1 << 24) and w == 2:
            return t.a[0].a[0]
    return None


RANGE = {"day": (1, 31), "hour": (0, 23), "min": (0, 59), "sec": (0, 59)}


def tokens(t):
    """a text as characters and the terms between them"""
    if cstr(t) is not None:
        return list(cstr(t))
    if t.op == "cat":
        return [y for x in t.a[0] for y in tokens(x)]
    return [t]


def with_lens(t, fx, x):
    env = {fx: x}
    for y in subterms(t):
        if y.op == "len":
            n = text_of(tokens(y.a[0]), fx, x)
            if n is not UNK:
                env[y] = len(n)
    return env


def text_of(toks, fx, x):
    """the text for the value x of fx"""
    out = ""
    for t in toks:
        if isinstance(t, str):
            out += t
            continue
        if pad2(t) is not None:
            v = pev(pad2(t), with_lens(t, fx, x))
            v = UNK if v is UNK else "%02d" % v
        elif t.op == "display":
            v = pev(t.a[0], with_lens(t, fx, x))
            v = v if v is UNK else str(v)
        elif t.op == "slice":
            b = text_of(tokens(t.a[0]), fx, x)
            lo = pev(t.a[1], with_lens(t.a[1], fx, x))
            hi = pev(t.a[2], with_lens(t.a[2], fx, x)) if t.a[2] is not None else (len(b) if b is not UNK else UNK)
            v = UNK if UNK in (b, lo, hi) else b[lo:hi]
        else:
            v = UNK
        if v is UNK or not isinstance(v, str):
            return UNK
        out += v
    return out


def values(facts, fx, lo, hi):
    """the values of fx the path allows, and whether every condition on it was understood"""
    about = [(k, b) for k, b in facts.items() if contains(k, fx)]
    ok, exact = [], True
    for x in range(lo, hi + 1):
        keep = True
        for k, b in about:
            if k.op == "fits":
                continue
            v = pev(k, with_lens(k, fx, x))
            if v is UNK:
                exact = False
            elif bool(v) != bool(b):
                keep = False
                break
        if keep:
            ok.append(x)
    return ok, exact


CLOCK = ("SystemTime::duration_since", "SystemTime::now", "Duration::as_secs", "SystemTimeError::duration", "Duration::as_millis", "Duration::as_secs_f64", "Duration::subsec_nanos", "Duration::subsec_millis", "Duration::subsec_micros", "Duration::as_nanos", "Duration::as_micros", "SystemTime::elapsed")


@prop("P29")
def p29(c):
    where = "Time::format"
    r = c.run(c.anchor("time::Time::format"), ["self"], keep=600)
    me = mk("arg", "self")
    R1 = "a date is written Wdy, DD Mon YYYY HH:MM:SS GMT"
    R2 = "weekdays and months have their own names"
    n = 0
    lay = [("name", "week", WEEK), ", ", ("pad", "day"), " ", ("name", "month", MON), " ", ("num", "year"), " ", ("pad", "hour"), ":", ("pad", "min"), ":", ("pad", "sec"), " GMT"]
    for st, v in r:
        t = r.ret(st, v)
        if cstr(t) == "":
            # only when a name is missing
            c.ok("an impossible date is not written", where)
            continue
        if any(not values(st.facts, field(me, w), lo, hi)[0] for w, (lo, hi) in RANGE.items()):
            continue        # no such date (P33)
        if t.op != "cat":
            judge(c, False, R1, where, "written as %s" % sh(t, 150), [t])
            continue
        n += 1
        toks = tokens(t)
        i = 0
        good = True
        for li, w in enumerate(lay):
            if isinstance(w, str):
                got = toks[i:i + len(w)]
                if got != list(w):
                    good = judge(c, False, R1, where, "%s where %r belongs" % ([x if isinstance(x, str) else sh(x, 60) for x in got], w), [x for x in got if not isinstance(x, str)])
                    break
                i += len(w)
            elif i >= len(toks):
                good = judge(c, False, R1, where, "the %s is missing" % w[1], [])
                break
            elif w[0] == "num":
                p, i = toks[i], i + 1
                x = p.a[0] if not isinstance(p, str) and p.op == "display" else None
                if x is not field(me, w[1]):
                    good = judge(c, False, R1, where, "%s where the %s belongs" % (p if isinstance(p, str) else sh(p, 80), w[1]), [] if isinstance(p, str) else [p])
            elif w[0] == "pad":
                j = i
                while j < len(toks) and toks[j] != lay[li + 1][0]:
                    j += 1
                group, i = toks[i:j], j
                fx = field(me, w[1])
                terms = [x for x in group if not isinstance(x, str)]
                xs, exact = values(st.facts, fx, *RANGE[w[1]])
                if terms and not any(contains(x, fx) for x in terms):
                    good = judge(c, False, R1, where, "%s where the %s belongs" % ([sh(x, 60) for x in terms], w[1]), terms)
                    continue
                out = [(x, text_of(group, fx, x)) for x in xs]
                if any(y is UNK for _, y in out):
                    good = False
                    c.und(R1, where, "the %s is written %s" % (w[1], [x if isinstance(x, str) else sh(x, 80) for x in group]))
                    continue
                wrong = [(x, y) for x, y in out if y != "%02d" % x]
                if wrong:
                    good = False
                    (c.bad if exact else c.und)(R1, where, "the %s %d is written %r" % (w[1], wrong[0][0], wrong[0][1]))
            else:
                p, i = toks[i], i + 1
                tab, ix = (None, None) if isinstance(p, str) else nameof(st, p)
                if tab is None:
                    good = False
                    judge(c, False, R2, where, "the %s is written %s" % (w[1], p if isinstance(p, str) else sh(p, 100)), [app("?")] + ([] if isinstance(p, str) else [p]))
                else:
                    c.req(tab == w[2], R2, where, "the names of the %s are %s" % (w[1], tab))
                    if ix is not field(me, w[1]):
                        good = judge(c, False, R2, where, "the name of the %s is chosen by %s" % (w[1], sh(ix, 80) if ix is not None else None), [ix or app("?")])
        if good and i < len(toks):
            good = judge(c, False, R1, where, "goes on with %s" % [x if isinstance(x, str) else sh(x, 60) for x in toks[i:i + 8]], [x for x in toks[i:] if not isinstance(x, str)])
        if good:
            c.ok(R1, where)
    c.req(n >= 1, "coverage", where, "no written form")
    clock(c)


def clock(c):
    """the moment shown is the one the clock says"""
    where = "Time::now"
    TIME = "time::Time::time"
    g = c.find(TIME)
    rr = c.run(c.anchor("time::Time::now"), [], opaque=[TIME] if g else [])
    R3 = "the time shown is the current one, none before 1970"
    for st, v in rr:
        t = rr.ret(st, v)
        dur = [k.a[0] for k in st.facts if k.op == "isvar" and k.a[0].op == "app" and k.a[0].a[0] in ("SystemTime::duration_since", "SystemTime::elapsed")]
        if variant(t) == "None":
            f = any(k.op == "isvar" and k.a[0] in dur and not b for k, b in st.facts.items()) or any(k.op == "fits" and not b for k, b in st.facts.items())
            judge(c, f, R3, where, "no time although the clock is after 1970", list(st.facts), CLOCK)
        elif t.op == "app" and t.a[0] == TIME:
            x = uncast(t.a[1][0])
            good = x.op == "app" and x.a[0] == "Duration::as_secs" and x.a[1][0].op == "vfld" and x.a[1][0].a[0] in dur
            judge(c, good, R3, where, "the time shown is that of %s" % sh(x, 120), [x], CLOCK)
        else:
            judge(c, False, R3, where, "is %s" % sh(t, 100), [t], (TIME,))
