"""Models of the library functions OctaneWeb/Octane calls (or could reasonably
be rewritten to call).  Each maps the abstract arguments to abstract results;
a function without a model is an opaque call: its result is a term naming the
call, everything it could reach mutably becomes unknown."""
import re
from terms import *
import lin
from lin import TYPES

MODELS = {}
IMPURE = {"SystemTime::now", "File::open", "File::metadata", "AsyncReadExt::read", "AsyncReadExt::read_to_end", "AsyncReadExt::read_exact",
          "StreamExt::next", "TcpListener::accept", "Read::read", "callback", "Instant::now", "fs::read", "fs::metadata", "Socket::new"}


def m(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def pure(*names):
    def f(ip, st, c, args):
        return [(st, mk("app", c.short, tuple(ip.strip(st, a) for a in args), None))]
    for n in names:
        MODELS[n] = f


def generic(c, i=0):
    a = (c.fn or {}).get("args") or []
    return a[i] if i < len(a) else ""


def D(ip, st, a):
    return ip.strip(st, a)


def one(st, v):
    return [(st, v)]


def fork(ip, st, cond, then, els):
    """then/els: state -> [(st, ret)]"""
    out = []
    s = ip.assume(st, cond, True)
    if s:
        out += then(s.copy())
    s = ip.assume(st, cond, False)
    if s:
        out += els(s.copy())
    return out


def setref(ip, st, r, v):
    """store through a reference argument"""
    if r.op == "ref":
        # references to references: follow to the place
        while True:
            x = ip.load(st, r.a[0], r.a[1])
            if x.op == "ref":
                r = x
            else:
                break
        ip.store(st, r.a[0], r.a[1], v)
        return True
    return False


def place(ip, st, r):
    while r.op == "ref":
        x = ip.load(st, r.a[0], r.a[1])
        if x.op == "ref":
            r = x
        else:
            return r
    return None


# ------------------------------------------------------------------ transparent
def _val(ip, st, c, args):
    return one(st, ip.deref(st, args[0]))


def _same(ip, st, c, args):
    return one(st, args[0])


for n in ("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut", "String::as_str",
          "String::as_mut_str", "Vec::as_slice", "Vec::as_mut_slice", "str::as_bytes", "String::as_bytes", "PathBuf::as_path", "Pin::new_unchecked", "Pin::new",
          "Pin::as_mut", "Pin::get_mut", "Box::new", "Box::pin", "Arc::new", "Rc::new", "IntoFuture::into_future", "hint::must_use", "future::get_context", "convert::identity",
          "String::into_bytes", "String::into_boxed_str", "Box::leak", "Vec::into_boxed_slice", "Cow::into_owned", "Path::new", "Pin::into_inner",
          "Box::from", "hint::black_box", "Box::as_ref", "Arc::as_ref", "String::into_string", "Vec::leak", "slice::as_ref", "str::as_str",
          "Into::into", "From::from", "ManuallyDrop::new", "Path::as_os_str", "PathBuf::as_os_str"):
    MODELS[n] = _same
for n in ("ToOwned::to_owned", "Clone::clone", "slice::to_vec", "str::to_owned", "Arc::clone", "str::to_string", "Path::to_path_buf", "slice::into_vec",
          "str::into_string", "Vec::to_vec", "Option::cloned", "Option::copied"):
    MODELS[n] = _val


@m("From::from", "Into::into", "PathBuf::from", "String::from", "Vec::from")
def _from(ip, st, c, args):
    g = (c.fn or {}).get("args") or []
    v = args[0]
    to, fr = (g[0], g[1] if len(g) > 1 else "") if c.short.startswith("From") else (c.dty, g[0] if g else "")
    if to.startswith("std::string::String") or to.startswith("std::vec::Vec") or to.startswith("std::path::PathBuf"):
        return one(st, ip.deref(st, v))
    if to in ("u16", "u32", "u64", "usize", "i32", "i64", "u128", "i128", "char") and fr in ("u8", "u16", "u32", "u64", "bool", "i32", "char"):
        x = ip.deref(st, v)
        if is_c(x):
            return one(st, x)
        t = mk("cast", to, fr, x)
        TYPES.setdefault(t, to)
        return one(st, t)
    if "fmt" in to:
        return None
    if to.startswith("std::collections::Hash"):
        return one(st, mk("app", "Map::from", (D(ip, st, v),), None))
    return one(st, v)


@m("Try::branch")
def _branch(ip, st, c, args):
    v = ip.deref(st, args[0])
    isres = c.dty.startswith("std::ops::ControlFlow<std::result::Result") or generic(c).startswith("std::result")
    pos = "Ok" if isres else "Some"
    CF = "std::ops::ControlFlow"
    if "Poll<" in generic(c)[:30]:
        # Poll<Result<..>>: never pending here
        inner = payload(v, "Ready")
        return fork(ip, st, isvar(inner, "Ok"),
                    lambda s: one(s, agg(CF, "Continue", ("0",), (ready(payload(inner, "Ok")),))),
                    lambda s: one(s, agg(CF, "Break", ("0",), (err(payload(inner, "Err")),))))

    def yes(s):
        return one(s, agg(CF, "Continue", ("0",), (payload(v, pos),)))

    def no(s):
        return one(s, agg(CF, "Break", ("0",), (err(payload(v, "Err")) if isres else NONE,)))
    return fork(ip, st, isvar(v, pos), yes, no)


@m("FromResidual::from_residual")
def _resid(ip, st, c, args):
    v = ip.deref(st, args[0])
    if c.dty.startswith("std::task::Poll"):
        return one(st, ready(v))
    if v.op == "agg" and v.a[1] == "Err":
        return one(st, err(v.a[3][0]))
    return one(st, v)


@m("Future::poll")
def _poll(ip, st, c, args):
    v = ip.deref(st, args[0])
    if v.op == "coro":
        if v.a[0] in st.stack:
            return None
        outs = ip.run_coro(st, v)
        return [(s, ready(r)) for s, r in outs]
    st = st.copy()
    sv = ip.strip(st, v)
    r = mk("await", sv)
    name = sv.a[0] if sv.op == "app" else sv.op
    c.ev(st, name, sv.a[1] if sv.op == "app" else (sv,), r, kind="await", fut=sv)
    return one(st, ready(r))


@m("Runtime::block_on")
def _blockon(ip, st, c, args):
    """runs the future to its end and returns its output"""
    v = ip.deref(st, args[1])
    if v.op != "coro" or v.a[0] in st.stack:
        return None
    st = st.copy()
    c.ev(st, "Runtime::block_on", (args[0],), None)
    return ip.run_coro(st, v)


@m("tokio::spawn", "task::spawn", "spawn::spawn")
def _spawn(ip, st, c, args):
    v = ip.deref(st, args[0])
    exits = None
    if v.op == "coro" and v.a[0] not in st.stack:
        s0 = st.copy()
        s0.ev = None
        sv = v
        exits = ip.run_coro(s0, sv)
    st = st.copy()
    c.ev(st, "spawn", (v,), None, kind="spawn", exits=exits, raw=v)
    return one(st, mk("app", "spawn", (ip.strip(st, v),), st.fresh()))


@m("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def _fncall(ip, st, c, args):
    t = ip.deref(st, args[1])
    if t.op == "agg" and t.a[0] == "tuple":
        xs = list(t.a[3])
    else:
        xs = [t]
    return c.invoke(st, args[0], xs)


# ------------------------------------------------------------------ Option / Result
def pos_of(c, v):
    ty = c.atys[0] if c.atys else ""
    ty = ty.lstrip("&").replace("mut ", "")
    if v.op == "agg" and v.a[1] in ("Some", "None"):
        return "Some"
    if v.op == "agg" and v.a[1] in ("Ok", "Err"):
        return "Ok"
    if c.short.startswith("Result::"):
        return "Ok"
    return "Some"


def optres(*names):
    def deco(f):
        for n in names:
            for T_ in ("Option", "Result"):
                MODELS[T_ + "::" + n] = f
        return f
    return deco


@optres("is_some", "is_ok")
def _is_some(ip, st, c, args):
    v = ip.deref(st, args[0])
    return one(st, isvar(v, pos_of(c, v)))


@optres("is_none", "is_err")
def _is_none(ip, st, c, args):
    v = ip.deref(st, args[0])
    return one(st, neg(isvar(v, pos_of(c, v))))


@optres("unwrap", "expect")
def _unwrap(ip, st, c, args):
    v = ip.deref(st, args[0])
    p = pos_of(c, v)
    t = isvar(v, p)
    r = ip.truth(st, t)
    ip.oblige(st, c.fr, c.span, c.short, r is True, "%s is %s" % (show(v), p), st2=st, goal=t)
    s = ip.assume(st, t, True)
    return one(s, payload(v, p)) if s else []


@optres("unwrap_err", "expect_err")
def _unwrap_err(ip, st, c, args):
    v = ip.deref(st, args[0])
    t = isvar(v, "Err")
    ip.oblige(st, c.fr, c.span, c.short, ip.truth(st, t) is True, "%s is Err" % show(v), st2=st, goal=t)
    s = ip.assume(st, t, True)
    return one(s, payload(v, "Err")) if s else []


@optres("unwrap_or")
def _unwrap_or(ip, st, c, args):
    v = ip.deref(st, args[0])
    p = pos_of(c, v)
    return fork(ip, st, isvar(v, p), lambda s: one(s, payload(v, p)), lambda s: one(s, args[1]))


@optres("unwrap_or_default")
def _unwrap_or_default(ip, st, c, args):
    v = ip.deref(st, args[0])
    p = pos_of(c, v)
    return fork(ip, st, isvar(v, p), lambda s: one(s, payload(v, p)), lambda s: one(s, default_of(ip, c.dty)))


@optres("unwrap_or_else")
def _unwrap_or_else(ip, st, c, args):
    v = ip.deref(st, args[0])
    p = pos_of(c, v)
    return fork(ip, st, isvar(v, p), lambda s: one(s, payload(v, p)),
                lambda s: c.invoke(s, args[1], [] if p == "Some" else [payload(v, "Err")]))


def wrap(p, x):
    return some(x) if p == "Some" else ok(x)


def unit_neg(p, v):
    return NONE if p == "Some" else err(payload(v, "Err"))


@optres("map")
def _omap(ip, st, c, args):
    v = ip.deref(st, args[0])
    p = pos_of(c, v)
    return fork(ip, st, isvar(v, p), lambda s: [(s2, wrap(p, r)) for s2, r in c.invoke(s, args[1], [payload(v, p)])],
                lambda s: one(s, unit_neg(p, v)))


@optres("map_err")
def _omaperr(ip, st, c, args):
    v = ip.deref(st, args[0])
    return fork(ip, st, isvar(v, "Ok"), lambda s: one(s, ok(payload(v, "Ok"))),
                lambda s: [(s2, err(r)) for s2, r in c.invoke(s, args[1], [payload(v, "Err")])])


@optres("and_then")
def _oandthen(ip, st, c, args):
    v = ip.deref(st, args[0])
    p = pos_of(c, v)
    return fork(ip, st, isvar(v, p), lambda s: c.invoke(s, args[1], [payload(v, p)]), lambda s: one(s, unit_neg(p, v)))


@optres("and")
def _oand(ip, st, c, args):
    v = ip.deref(st, args[0])
    p = pos_of(c, v)
    return fork(ip, st, isvar(v, p), lambda s: one(s, args[1]), lambda s: one(s, unit_neg(p, v)))


@optres("or")
def _oor(ip, st, c, args):
    v = ip.deref(st, args[0])
    p = pos_of(c, v)
    return fork(ip, st, isvar(v, p), lambda s: one(s, wrap(p, payload(v, p))), lambda s: one(s, args[1]))


@optres("or_else")
def _oorelse(ip, st, c, args):
    v = ip.deref(st, args[0])
    p = pos_of(c, v)
    return fork(ip, st, isvar(v, p), lambda s: one(s, wrap(p, payload(v, p))),
                lambda s: c.invoke(s, args[1], [] if p == "Some" else [payload(v, "Err")]))


@m("Option::filter")
def _ofilter(ip, st, c, args):
    v = ip.deref(st, args[0])

    def yes(s):
        out = []
        for s2, r in c.invoke(s, args[1], [payload(v, "Some")]):
            out += fork(ip, s2, truthy(ip, s2, r), lambda q: one(q, some(payload(v, "Some"))), lambda q: one(q, NONE))
        return out
    return fork(ip, st, isvar(v, "Some"), yes, lambda s: one(s, NONE))


@optres("is_some_and", "is_ok_and")
def _issomeand(ip, st, c, args):
    v = ip.deref(st, args[0])
    p = pos_of(c, v)
    return fork(ip, st, isvar(v, p), lambda s: c.invoke(s, args[1], [payload(v, p)]), lambda s: one(s, FALSE))


@m("Option::is_none_or")
def _isnoneor(ip, st, c, args):
    v = ip.deref(st, args[0])
    return fork(ip, st, isvar(v, "Some"), lambda s: c.invoke(s, args[1], [payload(v, "Some")]), lambda s: one(s, TRUE))


@optres("map_or")
def _mapor(ip, st, c, args):
    v = ip.deref(st, args[0])
    p = pos_of(c, v)
    return fork(ip, st, isvar(v, p), lambda s: c.invoke(s, args[2], [payload(v, p)]), lambda s: one(s, args[1]))


@optres("map_or_else")
def _maporelse(ip, st, c, args):
    v = ip.deref(st, args[0])
    p = pos_of(c, v)
    return fork(ip, st, isvar(v, p), lambda s: c.invoke(s, args[2], [payload(v, p)]),
                lambda s: c.invoke(s, args[1], [] if p == "Some" else [payload(v, "Err")]))


@m("Result::ok")
def _rok(ip, st, c, args):
    v = ip.deref(st, args[0])
    return fork(ip, st, isvar(v, "Ok"), lambda s: one(s, some(payload(v, "Ok"))), lambda s: one(s, NONE))


@m("Result::err")
def _rerr(ip, st, c, args):
    v = ip.deref(st, args[0])
    return fork(ip, st, isvar(v, "Ok"), lambda s: one(s, NONE), lambda s: one(s, some(payload(v, "Err"))))


@m("Option::ok_or", "Option::ok_or_else")
def _okor(ip, st, c, args):
    v = ip.deref(st, args[0])
    return fork(ip, st, isvar(v, "Some"), lambda s: one(s, ok(payload(v, "Some"))),
                lambda s: one(s, err(args[1])) if c.short == "Option::ok_or" else [(s2, err(r)) for s2, r in c.invoke(s, args[1], [])])


@m("Result>::transpose", "Option<Result>::transpose", "Option>::transpose")
def _transpose(ip, st, c, args):
    v = ip.deref(st, args[0])
    if "option::Option" in (c.atys[0] if c.atys else "").split("<")[0]:
        return fork(ip, st, isvar(v, "Some"),
                    lambda s: fork(ip, s, isvar(ip.deref(s, payload(v, "Some")), "Ok"),
                                   lambda s2: one(s2, ok(some(payload(ip.deref(s2, payload(v, "Some")), "Ok")))),
                                   lambda s2: one(s2, err(payload(ip.deref(s2, payload(v, "Some")), "Err")))),
                    lambda s: one(s, ok(NONE)))
    return fork(ip, st, isvar(v, "Ok"),
                lambda s: fork(ip, s, isvar(ip.deref(s, payload(v, "Ok")), "Some"),
                               lambda s2: one(s2, some(ok(payload(ip.deref(s2, payload(v, "Ok")), "Some")))),
                               lambda s2: one(s2, NONE)),
                lambda s: one(s, some(err(payload(v, "Err")))))


@optres("as_ref", "as_deref", "as_mut", "as_deref_mut", "iter")
def _oasref(ip, st, c, args):
    v = ip.deref(st, args[0])
    p = pos_of(c, v)
    r = place(ip, st, args[0]) if "mut" in c.short else None

    def yes(s):
        if r is not None:
            inner = ip.load(s, r.a[0], r.a[1] + (("vf", p, "0"),))
            if inner.op == "ref":
                return one(s, wrap(p, inner))
            return one(s, wrap(p, mk("ref", r.a[0], r.a[1] + (("vf", p, "0"),), True)))
        return one(s, wrap(p, payload(v, p)))
    if v.op == "agg" or r is not None:
        return fork(ip, st, isvar(v, p), yes, lambda s: one(s, unit_neg(p, v)))
    return one(st, v)


@m("Option::take")
def _otake(ip, st, c, args):
    v = ip.deref(st, args[0])
    st = st.copy()
    setref(ip, st, args[0], NONE)
    return one(st, v)


@m("Option::replace", "Option::insert")
def _orepl(ip, st, c, args):
    v = ip.deref(st, args[0])
    st = st.copy()
    setref(ip, st, args[0], some(args[1]))
    return one(st, v)


@m("mem::take")
def _mtake(ip, st, c, args):
    v = ip.deref(st, args[0])
    st = st.copy()
    setref(ip, st, args[0], default_of(ip, generic(c)))
    return one(st, v)


@m("mem::replace")
def _mrepl(ip, st, c, args):
    v = ip.deref(st, args[0])
    st = st.copy()
    setref(ip, st, args[0], args[1])
    return one(st, v)


@m("mem::swap")
def _mswap(ip, st, c, args):
    a, b = ip.deref(st, args[0]), ip.deref(st, args[1])
    st = st.copy()
    setref(ip, st, args[0], b)
    setref(ip, st, args[1], a)
    return one(st, UNIT)


@m("mem::drop", "mem::forget")
def _mdrop(ip, st, c, args):
    return one(st, UNIT)


def truthy(ip, st, r):
    return ip.deref(st, r)


@m("bool::then", "bool::then_some")
def _then(ip, st, c, args):
    v = ip.deref(st, args[0])
    return fork(ip, st, v, lambda s: [(s2, some(r)) for s2, r in c.invoke(s, args[1], [])] if c.short == "bool::then" else one(s, some(args[1])),
                lambda s: one(s, NONE))


# ------------------------------------------------------------------ defaults, constructors
def default_of(ip, ty):
    ty = ty.strip()
    while ty.startswith("&"):
        ty = re.sub(r"^&('\w+ )?(mut )?", "", ty)
    if ty in ("str",) or ty.startswith("std::string::String"):
        return S("")
    if ty.startswith("std::vec::Vec") or re.match(r"^\[[^;]*\]$", ty):
        return EMPTYSEQ
    if ty.startswith("std::collections::HashMap") or ty.startswith("std::collections::BTreeMap") or ty.startswith("std::collections::HashSet"):
        return EMPTYMAP
    if ty.startswith("std::option::Option"):
        return NONE
    if ty == "bool":
        return FALSE
    if ty in lin.UNSIGNED or ty in ("i8", "i16", "i32", "i64", "i128", "isize"):
        return I(0)
    if ty == "()":
        return UNIT
    mm = re.match(r"^\[(.*); (\d+)\]$", ty)
    if mm:
        return mk("seq", tuple(default_of(ip, mm.group(1)) for _ in range(int(mm.group(2)))))
    return mk("default", ty)


@m("Default::default")
def _default(ip, st, c, args):
    f = local_impl(ip, c.dty, "std::default::Default", "default")
    if f and not f["derived"] and f["path"] not in st.stack:
        return ip.exec_fn(st.copy(), f, [])
    return one(st, default_of(ip, c.dty))


def _const(v):
    return lambda ip, st, c, args: one(st, v)


for n in ("String::new", "String::with_capacity"):
    MODELS[n] = _const(S(""))
for n in ("Vec::new", "VecDeque::new"):
    MODELS[n] = _const(EMPTYSEQ)
for n in ("HashMap::new", "HashSet::new", "BTreeMap::new", "HashMap::default"):
    MODELS[n] = _const(EMPTYMAP)
MODELS["PathBuf::new"] = _const(S(""))


@m("Vec::with_capacity", "HashMap::with_capacity", "String::with_capacity", "vec::from_elem", "Vec::reserve", "Vec::reserve_exact", "Vec::resize",
   "String::reserve", "BytesMut::with_capacity", "BytesMut::reserve")
def _alloc(ip, st, c, args):
    st = st.copy()
    n = D(ip, st, args[1] if c.short.split("::")[1] in ("from_elem", "reserve", "reserve_exact", "resize") else args[0])
    c.ev(st, c.short, (n,), None, kind="alloc")
    if ip.untrusted(n):
        g = le(n, I(1 << 31))
        ip.oblige(st, c.fr, c.span, "alloc", ip.truth(st, g) is True, "memory for %s items" % show(n), st2=st, goal=g)
    k = c.short
    if k == "vec::from_elem":
        v = D(ip, st, args[0])
        if is_c(n, "int") and cval(n) <= 16:
            return one(st, mk("seq", (v,) * cval(n)))
        return one(st, mk("fromelem", v, n))
    if k.startswith("Vec::with"):
        return one(st, EMPTYSEQ)
    if k.startswith("HashMap"):
        return one(st, EMPTYMAP)
    if k.startswith("String::with"):
        return one(st, S(""))
    if k.endswith("resize"):
        v = ip.deref(st, args[0])
        setref(ip, st, args[0], mk("app", "Vec::resize", (ip.strip(st, v), n), None))
    return one(st, UNIT)


@m("Box::new_uninit")
def _boxnu(ip, st, c, args):
    st = st.copy()
    cell = ("heap", st.fresh())
    st.mem[cell] = mk("undef", str(cell))
    return one(st, mk("ref", cell, (), True))


@m("boxed::box_assume_init_into_vec_unsafe")
def _boxvec(ip, st, c, args):
    v = args[0]
    x = ip.deref(st, v)
    # the array literal was stored somewhere below the MaybeUninit wrapper
    for _ in range(4):
        if x.op == "with":
            x = x.a[1][0][1]
        elif x.op == "agg" and len(x.a[3]) == 1:
            x = x.a[3][0]
    return one(st, x)


@m("RangeInclusive::new")
def _rincl(ip, st, c, args):
    return one(st, mk("it", "range", ip.deref(st, args[0]), ip.deref(st, args[1]), True))


@m("Lazy::get")
def _lazy(ip, st, c, args):
    return c.invoke(st, args[1], [])


@m("OnceCell::get_or_init", "OnceLock::get_or_init")
def _oncelock(ip, st, c, args):
    return c.invoke(st, args[1], [])


@m("LazyLock::force", "Lazy::force")
def _lazylock(ip, st, c, args):
    return None


# ------------------------------------------------------------------ comparison
@m("PartialEq::eq")
def _eq(ip, st, c, args):
    return one(st, eq(D(ip, st, args[0]), D(ip, st, args[1])))


@m("PartialEq::ne")
def _ne(ip, st, c, args):
    return one(st, neg(eq(D(ip, st, args[0]), D(ip, st, args[1]))))


@m("PartialOrd::lt")
def _lt(ip, st, c, args):
    return one(st, lt(D(ip, st, args[0]), D(ip, st, args[1])))


@m("PartialOrd::gt")
def _gt(ip, st, c, args):
    return one(st, lt(D(ip, st, args[1]), D(ip, st, args[0])))


@m("PartialOrd::le")
def _le(ip, st, c, args):
    return one(st, le(D(ip, st, args[0]), D(ip, st, args[1])))


@m("PartialOrd::ge")
def _ge(ip, st, c, args):
    return one(st, le(D(ip, st, args[1]), D(ip, st, args[0])))


@m("Ord::cmp", "PartialOrd::partial_cmp")
def _cmp(ip, st, c, args):
    t = mk("cmp", D(ip, st, args[0]), D(ip, st, args[1]))
    return one(st, t if c.short == "Ord::cmp" else some(t))


@m("Ord::min", "cmp::min")
def _min(ip, st, c, args):
    a, b = D(ip, st, args[0]), D(ip, st, args[1])
    return fork(ip, st, le(a, b), lambda s: one(s, a), lambda s: one(s, b))


@m("Ord::max", "cmp::max")
def _max(ip, st, c, args):
    a, b = D(ip, st, args[0]), D(ip, st, args[1])
    return fork(ip, st, le(a, b), lambda s: one(s, b), lambda s: one(s, a))


@m("RangeInclusive::contains", "Range::contains", "RangeFrom::contains", "RangeTo::contains", "RangeToInclusive::contains", "RangeBounds::contains")
def _rcontains(ip, st, c, args):
    r, x = D(ip, st, args[0]), D(ip, st, args[1])
    r = as_range(r)
    if r is None:
        return None
    lo, hi, inc = r
    t = TRUE
    if lo is not None:
        t = binop("BitAnd", t, le(lo, x))
    if hi is not None:
        t = binop("BitAnd", t, le(x, hi) if inc else lt(x, hi))
    return one(st, t)


@m("num::checked_sub")
def _checked_sub(ip, st, c, args):
    a, b = D(ip, st, args[0]), D(ip, st, args[1])
    return fork(ip, st, le(b, a), lambda s: one(s, some(sub(a, b))), lambda s: one(s, NONE))


@m("num::saturating_sub")
def _sat_sub(ip, st, c, args):
    a, b = D(ip, st, args[0]), D(ip, st, args[1])
    return fork(ip, st, le(b, a), lambda s: one(s, sub(a, b)), lambda s: one(s, I(0)))


@m("num::checked_add", "num::saturating_add", "num::wrapping_add")
def _checked_add(ip, st, c, args):
    a, b = D(ip, st, args[0]), D(ip, st, args[1])
    v = add(a, b)
    return one(st, some(v) if "checked" in c.short else v)


@m("num::rem_euclid", "num::div_euclid")
def _reme(ip, st, c, args):
    a, b = D(ip, st, args[0]), D(ip, st, args[1])
    return one(st, mk("bin", "RemE" if "rem" in c.short else "DivE", a, b))


@m("TryInto::try_into", "TryFrom::try_from")
def _tryinto(ip, st, c, args):
    v = D(ip, st, args[0])
    mm = re.match(r"std::result::Result<(\w+),", c.dty)
    if not mm:
        return None
    to = mm.group(1)
    g = (c.fn or {}).get("args") or []
    fr = g[0] if c.short.startswith("TryInto") else (g[1] if len(g) > 1 else "")
    t = mk("cast", to, fr, v)
    TYPES.setdefault(t, to)
    if is_c(v, "int"):
        from ai import MAXV, MINV
        return one(st, ok(v) if MINV.get(to, 0) <= cval(v) <= MAXV.get(to, 0) else err(mk("konst", "TryFromIntError", "")))
    return fork(ip, st, mk("fits", v, to), lambda s: one(s, ok(t)), lambda s: one(s, err(mk("konst", "TryFromIntError", ""))))


# ------------------------------------------------------------------ characters
FULL = ((0, 0x10FFFF),)
CLS = {
    "is_ascii_digit": ((48, 57),), "is_ascii_lowercase": ((97, 122),), "is_ascii_uppercase": ((65, 90),),
    "is_ascii_alphabetic": ((65, 90), (97, 122)), "is_ascii_alphanumeric": ((48, 57), (65, 90), (97, 122)),
    "is_ascii_hexdigit": ((48, 57), (65, 70), (97, 102)), "is_ascii_control": ((0, 31), (127, 127)),
    "is_ascii_graphic": ((33, 126),), "is_ascii_punctuation": ((33, 47), (58, 64), (91, 96), (123, 126)),
    "is_ascii_whitespace": ((9, 10), (12, 13), (32, 32)), "is_ascii": ((0, 127),), "is_control": ((0, 31), (127, 159)),
    "is_whitespace": ((9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)),
}


def norm_set(iv):
    iv = sorted(iv)
    out = []
    for lo, hi in iv:
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return tuple(out)


def charset(iv):
    return mk("charset", norm_set(iv))


def inset(iv, n):
    return any(lo <= n <= hi for lo, hi in iv)


def _cls(name):
    def f(ip, st, c, args):
        v = D(ip, st, args[0])
        if is_c(v, "char") or is_c(v, "int"):
            return one(st, B(inset(CLS[name], cval(v))))
        return one(st, mk("inset", v, charset(CLS[name])))
    return f


UNI = {"is_alphanumeric": str.isalnum, "is_alphabetic": str.isalpha, "is_numeric": str.isnumeric, "is_lowercase": str.islower, "is_uppercase": str.isupper}


def _unicls(name):
    def f(ip, st, c, args):
        if name not in CLS:
            CLS[name] = norm_set([(i, i) for i in range(0x110000) if not 0xD800 <= i < 0xE000 and UNI[name](chr(i))])
        return _cls(name)(ip, st, c, args)
    return f


for _n in UNI:
    MODELS["char::" + _n] = _unicls(_n)


for _n in CLS:
    for _p in ("char", "num", "u8"):
        MODELS[_p + "::" + _n] = _cls(_n)


@m("char::is_digit")
def _isdigit(ip, st, c, args):
    v, r = D(ip, st, args[0]), D(ip, st, args[1])
    if is_c(r, "int") and cval(r) in (10, 16):
        return one(st, mk("inset", v, charset(CLS["is_ascii_digit" if cval(r) == 10 else "is_ascii_hexdigit"])))
    return None


@m("char::to_digit")
def _todigit(ip, st, c, args):
    v, r = D(ip, st, args[0]), D(ip, st, args[1])
    if not (is_c(r, "int") and cval(r) in (10, 16)):
        return None
    outs = []
    rngs = [(48, 57, 48)] + ([(65, 70, 55), (97, 102, 87)] if cval(r) == 16 else [])
    rest = st
    for lo, hi, off in rngs:
        t = mk("inset", v, charset([(lo, hi)]))
        s = ip.assume(rest, t, True) if rest else None
        if s:
            x = sub(mk("cast", "u32", "char", v), I(off))
            TYPES.setdefault(x, "u32")
            outs.append((s.copy(), some(x)))
        rest = ip.assume(rest, t, False) if rest else None
    if rest:
        outs.append((rest.copy(), NONE))
    return outs


@m("convert::from_digit")
def _x(ip, st, c, args):
    return None


def ceval(t, v, n, facts=None):
    """value of a term in which the character `v` is the code point n, or None"""
    if t is v:
        return n
    if t.op == "c":
        return t.a[1] if not isinstance(t.a[1], (str, tuple)) else None
    if t.op == "cast":
        x = ceval(t.a[2], v, n)
        if x is None or isinstance(x, bool):
            return None
        bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i32": 32, "i64": 64, "char": 32}.get(t.a[0])
        return None if bits is None else x & ((1 << bits) - 1)
    if t.op == "not":
        x = ceval(t.a[0], v, n)
        return None if x is None else not x
    if t.op == "eq":
        a, b = ceval(t.a[0], v, n), ceval(t.a[1], v, n)
        return None if a is None or b is None else a == b
    if t.op == "lt":
        a, b = ceval(t.a[0], v, n), ceval(t.a[1], v, n)
        return None if a is None or b is None else a < b
    if t.op == "inset":
        a = ceval(t.a[0], v, n)
        return None if a is None else inset(t.a[1].a[0], a)
    if t.op == "bin":
        a, b = ceval(t.a[1], v, n), ceval(t.a[2], v, n)
        if t.a[0] == "BitAnd" and (a is False or b is False):
            return False
        if t.a[0] == "BitOr" and (a is True or b is True):
            return True
        if a is None or b is None:
            return None
        o = t.a[0]
        if o in ("Div", "Rem") and not b:
            return None
        return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b,
                "BitXor": lambda: a ^ b, "Div": lambda: a // b, "Rem": lambda: a % b}.get(o, lambda: None)()
    return None


def breakpoints(ts, v):
    """code points at which a term over the character v can change, and whether it is looked at modulo 256"""
    bp = {0, 0x110000}
    mod = False
    for t in ts:
        for x in subterms(t):
            if x.op == "c" and isinstance(x.a[1], int) and not isinstance(x.a[1], bool):
                for d in (0, 1):
                    if 0 <= x.a[1] + d <= 0x110000:
                        bp.add(x.a[1] + d)
            if x.op == "charset":
                for lo, hi in x.a[0]:
                    bp.add(lo)
                    bp.add(hi + 1)
            if x.op == "cast" and x.a[0] in ("u8", "u16") and x.a[2] is v and TYPES.get(v) != "u8" and x.a[1] != "u8":
                mod = True
            if x.op == "bin" and x.a[0] in ("Add", "Sub", "BitAnd", "BitOr", "Mul"):
                mod = True
    return sorted(bp), mod


def solve_char(outs, v):
    """outs: [(conditions {term: bool}, result term)] over the character v.
    Exact partition of the code points: returns [(lo, hi, out index)] or None"""
    terms = []
    for f, r in outs:
        terms += [t for t in f if contains(t, v)]
        terms.append(r)
    bp, mod = breakpoints(terms, v)
    pts = []
    for i in range(len(bp) - 1):
        lo, hi = bp[i], bp[i + 1] - 1
        if lo > hi:
            continue
        if mod:
            if hi - lo >= 256:
                for k in range(lo, lo + 256):
                    pts.append((k, k))
                # one full period more decides the rest of a long interval
                pts.append((lo + 256, hi))
            else:
                for k in range(lo, hi + 1):
                    pts.append((k, k))
        else:
            pts.append((lo, hi))
    res = []
    for lo, hi in pts:
        hit = None
        probes = (lo,) if lo == hi or not mod else tuple(range(lo, min(hi, lo + 255) + 1))
        got = set()
        for n in probes:
            mine = []
            for i, (f, r) in enumerate(outs):
                okk = True
                for t, val in f.items():
                    if not contains(t, v):
                        continue
                    x = ceval(t, v, n)
                    if x is None:
                        return None
                    if bool(x) != val:
                        okk = False
                        break
                if okk:
                    mine.append(i)
            if len(mine) != 1:
                return None
            got.add(mine[0])
        if len(got) != 1:
            for n in range(lo, hi + 1):
                pass
            return None
        res.append((lo, hi, got.pop()))
    return res


def predset(ip, st, c, f, ty="char"):
    """the set of characters (bytes) a predicate accepts, as a charset term, or None"""
    v = mk("arg", "$c", ty)
    if ty == "u8":
        TYPES.setdefault(v, "u8")
    n0, p0, o0 = len(ip.obl), len(ip.panics), st.ev
    s = st.copy()
    s.facts = {}
    try:
        outs = c.invoke(s, f, [v])
    except RecursionError:
        return None
    conds = [(s2.facts, ip.deref(s2, r)) for s2, r in outs]
    acc = []
    alls = []
    for fa, r in conds:
        if r is TRUE or r is FALSE:
            alls.append((fa, r))
        else:
            a, b = dict(fa), dict(fa)
            a[r] = True
            b[r] = False
            alls.append((a, TRUE))
            alls.append((b, FALSE))
    sol = solve_char(alls, v)
    if sol is None:
        return None
    top = 255 if ty == "u8" else 0x10FFFF
    return charset([(lo, min(hi, top)) for lo, hi, i in sol if alls[i][1] is TRUE and lo <= top])


def pattern(ip, st, c, p):
    """string pattern argument -> constant string, charset, or the value"""
    x = ip.deref(st, p)
    x = ip.strip(st, x)
    if is_c(x, "char"):
        return S(chr(cval(x)))
    if x.op == "seq" and x.a[0] and all(is_c(y, "char") for y in x.a[0]):
        iv = charset([(cval(y), cval(y)) for y in x.a[0]])
        return simpl_set(iv)
    if x.op in ("clo", "fn", "zst"):
        cs = predset(ip, st, c, p)
        return simpl_set(cs) if cs is not None else x
    return x


def simpl_set(cs):
    iv = cs.a[0]
    if len(iv) == 1 and iv[0][0] == iv[0][1]:
        return S(chr(iv[0][0]))
    return cs


# ------------------------------------------------------------------ strings
def app(name, *a):
    return mk("app", name, tuple(a), None)


pure("str::to_ascii_lowercase", "str::to_ascii_uppercase", "str::to_lowercase", "str::to_uppercase", "Path::extension", "Path::file_name", "OsStr::to_str",
     "String::from_utf8_lossy", "Duration::from_secs", "Duration::as_secs", "Metadata::len", "Metadata::is_file", "Metadata::is_dir", "Metadata::file_type", "Path::file_stem", "str::replace",
     "str::char_indices", "char::to_ascii_lowercase", "char::to_ascii_uppercase", "u8::to_ascii_lowercase", "str::eq_ignore_ascii_case", "slice::concat",
     "slice::join", "str::repeat", "Ipv4Addr::new", "SocketAddr::new", "Domain::ipv4", "Type::stream", "Cursor::new", "Path::to_str", "Path::to_string_lossy",
     "SslMethod::tls", "io::split", "AsyncReadExt::take", "num::to_ascii_lowercase", "char::from_u32", "str::is_char_boundary", "OsStr::to_string_lossy",
     "PathBuf::join", "Path::join", "Ipv4Addr::from", "char::len_utf8")


@m("str::len", "String::len", "Vec::len", "slice::len", "HashMap::len", "ExactSizeIterator::len", "HashSet::len", "VecDeque::len")
def _len(ip, st, c, args):
    v = D(ip, st, args[0])
    if v.op == "it":
        return None
    r = mklen(v)
    return one(st, r)


@m("str::is_empty", "String::is_empty", "Vec::is_empty", "slice::is_empty", "HashMap::is_empty", "HashSet::is_empty")
def _isempty(ip, st, c, args):
    return one(st, eq(mklen(D(ip, st, args[0])), I(0)))


@m("str::find")
def _find(ip, st, c, args):
    return one(st, app("str::find", D(ip, st, args[0]), pattern(ip, st, c, args[1])))


@m("str::rfind")
def _rfind(ip, st, c, args):
    return one(st, app("str::rfind", D(ip, st, args[0]), pattern(ip, st, c, args[1])))


@m("str::contains", "str::starts_with", "str::ends_with", "slice::contains", "slice::starts_with", "slice::ends_with")
def _contains(ip, st, c, args):
    s, p = D(ip, st, args[0]), pattern(ip, st, c, args[1])
    if c.short == "str::contains":
        return one(st, isvar(app("str::find", s, p), "Some"))
    return one(st, app(c.short, s, p))


def plen(p):
    if p.op == "charset":
        if all(hi < 128 for lo, hi in p.a[0]):
            return I(1)
        return None
    return mklen(p)


@m("str::split_once")
def _splitonce(ip, st, c, args):
    s, p = D(ip, st, args[0]), pattern(ip, st, c, args[1])
    f = app("str::find", s, p)
    n = plen(p)
    if n is None:
        return None
    i = payload(f, "Some")
    return fork(ip, st, isvar(f, "Some"), lambda q: one(q, some(tup(mkslice(s, I(0), i), mkslice(s, add(i, n), None)))), lambda q: one(q, NONE))


@m("str::strip_prefix", "str::strip_suffix")
def _strip_prefix(ip, st, c, args):
    s, p = D(ip, st, args[0]), pattern(ip, st, c, args[1])
    pre = c.short.endswith("prefix")
    n = plen(p)
    if n is None:
        return None
    t = app("str::starts_with" if pre else "str::ends_with", s, p)
    return fork(ip, st, t, lambda q: one(q, some(mkslice(s, n, None) if pre else mkslice(s, I(0), sub(mklen(s), n)))), lambda q: one(q, NONE))


@m("slice::strip_prefix", "slice::strip_suffix")
def _strip_prefix_slice(ip, st, c, args):
    s, p = D(ip, st, args[0]), D(ip, st, args[1])
    pre = c.short.endswith("prefix")
    n = mklen(p)
    if not is_c(n, "int"):
        return None
    t = app("slice::starts_with" if pre else "slice::ends_with", s, p)
    return fork(ip, st, t, lambda q: one(q, some(mkslice(s, n, None) if pre else mkslice(s, I(0), sub(mklen(s), n)))), lambda q: one(q, NONE))


@m("str::trim", "str::trim_start", "str::trim_end")
def _trim(ip, st, c, args):
    return one(st, app(c.short.replace("trim", "trim", 1) + "_matches" if c.short != "str::trim" else "str::trim_matches", D(ip, st, args[0]), charset(CLS["is_whitespace"])))


@m("str::trim_matches", "str::trim_start_matches", "str::trim_end_matches", "str::trim_left_matches", "str::trim_right_matches")
def _trimm(ip, st, c, args):
    p = pattern(ip, st, c, args[1])
    n = c.short.replace("left", "start").replace("right", "end")
    s = D(ip, st, args[0])
    # trimming one end and then the other is trimming both
    other = {"str::trim_start_matches": "str::trim_end_matches", "str::trim_end_matches": "str::trim_start_matches"}.get(n)
    if other and s.op == "app" and s.a[0] == other and s.a[1][1] is p:
        return one(st, app("str::trim_matches", s.a[1][0], p))
    return one(st, app(n, s, p))


@m("str::split", "str::rsplit", "str::split_terminator", "str::split_inclusive")
def _split(ip, st, c, args):
    s, p = D(ip, st, args[0]), pattern(ip, st, c, args[1])
    return one(st, mk("it", c.short.split("::")[1], s, p))


@m("str::lines", "str::split_whitespace", "str::split_ascii_whitespace")
def _lines(ip, st, c, args):
    return one(st, mk("it", c.short.split("::")[1], D(ip, st, args[0])))


@m("str::splitn", "str::rsplitn")
def _splitn(ip, st, c, args):
    s, n, p = D(ip, st, args[0]), D(ip, st, args[1]), pattern(ip, st, c, args[2])
    return one(st, mk("it", c.short.split("::")[1], s, p, n))


@m("slice::split")
def _ssplit(ip, st, c, args):
    cs = predset(ip, st, c, args[1], "u8")
    return one(st, mk("it", "bsplit", D(ip, st, args[0]), simpl_set(cs) if cs is not None else D(ip, st, args[1])))


@m("str::chars")
def _chars(ip, st, c, args):
    return one(st, mk("it", "chars", D(ip, st, args[0])))


@m("str::bytes")
def _bytes(ip, st, c, args):
    return one(st, mk("it", "elems", D(ip, st, args[0])))


@m("str::parse", "FromStr::from_str")
def _parse(ip, st, c, args):
    ty = generic(c)
    f = local_impl(ip, ty, "std::str::FromStr", "from_str")
    if f and f["path"] not in st.stack:
        return ip.exec_fn(st.copy(), f, args)
    t = app("str::parse", D(ip, st, args[0]), S(ty))
    pv = payload(t, "Ok")
    if ty in lin.UNSIGNED or ty in ("i32", "i64"):
        TYPES.setdefault(pv, ty)
    return one(st, t)


@m("str::from_utf8", "String::from_utf8")
def _fromutf8(ip, st, c, args):
    x = D(ip, st, args[0])
    t = app("from_utf8", x)
    return fork(ip, st, isvar(t, "Ok"), lambda s: one(s, ok(x)), lambda s: one(s, err(payload(t, "Err"))))


@m("char::encode_utf8")
def _encutf8(ip, st, c, args):
    return one(st, app("utf8", D(ip, st, args[0])))


@m("String::push_str", "String::push")
def _pushstr(ip, st, c, args):
    st = st.copy()
    v = ip.deref(st, args[0])
    if not setref(ip, st, args[0], cat(v, D(ip, st, args[1]))):
        return None
    return one(st, UNIT)


@m("Add::add")
def _add(ip, st, c, args):
    if generic(c).startswith("std::string::String"):
        return one(st, cat(D(ip, st, args[0]), D(ip, st, args[1])))
    a, b = D(ip, st, args[0]), D(ip, st, args[1])
    if inttype(generic(c)):
        return one(st, add(a, b))
    return None


INTT = lin.UNSIGNED | {"i8", "i16", "i32", "i64", "i128", "isize"}


def inttype(t):
    return re.sub(r"^&('\w+ )?(mut )?", "", t) in INTT


@m("Sub::sub", "Mul::mul", "Div::div", "Rem::rem")
def _arith(ip, st, c, args):
    if not inttype(generic(c)):
        return None
    o = c.short.split("::")[0]
    a, b = D(ip, st, args[0]), D(ip, st, args[1])
    if o in ("Div", "Rem") and not (is_c(b, "int") and cval(b) > 0):
        return None
    return one(st, binop(o, a, b))


@m("SubAssign::sub_assign", "MulAssign::mul_assign", "DivAssign::div_assign", "RemAssign::rem_assign")
def _arithassign(ip, st, c, args):
    if not inttype(generic(c)):
        return None
    o = c.short.split("::")[0][:3]
    b = D(ip, st, args[1])
    if o in ("Div", "Rem") and not (is_c(b, "int") and cval(b) > 0):
        return None
    st = st.copy()
    setref(ip, st, args[0], binop(o, ip.deref(st, args[0]), b))
    return one(st, UNIT)


@m("AddAssign::add_assign")
def _addassign(ip, st, c, args):
    st = st.copy()
    if generic(c).startswith("std::string::String"):
        setref(ip, st, args[0], cat(ip.deref(st, args[0]), D(ip, st, args[1])))
        return one(st, UNIT)
    if generic(c) in INTT:
        setref(ip, st, args[0], add(ip.deref(st, args[0]), D(ip, st, args[1])))
        return one(st, UNIT)
    return None


@m("String::clear", "Vec::clear")
def _clear(ip, st, c, args):
    st = st.copy()
    setref(ip, st, args[0], S("") if c.short.startswith("String") else EMPTYSEQ)
    return one(st, UNIT)


@m("HashMap::clear")
def _mclear(ip, st, c, args):
    st = st.copy()
    setref(ip, st, args[0], EMPTYMAP)
    return one(st, UNIT)


@m("slice::concat")
def _sconcat(ip, st, c, args):
    v = D(ip, st, args[0])
    if v.op == "seq":
        return one(st, cat(*v.a[0]))
    return None


@m("slice::join")
def _sjoin(ip, st, c, args):
    v, sep = D(ip, st, args[0]), D(ip, st, args[1])
    if v.op == "seq":
        out = []
        for i, x in enumerate(v.a[0]):
            if i:
                out.append(sep)
            out.append(x)
        return one(st, cat(*out))
    return one(st, app("slice::join", v, sep))


# ------------------------------------------------------------------ formatting
@m("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex")
def _argnew(ip, st, c, args):
    ty = generic(c, 1) or generic(c, 0)
    kind = c.short.split("new_")[1]
    return one(st, mk("fmtarg", kind, ty, D(ip, st, args[0])))


@m("Arguments::from_str", "Arguments::new_const", "Arguments::from_str_nonconst")
def _argfromstr(ip, st, c, args):
    v = D(ip, st, args[0])
    if v.op == "seq":
        v = cat(*v.a[0])
    return one(st, mk("fmtargs", (v,)))


@m("Arguments::new")
def _argsnew(ip, st, c, args):
    tpl = ip.deref(st, args[0])
    al = ip.deref(st, args[1])
    al = ip.strip(st, al)
    if not is_c(tpl, "bytes") or al.op != "seq":
        return None
    b = tpl.a[1]
    parts, i, n = [], 0, 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            parts.append(S(bytes(b[i:i + x]).decode("utf8")))
            i += x
        elif x == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            parts.append(S(bytes(b[i:i + ln]).decode("utf8")))
            i += ln
        elif x == 0xC0:
            parts.append(al.a[0][n] if n < len(al.a[0]) else mk("undef", "arg"))
            n += 1
        else:
            # placeholder with options: flags(4) width(2) precision(2) index(2), each if its bit is set
            opts = []
            if x & 1:
                opts.append(("flags", b[i] | b[i + 1] << 8 | b[i + 2] << 16 | b[i + 3] << 24))
                i += 4
            if x & 2:
                opts.append(("width", b[i] | b[i + 1] << 8))
                i += 2
            if x & 4:
                opts.append(("prec", b[i] | b[i + 1] << 8))
                i += 2
            if x & 8:
                n = b[i] | b[i + 1] << 8
                i += 2
            a = al.a[0][n] if n < len(al.a[0]) else mk("undef", "arg")
            parts.append(mk("fmtopt", a, tuple(opts)) if opts else a)
            n += 1
    return one(st, mk("fmtargs", tuple(parts)))


def local_impl(ip, ty, trait, method):
    ty0 = re.sub(r"^(&('\w+ )?(mut )?)+", "", ty.strip())
    cand = []
    key = re.sub(r"<.*>$", "", ty0)
    tr = trait.split("::")[-1]
    for p, f in ip.p.fns.items():
        if not p.endswith("::" + method):
            continue
        mm = re.match(r"^<(.+) as (.+)>::(\w+)$", p)
        if not mm:
            continue
        if re.sub(r"<.*>$", "", mm.group(1)) == key and re.sub(r"<.*>", "", mm.group(2)).split("::")[-1] == tr:
            cand.append(f)
    return cand[0] if len(cand) == 1 else None


def render(ip, st, c, part):
    """display of one format part -> [(st, string term)]"""
    if part.op == "fmtopt":
        outs = render(ip, st, c, part.a[0])
        return [(s, mk("padded", v, part.a[1])) for s, v in outs]
    if part.op != "fmtarg":
        return one(st, part)
    kind, ty, v = part.a
    return display(ip, st, c, v, ty, kind)


def display(ip, st, c, v, ty, kind="display"):
    ty0 = re.sub(r"^(&('\w+ )?(mut )?)+", "", ty.strip())
    if kind == "display":
        if v.op == "c" and v.a[0] in ("str", "char"):
            return one(st, S(cstr(v)))
        if is_c(v, "int"):
            return one(st, S(str(cval(v))))
        if ty0 in ("str", "char") or ty0.startswith("std::string::String") or ty0.startswith("std::borrow::Cow<'_, str>"):
            return one(st, v)
        f = local_impl(ip, ty0, "std::fmt::Display", "fmt")
        if f and f["path"] not in st.stack and f["path"] not in ip.opaque:
            st = st.copy()
            cell, fc = ("heap", st.fresh()), ("heap", st.fresh())
            st.mem[cell] = v
            st.mem[fc] = S("")
            outs = ip.exec_fn(st, f, [mk("ref", cell, (), False), mk("ref", fc, (), True)])
            res = []
            for s, r in outs:
                res.append((s, s.mem.pop(fc)))
                s.mem.pop(cell, None)
            return res
        return one(st, mk("display", v, ty0))
    return one(st, mk("fmt", kind, v, ty0))


def render_all(ip, st, c, parts):
    acc = [(st, [])]
    for p in parts:
        nxt = []
        for s, xs in acc:
            for s2, v in render(ip, s, c, p):
                nxt.append((s2, xs + [v]))
        acc = nxt
    return [(s, cat(*xs)) for s, xs in acc]


@m("fmt::format", "format::format_inner")
def _format(ip, st, c, args):
    a = ip.deref(st, args[0])
    if a.op != "fmtargs":
        return None
    return render_all(ip, st, c, a.a[0])


@m("ToString::to_string")
def _tostring(ip, st, c, args):
    return display(ip, st, c, D(ip, st, args[0]), generic(c))


@m("Formatter::write_fmt", "Write::write_fmt", "fmt::write")
def _writefmt(ip, st, c, args):
    a = ip.deref(st, args[1])
    if a.op != "fmtargs":
        return None
    out = []
    for s, v in render_all(ip, st, c, a.a[0]):
        s = s.copy()
        if not setref(ip, s, args[0], cat(ip.deref(s, args[0]), v)):
            return None
        out.append((s, ok(UNIT)))
    return out


@m("Formatter::write_str", "Formatter::write_char", "Write::write_str", "Write::write_char", "Formatter::pad")
def _writestr(ip, st, c, args):
    st = st.copy()
    if not setref(ip, st, args[0], cat(ip.deref(st, args[0]), D(ip, st, args[1]))):
        return None
    return one(st, ok(UNIT))


@m("Display::fmt")
def _dispfmt(ip, st, c, args):
    st = st.copy()
    out = []
    for s, v in display(ip, st, c, D(ip, st, args[0]), generic(c)):
        s = s.copy()
        if not setref(ip, s, args[1], cat(ip.deref(s, args[1]), v)):
            return None
        out.append((s, ok(UNIT)))
    return out


@m("io::_print", "io::_eprint", "stdio::_print", "stdio::_eprint")
def _print(ip, st, c, args):
    st = st.copy()
    c.ev(st, "print", args, None, kind="print")
    return one(st, UNIT)


# ------------------------------------------------------------------ ranges, indexing
def as_range(v):
    """(lo, hi, inclusive) with None for an open end"""
    if v.op == "it" and v.a[0] == "range":
        return v.a[1], v.a[2], v.a[3]
    if v.op == "agg":
        n = v.a[0].split("::")[-1]
        if n == "Range":
            return v.a[3][0], v.a[3][1], False
        if n == "RangeFrom":
            return v.a[3][0], None, False
        if n == "RangeTo":
            return None, v.a[3][0], False
        if n == "RangeToInclusive":
            return None, v.a[3][0], True
        if n == "RangeFull":
            return None, None, False
    if v.op == "zst" and "RangeFull" in v.a[0]:
        return None, None, False
    return None


def isstr(ty):
    ty = re.sub(r"^(&('\w+ )?(mut )?)+", "", ty.strip())
    return ty == "str" or ty.startswith("std::string::String")


def boundary(ip, st, s, t):
    """t is a character boundary of the string s (t <= len s known separately)"""
    if is_c(t, "int") and cval(t) == 0:
        return True
    root, off = lin.unslice(s)
    at = add(off, t)
    for f, val in st.facts.items():
        if not val:
            continue
        pts = []
        if f.op == "app" and f.a[0] == "str::is_char_boundary":
            u, pts = f.a[1][0], [f.a[1][1]]
        elif f.op == "isbound":
            u, pts = f.a[0], [f.a[1]]
        elif f.op == "isvar" and f.a[1] == "Some" and f.a[0].op == "app" and f.a[0].a[0] == "str::get":
            u, pts = f.a[0].a[1][0], list(f.a[0].a[1][1:])
        elif f.op == "app" and f.a[0] in ("str::starts_with", "str::ends_with"):
            u, p = f.a[1]
            cs = cstr(p) if p.op == "c" else None
            n = len(cs) if cs is not None and cs.isascii() else 1 if lin.one_char(p) and all(hi < 128 for lo, hi in lin.one_char(p)) else 0
            pts = [I(j) for j in range(1, n + 1)] if f.a[0] == "str::starts_with" else [sub(mklen(u), I(j)) for j in range(1, n + 1)]
        for x in pts:
            r2, o2 = lin.unslice(u)
            if r2 is root:
                d = lin._sub(lin.lin(add(o2, x)), lin.lin(at))
                if not d[0] and d[1] == 0:
                    return True
    # at or behind a match of a search in the same string
    for a in lin.lin(at)[0]:
        so = lin.search_of(a)
        if so is None:
            continue
        r2, o2 = lin.unslice(so[0])
        if r2 is not root:
            continue
        d = lin._sub(lin.lin(at), lin.lin(add(o2, a)))
        if d[0]:
            continue
        p, rel = so[1], d[1]
        n = plen(p)
        if rel == 0 or (n is not None and is_c(n, "int") and rel == cval(n)) or (p.op == "c" and cstr(p) is not None and 0 <= rel <= len(cstr(p)) and cstr(p).isascii()):
            return True
    if s.op == "slice":
        if s.a[2] is not None and add(s.a[1], t) is s.a[2]:
            return True
        return boundary(ip, st, s.a[0], add(s.a[1], t))
    if s.op == "c":
        return True
    L = mklen(s)
    if t is L or (lin.prove_le(st.facts, t, L) and lin.prove_le(st.facts, L, t)):
        return True
    # the byte before is known to be ASCII
    for f, val in st.facts.items():
        if val and f.op == "eq" and is_c(f.a[1], "int") and cval(f.a[1]) < 128:
            x = f.a[0]
            if x.op == "index" and x.a[0] is s and add(x.a[1], I(1)) is t:
                return True
            if x.op == "index" and x.a[0] is s and x.a[1] is t:
                return True
        if val and f.op == "app" and f.a[0] in ("str::starts_with", "slice::starts_with") and f.a[1][0] is s and is_c(t, "int"):
            cs = cstr(f.a[1][1]) if f.a[1][1].op == "c" else None
            if cs is not None and cs.isascii() and cval(t) <= len(cs):
                return True
            if f.a[1][1].op == "charset" and plen(f.a[1][1]) is not None and cval(t) == 1:
                return True
    # all-ASCII content known by construction
    if s.op == "display" or (s.op == "cat" and all(x.op == "display" or (cstr(x) or "").isascii() for x in s.a[0] if x.op in ("display", "c")) and
                             all(x.op in ("display", "c") for x in s.a[0])):
        return True
    return False


def slice_obl(ip, st, c, s, lo, hi, strl):
    """obligations of s[lo..hi]; returns refined state or None"""
    L = mklen(s)
    goals = []
    if hi is not None:
        goals.append(le(hi, L))
        if lo is not None:
            goals.append(le(lo, hi))
    elif lo is not None:
        goals.append(le(lo, L))
    for g in goals:
        r = ip.truth(st, g)
        ip.oblige(st, c.fr, c.span, "slice", r is True, show(g), st2=st, goal=g)
        st = ip.assume(st, g, True)
        if st is None:
            return None
    if strl:
        for t in (lo, hi):
            if t is not None:
                ip.oblige(st, c.fr, c.span, "char-boundary", boundary(ip, st, s, t), "%s at %s" % (show(s), show(t)), st2=st,
                          goal=mk("app", "str::is_char_boundary", (s, t), None))
    return st


@m("Index::index", "IndexMut::index_mut", "SliceIndex::index")
def _index(ip, st, c, args):
    basety = c.atys[0] if c.atys else ""
    b = ip.deref(st, args[0])
    sb = ip.strip(st, b)
    ix = D(ip, st, args[1])
    if "HashMap" in basety[:40]:
        t = mget(sb, ix)
        ip.oblige(st, c.fr, c.span, "map-index", ip.truth(st, isvar(t, "Some")) is True, "%s present" % show(ix), st2=st, goal=isvar(t, "Some"))
        s = ip.assume(st, isvar(t, "Some"), True)
        return one(s, payload(t, "Some")) if s else []
    r = as_range(ix)
    arr = re.search(r"; (\d+)\]$", basety)
    if arr and not is_c(mklen(sb)):
        st = ip.assume(st, eq(mklen(sb), I(int(arr.group(1)))), True) or st
    mut = c.short.startswith("IndexMut")
    pl = place(ip, st, args[0])
    if r is not None:
        lo, hi, inc = r
        if inc and hi is not None:
            hi = add(hi, I(1))
        st = slice_obl(ip, st, c, sb, lo, hi, isstr(basety))
        if st is None:
            return []
        if mut:
            return None
        return one(st, mkslice(sb, lo or I(0), hi))
    g = lt(ix, mklen(sb))
    ip.oblige(st, c.fr, c.span, "bounds", ip.truth(st, g) is True, show(g), st2=st, goal=g)
    st = ip.assume(st, g, True)
    if st is None:
        return []
    if mut and pl is not None:
        return one(st, mk("ref", pl.a[0], pl.a[1] + (("i", ix),), True))
    if pl is not None:
        inner = ip.load(st, pl.a[0], pl.a[1] + (("i", ix),))
        if inner.op == "ref":
            return one(st, inner)
    return one(st, index(sb, ix) if b is sb else ip.proj(b, ("i", ix)))


@m("str::get", "slice::get", "Vec::get")
def _get(ip, st, c, args):
    s = D(ip, st, args[0])
    ix = D(ip, st, args[1])
    r = as_range(ix)
    if r is None:
        g = lt(ix, mklen(s))
        return fork(ip, st, g, lambda q: one(q, some(index(s, ix))), lambda q: one(q, NONE))
    lo, hi, inc = r
    if inc and hi is not None:
        hi = add(hi, I(1))
    lo = lo or I(0)
    if c.short == "str::get":
        t = mk("app", "str::get", (s, lo) + ((hi,) if hi is not None else ()), None)
        cond = isvar(t, "Some")

        def yes(q):
            g = le(hi if hi is not None else lo, mklen(s))
            q = ip.assume(q, g, True)
            return one(q, some(mkslice(s, lo, hi))) if q else []
        # both cut points the same boundary: s.get(..n) and s.get(n..) succeed together
        if hi is None or (is_c(lo, "int") and cval(lo) == 0):
            cut = hi if hi is not None else lo
            cond = mk("isbound", s, cut)
        return fork(ip, st, cond, yes, lambda q: one(q, NONE))
    g = le(hi if hi is not None else lo, mklen(s))
    if hi is not None and not (is_c(lo, "int") and cval(lo) == 0):
        g = binop("BitAnd", g, le(lo, hi))
    return fork(ip, st, g, lambda q: one(q, some(mkslice(s, lo, hi))), lambda q: one(q, NONE))


@m("slice::get_mut", "Vec::get_mut")
def _getmut(ip, st, c, args):
    pl = place(ip, st, args[0])
    ix = D(ip, st, args[1])
    if pl is None or as_range(ix) is not None:
        return None
    v = D(ip, st, args[0])
    return fork(ip, st, lt(ix, mklen(v)), lambda q: one(q, some(mk("ref", pl.a[0], pl.a[1] + (("i", ix),), True))), lambda q: one(q, NONE))


@m("str::split_at", "slice::split_at")
def _splitat(ip, st, c, args):
    s, n = D(ip, st, args[0]), D(ip, st, args[1])
    st = slice_obl(ip, st, c, s, None, n, c.short.startswith("str"))
    if st is None:
        return []
    return one(st, tup(mkslice(s, I(0), n), mkslice(s, n, None)))


@m("slice::first", "slice::last", "slice::split_first", "slice::split_last", "slice::first_mut", "slice::last_mut", "Vec::first", "Vec::last")
def _first(ip, st, c, args):
    s = D(ip, st, args[0])
    k = c.short.split("::")[1]
    if k.endswith("_mut"):
        pl = place(ip, st, args[0])
        if pl is None:
            return None
        ix = I(0) if k.startswith("first") else sub(mklen(s), I(1))
        return fork(ip, st, eq(mklen(s), I(0)), lambda q: one(q, NONE), lambda q: one(q, some(mk("ref", pl.a[0], pl.a[1] + (("i", ix),), True))))
    L = mklen(s)

    def yes(q):
        f = index(s, I(0)) if k in ("first", "split_first") else index(s, sub(L, I(1)))
        if k == "split_first":
            return one(q, some(tup(f, mkslice(s, I(1), None))))
        if k == "split_last":
            return one(q, some(tup(f, mkslice(s, I(0), sub(L, I(1))))))
        return one(q, some(f))
    return fork(ip, st, eq(L, I(0)), lambda q: one(q, NONE), yes)


# ------------------------------------------------------------------ vectors
def push(v, x):
    if v.op == "seq":
        return mk("seq", v.a[0] + (x,))
    return mk("push", v, x)


def sconcat(a, b):
    if a is EMPTYSEQ or a is S(""):
        return b
    if b is EMPTYSEQ or b is S(""):
        return a
    if a.op == "seq" and b.op == "seq":
        return mk("seq", a.a[0] + b.a[0])
    pa = a.a[0] if a.op == "concat" else (a,)
    pb = b.a[0] if b.op == "concat" else (b,)
    return mk("concat", pa + pb)


@m("Vec::push", "VecDeque::push_back")
def _vpush(ip, st, c, args):
    st = st.copy()
    v = ip.deref(st, args[0])
    if not setref(ip, st, args[0], push(v, args[1])):
        return None
    return one(st, UNIT)


@m("Vec::pop")
def _vpop(ip, st, c, args):
    st = st.copy()
    v = ip.deref(st, args[0])
    if v.op == "seq":
        if not v.a[0]:
            return one(st, NONE)
        setref(ip, st, args[0], mk("seq", v.a[0][:-1]))
        return one(st, some(v.a[0][-1]))
    if v.op == "push":
        setref(ip, st, args[0], v.a[0])
        return one(st, some(v.a[1]))
    sv = ip.strip(st, v)
    t = app("Vec::pop", sv)

    def yes(s):
        setref(ip, s, args[0], mk("popped", sv))
        return one(s, some(payload(t, "Some")))
    return fork(ip, st, eq(mklen(sv), I(0)), lambda s: one(s, NONE), yes)


@m("Vec::extend_from_slice", "Vec::append")
def _vext(ip, st, c, args):
    st = st.copy()
    v = ip.deref(st, args[0])
    x = D(ip, st, args[1])
    if not setref(ip, st, args[0], sconcat(v, x)):
        return None
    if c.short == "Vec::append":
        setref(ip, st, args[1], EMPTYSEQ)
    return one(st, UNIT)


@m("TokenStream::new")
def _tokens(ip, st, c, args):
    return one(st, EMPTYSEQ)


@m("Extend::extend")
def _extend(ip, st, c, args):
    to = generic(c)
    o = args[1]
    if o.op == "agg" and variant(o) in ("Some", "None"):
        it = mk("it", "elems", EMPTYSEQ if variant(o) == "None" else push(EMPTYSEQ, payload(o, "Some")))
    else:
        it = to_iter(ip, st, args[1])
    st = st.copy()
    v = ip.deref(st, args[0])
    if to.startswith("proc_macro2::TokenStream"):
        to = "std::vec::Vec"
    if to.startswith("std::vec::Vec") or to.startswith("std::string::String"):
        flat = flat_iter(it)
        if flat is not None:
            f = ip.strip(st, flat)
            if to.startswith("std::vec") and f.op == "seq" and len(f.a[0]) == 1:
                nv = push(v, f.a[0][0])
            else:
                nv = sconcat(v, f) if to.startswith("std::vec") else cat(v, f)
            if not setref(ip, st, args[0], nv):
                return None
            return one(st, UNIT)

    def step(s, e):
        cur = ip.deref(s, args[0])
        if to.startswith("std::vec::Vec"):
            nv = push(cur, e)
        elif to.startswith("std::collections::HashMap"):
            k, x = ip.proj(ip.deref(s, e), ("f", "0")), ip.proj(ip.deref(s, e), ("f", "1"))
            nv = minsert(cur, ip.strip(s, k), x)
        elif to.startswith("std::string::String"):
            nv = cat(cur, ip.strip(s, e))
        else:
            nv = mk("extended", cur, ip.strip(s, e))
        setref(ip, s, args[0], nv)
        return [("cont", s)]
    if place(ip, st, args[0]) is None:
        return None
    return [(s, UNIT) for s, k, v in iterate(ip, st, c, it, step)]


def keyform(ip, st, c, f, n=1):
    s = st.copy()
    s.facts = {}
    items = [mk("arg", "$item%s" % ("" if i == 0 else i)) for i in range(n)]
    outs = c.invoke(s, f, items)
    if len(outs) != 1:
        return None
    return ip.strip(outs[0][0], outs[0][1])


@m("slice::sort_by_key", "slice::sort_by", "slice::sort_unstable_by_key", "slice::sort_by_cached_key", "slice::sort", "slice::sort_unstable", "slice::sort_unstable_by")
def _sort(ip, st, c, args):
    st = st.copy()
    v = ip.deref(st, args[0])
    k = c.short.split("::")[1]
    key = None
    if k in ("sort", "sort_unstable"):
        key = mk("arg", "$item")
    elif "key" in k:
        key = keyform(ip, st, c, args[1])
    else:
        r = keyform(ip, st, c, args[1], 2)
        if r is not None and r.op == "vfld" and r.a[0].op == "agg":
            r = r.a[0].a[3][0]
        if r is not None and r.op == "cmp":
            a, b = r.a
            if subst(a, {mk("arg", "$item"): mk("arg", "$item1")}) is b:
                key = a
            elif subst(b, {mk("arg", "$item"): mk("arg", "$item1")}) is a:
                key = mk("revkey", b)
    stable = "unstable" not in k
    if not setref(ip, st, args[0], mk("sorted", ip.strip(st, v), key if key is not None else mk("unknownkey", st.fresh()), stable)):
        return None
    return one(st, UNIT)


@m("slice::reverse")
def _rev_slice(ip, st, c, args):
    st = st.copy()
    v = ip.deref(st, args[0])
    if not setref(ip, st, args[0], mk("reversed", ip.strip(st, v))):
        return None
    return one(st, UNIT)


@m("Vec::truncate")
def _trunc(ip, st, c, args):
    st = st.copy()
    v = D(ip, st, args[0])
    n = D(ip, st, args[1])

    def yes(s):
        setref(ip, s, args[0], mkslice(v, I(0), n))
        return one(s, UNIT)
    return fork(ip, st, lt(n, mklen(v)), yes, lambda s: one(s, UNIT))


# ------------------------------------------------------------------ maps
@m("HashMap::get", "BTreeMap::get", "HashSet::get")
def _mget(ip, st, c, args):
    mm, k = D(ip, st, args[0]), D(ip, st, args[1])
    if c.short == "HashSet::get":
        t = member(mm, k)
        return fork(ip, st, t, lambda s: one(s, some(k)), lambda s: one(s, NONE))
    return one(st, mget(mm, k))


def member(s, k):
    if s.op == "emptymap":
        return FALSE
    if s.op == "collectset" and s.a[0].op == "it" and s.a[0].a[0] == "chars" and is_c(s.a[0].a[1], "str"):
        return mk("inset", k, charset([(ord(x), ord(x)) for x in s.a[0].a[1].a[1]]))
    if s.op == "c" and s.a[0] == "str":
        pass
    return mk("member", s, k)


@m("HashMap::contains_key", "HashSet::contains", "BTreeMap::contains_key", "BTreeSet::contains")
def _mcontains(ip, st, c, args):
    mm, k = D(ip, st, args[0]), D(ip, st, args[1])
    if "Set" in c.short:
        return one(st, member(mm, k))
    return one(st, isvar(mget(mm, k), "Some"))


@m("HashMap::get_mut")
def _mgetmut(ip, st, c, args):
    pl = place(ip, st, args[0])
    k = D(ip, st, args[1])
    mm = ip.deref(st, args[0])
    if pl is None:
        return None
    return fork(ip, st, isvar(mget(mm, k), "Some"), lambda s: one(s, some(mk("ref", pl.a[0], pl.a[1] + (("k", k),), True))), lambda s: one(s, NONE))


@m("HashMap::insert")
def _minsert(ip, st, c, args):
    st = st.copy()
    k, v = D(ip, st, args[1]), args[2]
    mm = ip.deref(st, args[0])
    old = mget(mm, k)
    if not setref(ip, st, args[0], minsert(mm, k, v)):
        return None
    c.ev(st, "HashMap::insert", (mm, k, v), None, kind="minsert")
    return one(st, old)


@m("HashMap::remove")
def _mremove(ip, st, c, args):
    st = st.copy()
    k = D(ip, st, args[1])
    mm = ip.deref(st, args[0])
    old = mget(mm, k)
    if not setref(ip, st, args[0], mk("mremove", mm, k)):
        return None
    return one(st, old)


@m("HashMap::entry")
def _entry(ip, st, c, args):
    pl = place(ip, st, args[0])
    if pl is None:
        return None
    return one(st, mk("entry", mk("ref", pl.a[0], pl.a[1], True), D(ip, st, args[1])))


def ent(ip, st, e):
    pl, k = e.a
    mm = ip.load(st, pl.a[0], pl.a[1])
    return pl, k, mm, mk("ref", pl.a[0], pl.a[1] + (("k", k),), True)


@m("Entry::and_modify")
def _andmodify(ip, st, c, args):
    e = ip.deref(st, args[0])
    if e.op != "entry":
        return None
    pl, k, mm, r = ent(ip, st, e)
    return fork(ip, st, isvar(mget(mm, k), "Some"), lambda s: [(s2, e) for s2, _ in c.invoke(s, args[1], [r])], lambda s: one(s, e))


@m("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default")
def _orinsert(ip, st, c, args):
    e = ip.deref(st, args[0])
    if e.op != "entry":
        return None
    pl, k, mm, r = ent(ip, st, e)

    def no(s):
        if c.short == "Entry::or_insert":
            vals = one(s, args[1])
        elif c.short == "Entry::or_insert_with":
            vals = c.invoke(s, args[1], [])
        else:
            ty = re.sub(r"^&('\w+ )?mut ", "", c.dty)
            f = local_impl(ip, ty, "std::default::Default", "default")
            if f and f["path"] not in s.stack:
                vals = ip.exec_fn(s.copy(), f, [])
            else:
                vals = one(s, default_of(ip, ty))
        out = []
        for s2, v in vals:
            s2 = s2.copy()
            ip.store(s2, pl.a[0], pl.a[1], minsert(ip.load(s2, pl.a[0], pl.a[1]), k, v))
            c.ev(s2, "HashMap::insert", (mm, k, v), None, kind="minsert")
            out.append((s2, r))
        return out
    return fork(ip, st, isvar(mget(mm, k), "Some"), lambda s: one(s, r), no)


# ------------------------------------------------------------------ iterators
def to_iter(ip, st, v):
    x = ip.deref(st, v)
    if x.op in ("it", "phi", "itn", "adv"):
        if x.op == "phi" and iter_base(ip, x) is None:
            return mk("it", "elems", x)
        return x
    r = as_range(x) if x.op in ("agg", "zst") else None
    if r is not None:
        lo, hi, inc = r
        if hi is None:
            return mk("it", "rangefrom", lo)
        return mk("it", "range", ip.deref(st, lo), ip.deref(st, hi), inc)
    return x


@m("IntoIterator::into_iter")
def _intoiter(ip, st, c, args):
    ty = generic(c)
    x = ip.deref(st, args[0])
    if x.op == "it":
        return one(st, x)
    base = re.sub(r"^(&('\w+ )?)", "", ty.strip())
    if ty.startswith("&mut") or re.match(r"^&'\w+ mut", ty):
        return _itermut(ip, st, c, args)
    if re.match(r"^&?('\w+ )?(std::vec::Vec|\[)", ty) or base.startswith("std::vec::Vec") or base.startswith("["):
        return one(st, mk("it", "elems", x))
    if "HashMap<" in ty[:45]:
        return one(st, mk("it", "entries", x))
    if "HashSet<" in ty[:45]:
        return one(st, mk("it", "elems", x))
    if base.startswith("std::option::Option"):
        return one(st, mk("it", "opt", x))
    if base in ("proc_macro2::TokenStream", "proc_macro::TokenStream"):
        return one(st, mk("it", "elems", x))
    return one(st, to_iter(ip, st, x))


@m("slice::iter", "Vec::iter", "HashSet::iter", "VecDeque::iter")
def _iter(ip, st, c, args):
    return one(st, mk("it", "elems", ip.deref(st, args[0])))


@m("slice::iter_mut", "Vec::iter_mut")
def _itermut(ip, st, c, args):
    pl = place(ip, st, args[0])
    if pl is None:
        return one(st, mk("it", "elems", ip.deref(st, args[0])))
    return one(st, mk("it", "elemsmut", pl))


@m("HashMap::iter", "HashMap::into_iter")
def _miter(ip, st, c, args):
    return one(st, mk("it", "entries", ip.deref(st, args[0])))


@m("HashMap::values", "HashMap::into_values")
def _mvalues(ip, st, c, args):
    return one(st, mk("it", "values", ip.deref(st, args[0])))


@m("HashMap::keys", "HashMap::into_keys")
def _mkeys(ip, st, c, args):
    return one(st, mk("it", "keys", ip.deref(st, args[0])))


@m("Vec::drain", "String::drain")
def _drain(ip, st, c, args):
    st = st.copy()
    r = as_range(D(ip, st, args[1]))
    v = ip.deref(st, args[0])
    if r == (None, None, False):
        setref(ip, st, args[0], EMPTYSEQ if c.short.startswith("Vec") else S(""))
        return one(st, mk("it", "elems" if c.short.startswith("Vec") else "chars", v))
    if r is not None:
        lo, hi, inc = r
        hi = add(hi, I(1)) if inc and hi is not None else hi
        st = slice_obl(ip, st, c, ip.strip(st, v), lo, hi, c.short.startswith("String"))
        if st is None:
            return []
        if c.short.startswith("Vec"):
            st = st.copy()
            base = ip.strip(st, v)
            lo = I(0) if lo is None else lo
            rest = [] if is_c(lo, "int") and cval(lo) == 0 else [mkslice(base, I(0), lo)]
            if hi is not None:
                rest.append(mkslice(base, hi, None))
            setref(ip, st, args[0], EMPTYSEQ if not rest else rest[0] if len(rest) == 1 else mk("concat", tuple(rest)))
            return one(st, mk("it", "elems", mkslice(base, lo, hi)))
        return ip.opaque_call(st, c, args, c.short)
    return None


@m("iter::once")
def _once(ip, st, c, args):
    return one(st, mk("it", "elems", mk("seq", (args[0],))))


@m("iter::empty")
def _iterempty(ip, st, c, args):
    return one(st, mk("it", "elems", EMPTYSEQ))


@m("BufReader::with_capacity", "BufWriter::with_capacity", "BufStream::with_capacity", "VecDeque::with_capacity", "BTreeMap::with_capacity", "HashSet::with_capacity")
def _wcap(ip, st, c, args):
    st = st.copy()
    c.ev(st, c.short, (D(ip, st, args[0]),), None, kind="alloc")
    return ip.opaque_call(st, c, args, c.short)


@m("Vec::remove", "Vec::swap_remove", "String::remove", "Vec::insert", "Vec::split_off", "String::split_off", "String::insert", "String::insert_str",
   "slice::split_at_mut", "slice::swap", "VecDeque::swap_remove_back")
def _atindex(ip, st, c, args):
    v, n = D(ip, st, args[0]), D(ip, st, args[1])
    strict = c.short in ("Vec::remove", "Vec::swap_remove", "String::remove", "slice::swap")
    for ix in [n] + ([D(ip, st, args[2])] if c.short == "slice::swap" else []):
        g = lt(ix, mklen(v)) if strict else le(ix, mklen(v))
        ip.oblige(st, c.fr, c.span, c.short, ip.truth(st, g) is True, show(g), st2=st, goal=g)
        st = ip.assume(st, g, True)
        if st is None:
            return []
        if c.short.startswith("String"):
            ip.oblige(st, c.fr, c.span, "char-boundary", boundary(ip, st, v, ix), "%s at %s" % (show(v), show(ix)), st2=st,
                      goal=mk("app", "str::is_char_boundary", (v, ix), None))
    if c.short == "Vec::insert" and n is mklen(v):
        r = place(ip, st, args[0])
        if r is not None:
            st = st.copy()
            ip.store(st, r.a[0], r.a[1], mk("push", v, ip.strip(st, args[2])))
            return one(st, UNIT)
    if c.short == "slice::swap":
        r = place(ip, st, args[0])
        if r is not None:
            i, j = D(ip, st, args[1]), D(ip, st, args[2])
            st = st.copy()
            ip.store(st, r.a[0], r.a[1] + (("i", i),), index(v, j))
            ip.store(st, r.a[0], r.a[1] + (("i", j),), index(v, i))
            return one(st, UNIT)
    return ip.opaque_call(st, c, args, c.short)


@m("slice::copy_from_slice", "slice::clone_from_slice")
def _copyfrom(ip, st, c, args):
    a, b = D(ip, st, args[0]), D(ip, st, args[1])
    for g in (le(mklen(a), mklen(b)), le(mklen(b), mklen(a))):
        ip.oblige(st, c.fr, c.span, c.short, ip.truth(st, g) is True, show(g), st2=st, goal=g)
        st = ip.assume(st, g, True)
        if st is None:
            return []
    return ip.opaque_call(st, c, args, c.short)


@m("HashMap::drain")
def _mdrain(ip, st, c, args):
    st = st.copy()
    v = ip.deref(st, args[0])
    setref(ip, st, args[0], EMPTYMAP)
    return one(st, mk("it", "entries", v))


def adapter(kind, *names):
    def f(ip, st, c, args):
        src = to_iter(ip, st, args[0])
        return one(st, mk("it", kind, src, *[a if a.op in ("clo", "fn", "zst") else (ip.deref(st, a) if a.op != "ref" else a) for a in args[1:]]))
    for n in names:
        MODELS[n] = f


adapter("map", "Iterator::map")
adapter("filter", "Iterator::filter")
adapter("fmap", "Iterator::filter_map")
adapter("take", "Iterator::take")
adapter("skip", "Iterator::skip")
adapter("rev", "Iterator::rev")
adapter("takewhile", "Iterator::take_while")
adapter("skipwhile", "Iterator::skip_while")
adapter("flatmap", "Iterator::flat_map")
adapter("flatten", "Iterator::flatten")
adapter("windows", "slice::windows")
adapter("inspect", "Iterator::inspect")
adapter("stepby", "Iterator::step_by")


@m("Iterator::enumerate")
def _enum(ip, st, c, args):
    return one(st, mk("it", "enum", to_iter(ip, st, args[0])))


@m("Iterator::cloned", "Iterator::copied", "Iterator::fuse", "Iterator::by_ref")
def _cloned(ip, st, c, args):
    if c.short in ("Iterator::by_ref",):
        return one(st, args[0])
    return one(st, to_iter(ip, st, args[0]))


@m("Iterator::zip", "Iterator::chain", "iter::zip")
def _zip(ip, st, c, args):
    a, b = to_iter(ip, st, args[0]), to_iter(ip, st, args[1])
    bt = (c.fn or {}).get("args") or []
    if len(bt) > 1:
        t = bt[1]
        if re.match(r"^(&('\w+ )?)?(std::vec::Vec|\[)", t) and b.op != "it":
            b = mk("it", "elems", b)
    return one(st, mk("it", c.short.split("::")[1], a, b))


def iter_base(ip, v):
    """(iterator value, loop id or None, offset) of an iterator variable's value"""
    k = 0
    lid = None
    for _ in range(40):
        if v.op == "itn":
            k += v.a[1]
            v = v.a[0]
        elif v.op == "phi":
            L = ip.phi_loop.get(v)
            if L is None or v not in L.init:
                return None
            if lid is None:
                lid = v.a[0]
            elif True:
                pass
            if lid == v.a[0]:
                kk = k
            v = L.init[v]
        else:
            break
    else:
        return None
    if v.op in ("it", "agg", "app", "fld", "vfld", "arg", "with", "elem", "mut", "await"):
        return v, lid, (kk if lid is not None else k)
    return None


def kept(ip, it, e, before, after, outcomes):
    """an item a predicate let through, where the predicate decided in a way no fact records (a loop of its own, say)"""
    if outcomes > 1 and not any(k.op != "more" for k in after.facts if k not in before.facts):
        after.facts = dict(after.facts)
        after.facts[mk("kept", ip.strip(before, it.a[2]), ip.strip(before, e))] = True
    return after


def elem_of(ip, st, c, it, lid, k):
    """abstract item of an iterator at the loop position -> [(st, item)]"""
    if it.op != "it":
        return one(st, mk("elem", ip.strip(st, it), lid, k))
    kind = it.a[0]
    if kind == "map":
        out = []
        for s, e in elem_of(ip, st, c, it.a[1], lid, k):
            out += c.invoke(s, it.a[2], [e])
        return out
    if kind == "inspect":
        out = []
        for s, e in elem_of(ip, st, c, it.a[1], lid, k):
            out += [(s2, e) for s2, _ in c.invoke(s, it.a[2], [e])]
        return out
    if kind == "filter":
        out = []
        for s, e in elem_of(ip, st, c, it.a[1], lid, k):
            rs = c.invoke(s, it.a[2], [e])
            for s2, r in rs:
                s3 = ip.assume(s2, ip.deref(s2, r), True)
                if s3:
                    out.append((kept(ip, it, e, s, s3.copy(), len(rs)), e))
        return out
    if kind == "fmap":
        out = []
        for s, e in elem_of(ip, st, c, it.a[1], lid, k):
            rs = c.invoke(s, it.a[2], [e])
            for s2, r in rs:
                r = ip.deref(s2, r)
                s3 = ip.assume(s2, isvar(r, "Some"), True)
                if s3:
                    out.append((kept(ip, it, e, s, s3.copy(), len(rs)), payload(r, "Some")))
        return out
    if kind == "enum":
        return [(s, tup(mk("elem", mk("it", "count", ip.strip(s, it.a[1])), lid, k), e)) for s, e in elem_of(ip, st, c, it.a[1], lid, k)]
    if kind == "zip":
        out = []
        for s, a in elem_of(ip, st, c, it.a[1], lid, k):
            for s2, b in elem_of(ip, s, c, it.a[2], lid, k):
                out.append((s2, tup(a, b)))
        return out
    if kind == "chain":
        # an item of either part
        t = mk("inleft", ip.strip(st, it), lid, k)
        return fork(ip, st, t, lambda s: elem_of(ip, s, c, it.a[1], lid, k), lambda s: elem_of(ip, s, c, it.a[2], lid, k))
    if kind in ("rev", "take", "skip", "takewhile", "skipwhile", "stepby") and it.a[1].op == "it" and it.a[1].a[0] in ("map", "filter", "fmap", "enum", "zip"):
        return elem_of(ip, st, c, it.a[1], lid, k)
    if kind == "elemsmut":
        pl = it.a[1]
        ix = mk("elem", mk("it", "count", mk("it", "elems", ip.strip(st, ip.load(st, pl.a[0], pl.a[1])))), lid, k)
        TYPES.setdefault(ix, "usize")
        return one(st, mk("ref", pl.a[0], pl.a[1] + (("i", ix),), True))
    t = mk("elem", ip.strip(st, it), lid, k)
    if kind == "range":
        TYPES.setdefault(t, "usize")
    if kind == "chars":
        TYPES.setdefault(t, "char")
    if kind == "entries":
        return one(st, tup(mk("fld", t, "0"), mk("fld", t, "1")))
    # items of a sequence known element by element are still abstracted (no unrolling)
    return one(st, t)


FUSED = ("chars", "elems", "split", "splitn", "bytes", "entries", "range")


def more(ip, st, it, lid, k):
    return mk("more", ip.strip(st, it), lid, k)


def iterate(ip, st, c, it, step):
    """drive an internal loop over an iterator value; step(state, item) -> [('cont', st) | ('stop', st, value)]
    -> [(st, 'done', None) | (st, 'stop', value)]"""
    b = iter_base(ip, it)
    base = b[0] if b else it

    def body(s0, lid):
        outs = []
        mt = more(ip, s0, base, lid, 0)
        s = ip.assume(s0, mt, False)
        if s:
            outs.append(("exit", s.copy(), ("done", None)))
        s = ip.assume(s0, mt, True)
        if s:
            for s2, e in elem_of(ip, s.copy(), c, base, lid, 0):
                for r in step(s2.copy(), e):
                    if r[0] == "cont":
                        outs.append(("back", r[1], None))
                    else:
                        outs.append(("exit", r[1], ("stop", r[2])))
        return outs
    res = ip.fix(st, c.fr, c.span, body, drv=base)
    return [(o[1], o[2][0], o[2][1]) for o in res]


@m("Iterator::peekable")
def _peekable(ip, st, c, args):
    """the same walk; looking ahead takes nothing from it"""
    return one(st, to_iter(ip, st, args[0]))


@m("Peekable::peek")
def _peek(ip, st, c, args):
    return _next(ip, st, c, args, peek=True)


@m("Peekable::next_if", "Peekable::next_if_eq")
def _nextif(ip, st, c, args):
    r = _next(ip, st, c, args, peek=True)
    if r is None:
        return None
    out = []
    for s, x in r:
        if x is NONE:
            out.append((s, NONE))
            continue
        e = x.a[3][0]
        if c.short.endswith("_eq"):
            ts = [(s, eq(ip.strip(s, e), ip.strip(s, ip.deref(s, args[1]))))]
        else:
            ts = [(q, ip.deref(q, y)) for q, y in c.invoke(s, args[1], [e])]
        for s2, t in ts:
            f = ip.assume(s2, t, False)
            if f:
                out.append((f, NONE))
            f = ip.assume(s2, t, True)
            if f:
                out += [(q, y) for q, y in _next(ip, f, c, args) if y is not NONE]
    return out


@m("FileType::is_file", "FileType::is_dir", "FileType::is_symlink")
def _ftype(ip, st, c, args):
    t = ip.strip(st, D(ip, st, args[0]))
    if t.op == "app" and t.a[0] == "Metadata::file_type" and t.a[1]:
        return one(st, app("Metadata::" + c.short.split("::")[-1], t.a[1][0]))
    return None


@m("Iterator::next", "DoubleEndedIterator::next_back")
def _next(ip, st, c, args, peek=False):
    pl = place(ip, st, args[0])
    v = ip.deref(st, args[0])
    back = c.short.endswith("next_back")
    if v.op == "agg" and as_range(v) is not None:
        v = to_iter(ip, st, v)
    b = iter_base(ip, v)
    if b is None:
        return None
    base, lid, k = b
    if back:
        base = mk("it", "rev", base)
    if lid is None and base.op != "it":
        return None
    if base.op == "it" and base.a[0] in ("splitn", "split") and lid is None:
        r = split_next(ip, st, c, base, k)
        if r is not None:
            out = []
            for s, x in r:
                s = s.copy()
                if pl is not None and not peek:
                    ip.store(s, pl.a[0], pl.a[1], mk("itn", v.a[0], v.a[1] + 1) if v.op == "itn" else mk("itn", v, 1))
                out.append((s, x))
            return out

    def adv(s):
        s = s.copy()
        if pl is not None and not peek:
            ip.store(s, pl.a[0], pl.a[1], mk("itn", v.a[0], v.a[1] + 1) if v.op == "itn" else mk("itn", v, 1))
        return s
    L = lid if lid is not None else 0
    mt = more(ip, st, base, L, k)
    if lid is not None:
        lp = ip.loops.get(lid)
        if lp is not None and lp.drv is None:
            lp.drv = base
    out = []
    if base.op == "it" and base.a[0] == "elems" and base.a[1].op == "seq" and lid is None:
        xs = base.a[1].a[0]
        s = adv(st)
        return one(s, some(xs[k]) if k < len(xs) else NONE)
    if base.op == "it" and base.a[0] in FUSED and any(st.facts.get(more(ip, st, base, L, j)) is False for j in range(k)):
        # nothing comes after the end
        return one(adv(st), NONE)
    s = ip.assume(st, mt, False)
    if s:
        out.append((adv(s), NONE))
    s = ip.assume(st, mt, True)
    if s:
        for s2, e in elem_of(ip, s.copy(), c, base, L, k):
            out.append((adv(s2), some(e)))
    return out


def split_next(ip, st, c, it, k):
    """first items of split/splitn expressed with find"""
    kind, s, p = it.a[0], it.a[1], it.a[2]
    n = plen(p)
    if n is None:
        return None
    if kind == "splitn" and not (is_c(it.a[3], "int")):
        return None
    lim = cval(it.a[3]) if kind == "splitn" else None
    # walk: position after k separators
    cur = s
    states = [(st, cur)]
    for j in range(k):
        nxt = []
        for q, cu in states:
            if cu is None:
                nxt.append((q, None))
                continue
            if lim is not None and j == lim - 1:
                nxt.append((q, None))
                continue
            f = app("str::find", cu, p)
            i = payload(f, "Some")
            q1 = ip.assume(q, isvar(f, "Some"), True)
            if q1:
                nxt.append((q1, mkslice(cu, add(i, n), None)))
            q2 = ip.assume(q, isvar(f, "Some"), False)
            if q2:
                nxt.append((q2, None))
        states = nxt
    out = []
    for q, cu in states:
        if cu is None or (lim is not None and k >= lim):
            out.append((q, NONE))
            continue
        if lim is not None and k == lim - 1:
            out.append((q, some(cu)))
            continue
        f = app("str::find", cu, p)
        i = payload(f, "Some")
        q1 = ip.assume(q, isvar(f, "Some"), True)
        if q1:
            out.append((q1, some(mkslice(cu, I(0), i))))
        q2 = ip.assume(q, isvar(f, "Some"), False)
        if q2:
            out.append((q2, some(cu)))
    return out


@m("Iterator::nth")
def _nth(ip, st, c, args):
    n = D(ip, st, args[1])
    if not is_c(n, "int") or cval(n) > 4:
        return None
    sts = [(st, None)]
    for i in range(cval(n) + 1):
        nx = []
        for s, prev in sts:
            if prev is NONE:
                nx.append((s, NONE))
                continue
            r = _next(ip, s, c, args)
            if r is None:
                return None
            nx += r
        sts = nx
    return sts


def by_chars(it):
    """counts in it are characters, not bytes"""
    while it.op == "it":
        if it.a[0] == "chars" or it.a[0] == "chain" and by_chars(it.a[2]):
            return True
        it = it.a[1]
    return False


def flat_iter(it):
    """sequence value of a purely structural iterator (no closures), or None"""
    if it.op != "it":
        return None
    k = it.a[0]
    if k == "elems":
        return it.a[1]
    if k == "chain":
        a, b = flat_iter(it.a[1]), flat_iter(it.a[2])
        return sconcat(a, b) if a is not None and b is not None else None
    if k == "skip":
        a = flat_iter(it.a[1])
        return mk("skipseq", a, it.a[2]) if a is not None else None
    if k == "take":
        a = flat_iter(it.a[1])
        return mk("takeseq", a, it.a[2]) if a is not None else None
    if k == "rev":
        a = flat_iter(it.a[1])
        return mk("reversed", a) if a is not None else None
    if k == "entries":
        return it.a[1]
    if k == "chars":
        return it.a[1]
    return None


def norm_flat(ip, st, t):
    """take/skip within the length are slices"""
    if t.op in ("takeseq", "skipseq"):
        a = norm_flat(ip, st, t.a[0])
        if lin.prove_le(st.facts, t.a[1], mklen(a)):
            return mkslice(a, I(0), t.a[1]) if t.op == "takeseq" else mkslice(a, t.a[1], None)
        return mk(t.op, a, t.a[1])
    return t


@m("Iterator::eq", "Iterator::ne")
def _iteq(ip, st, c, args):
    a, b = to_iter(ip, st, args[0]), to_iter(ip, st, args[1])
    bt = (c.fn or {}).get("args") or []
    if b.op != "it" and len(bt) > 1 and re.match(r"^(&('\w+ )?)?(std::vec::Vec|\[)", bt[1]):
        b = mk("it", "elems", b)
    fa, fb = flat_iter(a), flat_iter(b)
    if fa is None or fb is None:
        return None
    t = eq(norm_flat(ip, st, ip.strip(st, fa)), norm_flat(ip, st, ip.strip(st, fb)))
    return one(st, t if c.short.endswith("eq") else neg(t))


@m("Iterator::collect", "FromIterator::from_iter")
def _collect(ip, st, c, args):
    ty = c.dty
    if c.short.startswith("FromIterator"):
        ty = generic(c)
    it = to_iter(ip, st, args[0])
    return collect_into(ip, st, c, it, ty)


def collect_into(ip, st, c, it, ty):
    f = local_impl(ip, ty, "std::iter::FromIterator", "from_iter")
    if f and f["path"] not in st.stack:
        return ip.exec_fn(st.copy(), f, [it])
    flat = flat_iter(it)
    if ty.startswith("std::vec::Vec") and flat is not None and not (it.a[0] in ("entries", "chars")):
        return one(st, norm_flat(ip, st, flat))
    if ty.startswith("std::string::String") and flat is not None and it.a[0] == "chars":
        return one(st, flat)
    if ty.startswith("std::collections::HashSet") and flat is not None:
        return one(st, mk("collectset", ip.strip(st, it)))
    if ty.startswith("std::collections::HashMap") and it.op == "it" and it.a[0] == "entries":
        return one(st, it.a[1])
    inner = re.match(r"^std::(option::Option|result::Result)<(.*)>$", ty)
    wrapk = None
    ety = ty
    if inner:
        wrapk = "Some" if "option" in inner.group(1) else "Ok"
        ety = inner.group(2)
    if it.op != "it" and it.op not in ("phi", "itn"):
        return one(st, mk("collect", ip.strip(st, it)))
    st = st.copy()
    cell = ("heap", st.fresh())
    if ety.startswith("std::collections::HashMap"):
        init = EMPTYMAP
    elif ety.startswith("std::string::String"):
        init = S("")
    elif ety.startswith("std::vec::Vec"):
        init = EMPTYSEQ
    elif ety.startswith("std::path::PathBuf"):
        init = mk("emptypath")
    elif ety.startswith("std::collections::HashSet"):
        init = EMPTYMAP
    else:
        return None
    st.mem[cell] = init

    def step(s, e):
        outs = []
        if wrapk:
            ev = ip.deref(s, e)
            s1 = ip.assume(s, isvar(ev, wrapk), True)
            s2 = ip.assume(s, isvar(ev, wrapk), False)
            if s2:
                outs.append(("stop", s2.copy(), unit_neg(wrapk, ev)))
            if not s1:
                return outs
            s, e = s1.copy(), payload(ev, wrapk)
        cur = s.mem[cell]
        if init is EMPTYSEQ:
            nv = push(cur, e)
        elif ety.startswith("std::collections::HashMap"):
            x = ip.deref(s, e)
            nv = minsert(cur, ip.strip(s, ip.proj(x, ("f", "0"))), ip.proj(x, ("f", "1")))
        elif init is S(""):
            nv = cat(cur, ip.strip(s, e))
        elif ety.startswith("std::path"):
            nv = mk("pathjoin", cur, ip.strip(s, e))
        else:
            nv = mk("setinsert", cur, ip.strip(s, e))
        s.mem[cell] = nv
        outs.append(("cont", s))
        return outs
    out = []
    for s, k, v in iterate(ip, st, c, it, step):
        if k == "done":
            v = s.mem[cell]
            out.append((s, v if not wrapk else wrap(wrapk, v)))
        else:
            out.append((s, v))
    return out


@m("Iterator::for_each")
def _foreach(ip, st, c, args):
    it = to_iter(ip, st, args[0])

    def step(s, e):
        return [("cont", s2.copy()) for s2, _ in c.invoke(s, args[1], [e])]
    return [(s, UNIT) for s, k, v in iterate(ip, st, c, it, step)]


@m("Iterator::try_for_each")
def _tryforeach(ip, st, c, args):
    it = to_iter(ip, st, args[0])
    p = "Ok" if "Result" in c.dty else "Some"

    def step(s, e):
        out = []
        for s2, r in c.invoke(s, args[1], [e]):
            r = ip.deref(s2, r)
            a, b = ip.assume(s2, isvar(r, p), True), ip.assume(s2, isvar(r, p), False)
            if a:
                out.append(("cont", a.copy()))
            if b:
                out.append(("stop", b.copy(), r if r.op == "agg" else unit_neg(p, r)))
        return out
    return [(s, wrap(p, UNIT) if k == "done" else v) for s, k, v in iterate(ip, st, c, it, step)]


def _search(name):
    def f(ip, st, c, args):
        it = to_iter(ip, st, args[0])

        def step(s, e):
            out = []
            for s2, r in c.invoke(s, args[1], [e]):
                r = ip.deref(s2, r)
                if name == "find_map":
                    cond, val = isvar(r, "Some"), r
                else:
                    cond, val = r, {"any": TRUE, "all": FALSE, "find": some(e)}.get(name)
                if name == "all":
                    cond = neg(cond)
                a, b = ip.assume(s2, cond, True), ip.assume(s2, cond, False)
                if a:
                    out.append(("stop", a.copy(), val))
                if b:
                    out.append(("cont", b.copy()))
            return out
        dflt = {"any": FALSE, "all": TRUE}.get(name, NONE)
        return [(s, dflt if k == "done" else v) for s, k, v in iterate(ip, st, c, it, step)]
    MODELS["Iterator::" + name] = f


def e_lid(e, d):
    for x in subterms(e):
        if x.op == "elem":
            return x.a[1]
    return d


for _n in ("any", "all", "find", "find_map"):
    _search(_n)


@m("Iterator::position", "Iterator::rposition")
def _position(ip, st, c, args):
    it = to_iter(ip, st, args[0])
    cs = predset(ip, st, c, args[1], "u8")
    fl = flat_iter(it)
    if cs is not None and fl is not None and not by_chars(it):
        fl = ip.strip(st, fl)
        p = simpl_set(cs)
        if fl.op == "reversed" and c.short.endswith("::position"):
            # distance from the end of the last occurrence
            s = fl.a[0]
            f = app("str::rfind", s, p)
            return fork(ip, st, isvar(f, "Some"), lambda q: one(q, some(sub(sub(mklen(s), I(1)), payload(f, "Some")))), lambda q: one(q, NONE))
        if fl.op != "reversed":
            return one(st, app("str::rfind" if "rposition" in c.short else "str::find", fl, p))
    it = ip.strip(st, it)
    if it.op == "it" and it.a[0] == "windows" and args[1].op == "clo":
        # the first (last) window equal to a given sequence of that length: a search for it
        e = mk("elem", it, -1, 0)
        outs = c.invoke(st, args[1], [e])
        if len(outs) == 1:
            x = ip.strip(outs[0][0], outs[0][1])
            if x.op == "eq" and e in x.a:
                w = x.a[0] if x.a[1] is e else x.a[1]
                if e not in set(subterms(w)) and mklen(w) is it.a[2]:
                    return one(st, app("http1x::find_in_slice" if c.short.endswith("::position") else "slice::rfind_in", it.a[1], w))
    return one(st, app("Iterator::rposition" if "rposition" in c.short else "Iterator::position", it, ip.strip(st, args[1])))


@m("Iterator::fold")
def _fold(ip, st, c, args):
    it = to_iter(ip, st, args[0])
    st = st.copy()
    cell = ("heap", st.fresh())
    st.mem[cell] = ip.deref(st, args[1])

    def step(s, e):
        out = []
        for s2, r in c.invoke(s, args[2], [s.mem[cell], e]):
            s2 = s2.copy()
            s2.mem[cell] = ip.deref(s2, r)
            out.append(("cont", s2))
        return out
    return [(s, s.mem[cell]) for s, k, v in iterate(ip, st, c, it, step)]


@m("Iterator::sum", "Iterator::count", "Iterator::last", "Iterator::max", "Iterator::min")
def _sum(ip, st, c, args):
    it = ip.strip(st, to_iter(ip, st, args[0]))
    if c.short == "Iterator::count":
        fl = flat_iter(it)
        if fl is not None and not by_chars(it):
            return one(st, mklen(fl))
    t = app(c.short, it)
    if c.short in ("Iterator::sum", "Iterator::count"):
        TYPES.setdefault(t, "usize")
    return one(st, t)
