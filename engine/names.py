"""Renamed private items.

The rules name functions, types and fields.  engine/names.json lists those of the tree the rules were written for.  If one
of them is missing and an item that is not in the list stands in its place (same signature and nearly the same body, or
the same fields), the program is read as if the item still had its old name, so that a rename changes nothing.
"""
import json
import os
import re
from collections import Counter

LIST = os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")


def shape(f):
    """what a function is made of, without the names of local items"""
    out = Counter()
    for b in f["blocks"]:
        if b.get("c"):
            continue
        for s in b["st"]:
            r = s.get("r") or {}
            out["%s %s %s" % (s.get("k"), r.get("k"), r.get("op", ""))] += 1
        t = b["t"]
        k = t["k"]
        if k == "call":
            p = (t["f"].get("fn") or {}).get("path", "?")
            k += " " + (p.rsplit("::", 1)[-1] if p.startswith(("std::", "core::", "alloc::", "tokio", "<")) else "local")
        out[k] += 1
    return dict(out)


def sig(f):
    return re.sub(r"'\w+", "'_", f.get("sig") or "")


def fields(a):
    return [[(x["name"], x["ty"]) for x in v["fields"]] for v in a["variants"]]


def summary(crates):
    """{function: [signature, shape]}, {type: fields} of parsed dumps"""
    fns, adts = {}, {}
    for d in crates:
        for f in d["fns"]:
            if "{closure" not in f["path"] and not f.get("derived"):
                fns[f["path"]] = [sig(f), shape(f)]
        for a in d["adts"]:
            adts[a["path"]] = fields(a)
    return fns, adts


def alike(a, b):
    ks = set(a) | set(b)
    m = sum(max(a.get(k, 0), b.get(k, 0)) for k in ks)
    return sum(min(a.get(k, 0), b.get(k, 0)) for k in ks) / m if m else 1.0


def sub1(text, new, old):
    return re.sub(r"(?<![\w:])%s(?!\w)" % re.escape(new), lambda m: old, text)


def pairs(missing, extra, same):
    """the one-to-one matches"""
    out = []
    for m in missing:
        c = [x for x in extra if same(m, x)]
        if len(c) == 1 and sum(1 for y in missing if same(y, c[0])) == 1:
            out.append((m, c[0]))
    return out


def restore(texts, config):
    """the dumps (JSON texts), with renamed items under their listed names; the renames found"""
    key = config if len(texts) > 1 else "octane_macros"
    try:
        with open(LIST) as fh:
            known = json.load(fh).get(key)
    except (OSError, ValueError):
        known = None
    if known is None:
        return texts, []
    found = []
    # types
    fns, adts = summary([json.loads(t) for t in texts])
    last = lambda p: p.rsplit("::", 1)[-1]

    def sametype(m, n):
        a, b = known["adts"][m], adts[n]
        own = lambda fs, p: [[(x[0], x[1].replace(p, "Self")) for x in v] for v in fs]
        return (m.rsplit("::", 1)[0] == n.rsplit("::", 1)[0] or last(m) == last(n)) and own(a, m) == own(b, n) and any(v for v in a)

    while True:
        ps = pairs([x for x in known["adts"] if x not in adts], [x for x in adts if x not in known["adts"]], sametype)
        if not ps:
            break
        for m, n in ps:
            texts = [sub1(t, n, m) for t in texts]
            found.append("%s is %s" % (n, m))
        fns, adts = summary([json.loads(t) for t in texts])
    # fields
    fmap = {}
    for p, old in known["adts"].items():
        new = adts.get(p)
        if new is None or len(new) != len(old):
            continue
        for vo, vn in zip(old, new):
            if len(vo) != len(vn):
                continue
            gone = [x[0] for x in vo if x[0] not in [y[0] for y in vn]]
            come = [y[0] for y in vn if y[0] not in [x[0] for x in vo]]
            if not gone or len(gone) != len(come):
                continue
            if all(x[1] == y[1] and (x[0] == y[0] or x[0] in gone) for x, y in zip(vo, vn)):
                m = [(x[0], y[0]) for x, y in zip(vo, vn) if x[0] != y[0]]
            else:
                to, tn = dict(map(tuple, vo)), dict(vn)
                m = pairs(gone, come, lambda a, b: to[a] == tn[b])
            for a, b in m:
                fmap[p, b] = a
                found.append("%s.%s is %s" % (p, b, a))
    if fmap:
        ds = [json.loads(t) for t in texts]

        def walk(x):
            if isinstance(x, list):
                if len(x) == 4 and x[0] == "f" and isinstance(x[2], str) and (x[3], x[2]) in fmap:
                    x[2] = fmap[x[3], x[2]]
                for y in x:
                    walk(y)
            elif isinstance(x, dict):
                if "adt" in x and "names" in x:
                    x["names"] = [fmap.get((x["adt"], n), n) for n in x["names"]]
                for y in x.values():
                    walk(y)
        for d in ds:
            walk(d["fns"])
            walk(d["consts"])
            for a in d["adts"]:
                for v in a["variants"]:
                    for x in v["fields"]:
                        x["name"] = fmap.get((a["path"], x["name"]), x["name"])
        texts = [json.dumps(d) for d in ds]
    # functions
    base = lambda p: p.rsplit("::", 1)[0]

    def samefn(m, n):
        (s1, b1), (s2, b2) = known["fns"][m], fns[n]
        return s1 == s2 and (base(m) == base(n) or last(m) == last(n)) and alike(b1, b2) >= 0.8

    fr = []
    for m, n in pairs([x for x in known["fns"] if x not in fns], [x for x in fns if x not in known["fns"]], samefn):
        texts = [sub1(t, n, m) for t in texts]
        fr.append("%s is %s" % (n, m))
    return texts, found + fr


if __name__ == "__main__":
    # write the list for the current tree: python3 engine/names.py DUMPDIR
    import sys
    out = {}
    d = sys.argv[1]
    for cfg in sorted(os.listdir(d)):
        cr = []
        for c in ("octane", "octane_http"):
            p = os.path.join(d, cfg, c + ".json")
            if os.path.exists(p):
                with open(p) as fh:
                    cr.append(json.loads(fh.read().replace("octane_http::", "")))
        if len(cr) == 2:
            fns, adts = summary(cr)
            out[cfg] = {"fns": fns, "adts": adts}
        p = os.path.join(d, cfg, "octane_macros.json")
        if cfg == "default" and os.path.exists(p):
            with open(p) as fh:
                fns, adts = summary([json.load(fh)])
            out["octane_macros"] = {"fns": fns, "adts": adts}
    with open(LIST, "w") as fh:
        json.dump(out, fh, sort_keys=True, separators=(",", ":"))
