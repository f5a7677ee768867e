"""Pretty-printer for a dump: python3 pp.py DUMP.json [name-substring]"""
import json, sys
def place(p):
    s = "_%d" % p["l"]
    for e in p["p"]:
        if e[0] == "*": s = "(*%s)" % s
        elif e[0] == "f": s += "." + e[2]
        elif e[0] == "v": s = "(%s as %s)" % (s, e[1])
        elif e[0] == "i": s += "[_%d]" % e[1]
        else: s += "[%s]" % ",".join(map(str, e))
    return s
def val(v):
    if isinstance(v, dict):
        if "str" in v: return json.dumps(v["str"])
        if "char" in v: return repr(chr(v["char"]))
        if "bytes" in v: return repr(bytes(v["bytes"]))
        if "array" in v: return "[%s]" % ", ".join(map(val, v["array"]))
        if "tuple" in v: return "(%s)" % ", ".join(map(val, v["tuple"]))
        if "adt" in v: return "%s::%s(%s)" % (v["adt"], v["variant"], ", ".join(map(val, v["fields"])))
        return json.dumps(v)
    return str(v)
def op(o):
    if o["k"] in ("copy", "move"): return ("" if o["k"] == "copy" else "move ") + place(o["p"])
    if "fn" in o: return fn(o["fn"])
    return "const " + (o.get("path", "") + ("#%d" % o["promoted"] if "promoted" in o else "")) + "=" + (val(o["v"]) if "v" in o else "?" + o.get("pp", ""))
def fn(f):
    r = f.get("resolved")
    return f["path"] + (" => " + r if r and r != f["path"] else "") + ("<%s>" % ", ".join(f["args"]) if f["args"] else "")
def rv(r):
    k = r["k"]
    if k == "use": return op(r["o"])
    if k == "ref": return "&" + ("mut " if r["m"] else "") + place(r["p"])
    if k == "bin": return "%s(%s, %s)" % (r["op"], op(r["a"]), op(r["b"]))
    if k == "un": return "%s(%s)" % (r["op"], op(r["a"]))
    if k == "cast": return "%s as %s (%s)" % (op(r["o"]), r["ty"], r["ck"][:30])
    if k == "discr": return "discr(%s)" % place(r["p"])
    if k == "agg":
        n = r.get("adt", r.get("def", r["ak"]))
        return "%s%s{%s}" % (n, "::" + r["variant"] if "variant" in r else "", ", ".join(map(op, r["fs"])))
    if k == "repeat": return "[%s; %s]" % (op(r["o"]), r["n"])
    return json.dumps(r)
def show(f):
    print("fn %s argc=%d kind=%s coroutine=%s %s -> %s" % (f["path"], f["argc"], f["kind"], f["coroutine"], f["span"], f["ret"]))
    for i, l in enumerate(f["locals"]): print("   let _%d: %s %s %s" % (i, l["ty"][:150], l.get("n", ""), l.get("def","")))
    if f["upvars"]: print("   upvars", f["upvars"])
    for i, b in enumerate(f["blocks"]):
        if b["c"]: continue
        print("  bb%d:" % i)
        for s in b["st"]:
            if s["k"] == "=": print("     %s = %s" % (place(s["p"]), rv(s["r"])))
            else: print("    ", s)
        t = b["t"]; k = t["k"]
        if k == "goto": x = "goto bb%d" % t["t"]
        elif k == "switch": x = "switch %s %s else bb%d" % (op(t["o"]), ", ".join("%s->bb%d" % tuple(a) for a in t["ts"]), t["else"])
        elif k == "call": x = "%s = %s(%s) -> %s" % (place(t["d"]), op(t["f"]), ", ".join(map(op, t["args"])), t["t"])
        elif k == "assert": x = "assert %s == %s %s -> bb%d" % (op(t["o"]), t["e"], t["m"], t["t"])
        elif k == "drop": x = "drop %s -> bb%d" % (place(t["p"]), t["t"])
        elif k == "yield": x = "yield -> bb%d" % t["t"]
        else: x = k
        print("     " + x + "      // " + t["s"].split("/")[-1])
if __name__ == "__main__":
    d = json.load(open(sys.argv[1]))
    for f in d["fns"]:
        if len(sys.argv) < 3 or f["path"] == sys.argv[2] or (len(sys.argv) > 3 and sys.argv[2] in f["path"]): show(f)
