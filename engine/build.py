"""Builds the MIR driver and dumps the workspace of /repo's current tree (incrementally keyed on its content)."""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")

FULL = "faithful,raw_headers,query_strings,extended_queries,cookies,url_variables"
CONFIGS = {
    "default": [],
    "rustls": ["--no-default-features", "--features", FULL + ",rustls"],
    "openssl": ["--features", "openSSL"],
    "nofeatures": ["--no-default-features"],
    # thorough tier only
    "faithful": ["--no-default-features", "--features", "faithful"],
    "lenient": ["--no-default-features", "--features", "raw_headers,query_strings,extended_queries,cookies,url_variables"],
    "novars": ["--no-default-features", "--features", "faithful,raw_headers,query_strings,extended_queries,cookies"],
    "nocookies": ["--no-default-features", "--features", "faithful,raw_headers,query_strings,extended_queries,url_variables,rustls"],
}


def tree_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not (base == REPO and d in (".git", "target")))
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            try:
                with open(p, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                pass
            h.update(b"\0")
    with open(os.path.join(VERIF, "driver", "main.rs"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode:
        sys.stderr.write((r.stdout + r.stderr)[-6000:])
        raise SystemExit("build step failed: " + " ".join(cmd))
    return r.stdout


def sysroot():
    return run(["rustc", "+nightly", "--print", "sysroot"]).strip()


def driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    out = os.path.join(BUILD, "mirdump")
    stamp = out + ".stamp"
    with open(src, "rb") as fh:
        h = hashlib.sha256(fh.read()).hexdigest()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    run(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", out + ".tmp"], cwd=BUILD)
    os.replace(out + ".tmp", out)
    open(stamp, "w").write(h)
    return out


def dump(cfgs):
    """make sure BUILD/dump/<cfg>/*.json describe the current tree; returns (dump dir, tree hash)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        todo = []
        for c in cfgs:
            st = os.path.join(BUILD, "dump", c, "stamp")
            if not (os.path.exists(st) and open(st).read() == h):
                todo.append(c)
        if todo:
            drv = driver()
            tgt = os.path.join(BUILD, "target")
            lock = os.path.join(REPO, "Cargo.lock")
            env = dict(os.environ)
            env.pop("RUSTFLAGS", None)
            env.update(CARGO_INCREMENTAL="0", LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"),
                       RUSTC_WORKSPACE_WRAPPER=drv)
            fp = os.path.join(tgt, "debug", ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("octane"):
                        shutil.rmtree(os.path.join(fp, d))
            bd = os.path.join(tgt, "debug", "build")
            if os.path.isdir(bd):
                for d in os.listdir(bd):
                    if d.startswith("octane"):
                        shutil.rmtree(os.path.join(bd, d))
            for c in todo:
                out = os.path.join(BUILD, "dump", c)
                if os.path.isdir(out):
                    shutil.rmtree(out)
                os.makedirs(out)
                env["MIRDUMP_OUT"] = out
                msgs = run(["cargo", "+nightly", "check", "-q", "--offline", "-p", "octane", "--target-dir", tgt,
                            "--message-format=json-render-diagnostics"] + CONFIGS[c], cwd=REPO, env=env)
                arts = {}
                for line in msgs.splitlines():
                    if line.startswith("{"):
                        m = json.loads(line)
                        if m.get("reason") == "compiler-artifact":
                            for fn in m["filenames"]:
                                if fn.endswith((".rmeta", ".so")):
                                    arts.setdefault(m["target"]["name"], []).append(fn)
                with open(os.path.join(out, "artifacts"), "w") as fh:
                    json.dump(arts, fh)
                for k in ("octane", "octane_http", "octane_macros"):
                    if not os.path.exists(os.path.join(out, k + ".json")):
                        # built once for another feature set and not rebuilt: reuse that dump of the same tree
                        for o in CONFIGS:
                            p = os.path.join(BUILD, "dump", o, k + ".json")
                            s = os.path.join(BUILD, "dump", o, "stamp")
                            if o != c and os.path.exists(p) and os.path.exists(s) and open(s).read() == h:
                                shutil.copy(p, out)
                                break
                        else:
                            raise SystemExit("the driver produced no dump of %s (%s)" % (k, c))
                open(os.path.join(out, "stamp"), "w").write(h)
        return os.path.join(BUILD, "dump"), h


WITNESS = os.path.join(VERIF, "witness")


def witness_hash(h):
    x = hashlib.sha256(h.encode())
    for base, dirs, files in os.walk(WITNESS):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            x.update(os.path.relpath(p, WITNESS).encode() + b"\0" + open(p, "rb").read())
    return x.hexdigest()


def witness():
    """Type-check the witness programs of /verif/witness against the current tree.

    Returns (directory with their dumps, {program: None if it compiles, else the diagnostics}); compile-fail
    programs lie in witness/fail. Only the compiler runs (and, in it, the macros under test)."""
    d, h = dump(["default"])
    out = os.path.join(BUILD, "dump", "witness")
    res = os.path.join(out, "results")
    wh = witness_hash(h)
    if os.path.exists(res):
        r = json.load(open(res))
        if r["hash"] == wh:
            return r
    arts = json.load(open(os.path.join(d, "default", "artifacts")))
    if not all(os.path.exists(a) for l in arts.values() for a in l):
        # a later dump of another configuration removed the crates this one had built: build them again
        os.remove(os.path.join(d, "default", "stamp"))
        d, h = dump(["default"])
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(res):
            r = json.load(open(res))
            if r["hash"] == wh:
                return r
        if os.path.isdir(out):
            shutil.rmtree(out)
        # the crate's directory is not the directory the compiler runs in, as in any cargo workspace
        root = os.path.join(out, "ws", "member")
        os.makedirs(os.path.join(root, "data", "sub dir"))
        for f in ("data/file.txt", "data/sub dir/x{y}.html"):
            open(os.path.join(root, f), "w").close()
        arts = json.load(open(os.path.join(d, "default", "artifacts")))
        deps = []
        for x in sorted({os.path.dirname(a) for l in arts.values() for a in l}):
            deps += ["-L", "dependency=" + x]
        env = dict(os.environ)
        env.pop("RUSTFLAGS", None)
        env.update(LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), CARGO_MANIFEST_DIR=root, MIRDUMP_TEST="1", MIRDUMP_OUT=out)
        drv = driver()

        ext = []
        for k in ("octane", "tokio"):
            ext += ["--extern", "%s=%s" % (k, [a for a in arts[k] if a.endswith(".rmeta")][0])]
        r = {"hash": wh, "dir": os.path.join(BUILD, "dump"), "root": root, "programs": {}}
        progs = [f for f in sorted(os.listdir(WITNESS)) if f.endswith(".rs")]
        progs += ["fail/" + f for f in sorted(os.listdir(os.path.join(WITNESS, "fail")))]

        def one(f):
            e = dict(env)
            if f.startswith("fail/"):
                e.pop("MIRDUMP_OUT")
            kind = ["--test"] if f in ("entry.rs", "fail/test_not_async.rs") else ["--crate-type", "lib"]
            name = "witness_" + os.path.basename(f)[:-3]
            q = subprocess.run([drv, os.path.join(WITNESS, f), "--crate-name", name, "--edition", "2018", "--emit=metadata",
                                "-o", os.path.join(out, name + ".rmeta"), "-A", "warnings"] + deps + kind + ext,
                               cwd=os.path.dirname(root), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return f, None if q.returncode == 0 else q.stdout[-4000:]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            r["programs"] = dict(ex.map(one, progs))
        with open(res, "w") as fh:
            json.dump(r, fh, indent=1)
        return r
