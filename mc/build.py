#!/usr/bin/env python3
"""Builds the qrack library and one harness from /repo's *current working tree*.

  build.py HARNESS [--flavour plain|asan|tsan|big] -> prints the path of the executable

Objects are cached under /verif/.build by the SHA-256 of everything that can influence them (compiler flags,
every header of /repo, the source itself, the harness headers), never by time stamps, so that a stale object can not
be used after a patch or a checkout.
"""
import argparse, concurrent.futures, hashlib, json, os, re, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QRACK_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD_DIR", os.path.join(VERIF, ".build"))

FLAVOURS = {
    # cmake definitions, compiler, extra compile flags, extra link flags
    "plain": ([], "g++", ["-O1"], []),
    "asan": ([], "g++", ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"], ["-fsanitize=address"]),
    "dbg": ([], "g++", ["-O0", "-g"], []),
    "big": (["-DQBCAPPOW=8"], "g++", ["-O1"], []),
    # instrumented with the tsan callbacks, linked against *our* runtime (controlled scheduler)
    "sched": ([], "g++", ["-O1", "-g1", "-fsanitize=thread"],
              ["-rdynamic", "-Wl,--wrap=free", "-Wl,--wrap=memcpy", "-Wl,--wrap=memmove", "-Wl,--wrap=memset"]),
}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(str(len(p)).encode() + b":" + p)
    return h.hexdigest()


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(roots, exts):
    items = []
    for root in roots:
        for d, dn, fn in os.walk(root):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(exts):
                    p = os.path.join(d, f)
                    items.append(p)
                    items.append(hashlib.sha256(read(p)).hexdigest())
    return sha(*items)


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
        sys.exit(3)
    return r.stdout


def configure(defs):
    """cmake-configure the repository (out of tree) to learn its generated header, sources and include path."""
    key = sha("cfg3", tree_hash([os.path.join(REPO, "cmake")], (".cmake", ".in", ".txt")),
              read(os.path.join(REPO, "CMakeLists.txt")), tree_hash([os.path.join(REPO, "include")], (".in",)), *defs)
    d = os.path.join(BUILD, "cfg-" + key[:16])
    marker = os.path.join(d, "ok.json")
    if not os.path.exists(marker):
        os.makedirs(d, exist_ok=True)
        env = dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C.UTF-8")
        run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release", "-DENABLE_OPENCL=OFF",
             "-DENABLE_CUDA=OFF", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"] + defs,
            env=env)
        cc = json.load(open(os.path.join(d, "compile_commands.json")))
        lib, pin, flags = [], [], None
        for e in cc:
            m = re.search(r"-o (\S+)", e["command"])
            o = m.group(1)
            if o.startswith("CMakeFiles/qrack.dir/"):
                lib.append(e["file"])
                if flags is None:
                    toks = e["command"].split()
                    flags = [t for t in toks if re.match(r"-(I|D|std=|m)", t) and t != "-MD" and t != "-MT" and t != "-MF"]
            elif o.startswith("CMakeFiles/qrack_pinvoke.dir/"):
                pin.append(e["file"])
        json.dump({"lib": lib, "pinvoke": pin, "flags": flags}, open(marker + ".tmp", "w"))
        os.rename(marker + ".tmp", marker)
    return d, json.load(open(marker))


def build(harness, flavour, pinvoke):
    t0 = time.time()
    defs, cxx, xflags, lflags = FLAVOURS[flavour]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "exe"), exist_ok=True)
    d, cfg = configure(defs)
    base = cfg["flags"] + ["-w", "-pthread"] + xflags
    # the generated header is part of the key; its directory name is content-derived already
    hdr = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "src")], (".hpp", ".h", ".inl", ".cl", ".cuh"))
    gen = tree_hash([os.path.join(d, "include")], (".h", ".hpp"))
    mch = tree_hash([os.path.join(VERIF, "mc")], (".hpp", ".h"))
    jobs = []
    for s in sorted(set(cfg["lib"] + (cfg["pinvoke"] if pinvoke else []))):
        if not os.path.exists(s):
            continue
        key = sha("lib", s, read(s), hdr, gen, " ".join(base), cxx)
        jobs.append((s, os.path.join(BUILD, "obj", key[:32] + ".o"), base))
    hs = os.path.join(VERIF, "mc", harness + ".cpp")
    hflags = [f for f in cfg["flags"]] + ["-std=c++17", "-w", "-pthread", "-I" + os.path.join(VERIF, "mc")] + \
        ["-O1"] + (xflags if flavour in ("asan", "dbg", "sched") else [])
    extra = []
    if flavour == "sched":
        extra = [os.path.join(VERIF, "mc", "sched_rt.cpp")]
    for s in [hs] + extra:
        fl = [f for f in hflags if not (s in extra and f == "-fsanitize=thread")]
        key = sha("h", s, read(s), hdr, gen, mch, " ".join(fl), cxx)
        jobs.append((s, os.path.join(BUILD, "obj", key[:32] + ".o"), fl))
    exe = os.path.join(BUILD, "exe", harness + "-" + flavour + "-" + sha(*[o for _, o, _ in jobs], " ".join(lflags))[:24])
    if os.path.exists(exe):
        return exe
    # big files first
    todo = [j for j in jobs if not os.path.exists(j[1])]
    todo.sort(key=lambda j: -os.path.getsize(j[0]) - (10**9 if j[0].startswith(VERIF) else 0))

    def one(j):
        src, obj, fl = j
        tmp = "%s.%d.tmp.o" % (obj, os.getpid())
        run([cxx] + fl + ["-c", src, "-o", tmp])
        os.rename(tmp, obj)

    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        list(ex.map(one, todo))
    tmp = "%s.%d.tmp" % (exe, os.getpid())
    run([cxx] + [o for _, o, _ in jobs] + ["-o", tmp, "-pthread", "-ldl"] + lflags)
    os.rename(tmp, exe)
    sys.stderr.write("built %s in %.1fs (%d objects compiled)\n" % (os.path.basename(exe), time.time() - t0, len(todo)))
    prune()
    return exe


def prune(limit=3 << 30):
    try:
        fs = []
        for sub in ("obj", "exe"):
            p = os.path.join(BUILD, sub)
            for f in os.listdir(p):
                st = os.stat(os.path.join(p, f))
                fs.append((st.st_atime, st.st_size, os.path.join(p, f)))
        tot = sum(f[1] for f in fs)
        for a, s, p in sorted(fs):
            if tot <= limit:
                break
            os.unlink(p)
            tot -= s
    except OSError:
        pass


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("harness")
    ap.add_argument("--flavour", default="plain")
    ap.add_argument("--pinvoke", action="store_true")
    a = ap.parse_args()
    print(build(a.harness, a.flavour, a.pinvoke))
