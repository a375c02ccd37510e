#!/usr/bin/env python3
"""Builds libpluto's sources from /repo's working tree, plus the harness, into
/verif/build/<variant>/ with a sanitizer.  Incremental by content hash.

variants: asan  (libpluto as shipped: libpluto_dummy.c)
          tool  (as the pluto tool links it: constraints_polylib.c, polylib)
          tsan  (libpluto, ThreadSanitizer)
"""
import hashlib, os, re, subprocess, sys, concurrent.futures, fcntl, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(os.path.dirname(HERE), "build"))
GUARD = "PLUTO_VERIF_HOOKS"

SAN = {
    "asan": ["-fsanitize=address,undefined", "-fsanitize-recover=undefined"],
    "tool": ["-fsanitize=address,undefined", "-fsanitize-recover=undefined"],
    "tsan": ["-fsanitize=thread"],
}
HARNESS = ["driver.cpp", "judge.cpp", "scop.cpp", "oracle.cpp", "iss.cpp", "given.cpp", "shim/shim.c"]


def sources():
    txt = open(os.path.join(REPO, "lib/Makefile.am")).read().replace("\\\n", " ")
    m = re.search(r"^libpluto_la_SOURCES\s*=(.*)$", txt, re.M)
    if not m:
        raise SystemExit("no libpluto_la_SOURCES in lib/Makefile.am")
    return [s for s in m.group(1).split() if re.search(r"\.(c|cpp|cc)$", s)]


def tree_hash():
    h = hashlib.sha256()
    for d in ("lib", "include/pluto", "tool"):
        base = os.path.join(REPO, d)
        for f in sorted(os.listdir(base)):
            p = os.path.join(base, f)
            if os.path.isfile(p) and re.search(r"\.(c|cpp|cc|h|hpp|am)$", f):
                h.update(f.encode() + b"\0" + open(p, "rb").read() + b"\0")
    h.update(open(os.path.join(REPO, "configure.ac"), "rb").read())
    return h.hexdigest()


def harness_hash():
    h = hashlib.sha256()
    for root, _, files in sorted(os.walk(HERE)):
        for f in sorted(files):
            if re.search(r"\.(c|cpp|h)$", f):
                h.update(f.encode() + open(os.path.join(root, f), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError(" ".join(cmd) + "\n" + r.stdout[-6000:])


def build(variant):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock." + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(OUT, variant)
        th, hh = tree_hash(), harness_hash()
        stamp = os.path.join(d, "stamp")
        exe = os.path.join(d, "mon")
        if os.path.exists(stamp) and os.path.exists(exe) and open(stamp).read() == th + hh:
            return exe
        os.makedirs(os.path.join(d, "gen"), exist_ok=True)
        ver = re.search(r"^AC_INIT\(\[pluto\],\[([^\]]*)\]", open(os.path.join(REPO, "configure.ac")).read(), re.M)
        with open(os.path.join(d, "gen/version.h"), "w") as f:
            f.write('#define PLUTO_VERSION "%s"\n' % (ver.group(1) if ver else "unknown"))
        flags = ["-g1", "-O1", "-fno-omit-frame-pointer", "-w", "-DGLPK", "-DLIB_PLUTO",
                 "-DSCOPLIB_INT_T_IS_LONGLONG", "-DCLOOG_INT_GMP", "-D" + GUARD,
                 "-I" + REPO + "/include", "-I" + REPO + "/lib", "-I" + REPO + "/tool",
                 "-I" + d + "/gen", "-I" + HERE + "/shim", "-I" + HERE,
                 "-include", HERE + "/shim/absent_isl.h"] + SAN[variant]
        if variant == "tool":
            flags.append("-DVERIF_TOOL")
        jobs = []
        srcs = [os.path.join(REPO, "lib", s) for s in sources()]
        if variant == "tool":
            srcs = [s for s in srcs if not s.endswith("libpluto_dummy.c")]
            srcs.append(os.path.join(REPO, "tool/constraints_polylib.c"))
        old = open(stamp).read() if os.path.exists(stamp) else ""
        objs = []
        for s in srcs:
            o = os.path.join(d, "lib_" + os.path.basename(s) + ".o")
            objs.append(o)
            if not (old[:64] == th and old[64:] and os.path.exists(o) and False):
                jobs.append((s, o))
        for s in HARNESS + (["alg.cpp"] if variant == "tool" else ["noalg.cpp"]):
            s = os.path.join(HERE, s)
            o = os.path.join(d, "h_" + os.path.basename(s) + ".o")
            objs.append(o)
            jobs.append((s, o))
        if os.path.exists(stamp):
            os.unlink(stamp)

        def comp(job):
            s, o = job
            # per-object cache: preprocessed text + flags
            cc = ["clang++", "-std=c++17"] if s.endswith(".cpp") else ["clang"]
            pre = subprocess.run(cc + flags + ["-E", s], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if pre.returncode:
                raise RuntimeError(s + "\n" + pre.stderr.decode()[-6000:])
            k = hashlib.sha256(pre.stdout + repr((cc, flags)).encode()).hexdigest()
            kf = o + ".key"
            if os.path.exists(o) and os.path.exists(kf) and open(kf).read() == k:
                return
            run(cc + flags + ["-c", s, "-o", o])
            open(kf, "w").write(k)

        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(comp, jobs))
        libs = ["-lisl", "-lgmp", "-lglpk", "-lm", "-lpthread"]
        if variant == "tool":
            libs.insert(0, "-lpolylib64")
        run(["clang++"] + SAN[variant] + objs + ["-o", exe] + libs)
        open(stamp, "w").write(th + hh)
        return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan"]:
        print(build(v))
