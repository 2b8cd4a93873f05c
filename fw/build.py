#!/usr/bin/env python3
"""Build pmodels/oshmpi from /repo's current working tree, out of tree, in an instrumented variant.

  build.py VARIANT [VARIANT...]     prints the build directory of each

A build directory holds  include/ (shmem.h, shmemx.h),  liboshmpi.a  and  variant.json.
It is keyed by the contents of every input, so an unchanged tree is not rebuilt in the same place.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

FW = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(FW)
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, "_work")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

MPI_INC = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
MPI_LIB = ["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi"]

# "static inline" instead of always_inline is what configure --enable-g=dbg chooses; it makes a build take seconds
INL = ["-DOSHMPI_STATIC_INLINE_PREFIX=static inline __attribute__((unused))"]
ASAN = INL + ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
        "-fno-sanitize=alignment", "-fsanitize-address-use-after-scope"]
PLAIN = INL + ["-O1", "-g"]
TSAN = INL + ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"]

# name -> (configuration defines added, removed, compile flags, use PMPI shim, allocation accounting)
VARIANTS = {
    # the configuration that /opt/vp/build.sh builds
    "asan":      dict(add=[], rm=[], flags=ASAN, shim=True, acct=True),
    "plain":     dict(add=[], rm=[], flags=PLAIN, shim=True, acct=True),
    # configure --disable-op-tracking --disable-strided-cache
    "notrack":   dict(add=[], rm=["OSHMPI_ENABLE_OP_TRACKING", "OSHMPI_ENABLE_STRIDED_DTYPE_CACHE"],
                      flags=PLAIN, shim=True, acct=True),
    # configure --enable-win-type=dynamic_win
    "dynwin":    dict(add=[("OSHMPI_ENABLE_DYNAMIC_WIN", "1")], rm=[], flags=PLAIN, shim=True, acct=True),
    # configure --enable-fast (no error checks, no debug), -O3
    "fast":      dict(add=[("OSHMPI_DISABLE_ERROR_CHECKING", "1"), ("OSHMPI_DISABLE_DEBUG", "1")], rm=[],
                      flags=INL + ["-O2", "-g"], shim=True, acct=True),
    # configure --enable-threads=multiple (needs OPA: fw/opa is a stand-in over the __atomic builtins)
    "mt":        dict(add=[("OSHMPI_ENABLE_THREAD_MULTIPLE", "1"), ("OSHMPI_THREAD_CS_LOCK", "OSHMPI_THREAD_CS_LOCK__PTHREAD_MUTEX")], rm=["OSHMPI_ENABLE_THREAD_SERIALIZED"],
                      flags=PLAIN, shim=True, acct=True),
    # ... --enable-async-thread=auto: a helper thread serves active messages, by default where they are used
    "mtasync":   dict(add=[("OSHMPI_ENABLE_THREAD_MULTIPLE", "1"), ("OSHMPI_THREAD_CS_LOCK", "OSHMPI_THREAD_CS_LOCK__PTHREAD_MUTEX")],
                      rm=["OSHMPI_ENABLE_THREAD_SERIALIZED", "OSHMPI_DISABLE_AM_ASYNC_THREAD"], flags=PLAIN, shim=True, acct=True),
    "mtsan":     dict(add=[("OSHMPI_ENABLE_THREAD_MULTIPLE", "1"), ("OSHMPI_THREAD_CS_LOCK", "OSHMPI_THREAD_CS_LOCK__PTHREAD_MUTEX")], rm=["OSHMPI_ENABLE_THREAD_SERIALIZED"],
                      flags=TSAN, shim=False, acct=False),
}

TYPED_H = [("RMA_TYPED_H", "typed", "rma_typedef", "shmem_rma_typed"),
           ("RMA_SIZED_H", "sized", "rma_sizedef", "shmem_rma_sized"),
           ("AMO_STD_TYPED_H", "typed", "amo_std_typedef", "shmem_amo_std_typed"),
           ("AMO_EXT_TYPED_H", "typed", "amo_ext_typedef", "shmem_amo_ext_typed"),
           ("AMO_BITWS_TYPED_H", "typed", "amo_bitws_typedef", "shmem_amo_bitws_typed"),
           ("COLL_TYPED_H", "typed", "coll_typedef", "shmem_coll_typed")]
for _s in ("aset", "team"):
    for _k in ("minmax", "sumprod", "bitws"):
        TYPED_H.append(("REDUCE_%s_%s_TYPED_H" % (_k.upper(), _s.upper()), "typed",
                        "reduce_%s_%s_typedef" % (_k, _s), "shmem_reduce_%s_%s_typed" % (_k, _s)))
TYPED_H += [("SIGNAL_TYPED_H", "typed", "signal_typedef", "shmem_signal_typed"),
            ("SIGNAL_SIZED_H", "sized", "signal_sizedef", "shmem_signal_sized"),
            ("P2P_TYPED_H", "typed", "p2p_typedef", "shmem_p2p_typed")]
TYPED_C = [(k, t, o[len("shmem_"):]) for (_, k, t, o) in TYPED_H]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def generated(rel):
    return bool(re.search(r"(^include/shmem\.h\.in$|_typed\.[ch]$|_sized\.[ch]$|^include/shmem\.h$|oshmpiconf)", rel))


def inputs():
    out = []
    for top in ("include", "src", "maint"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(x for x in dirs if x not in (".deps", ".libs", "autom4te.cache"))
            for f in sorted(files):
                rel = os.path.relpath(os.path.join(d, f), REPO)
                if re.search(r"\.(o|lo|la|a|so)$|~$", f) or generated(rel):
                    continue
                out.append(rel)
    return out


def tree_hash(rels, extra):
    h = hashlib.sha256()
    for r in rels:
        h.update(r.encode() + b"\0")
        with open(os.path.join(REPO, r), "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    for d in (FW + "/conf", FW + "/opa", FW + "/inc"):
        for f in sorted(glob.glob(d + "/*")):
            with open(f, "rb") as g:
                h.update(g.read())
    with open(os.path.abspath(__file__), "rb") as f:
        h.update(f.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


def gen(src, kind, table, tpl, out):
    script = "build_%s_api.pl" % kind
    flag = "--typefile" if kind == "typed" else "--sizefile"
    run(["perl", "maint/" + script, flag, "maint/%s.txt" % table, "--tplfile", tpl, "--outfile", out], cwd=src)


def version(src):
    t = open(os.path.join(src, "maint/version.m4")).read()
    m = re.search(r"OSHMPI_VERSION_m4\],\[([^\]]*)\]", t)
    return m.group(1) if m else "0"


def numversion(v):
    # as configure computes it; only the version macro depends on it
    m = re.match(r"(\d+)\.(\d+)(?:\.(\d+))?(?:(a|b|rc|p)(\d+))?", v)
    if not m:
        return "0"
    ext = {"a": 0, "b": 1, "rc": 2, "p": 3, None: 3}[m.group(4)]
    return "%d%02d%02d%d%02d" % (int(m.group(1)), int(m.group(2)), int(m.group(3) or 0), ext, int(m.group(5) or 0))


def build(variant):
    v = VARIANTS[variant]
    rels = inputs()
    key = tree_hash(rels, sorted((k, repr(x)) for k, x in v.items()))
    os.makedirs(os.path.join(WORK, "build"), exist_ok=True)
    bdir = os.path.join(WORK, "build", "%s-%s" % (variant, key))
    with open(os.path.join(WORK, "build", variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(bdir, "variant.json")):
            os.utime(bdir)
            return bdir
        # older builds of this variant are dropped: disk is limited (not those another check may be using)
        for old in glob.glob(os.path.join(WORK, "build", variant + "-*")):
            if time.time() - os.path.getmtime(old) > 1200:
                shutil.rmtree(old, ignore_errors=True)
        src = os.path.join(bdir, "src_tree")
        for r in rels:
            dst = os.path.join(src, r)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, r), dst)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            jobs = [ex.submit(gen, src, k, t, "include/%s.h.tpl" % o, "include/%s.h" % o) for (_, k, t, o) in TYPED_H]
            jobs += [ex.submit(gen, src, k, t, "src/shmem/%s.c.tpl" % o, "src/shmem/%s.c" % o)
                     for (k, t, o) in TYPED_C]
            for j in jobs:
                j.result()
        hdr = open(os.path.join(src, "include/shmem.h.in.tpl")).read().splitlines(True)
        outl = []
        for line in hdr:
            outl.append(line)
            m = re.search(r"SHMEM_(\w+) start", line)
            if m:
                for (k, _, _, o) in TYPED_H:
                    if k == m.group(1):
                        outl.append(open(os.path.join(src, "include/%s.h" % o)).read())
        text = "".join(outl)
        ver = version(src)
        for k, val in (("OSHMPI_VERSION", ver), ("OSHMPI_NUMVERSION", numversion(ver)),
                       ("OSHMPI_RELEASE_DATE", "unreleased"), ("CONFIGURE_ARGS_CLEAN", "verif")):
            text = text.replace("@%s@" % k, val)
        os.makedirs(os.path.join(bdir, "include"), exist_ok=True)
        open(os.path.join(bdir, "include/shmem.h"), "w").write(text)
        for f in glob.glob(os.path.join(src, "include/shmemx.h*")):
            if not f.endswith(".tpl"):
                t = open(f).read()
                open(os.path.join(bdir, "include/shmemx.h"), "w").write(t)
        conf = open(os.path.join(FW, "conf/base.h")).read()
        for r in v["rm"]:
            conf = re.sub(r"(?m)^#define %s\b.*$" % r, "/* %s off */" % r, conf)
        conf += "".join("#define %s %s\n" % a for a in v["add"])
        open(os.path.join(bdir, "include/oshmpiconf.h"), "w").write(conf)
        cfiles = sorted(glob.glob(os.path.join(src, "src/**/*.c"), recursive=True))
        cfiles = [c for c in cfiles if not c.endswith("/gpu/ze.c") and "/openpa/" not in c]
        cpp = ["-DHAVE_CONFIG_H", "-DONLY_MSPACES=1", "-DMSPACES=1", "-DOSHMPI_FAST_OPTS=O2",
               "-I" + os.path.join(bdir, "include"), "-I" + os.path.join(src, "include"),
               "-I" + os.path.join(src, "src/include"), "-I" + os.path.join(src, "src/internal"),
               "-I" + os.path.join(src, "src/internal/util"), "-I" + os.path.join(FW, "opa")] + MPI_INC
        if v["acct"]:
            cpp += ["-include", os.path.join(FW, "inc/mon_alloc.h")]
        odir = os.path.join(bdir, "obj")
        os.makedirs(odir, exist_ok=True)

        def cc(c):
            o = os.path.join(odir, os.path.relpath(c, src).replace("/", "_")[:-2] + ".o")
            fl = list(v["flags"])
            if c.endswith("/dlmalloc.c"):
                # third-party allocator: its own pointer tricks are not the subject
                fl = [f for f in fl if not f.startswith("-fsanitize")]
            cp = list(cpp)
            if c.endswith("/dlmalloc.c") and v["acct"]:
                cp = cpp[:-2]
            run(["gcc", "-w", "-std=gnu11", "-c"] + fl + cp + [c, "-o", o])
            return o
        # longest first
        cfiles.sort(key=lambda c: -os.path.getsize(c))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(cc, cfiles))
        run(["ar", "rcs", os.path.join(bdir, "liboshmpi.a")] + objs)
        shutil.rmtree(odir)
        json.dump(dict(variant=variant, key=key), open(os.path.join(bdir, "variant.json"), "w"))
        return bdir


if __name__ == "__main__":
    try:
        for n in sys.argv[1:]:
            print(build(n))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
