"""Run one workload under mpiexec, watch it, and turn what it left behind into a verdict."""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, tempfile, threading, time
import build as B

FW, VERIF, WORK = B.FW, B.VERIF, B.WORK
STALL_S = float(os.environ.get("VERIF_STALL_S", "25"))
TOTAL_S = float(os.environ.get("VERIF_TOTAL_S", "240"))


class Harness(Exception):
    """The machinery itself failed: no verdict."""


def mpi_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("OSHMPI_", "SHMEM_", "OMPI_", "PMIX_", "PRTE_", "HC_", "ASAN_", "UBSAN_", "TSAN_")):
            del e[k]
    e.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_pml="ob1",
             OMPI_MCA_btl="self,vader", OMPI_MCA_mpi_yield_when_idle="1",
             LC_ALL="C.UTF-8")
    return e


# a way to run a build, not a build of its own
ALIAS = {"memcheck": "plain"}
VALGRIND = ["valgrind", "--fullpath-after=", "--leak-check=no", "--error-limit=no", "--num-callers=25", "--fair-sched=try",
            "--suppressions=" + FW + "/conf/memcheck.supp"]


def record_calls(o):
    """Route the shmem_* calls of one object through trampolines that record which routine was called."""
    syms = sorted({l.split()[-1] for l in subprocess.check_output(["nm", "-u", o], text=True).splitlines()
                   if l.split()[-1].startswith("shmem_")})
    t = o[:-2] + "_calls"
    with open(t + ".S", "w") as f:
        f.write(".text\n")
        for i, s in enumerate(syms):
            f.write(".globl hcw_%s\nhcw_%s:\n movl $%d, hc_form_last(%%rip)\n jmp %s@PLT\n" % (s, s, i, s))
        f.write('.section .note.GNU-stack,"",@progbits\n')
    with open(t + "_n.c", "w") as f:
        f.write("int hc_form_last = -1;\nconst char *const hc_form_names[] = {%s 0};\n" % "".join('"%s",' % s for s in syms))
    with open(t + ".syms", "w") as f:
        f.write("".join("%s hcw_%s\n" % (s, s) for s in syms))
    B.run(["gcc", "-c", t + ".S", "-o", t + "1.o"])
    B.run(["gcc", "-c", t + "_n.c", "-o", t + "2.o"])
    B.run(["objcopy", "--redefine-syms=" + t + ".syms", o])
    B.run(["ld", "-r", o, t + "1.o", t + "2.o", "-o", t + ".o"])
    return t + ".o"


def harness(variant):
    """Build the library variant and the workload binary for it; returns the binary's path."""
    variant = ALIAS.get(variant, variant)
    bdir = B.build(variant)
    v = B.VARIANTS[variant]
    srcs = sorted(glob.glob(FW + "/h/*.c"))
    if not v["shim"]:
        srcs = [s for s in srcs if not s.endswith("/shim.c")]
    h = hashlib.sha256(bdir.encode())
    for s in srcs + sorted(glob.glob(FW + "/h/*.h")) + [os.path.abspath(__file__)]:
        h.update(s.encode())
        h.update(open(s, "rb").read())
    key = h.hexdigest()[:16]
    exe = os.path.join(bdir, "wl-" + key)
    with open(os.path.join(WORK, "build", variant + ".hlock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(bdir, "wl-*")):
            os.unlink(old)
        odir = tempfile.mkdtemp(dir=bdir)
        inc = ["-I" + os.path.join(bdir, "include")] + B.MPI_INC
        flags = [f for f in v["flags"] if f != "-O2"] + ["-O1"]
        if not v["shim"]:
            flags.append("-DHC_NO_SHIM")
        if any(k == "OSHMPI_ENABLE_THREAD_MULTIPLE" for k, _ in v["add"]):
            flags.append("-DHC_THREAD_MULTIPLE")

        def cc(s):
            o = os.path.join(odir, os.path.basename(s)[:-2] + ".o")
            # the legacy scenario is compiled as a pre-C11 program, the rest as C11
            std = "-std=gnu99" if s.endswith("_c99.c") else "-std=gnu11"
            cmd = ["gcc", std, "-w", "-fno-strict-aliasing", "-c"] + flags + inc + [s, "-o", o]
            own = {"gforms.c": "-DHC_NO_GENERIC", "wl_legacy_c99.c": "-DHC_NO_LEGACY"}.get(os.path.basename(s))
            try:
                B.run(cmd)
            except B.BuildError:
                # what these programs may call is itself a property (P23): its scenarios then report it
                if not own:
                    raise
                B.run(cmd + [own])
            return record_calls(o) if s.endswith("/gforms.c") else o
        srcs.sort(key=lambda c: -os.path.getsize(c))
        with cf.ThreadPoolExecutor(B.JOBS) as ex:
            objs = list(ex.map(cc, srcs))
        san = [f for f in v["flags"] if f.startswith("-fsanitize")]
        B.run(["gcc"] + san + objs + [os.path.join(bdir, "liboshmpi.a")] + B.MPI_LIB + ["-lpthread", "-lm", "-Wl,--export-dynamic-symbol=dlclose", "-o", exe + ".tmp"])
        os.rename(exe + ".tmp", exe)
        shutil.rmtree(odir)
    return exe


class Slots:
    def __init__(self, n):
        self.n, self.c = n, threading.Condition()

    def take(self, k):
        k = min(k, 12)
        with self.c:
            while self.n < k:
                self.c.wait()
            self.n -= k
        return k

    def give(self, k):
        with self.c:
            self.n += k
            self.c.notify_all()


STOP = threading.Event()         # a verdict was reached: what still runs is of no interest
SLOTS = Slots(int(os.environ.get("VERIF_SLOTS", "12")))


def beats(out, np):
    r = []
    for i in range(np):
        try:
            with open("%s/r%d.beat" % (out, i), "rb") as f:
                d = f.read(5 * 8 + 96)
            b, done, a, bb, c = struct.unpack("<QQqqq", d[:40])
            r.append((b, done, d[40:].split(b"\0")[0].decode("latin1"), a, bb, c))
        except (OSError, struct.error):
            r.append((0, 0, "", 0, 0, 0))
    return r


def run_once(exe, scn, np, args, env, outdir, stall, total, tool=()):
    os.makedirs(outdir, exist_ok=True)
    e = mpi_env()
    e.update({k: str(v) for k, v in env.items()})
    e["HC_OUT"] = outdir
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:log_path=%s/san:detect_stack_use_after_return=0:allow_user_segv_handler=1" % outdir
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=0:log_path=%s/san" % outdir
    e["PMIX_MCA_gds"] = "hash"       # the shared-memory store wants fixed addresses, which sanitizers occupy
    e["TSAN_OPTIONS"] = "ignore_noninstrumented_modules=1:halt_on_error=0:exitcode=0:history_size=4:log_path=%s/tsan:suppressions=%s/conf/tsan.supp:report_signal_unsafe=0" % (outdir, FW)
    cmd = ["mpiexec.openmpi", "--oversubscribe", "--bind-to", "none", "-n", str(np)] + list(tool) + [exe, scn] + \
          ["%s=%s" % a for a in sorted(args.items())]
    k = SLOTS.take(np)
    try:
        t0 = time.time()
        with open(outdir + "/out", "wb") as fo:
            p = subprocess.Popen(cmd, stdout=fo, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e,
                                 start_new_session=True, cwd=outdir)
            last, lastb = time.time(), None
            state = "exit"
            while True:
                try:
                    p.wait(0.05 if time.time() - t0 < 3 else 0.25)
                    break
                except subprocess.TimeoutExpired:
                    pass
                b = sum(x[0] + x[1] for x in beats(outdir, np))
                now = time.time()
                if b != lastb:
                    last, lastb = now, b
                if now - last > stall:
                    state = "stall"
                elif now - t0 > total or STOP.is_set():
                    state = "overtime"
                else:
                    continue
                p.terminate()
                try:
                    p.wait(5)
                except subprocess.TimeoutExpired:
                    pass
                # only our own session and binaries
                subprocess.run(["pkill", "-KILL", "-f", "HC_OUT_NONE|" + re.escape(exe) + " " + scn + ".*" + re.escape("tag=" + str(args.get("tag", "none"))) + "( |$)"],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                break
        return state, p.returncode, time.time() - t0
    finally:
        SLOTS.give(k)


ASSERT_RE = re.compile(r"OSHMPI assert fail in \[(?:.*/)?([^/\]]+?):\d+\]: \"(.*)\"")
ASAN_RE = re.compile(r"ERROR: AddressSanitizer: ([\w-]+)")
UB_RE = re.compile(r"([\w./-]+\.[ch]):(\d+):\d+: runtime error: (.*)")


def lib_frame(txt):
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\w+) ([^\s:]+)", txt):
        if "src_tree" in m.group(2):
            return m.group(1)
    m = re.search(r"#\d+ 0x[0-9a-f]+ in (\w+)", txt)
    return m.group(1) if m else "?"


VG_RE = re.compile(r"(Invalid (?:read|write|free)|Conditional jump|Use of uninitialised|Mismatched free|Source and destination overlap|"
                   r"Jump to the invalid|Argument '\w+' of function|Process terminating|Syscall param)")


def memcheck(path):
    """reports with the library on the stack; innermost library frame names them"""
    out = []
    for blk in re.split(r"==\d+== \n", open(path, errors="replace").read()):
        txt = re.sub(r"(?m)^==\d+== ?", "", blk)
        m = VG_RE.match(txt.strip())
        if not m:
            continue
        # the first stack is the error; what follows describes the address
        first = re.split(r"\n(?= ?(?:Address|Uninitialised|  Block))", txt)[0]
        fr = re.search(r"(?:at|by) 0x[0-9A-F]+: (\w+) \(([^)]*src_tree[^)]*)\)", first)
        if fr and "dlmalloc" not in fr.group(2):
            out.append(("memcheck:%s:%s" % (m.group(1).replace(" ", "-"), fr.group(1)), txt[:2500]))
    return out


def analyse(outdir, np, state, rc, expect_exit=None):
    """-> (fails [(key, detail)], stats, cov set, ubsan [(key, detail)], complete)"""
    fails, stats, cov, ub, ts = [], {}, set(), [], []
    complete, dig = 0, {}
    for i in range(np):
        try:
            for line in open("%s/r%d.log" % (outdir, i), errors="replace"):
                if line.startswith("FAIL "):
                    key, _, det = line[5:].partition(" | ")
                    fails.append((key.strip(), det.strip()))
                elif line.startswith("STAT "):
                    _, n, v = line.split()
                    stats[n] = stats.get(n, 0) + int(v)
                elif line.startswith("COV "):
                    cov.add(line[4:20])
                elif line.startswith("NOTE DIG "):
                    dig.setdefault(i, []).append(line[9:].strip())
                elif line.startswith("DONE"):
                    complete += 1
        except OSError:
            pass
    for f in sorted(glob.glob(outdir + "/san.*")):
        t = open(f, errors="replace").read()
        m = ASAN_RE.search(t)
        if m:
            fails.append(("asan:%s:%s" % (m.group(1), lib_frame(t)), t[:3000]))
        for m in UB_RE.finditer(t):
            what = re.sub(r"-?\d[\dxa-f.e+]*", "N", m.group(3))[:90]
            ub.append(("ubsan:%s:%s" % (os.path.basename(m.group(1)), what), m.group(0)))
    for f in sorted(glob.glob(outdir + "/vg.*")):
        fails += memcheck(f)
    for f in sorted(glob.glob(outdir + "/tsan.*")):
        t = open(f, errors="replace").read()
        for rep in t.split("=================="):
            if "WARNING: ThreadSanitizer" in rep:
                kind = re.search(r"ThreadSanitizer: ([^(\n]*)", rep).group(1).strip()
                # the two conflicting accesses; each must be in the library
                acc = [a for a in re.split(r"\n\s*\n", rep) if re.search(r"^\s*(Previous )?(atomic )?(read|write) of size", a, re.I | re.M)]
                fr = []
                for a in acc:
                    f1 = [m.group(1) for m in re.finditer(r"#\d+ (\w+) ([^\s]*src_tree[^\s]*)", a)]
                    if not f1:
                        fr = []
                        break
                    fr.append(f1[0])
                if len(acc) < 2 and re.search("unlock of an unlocked|double lock|destroy of a locked|heap-use-after-free", kind):
                    fr = [m.group(1) for m in re.finditer(r"#\d+ (\w+) ([^\s]*src_tree[^\s]*)", rep)][:2]
                if fr and ("data race" not in kind or len(acc) >= 2):
                    ts.append(("tsan:%s:%s" % (kind.replace(" ", "-"), "/".join(dict.fromkeys(sorted(fr)))[:120]), rep[:3500]))
    try:
        out = open(outdir + "/out", errors="replace").read()
    except OSError:
        out = ""
    if state == "exit" and complete < np and expect_exit is None:
        m = ASSERT_RE.search(out)
        if m:
            key = "abort:assert:%s:%s" % (m.group(1), m.group(2)[:60])
        elif re.search(r"Assertion .* failed", out):
            key = "abort:assertion"
        elif re.search(r"Signal: (\w.*) \(", out):
            key = "abort:signal:" + re.search(r"Signal: (\w.*) \(", out).group(1).replace(" ", "-")
        elif re.search(r"MPI_ERR\w*|An error occurred in MPI_\w+", out):
            key = "abort:mpi:" + re.search(r"An error occurred in (MPI_\w+)|(MPI_ERR\w*)", out).group(0).split()[-1]
        else:
            key = "abort:exit:%s" % rc
        if not fails:
            fails.append((key, out[-2500:]))
    return fails, stats, cov, ub, ts, complete, out, dig


class Result:
    pass


_n = [0]
_nl = threading.Lock()


def run(variant, scn, np, args=None, env=None, stall=None, total=None, expect_exit=None, keep=None):
    """One workload execution; a stall is confirmed by a second run before it counts."""
    exe = harness(variant)
    args = dict(args or {})
    r = Result()
    for attempt in (0, 1):
        with _nl:
            _n[0] += 1
            tag = "%d_%d" % (os.getpid(), _n[0])
        args["tag"] = tag
        out = os.path.join(WORK, "runs", tag)
        shutil.rmtree(out, ignore_errors=True)
        tool, env1 = (), dict(env or {})
        if variant == "memcheck":
            tool = VALGRIND + ["--log-file=%s/vg.%%p" % out]
            env1["HC_NOJUNK"] = "1"
        state, rc, wall = run_once(exe, scn, np, args, env1, out, stall or STALL_S, total or TOTAL_S, tool)
        r.fails, r.stats, r.cov, r.ub, r.ts, r.complete, r.out, r.dig = analyse(out, np, state, rc, expect_exit)
        if variant == "memcheck":
            # its own reports only: it computes long double with 64 bits
            r.fails = [f for f in r.fails if f[0].startswith(("memcheck:", "abort:signal"))]
        r.state, r.rc, r.wall, r.np, r.scn, r.args, r.env, r.variant = state, rc, wall, np, scn, args, env or {}, variant
        r.beats = beats(out, np)
        r.first_state = r.first_state if attempt else state
        env_trouble = state == "exit" and not r.fails and r.complete < np and expect_exit is None
        launch_trouble = state == "exit" and not os.path.exists(out + "/r0.log")
        if state == "exit" and re.search(r"exited on signal 9 ", r.out) and all(f[0].startswith("abort:exit") for f in r.fails):
            # out of memory: nothing in the workloads or the library sends SIGKILL
            launch_trouble = True
        if launch_trouble:
            r.fails = []
        if keep and (r.fails or state != "exit"):
            shutil.rmtree(keep, ignore_errors=True)
            shutil.copytree(out, keep, ignore=shutil.ignore_patterns("*.beat", "core*"))
        shutil.rmtree(out, ignore_errors=True)
        if not (state != "exit" or launch_trouble) or STOP.is_set():
            break
        if r.fails:
            break
    if launch_trouble:
        raise Harness("could not launch %s: %s" % (scn, r.out[-1500:]))
    if r.state == "stall" and attempt == 0:
        r.state = "overtime"        # not confirmed, and no longer needed
    if r.state == "stall":
        where = "; ".join("rank %d at %s(%d,%d,%d)" % (i, b[2], b[3], b[4], b[5]) for i, b in enumerate(r.beats) if not b[1])
        r.fails.append(("hang:" + scn, "no process made progress for %gs, twice: %s" % (stall or STALL_S, where)))
    r.inconclusive = r.state == "overtime" and not r.fails
    return r
