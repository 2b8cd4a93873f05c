"""What each check runs: per property, the executions (scenario x build variant x PEs x modes x adversary x seed)."""
import random, re

ASSUME = [
    "the MPI library (Open MPI 4.1.6 over shared memory, one node) is correct; the interposed adversary only uses freedom "
    "the MPI standard gives",
    "held on the executions listed, which are a sample: paths and interleavings not driven are not decided",
]

# adversaries: what the interposed MPI may do to the library
CALM = {}
HOLD = dict(HC_HOLD=700, HC_LATE=15, HC_MISS=200, HC_SSEND=300, HC_DELAY=10)
LAZY = dict(HC_HOLD=1000, HC_LATE=1, HC_MISS=400, HC_SSEND=100)
LIFO = dict(HC_HOLD=900, HC_LATE=8, HC_LIFO=1, HC_MISS=100, HC_SSEND=500)
SLOW = dict(HC_DELAY=60, HC_MISS=500, HC_SSEND=1000)
LAG = dict(HC_AFTER=350, HC_HOLD=300, HC_LATE=20)
NEVER = dict(HC_HOLD=1000, HC_MISS=200, HC_DELAY=5)  # nothing completes before it is asked to
ADV = [HOLD, CALM, LAZY, LIFO, SLOW, LAG, NEVER]

MODES = [{}, dict(OSHMPI_AMO_DBG_MODE="am"), dict(OSHMPI_RMA_DBG_MODE="am"),
         dict(OSHMPI_RMA_DBG_MODE="am", OSHMPI_AMO_DBG_MODE="am"), dict(OSHMPI_AMO_DBG_MODE="direct")]
DIRECT, AMA, RMAM, ALLAM, AMOD = MODES


def job(variant, scn, np, args=None, env=(), **kw):
    e = {}
    for x in env:
        e.update(x)
    d = dict(variant=variant, scn=scn, np=np, args=dict(args or {}), env=e)
    d.update(kw)
    return d


def spread(seed, n, scn, variants=("plain",), nps=(2, 3, 4, 3), modes=MODES, advs=ADV, args=None, salt="", vary=None,
           **kw):
    """n executions whose modes, adversaries, sizes and seeds are drawn evenly"""
    rng = random.Random("%s/%s/%s" % (seed, scn, salt))
    out = []
    cells = [(m, a) for m in modes for a in advs]
    rng.shuffle(cells)
    for i in range(n):
        m, a = cells[i % len(cells)]
        ar = dict(args or {})
        if vary:
            ar.update(vary(rng, i))
        s = rng.randrange(1, 1 << 30)
        ar["seed"] = s
        env = [m, a, dict(HC_SHIM_SEED=rng.randrange(1, 1 << 30))] if variants[i % len(variants)] != "mtsan" else [m]
        out.append(job(variants[i % len(variants)], scn, nps[i % len(nps)], ar, env, **kw))
    rng.shuffle(out)
    return out


def T(tier, q, t):
    return q if tier == "quick" else t


ALLOPS = "cswap,finc,inc,fadd,add,fetch,set,swap,fand,and,for,or,fxor,xor"


def v_printed(j, r):
    """what the library printed about itself against the environment it was given (P16)"""
    e, out, bad = j["env"], r.out, []
    on = lambda k: str(e.get(k, "")) not in ("", "0")
    vers = re.findall(r"SHMEM_MAJOR_VERSION\s+(\d+)\s+SHMEM_MINOR_VERSION\s+(\d+)\s+OSHMPI_VERSION\s+(\S+)", out)
    if on("SHMEM_VERSION") != bool(vers) or any(v[:2] != ("1", "4") for v in vers):
        bad.append(("printed-version", "SHMEM_VERSION=%s printed %s" % (e.get("SHMEM_VERSION"), vers)))
    sizes = re.findall(r"SHMEM_SYMMETRIC_SIZE\s+(-?\d+)", out)
    want = on("SHMEM_INFO") or on("OSHMPI_VERBOSE")
    if len(sizes) != (1 if want else 0):
        bad.append(("printed-info", "settings printed %d times, SHMEM_INFO=%s OSHMPI_VERBOSE=%s" % (len(sizes), e.get("SHMEM_INFO"), e.get("OSHMPI_VERBOSE"))))
    elif want and int(sizes[0]) != j["bytes"]:
        bad.append(("printed-heap-size", "SHMEM_SYMMETRIC_SIZE=%s is %d bytes, the library says %s" % (e.get("SHMEM_SYMMETRIC_SIZE"), j["bytes"], sizes[0])))
    if want:
        for k in ("SHMEM_VERSION", "SHMEM_INFO"):
            m = re.search(k + r"[ \t]+(\d+)[ \t]*$", out, re.M)
            if not m or (m.group(1) == "1") != on(k):
                bad.append(("printed-info", "%s=%s printed as %s" % (k, e.get(k), m and m.group(1))))
    ops = re.findall(r"OSHMPI_AMO_OPS[ \t]+(\S+)", out)
    if len(ops) != (1 if on("OSHMPI_VERBOSE") else 0):
        bad.append(("printed-info", "atomics setting printed %d times, OSHMPI_VERBOSE=%s" % (len(ops), e.get("OSHMPI_VERBOSE"))))
    elif ops:
        given = e.get("OSHMPI_AMO_OPS") or "all"
        given = ALLOPS if given in ("all", "any_op") else given
        if sorted(ops[0].split(",")) != sorted(given.split(",")):
            bad.append(("printed-amo-ops", "OSHMPI_AMO_OPS=%s printed as %s" % (e.get("OSHMPI_AMO_OPS"), ops[0])))
        t = re.search(r"initialized safety: (\w+)", out)
        m = re.search(r"OSHMPI_RMA_DBG_MODE[ \t]+(\w+)", out)
        if m and m.group(1) != e.get("OSHMPI_RMA_DBG_MODE", "auto"):
            bad.append(("printed-mode", "OSHMPI_RMA_DBG_MODE=%s printed as %s" % (e.get("OSHMPI_RMA_DBG_MODE"), m.group(1))))
    return bad


VERDICTS = {"printed": v_printed}
PLANS = {}


def agree(runs):
    """the latest of several executions of one program against the first: the same digests, epoch by epoch"""
    done = [(j, r) for j, r in runs if r.complete == r.np and not r.fails]
    if len(done) < 2 or done[-1][1] is not runs[-1][1]:
        return None
    (j0, a), (j1, b) = done[0], done[-1]
    for i in range(a.np):
        for x, y in zip(a.dig.get(i, []), b.dig.get(i, [])):
            if x != y:
                return ("digest-differs", "PE %d, epoch %s: %s in %s %s %s, %s in %s %s %s" % (
                    i, x.split()[0], x.split()[1], j0["variant"], j0["args"], j0["env"], y.split()[1], j1["variant"], j1["args"], j1["env"])), j0
        if len(a.dig.get(i, [])) != len(b.dig.get(i, [])):
            return ("digest-differs", "PE %d: %d epochs against %d" % (i, len(a.dig.get(i, [])), len(b.dig.get(i, [])))), j0
    return None


def plan(pid, metric, rule, assumptions=()):
    def deco(f):
        PLANS[pid] = dict(jobs=f, metric=set(metric), rule=rule, assumptions=list(assumptions))
        return f
    return deco


QUICKV = ("plain", "plain", "plain", "notrack", "plain", "dynwin", "plain", "fast", "mtasync")
THORV = ("plain", "notrack", "dynwin", "fast", "asan", "mtasync", "mt")


def V(tier, quick=QUICKV, thor=THORV):
    return quick if tier == "quick" else thor


def rma_args(r, i):
    if r.randrange(12) == 0:
        # transfers of up to a megabyte or so
        return dict(epochs=2, ops=r.choice([30, 60]), lsym=r.randrange(2), space=r.choice((1, 1, 2)), heap=r.choice([1 << 20, 3 << 20]))
    return dict(epochs=r.choice([5, 8]), ops=r.choice([40, 90]), lsym=r.randrange(2), space=r.choice((1, 1, 2)), heap=r.choice([8192, 16384, 65536]))


def nodes(js):
    """the same executions with the PEs on two or three (simulated) nodes"""
    for i, j in enumerate(js):
        j["env"] = dict(j["env"], HC_NODES=2 + i % 2, HC_NODEMAP=i // 2 % 3)
    return js


def huge(seed, n, tier, modes, what):
    """more elements, bytes or stride than an int counts, in a heap of that size"""
    rng = random.Random("huge/%s/%s" % (seed, what))
    vs = ["plain"] * n if tier == "quick" else ["plain", "dynwin", "fast", "notrack"] * n
    out = []
    for i in range(n):
        a = dict(seed=rng.randrange(1, 1 << 30), heap=2300 << 20)
        a.update({k: int(k in what) for k in ("put", "get", "str")})
        a["self"] = int(rng.randrange(4) == 0)
        out.append(job(vs[i], "huge", 2, a, [modes[(i + rng.randrange(2) * (n == 1)) % len(modes)], dict(SHMEM_SYMMETRIC_SIZE="2300M")],
                       mem=8, total=240, stall=90))
    return out


@plan("P01", ["transfers"],
      "random programs of contiguous transfers (every form, type, width, context, region, length, alignment) from all PEs, "
      "checked byte for byte against a model of all symmetric memory and of the local buffers; distinct = (form, region, "
      "context, self, length class)")
def p01(seed, tier):
    js = spread(seed, T(tier, 80, 1500), "rma", nps=(3, 2, 4, 3), variants=V(tier), vary=rma_args)
    # spread among the others: one runs at a time
    for i, j in enumerate(huge(seed, T(tier, 2, 12), tier, (DIRECT, RMAM), ("put", "get"))):
        js.insert(i * 8, j)
    return js


@plan("P02", ["transfers", "strides"],
      "random programs of strided transfers (every form, type, width, stride pair, count, context, region), checked byte "
      "for byte against a model of all symmetric memory and the local buffers; distinct = (form, region, context, self, "
      "length class, strides)")
def p02(seed, tier):
    js = spread(seed, T(tier, 80, 1500), "strided", nps=(3, 2, 4, 3), variants=V(tier), vary=rma_args)
    js[:0] = huge(seed, T(tier, 1, 6), tier, (DIRECT, RMAM), ("str",))
    return js


def volume(seed, tier, fence):
    """many operations, in numbers around powers of two, before one completion point"""
    js = spread(seed, T(tier, 12, 200), "volume", nps=(2, 3, 2, 4), variants=V(tier), salt=fence,
                vary=lambda r, i: dict(rounds=8, space=r.choice((0, 1, 1, 2)), fence=fence))
    for j in js:
        # an adversary that sleeps in every call
        j["args"]["slow"] = int(j["env"].get("HC_DELAY", 0) > 30 or j["env"].get("HC_SSEND", 0) >= 1000)
    return js


@plan("P03", ["quiets"],
      "random batches of every kind of update and non-blocking result on any region and context, followed by quiet; results, "
      "reuse of sources and the target's memory are checked at once through an out-of-band signal; distinct = (kind, form, "
      "region, context, self, single op, form of quiet)")
def p03(seed, tier):
    return spread(seed, T(tier, 70, 1500), "quiet", nps=(3, 2, 4, 2), variants=V(tier),
                  vary=lambda r, i: dict(rounds=r.choice([60, 90]), space=r.choice((0, 1, 1, 1, 2)))) + volume(seed, tier, 0)


@plan("P04", ["fences"],
      "random batches of updates, fence, then further updates to the same PE, with the destination polling for a later update "
      "visible before an earlier one; distinct = (kinds and forms before and after, region, context)")
def p04(seed, tier):
    return spread(seed, T(tier, 70, 1500), "fence", nps=(3, 2, 4, 2), variants=V(tier),
                  vary=lambda r, i: dict(rounds=r.choice([60, 90]), space=r.choice((0, 1, 1, 1, 2)))) + volume(seed, tier, 1)


@plan("P09", ["syncs"],
      "random mixes of barriers and syncs over the world, teams and active sets (overlapping, repeated) with delayed arrivals, "
      "pending updates inside and outside the set and waiting non-members; entry and exit times and memory are compared; "
      "distinct = (kind, members, pending operations)")
def p09(seed, tier):
    return spread(seed, T(tier, 70, 1500), "barrier", nps=(3, 2, 4, 5), variants=V(tier),
                  vary=lambda r, i: dict(space=r.choice((0, 1, 1, 1, 2))))


def sp(r, i):
    return dict(space=r.choice((0, 1, 1, 1, 2)))


@plan("P05", ["atomics"],
      "random chains of every atomic routine (2 forms of call, nbi, deprecated; every type) with edge operands on exclusively "
      "owned objects of every region and context among concurrent users of neighbouring objects; fetched values and the whole "
      "memory compared with a model; distinct = (routine, region, context, self, operand/condition class)")
def p05(seed, tier):
    return spread(seed, T(tier, 60, 1200), "amo", nps=(3, 2, 4, 3), variants=V(tier), vary=sp)


@plan("P06", ["history_ops", "sums_checked"],
      "concurrent random histories on shared objects, each checked for linearizability by exhaustive search over real-time "
      "intervals, and volume runs checked for conservation and unique tickets; distinct = distinct histories (results and order)")
def p06(seed, tier):
    js = spread(seed, T(tier, 50, 1000), "amolin", nps=(3, 2, 4, 5), variants=V(tier), vary=sp)
    js += spread(seed, T(tier, 20, 400), "amosum", nps=(3, 4), variants=V(tier), vary=sp)
    # several contexts on one object: with atomics as active messages all contexts share one target-side executor
    js += spread(seed, T(tier, 6, 100), "amolin", nps=(3, 4), modes=[AMA, ALLAM], variants=V(tier), args=dict(mixctx=1), salt="mix")
    js += spread(seed, 6, "amolin", nps=(3, 4), modes=[AMOD], advs=[CALM], args=dict(mixctx=2, rounds=40), salt="mixd",
                 name="mixed-contexts-direct")
    return js


@plan("P07", ["waits", "conditions"],
      "random comparisons, types and edge values: truth table of test/wait on own variables; signalling rings where values that "
      "do not satisfy precede the one that does, data put before the signal, wait compared with the time of the update; "
      "distinct = (type, comparison, region, update kind, data ordering, wait kind)")
def p07(seed, tier):
    return spread(seed, T(tier, 60, 1200), "p2p", nps=(3, 2, 4, 5), variants=V(tier), vary=sp)


@plan("P08", ["acquisitions"],
      "contended set/test/clear of locks in heap, static and space memory, nested, with protected data moving between PEs and "
      "written by every kind of update; an outside word per lock watches exclusion, each holder checks the previous holder's "
      "data; distinct = (lock, previous holder, holder, data place)")
def p08(seed, tier):
    return spread(seed, T(tier, 60, 1200), "lock", nps=(3, 4, 2, 5), variants=V(tier), vary=sp)


@plan("P10", ["collectives"],
      "random back-to-back broadcasts, collects, fcollects, alltoalls and strided alltoalls of every type, of up to 200 kB, on world, shared and "
      "split teams, with late arrivals and traffic that members have to serve; every destination, source and the whole memory "
      "compared with a model; distinct = (routine, set size and start, count class, root and rank, strides)")
def p10(seed, tier):
    return spread(seed, T(tier, 70, 1200), "tcoll", nps=(3, 4, 2, 5), variants=V(tier), vary=sp) \
        + spread(seed, T(tier, 20, 300), "tcoll", nps=(3, 2, 4, 5), variants=V(tier), args=dict(big=1), vary=sp, salt="big") \
        + nodes(spread(seed, T(tier, 12, 150), "tcoll", nps=(4, 3, 5, 4), variants=V(tier), vary=sp, salt="nodes"))


@plan("P11", ["reductions"],
      "random reductions of every operation and type over teams and active sets, in place or not, values at the edges of the "
      "type where the operation allows; every element and the whole memory compared with a model; distinct = (routine, set, "
      "in place, count class)")
def p11(seed, tier):
    return spread(seed, T(tier, 80, 1200), "reduce", nps=(3, 4, 2, 5), variants=V(tier), vary=sp) \
        + spread(seed, T(tier, 20, 300), "reduce", nps=(3, 2, 4, 5), variants=V(tier), args=dict(big=1), vary=sp, salt="big") \
        + nodes(spread(seed, T(tier, 8, 100), "reduce", nps=(4, 3, 5, 4), variants=V(tier), vary=sp, salt="nodes"))


@plan("P12", ["collectives"],
      "random back-to-back active-set broadcasts, collects, fcollects, alltoalls and strided alltoalls over overlapping sets; "
      "every destination, source and the whole memory compared with a model; distinct = (routine, set size and start, count "
      "class, root and rank, strides)")
def p12(seed, tier):
    return spread(seed, T(tier, 70, 1200), "acoll", nps=(4, 3, 5, 2), variants=V(tier), vary=sp) \
        + spread(seed, T(tier, 20, 300), "acoll", nps=(3, 2, 4, 5), variants=V(tier), args=dict(big=1), vary=sp, salt="big")


@plan("P13", ["queries", "splits", "uses"],
      "random trees of strided and grid splits, refused splits and destructions with late arrivals and traffic; every query on "
      "every member compared with a set model and each team used for a sync and a collect; distinct = (split or pair of teams, "
      "sizes, starts, rank of the observer)")
def p13(seed, tier):
    vary = lambda r, i: dict(rounds=r.choice([40, 80]), keep=r.randrange(2))
    js = spread(seed, T(tier, 70, 1000), "team", nps=(3, 4, 2, 5), variants=V(tier), vary=vary)
    # the PEs placed on several (simulated) nodes, in blocks, in turn or scattered
    return js + nodes(spread(seed, T(tier, 18, 250), "team", nps=(4, 3, 5, 4), variants=V(tier), vary=vary, salt="nodes"))


HEAPS = [("64K", 65536), ("0.25M", 262144), ("200000", 200000), ("1m", 1 << 20), ("262145", 262145), ("0.001g", 1073742),
         ("2.5M", 2621440), ("300k", 307200), ("8M", 8 << 20)]


@plan("P14", ["allocator_calls", "blocks_verified"],
      "random collective histories of every allocation routine with sizes from 0 to beyond the heap and wrapping products, "
      "exhaustion and refill, pending updates before release and resize, first use by a neighbour without waiting; placement, "
      "contents, zeroing, symmetry and synchronisation compared with a model; distinct = (routine, size class, alignment, "
      "outcome)")
def p14(seed, tier):
    js = spread(seed, T(tier, 70, 1000), "heap", nps=(3, 2, 4, 5), variants=V(tier), vary=lambda r, i: dict(rounds=r.choice([80, 140])))
    for i, j in enumerate(js):
        s, b = HEAPS[(i * 7 + seed) % len(HEAPS)]
        j["args"]["heap"] = b
        j["env"]["SHMEM_SYMMETRIC_SIZE"] = s
    js += [dict(j, name="alignment-beyond-page", args=dict(j["args"], bigalign=1, heap=1 << 20),
                env=dict(j["env"], SHMEM_SYMMETRIC_SIZE="1M"))
           for j in spread(seed, 8, "heap", nps=(4, 3), modes=[{}], advs=[CALM], args=dict(rounds=60), salt="big")]
    return js


@plan("P15", ["updates", "blocks_verified", "allocations"],
      "random histories of creating, attaching, detaching and destroying spaces, allocating and releasing their blocks, opening "
      "and closing contexts, and updating them (and the heap) by every operation through default and space contexts; placement, "
      "contents, zeroing, symmetry, isolation and completion compared with a model; distinct = (allocation routine, outcome, "
      "alignment, attached) or (operation, region, context, state)")
def p15(seed, tier):
    return spread(seed, T(tier, 70, 1000), "space", nps=(3, 2, 4, 5), variants=V(tier),
                  vary=lambda r, i: dict(rounds=r.choice([80, 160]), keep=r.randrange(2), **(dict(nsp=22, ncx=11) if i % 7 == 6 else {})))


SIZES = [("", 128 << 20), (None, 128 << 20), ("3.1M", 3250586), ("3.1m", 3250586), ("1K", 1024), ("37k", 37 * 1024), ("65536", 65536),
         ("16777217", 16777217), ("0.5G", 1 << 29), ("0.1g", 107374183), ("100000001", 100000001), ("1.25M", 1310720), ("0.0001T", 109951163),
         ("5000", 5000), ("12345678", 12345678), ("0.7M", 734004), ("4097", 4097), ("33554433", 33554433), ("2.5k", 2560)]


@plan("P16", ["level_answers", "pe_answers", "access_answers", "name_answers", "heap_checked"],
      "every initialisation call and level (alone, repeated, mixed, after the program started MPI itself), heap sizes in every "
      "notation, and the printing settings; PE numbers, thread level, version, name, accessibility and local pointers of heap, "
      "static, space (at each point of its life) and private memory, and the printed settings are compared with the truth; "
      "distinct = (call, level asked, level given, MPI's level) or (kind of address, PE, answer)")
def p16(seed, tier):
    rng = random.Random("setup/%s" % seed)
    k = [0]

    def vary(r, i):
        how = i % 3
        return dict(how=how, want=(i // 3) % 4, again=r.choice([0, 0, 2]), mpi=r.choice([-1, -1, 0, 1, 2, 3]), laps=r.choice([6, 14]))
    js = spread(seed, T(tier, 72, 800), "setup", nps=(2, 3, 4), modes=[{}, dict(OSHMPI_RMA_DBG_MODE="am")], variants=V(tier), vary=vary)
    for i, j in enumerate(js):
        if j["variant"] == "mtasync":
            # its helper thread needs full thread support, and the library ends the program where MPI was started with less (Open
            # MPI's MPI_T_init_thread makes MPI_Query_thread say so whatever the program asked for)
            j["args"]["mpi"] = -1
        s, b = SIZES[(i + 3 * seed) % len(SIZES)]
        if b > 1 << 28:
            j["np"] = 2
        j["args"]["heap"] = j["bytes"] = b
        e = j["env"]
        if s is not None:
            e["SHMEM_SYMMETRIC_SIZE"] = s
        for n in ("SHMEM_VERSION", "SHMEM_INFO", "OSHMPI_VERBOSE"):
            x = rng.choice(["1", "0", "", None])
            if x is not None:
                e[n] = x
        ops = rng.choice([None, "all", "any_op", ALLOPS, ",".join(rng.sample(ALLOPS.split(","), rng.randrange(1, 6)))])
        if ops:
            e["OSHMPI_AMO_OPS"] = ops
        j["verdict"] = "printed"
    return js


def scenarios(seed, tier, salt, per, variants=("plain",), nps=(3, 2, 4), names=None, **kw):
    """per executions of every scenario, each with its own usual arguments"""
    rng = random.Random("%s/%s" % (seed, salt))
    A = dict(rma=rma_args, strided=rma_args, quiet=lambda r, i: dict(rounds=40, space=r.choice((0, 1, 1, 2))),
             fence=lambda r, i: dict(rounds=40, space=r.choice((0, 1, 1, 2))), heap=lambda r, i: dict(rounds=60, heap=262144),
             team=lambda r, i: dict(rounds=40, keep=r.randrange(2)), space=lambda r, i: dict(rounds=80, keep=r.randrange(2)),
             setup=lambda r, i: dict(how=r.randrange(3), want=r.randrange(4), again=r.choice([0, 2])), **EXTRA)
    out = []
    for s in names or SCN:
        js = spread("%s-%s" % (seed, rng.randrange(1 << 20)), per, s, variants=variants, nps=nps, vary=A.get(s, sp), salt=salt, **kw)
        for j in js:
            if s == "heap":
                j["env"]["SHMEM_SYMMETRIC_SIZE"] = "262144"
        out += js
    rng.shuffle(out)
    return out


EXTRA = dict(final=lambda r, i: dict(end=r.choice([0, 1, 4]), space=r.randrange(2), team=r.randrange(2)),
             forms=lambda r, i: dict(rounds=16, space=r.randrange(2)), legacy=lambda r, i: dict(rounds=24), digest=lambda r, i: dict(epochs=6, space=r.randrange(2)),
             progress=lambda r, i: dict(steps=60), volume=lambda r, i: dict(rounds=3, slow=1, space=r.choice((0, 1, 1, 2)), fence=r.randrange(2)), churn=lambda r, i: dict(laps=6, space=r.randrange(2)), longrun=lambda r, i: dict(n=2000))
SCN = ["rma", "strided", "quiet", "fence", "barrier", "amo", "amolin", "amosum", "p2p", "lock", "tcoll", "acoll", "reduce", "team",
       "heap", "space", "setup", "final"]
MORE = ["progress", "digest", "volume", "churn", "forms", "legacy", "longrun"]
MEMORY = r"(asan|ubsan|memcheck):|mpi-window|mpi-rma-outside|abort:(signal|mpi)"


@plan("P17", ["mpi_rma_calls", "transfers", "atomics", "collectives", "reductions", "allocator_calls", "syncs", "acquisitions", "waits",
              "history_ops", "updates", "quiets", "fences", "splits"],
      "every scenario of the other checks with the library under AddressSanitizer and UndefinedBehaviorSanitizer, and under "
      "valgrind memcheck for uninitialised memory, with a monitor on the bounds and epochs of every one-sided MPI access; "
      "only their reports count here; distinct = situations as defined by the scenarios")
def p17(seed, tier):
    js = scenarios(seed, tier, "asan", T(tier, 4, 60), variants=("asan",), judge=("ub",), only=MEMORY)
    js += scenarios(seed, tier, "asan2", T(tier, 2, 40), variants=("asan",), names=MORE, judge=("ub",), only=MEMORY)
    js += scenarios(seed, tier, "vg", T(tier, 1, 12), variants=("memcheck",), nps=(2, 3), only=MEMORY)
    js += scenarios(seed, tier, "vg2", T(tier, 1, 8), variants=("memcheck",), nps=(2, 3), names=MORE, only=MEMORY)
    return js


def v_exit(j, r):
    """the launcher's exit status, and that every PE went through its last checks (P22)"""
    bad = []
    if r.state == "exit" and r.rc != j["status"] % 256:
        bad.append(("exit-status", "the program's status is %d, the launcher returns %s\n%s" % (j["status"], r.rc, r.out[-1200:])))
    if j["scn"] == "final" and r.state == "exit" and r.complete < r.np and not r.fails:
        bad.append(("final-incomplete", "only %d of %d PEs reached their end\n%s" % (r.complete, r.np, r.out[-1500:])))
    return bad


VERDICTS["exit"] = v_exit
STATUS = (0, 1, 3, 7, 42, 127, 200, 255)


@plan("P20", ["thread_puts", "thread_amos", "thread_fetches", "thread_gets", "thread_counters", "thread_messages", "thread_locks",
              "main_rounds", "looks", "thread_sets", "thread_teams"],
      "2 to 4 threads per PE issue transfers, strided transfers, atomics, messages, waits, tests, lock rounds and queries on default and "
      "own contexts, creating and destroying contexts, making collectives on active sets and teams of their own, while the main thread makes collectives, allocates, attaches spaces and splits "
      "teams; each thread checks its own areas through the API and through a witness thread of the target PE that never calls the "
      "library, shared counters are checked for exactly-once; library with full thread support, with and without its helper thread, "
      "and under ThreadSanitizer (a report counts when both accesses are in the library); distinct = (kind of step, its parameters)")
def p20(seed, tier):
    vary = lambda r, i: dict(threads=2 + i % 3, steps=r.choice([25, 40, 60]), rounds=r.choice([6, 12]), space=int(r.random() < .8))
    return spread(seed, T(tier, 40, 700), "threads", nps=(2, 3, 2, 4), variants=("mt", "mtasync", "mt"), vary=vary) \
        + spread(seed, T(tier, 24, 400), "threads", nps=(2, 3), variants=("mtsan",), vary=vary, salt="tsan", judge=("ts",))


@plan("P22", ["pending_ops", "cells_checked", "late_ops", "finalizes", "global_exits", "victims"],
      "programs that end with puts, gets and atomics of every kind pending to static, heap and space memory of all PEs, by one or "
      "two finalizes, by return or exit after start_pes, some PEs coming late and still working with those in finalize: "
      "the contents are compared in the last moment before the memory goes away and after finalize, all PEs must have arrived; "
      "global exit from one PE while the others compute, wait, hold or want locks, sit in collectives, allocation or finalize: "
      "status and end of every PE; distinct = (operation, memory, self, context, ending) or (what the others did, status)")
def p22(seed, tier):
    def vary(r, i):
        e = i % 5
        return dict(end=e, status=r.choice(STATUS) if e in (2, 3) else 0, space=r.choice([0, 1, 1]), team=r.choice([0, 1]),
                    late=r.choice([0, 1, 1]))
    js = spread(seed, T(tier, 60, 900), "final", vary=vary, variants=V(tier), nps=(2, 3, 4, 2, 5))
    js += spread(seed, T(tier, 45, 600), "gexit", vary=lambda r, i: dict(act=i % 12, status=r.choice(STATUS), early=int(r.random() < .2)),
                 variants=V(tier), nps=(2, 3, 4, 2, 5))
    for j in js:
        j["status"] = j["args"].get("status", 0)
        j["verdict"] = "exit"
        j["stall"] = 40
        if j["scn"] == "gexit" or j["status"]:
            j["expect"] = j["status"]
    return js


@plan("P18", ["signals", "waits", "fetches", "locks", "collectives", "storms", "spins", "acquisitions", "late_ops", "operations"],
      "random programs that are valid by construction (one global order of signals by every kind of update, waits, blocking "
      "fetches, lock sections, collectives over all PEs, active sets and teams, heap, team and space management, in which nothing "
      "waits for something later), and every scenario of the other checks: all executions must finish; no heartbeat for the "
      "stall limit, twice, is a hang; distinct = (action, kind, peer)",
      ["a hang is 40 s without any PE completing a step, confirmed by a second run of the same program"])
def p18(seed, tier):
    js = spread(seed, T(tier, 72, 1200), "progress", vary=lambda r, i: dict(steps=r.choice([160, 300, 600]), heavy=r.randrange(2)),
                variants=V(tier), nps=(2, 3, 4, 5), only=r"hang:|progress-|abort:")
    # more operations than the smallest tag range MPI allows; the interposed MPI_Comm_get_attr says it is that small
    js += spread(seed, T(tier, 5, 40), "longrun", args=dict(n=60000), variants=V(tier), nps=(2, 3), only=r"hang:|long-|abort:|mpi-tag",
                 vary=lambda r, i: dict(level=r.choice([0, 0, 3])))
    for j in js:
        if j["scn"] == "longrun":
            j["env"]["HC_TAGUB"] = 32767
    js += scenarios(seed, tier, "prog", T(tier, 2, 30), variants=V(tier), only=r"hang:")
    for j in js:
        j["stall"] = 40
    return js


@plan("P21", ["measurements", "finalizes_audited"],
      "everything that can be created and destroyed (teams, spaces, contexts, heap blocks) and every kind of operation in laps with a "
      "fixed pool of parameters: after each lap the MPI objects, private heap blocks and bytes the library holds must be no more than "
      "after the warm-up, and the largest free heap block must still be to be had; and every other scenario, audited at MPI_Finalize "
      "and after shmem_finalize for anything not released; only these audits count here; distinct = situations as defined by the scenarios",
      ["released is judged by interposed MPI calls and the library's own malloc and mmap calls; what MPI holds internally is not judged",
       "the caches of strided layouts and active sets may grow with the number of distinct ones used"])
def p21(seed, tier):
    leak = r"(leak|growth):"
    js = spread(seed, T(tier, 30, 500), "churn", variants=V(tier, ("plain", "notrack", "dynwin", "plain", "fast", "mtasync")), nps=(3, 2, 4, 3), only=leak,
                vary=lambda r, i: dict(laps=r.choice([18, 30]) if tier == "quick" else r.choice([30, 90]), left=r.randrange(4), space=r.randrange(2)))
    names = [s for s in SCN if s != "final"] + ["progress", "digest"]
    js += scenarios(seed, tier, "leak", T(tier, 2, 24), variants=V(tier, ("plain", "dynwin", "plain", "notrack")), names=names, only=leak)
    # programs that end with operations pending, by finalize once or twice
    js += spread(seed, T(tier, 8, 100), "final", variants=V(tier), vary=lambda r, i: dict(end=r.choice([0, 1, 4]), space=0, team=r.randrange(2)), only=leak,
                 salt="leak")
    for j in js:
        j["args"]["leaks"] = 1
        if j["scn"] == "space":
            j["args"]["keep"] = 0
    return js


@plan("P23", ["twins_compared", "form_calls", "selections", "syncs", "waits", "collectives"],
      "every name of each operation (typed, sized, raw memory, C11 generic with and without context, deprecated) is given the same "
      "arguments on twin objects, whose memory, local buffers and answers must come out equal; the routine that each generic call "
      "selects is recorded by trampolines at link time and must be that of the argument's type; a second program compiled as "
      "pre-C11 C compares deprecated names with their successors; distinct = (form, type, memory, direction)",
      ["the argument types named by the API's tables; generic calls with const-qualified source pointers are not covered"])
def p23(seed, tier):
    js = spread(seed, T(tier, 36, 600), "forms", variants=V(tier), nps=(2, 3, 2, 4), vary=lambda r, i: dict(rounds=r.choice([40, 80]), space=r.randrange(2)))
    return js + spread(seed, T(tier, 18, 300), "legacy", variants=V(tier), nps=(2, 3, 4), vary=lambda r, i: dict(rounds=r.choice([30, 60])))


AMOLISTS = [None, "all", "any_op", ALLOPS, "fadd,add,fetch", "cswap,swap,set,fetch", "xor,fxor,or,for,and,fand"]


def configs(rng, n):
    """n configurations of the library, the default first"""
    out = [("plain", {}, -1)]
    while len(out) < n:
        v = rng.choice(["plain", "notrack", "dynwin", "fast", "mt", "mtasync"])
        e = dict(rng.choice(MODES))
        e.update(rng.choice(ADV))
        for k, c in (("SHMEM_SYMMETRIC_SIZE", ["12582912", "16M", "1G", "0.01G", "33333333"]), ("OSHMPI_VERBOSE", ["0", "1"]),
                     ("SHMEM_DEBUG", ["0", "1"]), ("SHMEM_INFO", ["1"]), ("SHMEM_VERSION", ["1"]), ("OSHMPI_ENABLE_MPI_T", ["0", "1"]),
                     ("OSHMPI_MPI_GPU_FEATURES", ["pt2pt,put,get,acc", "none"]), ("OSHMPI_AMO_OPS", AMOLISTS[1:])):
            if rng.random() < .25:
                e[k] = rng.choice(c)
        if v == "mtasync" and rng.random() < .5:
            e["OSHMPI_ENABLE_ASYNC_THREAD"] = rng.choice(["0", "1"])
        e["HC_SHIM_SEED"] = rng.randrange(1, 1 << 30)
        out.append((v, e, rng.choice([-1, -1, 0, 1, 2, 3])))
    return out


@plan("P19", ["ops", "collectives", "epochs"],
      "one generated program (transfers, atomics, contexts, locks, collectives on sets and teams, heap blocks, answers of calls) run "
      "under the default configuration and several others drawn from build variants x transfer and atomics modes x thread levels x "
      "environment settings x adversaries; the digests of all memory and results after each epoch must be the same on every PE; "
      "distinct = (operation, memory) or (collective, set, size)")
def p19(seed, tier):
    rng = random.Random("digest/%s" % seed)
    js = []
    for g in range(T(tier, 14, 160)):
        np = (2, 3, 4, 3)[g % 4]
        a = dict(seed=rng.randrange(1, 1 << 30), epochs=rng.choice([10, 20]), space=rng.randrange(4) and 1)
        if g % 3 == 1:
            a.update(epochs=4, large=rng.choice([1 << 20, 3 << 20, 5 << 20]))
        for v, e, lv in configs(rng, T(tier, 7, 9)):
            ar = dict(a)
            if lv >= 0:
                ar["level"] = lv
            # a program has to be valid for its atomics setting: a list names what it uses on each object
            if e.get("OSHMPI_AMO_DBG_MODE") != "am" and e.get("OSHMPI_AMO_OPS") not in (None, "all", "any_op", ALLOPS):
                e = dict(e)
                e["OSHMPI_AMO_OPS"] = "all"
            js.append(job(v, "digest", np, ar, [e], group="%d" % g, only=r"digest|abort:|hang:|alloc"))
    return js


# many PEs: a few executions of every check with 7 to 12 of them
WIDE = dict(P01=["rma"], P02=["strided"], P03=["quiet"], P04=["fence"], P05=["amo"], P06=["amolin", "amosum"], P07=["p2p"], P08=["lock"],
            P09=["barrier"], P10=["tcoll"], P11=["reduce"], P12=["acoll"], P13=["team"], P14=["heap"], P15=["space"], P16=["setup"],
            P18=["progress"], P20=["threads"], P21=["churn"], P22=["final", "gexit"], P23=["forms", "legacy"])


def jobs(pid, seed, tier):
    js = PLANS[pid]["jobs"](seed, tier)
    rng = random.Random("wide/%s/%s" % (pid, seed))
    for scn in WIDE.get(pid, []):
        of = [j for j in js if j["scn"] == scn and j["variant"] not in ("mtsan", "memcheck", "asan") and not j.get("name")
              and j.get("bytes", 0) <= 1 << 25]
        wide = []
        for i in range(T(tier, 8 // len(WIDE[pid]) - 2, 60)):
            j = dict(rng.choice(of))
            j["args"] = dict(j["args"], seed=rng.randrange(1, 1 << 30))
            j["np"] = (9, 8, 12, 7, 10)[i % 5] if pid != "P20" else (6, 8, 5)[i % 3]
            wide.append(j)
        for k, j in enumerate(wide):
            js.insert(min(len(js), 5 + k * 7), j)
    if pid == "P19":
        # one program in all its configurations
        g = [dict(j, np=8, group="wide%s" % j["group"]) for j in js if j["group"] in [str(x) for x in range(T(tier, 2, 20))]]
        js += g
    return js
