"""Disk-store faults surface and never corrupt: enumerated crashes and failing file operations on the real store."""
import json, os, random, shutil, signal, time
import torch
from vmon import block, faults, store
from vmon.workloads import rand_spec
block.no_compile()
from checks import p12

LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitoring under enumerated fault injection (every file operation and every line of the background writer), offline comparison of what is read afterwards"
RULE = ("for small random store / overwrite / preconditioner workloads the number of file operations and of source lines executed by background "
        "writers is counted, then the run is repeated crashing at every one of them and failing every one of them (ENOSPC), plus persistent "
        "failure, file-size limits, vanished directories, truncated files and SIGKILL at random times; afterwards every batch read or iterated "
        "by a new process must be exactly what was stored, absent or an error; a failed write must be reported and waiting must end; the same at "
        "attributor level; distinct by (workload, fault point)")
MIN_EVENTS = {"crashes": 150, "failures": 80, "reported": 60, "exact_reads": 1000, "missing_reads": 100, "limit_runs": 20}
FRESH = True
CASE_LIMIT = 280
HANG = 25
WRITER = "block_projected_if/offload/"


def prepare():
    import dattri.algorithm.logra, dattri.algorithm.factgrass  # noqa: F401, E401
    import dattri.algorithm.block_projected_if.offload.disk_io.manager  # noqa: F401
    import dattri.algorithm.block_projected_if.offload.disk_io.prefetch_dataset  # noqa: F401


def gen(rng, tier):
    q = tier == "quick"
    out = []
    for i in range(24 if q else 160):
        out.append(dict(scenario="points", pick=rng.randrange(10**9), where=["files", "lines"][i % 2], act=["crash", "fail", "crash", "fail-on"][(i // 2) % 4],
                        again=i % 3 == 0, cap=26 if q else 400))
    for i in range(8 if q else 60):
        out.append(dict(scenario="limits", pick=rng.randrange(10**9)))
    for i in range(6 if q else 40):
        out.append(dict(scenario="damage", pick=rng.randrange(10**9)))
    for i in range(6 if q else 40):
        out.append(dict(scenario="kill", pick=rng.randrange(10**9), reps=6 if q else 25))
    for i in range(8 if q else 60):
        s = rand_spec(rng, kinds=["linear", "mlp"], maxcheck=1, fmts=("tuple",), frozen=False, dtypes=("float32",), targets=False) if False else None
        out.append(dict(scenario="attributor", pick=rng.randrange(10**9), where=rng.choice(["files", "lines"]), act=["crash", "fail", "fail-on", "crash"][i % 4], cap=8 if q else 60))
    return out


def run(m, c):
    rng = random.Random(c["pick"])
    globals()[c["scenario"]](m, c, rng)


# ---------------------------------------------------------------- store level

class Job:
    """A reproducible store session; versions differ in their data (same batch numbers, possibly another layout of chunks)."""

    def __init__(self, rng, version):
        self.version = version
        self.root = os.path.abspath("store")
        r = random.Random(rng)
        self.cs = r.choice([1, 2, 3])
        self.dims = [r.randint(1, 4) for _ in range(r.randint(1, 3))]
        self.kw = dict(chunk_size=self.cs, max_samples_per_chunk=r.choice([4, 30]), write_queue_size=r.choice([1, 8]),
                       num_write_workers=r.choice([1, 1, 3]), num_threads=2)
        self.n = r.randint(2, 5)
        self.rows = [r.randint(1, 4) for _ in range(self.n)]
        self.pre = r.random() < 0.5
        g = torch.Generator().manual_seed(1000 * version + r.randrange(10**6))
        self.data = {k: {b: [torch.randn(self.rows[b], d, generator=g) + 10 * version for d in self.dims] for b in range(self.n)} for k in ("gradients", "ifvp")}
        self.pc = {i: torch.randn(d, d, generator=g) for i, d in enumerate(self.dims)}
        self.kinds = ["gradients", "ifvp"] if r.random() < 0.6 else ["gradients"]

    def manager(self):
        from dattri.algorithm.block_projected_if.offload.disk_io.manager import ChunkedDiskIOManager
        return ChunkedDiskIOManager(self.root, "default", **self.kw)

    def store(self, mgr):
        """Returns 'clean' or raises what the store reported."""
        for k in self.kinds:
            mgr.start_batch_range(0, self.n)
            for b in range(self.n):
                (mgr.store_gradients if k == "gradients" else mgr.store_ifvp)(b, [t.clone() for t in self.data[k][b]])
            if self.pre and k == "gradients":
                for i, p in self.pc.items():
                    mgr.store_preconditioner(i, p.clone())
            mgr.finalize_batch_range()
        mgr.wait_for_async_operations()
        return "clean"


def read_all(jobs, mgr=None):
    """Everything a reader can see: {(kind, batch): version | 'missing' | 'error' | 'WRONG ...'} and iteration verdicts."""
    job = jobs[-1]
    try:
        mgr = mgr or job.manager()
    except Exception as e:  # noqa: BLE001
        return {"open": "error " + type(e).__name__}
    out = {}

    def classify(got, k, b, form):
        for j in jobs:
            w = form(j.data[k].get(b)) if b in j.data[k] else None
            if w is not None and len(got) == len(w) and all(g.shape == x.shape and torch.equal(g, x) for g, x in zip(got, w)):
                return f"v{j.version}"
        return f"WRONG shapes {[tuple(g.shape) for g in got]} values {[g.flatten()[:3].tolist() for g in got]}"
    for k in ("gradients", "ifvp"):
        for b in range(job.n + 1):
            try:
                got = (mgr.retrieve_gradients if k == "gradients" else mgr.retrieve_ifvp)(b)
                out[k, b] = "missing" if all(g.numel() == 0 for g in got) else classify(got, k, b, lambda x: x)
            except Exception as e:  # noqa: BLE001
                out[k, b] = "error " + type(e).__name__
        try:
            it = mgr.create_gradient_dataloader(k, batch_size=1, pin_memory=False)
            seen = set()
            for t, mp in it or ():
                for b, (s, e) in mp.items():
                    v = classify([t[s:e]], k, b, lambda x: [torch.cat(x, 1)])
                    out["iter " + k, b] = v if b not in seen else "WRONG yielded twice"
                    seen.add(b)
        except Exception as e:  # noqa: BLE001
            out["iter " + k, "end"] = "error " + type(e).__name__
    for i in job.pc:
        try:
            p = mgr.retrieve_preconditioner(i)
            out["pre", i] = "missing" if p is None else next((f"v{j.version}" for j in jobs if i in j.pc and j.pre and torch.equal(p, j.pc[i])), "WRONG preconditioner")
        except Exception as e:  # noqa: BLE001
            out["pre", i] = "error " + type(e).__name__
    return out


def judge(m, key, seen, info, want=None):
    """want: version that everything must have (a clean store), else exact-or-absent."""
    for k, v in seen.items():
        if v.startswith("WRONG"):
            m.fail(key + "-corrupt", f"{k}: {v} {info}")
        elif v.startswith("v"):
            m.ev("exact_reads")
        elif v == "missing":
            m.ev("missing_reads")
        else:
            m.ev("error_reads")
    m.ev("compared")
    if want:
        job = want
        for k in job.kinds:
            for b in range(job.n):
                for kk in (k, "iter " + k):
                    m.check(key + "-lost", seen.get((kk, b)) == f"v{job.version}", f"{kk} {b}: {seen.get((kk, b))}, although the store reported success {info}")
        if job.pre:
            for i in job.pc:
                m.check(key + "-lost", seen.get(("pre", i)) == f"v{job.version}", f"preconditioner {i}: {seen.get(('pre', i))} {info}")


def reset():
    root = os.path.abspath("store")
    if os.path.isdir(root):
        shutil.rmtree(root, ignore_errors=True)


def arm(c, job, plan):
    if c["where"] == "files":
        faults.at_files(job.root, plan)
    else:
        # lines of the chunk writer; crashing is tried in the whole background machinery
        faults.at_lines("disk_io/memory_map" if plan.act != "crash" else WRITER, plan)


def points(m, c, rng):
    jobs = [Job(c["pick"], 1)] + ([Job(c["pick"], 2)] if c["again"] else [])
    last = jobs[-1]

    def session(n, act, tail):
        def body():
            for j in jobs[:-1]:
                j.store(j.manager())
            plan = faults.Plan(n, act)
            mgr = last.manager() if act != "crash" else None
            arm(c, last, plan)
            if mgr is None:
                mgr = last.manager()
            try:
                st = last.store(mgr)
            except OSError as e:
                st = f"reported {type(e).__name__}"
            except RuntimeError as e:
                st = f"reported {type(e).__name__}"
            plan.on = False
            extra = None
            if tail:
                # the same process goes on reading, and stores the same again with the fault gone
                extra = read_all(jobs, mgr)
                try:
                    again = last.store(mgr)
                except Exception as e:  # noqa: BLE001
                    again = "reported " + type(e).__name__ + str(e)[:100]
                if again == "clean":
                    again = read_all(jobs, mgr)
                extra = (extra, again)
            return st, plan.count, plan.fired, extra
        reset()
        return faults.child(body, HANG)

    base = session(0, "count", False)
    if base[0] != "ok":
        m.fail("no-fault:" + base[0], str(base))
        return
    total = base[1][1]
    judge(m, "no-fault", faults.child(lambda: read_all(jobs), HANG)[1], "no fault injected", want=last)
    pts = list(range(1, total + 1))
    if len(pts) > c["cap"]:
        pts = sorted(rng.sample(pts, c["cap"]))
    m.saw(c["where"], c["act"], c["again"], total, last.kw, last.dims, last.kinds)
    m.ev("points", len(pts))
    for n in pts:
        info = f"{c['act']} at {c['where']} point {n}/{total}, overwrite={c['again']}, {last.kw}"
        r = session(n, c["act"], c["act"] != "crash")
        if r[0] == "hang":
            m.fail(f"hang:{c['act']}", f"the run did not end within {HANG}s after the fault: {info}")
            continue
        if r[0] == "exc":
            m.fail("unexpected:" + r[1], f"{r} {info}")
            continue
        if r[0] == "died":
            m.ev("crashes" if c["act"] == "crash" else "died")
            if c["act"] != "crash":
                m.fail("died", f"the process died: {r} {info}")
        seen = faults.child(lambda: read_all(jobs), HANG)
        if seen[0] != "ok":
            m.fail(f"read-{seen[0]}", f"{seen} {info}")
            continue
        if r[0] == "ok":
            st, _, fired, extra = r[1]
            if fired:
                m.ev("failures")
                m.ev("reported", st != "clean")
            judge(m, "after-" + c["act"], seen[1], info + f" ({st})", want=last if st == "clean" and not extra else None)
            if st == "clean" and extra:
                judge(m, "same-process", extra[0], info + " clean", want=last)
            if extra and c["act"] == "fail":
                judge(m, "same-process", extra[0], info + f" {st}")
                again = extra[1]
                if m.check("retry", not isinstance(again, str), f"storing again without faults: {again} {info}"):
                    judge(m, "retry", again, info, want=last)
                    judge(m, "retry-reopen", seen[1], info, want=last)
            elif extra:
                judge(m, "same-process", extra[0], info)
        else:
            judge(m, "after-crash", seen[1], info)


def limits(m, c, rng):
    """The disk really refuses to grow a file, or a directory is gone."""
    for rep in range(4):
        job = Job(c["pick"] + rep, 1)
        kind = rng.choice(["limit", "limit", "nodir", "readonly"])
        size = rng.choice([0, 1, 8, 40, 150])

        def body():
            mgr = job.manager()
            if kind == "limit":
                faults.file_limit(size)
            elif kind == "nodir":
                for d in ("grad", "ifvp", "precond"):
                    shutil.rmtree(os.path.join(job.root, d))
                    open(os.path.join(job.root, d), "w").close()
            else:
                os.chmod(job.root, 0o500)
                for d in ("grad", "ifvp", "precond"):
                    os.chmod(os.path.join(job.root, d), 0o500)
                os.setuid(65534)
            try:
                return job.store(mgr)
            except (OSError, RuntimeError) as e:
                return f"reported {type(e).__name__}"
        reset()
        os.chmod(os.getcwd(), 0o755)
        r = faults.child(body, HANG)
        info = f"{kind} {size} {job.kw}"
        m.saw(kind, size, job.kw)
        m.ev("limit_runs")
        if not m.check("limits-" + r[0], r[0] == "ok", f"{r} {info}"):
            continue
        m.ev("reported", r[1] != "clean")
        if kind != "limit":
            m.check("limits-silent", r[1] != "clean", f"nothing can be written, yet the store reports success {info}")
            if kind == "nodir":
                continue
            for d in ("", "grad", "ifvp", "precond"):
                os.chmod(os.path.join(job.root, d), 0o700)
        seen = faults.child(lambda: read_all([job]), HANG)
        if m.check("limits-read-" + seen[0], seen[0] == "ok", f"{seen} {info}"):
            judge(m, "limits", seen[1], info + f" ({r[1]})", want=job if r[1] == "clean" else None)


def damage(m, c, rng):
    """Files cut short or removed after the fact are noticed, never read as shorter data."""
    for rep in range(4):
        job = Job(c["pick"] + rep, 1)
        reset()
        r = faults.child(lambda: job.store(job.manager()), HANG)
        if not m.check("damage-store", r == ("ok", "clean"), str(r)):
            continue
        files = sorted(os.path.join(d, f) for d, _, fs in os.walk(job.root) for f in fs)
        for _ in range(6):
            f = rng.choice(files)
            keep = open(f, "rb").read()
            how = rng.choice(["cut", "cut", "remove", "empty", "tail"])
            if how == "remove":
                os.unlink(f)
            else:
                with open(f, "wb") as h:
                    h.write(b"" if how == "empty" else keep[:rng.randrange(len(keep))] if how == "cut" else keep[: max(0, len(keep) - rng.randint(1, 8))])
            seen = faults.child(lambda: read_all([job]), HANG)
            info = f"{how} {os.path.basename(f)}"
            m.ev("damaged")
            m.saw(how, os.path.basename(f), job.kw)
            if m.check("damage-read-" + seen[0], seen[0] == "ok", f"{seen} {info}"):
                judge(m, "damage", seen[1], info)
            with open(f, "wb") as h:
                h.write(keep)


def kill(m, c, rng):
    for rep in range(c["reps"]):
        jobs = [Job(c["pick"] + rep, 1)] + ([Job(c["pick"] + rep, 2)] if rng.random() < 0.5 else [])
        reset()
        pid = os.fork()
        if pid == 0:
            try:
                for j in jobs:
                    j.store(j.manager())
                time.sleep(5)
            finally:
                os._exit(0)
        wait = rng.choice([0.004, 0.02, 0.06]) * rng.random()
        time.sleep(wait)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        m.ev("kills")
        m.saw(rep, jobs[-1].kw)
        seen = faults.child(lambda: read_all(jobs), HANG)
        if m.check("kill-read-" + seen[0], seen[0] == "ok", f"{seen} after {wait:.4f}s"):
            judge(m, "kill", seen[1], f"killed after {wait:.4f}s {jobs[-1].kw}")


# ---------------------------------------------------------------- attributor level

def attributor(m, c, rng):
    spec = dict(kind=rng.choice(["linear", "mlp"]), d=3, h=3, k=2, n=rng.randint(4, 9), m=3, loss="mse", dtype="float32", seed=c["pick"] % 2**31)
    P = block.BProblem(spec)
    conf = dict(comp=rng.choice(["identity", "logra"]), hess="eFIM", damping=0.3, offload="disk", chunk=rng.choice([1, 2]), pseed=0, k=4, blow=1, t1="normal")
    bs = rng.randint(1, 4)
    root = os.path.abspath("attr")
    other = sorted(rng.sample(range(spec["n"]), spec["n"] - 1))
    before = rng.random() < 0.5
    from vmon.workloads import FixedSampler

    def make(off="disk"):
        return p12.build(P, dict(conf, offload=off), random.Random(5), cache_dir=root if off == "disk" else None, layers=None)[0]

    def job(att):
        ltr, lte = P.loader("train", bs), P.loader("test", 2)
        att.cache(ltr)
        return dict(scores=att.attribute(ltr, lte), self=att.compute_self_attribution())

    want = job(make("none"))
    scale = {k: float(v.abs().max()) for k, v in want.items()}

    def session(n, act):
        def body():
            if before:
                make().cache(P.loader("train", bs, sampler=FixedSampler(other)))
            plan = faults.Plan(n, act)
            att = make() if act != "crash" else None
            if c["where"] == "files":
                faults.at_files(root, plan)
            else:
                faults.at_lines("disk_io/memory_map" if act != "crash" else WRITER, plan)
            att = att or make()
            try:
                out = job(att)
            except Exception as e:  # noqa: BLE001
                out = f"raised {type(e).__name__}: {str(e)[:120]}"
            plan.on = False
            again = None
            if act != "crash" and isinstance(out, str):
                again = job(att)
            return out, plan.count, plan.fired, again
        if os.path.isdir(root):
            shutil.rmtree(root, ignore_errors=True)
        return faults.child(body, HANG * 2)

    def right(key, out, info):
        for k in want:
            m.close(f"{key}-{k}", out[k], want[k], tol=2e-3, scale=scale[k], msg=info)

    base = session(0, "count")
    if not m.check("attributor-base", base[0] == "ok" and isinstance(base[1][0], dict), str(base)):
        return
    right("attributor", base[1][0], "no fault")
    total = base[1][1]
    pts = sorted(rng.sample(range(1, total + 1), min(c["cap"], total)))
    m.saw(conf, bs, spec["n"], c["where"], c["act"], before, pts)
    for n in pts:
        info = f"{c['act']} at {c['where']} point {n}/{total} chunk={conf['chunk']} bs={bs} before={before}"
        r = session(n, c["act"])
        m.ev("attributor_runs")
        if r[0] in ("hang", "exc"):
            m.fail(f"attributor-{r[0]}", f"{r} {info}")
            continue
        if r[0] == "ok":
            out, _, fired, again = r[1]
            if isinstance(out, dict):
                right("attributor-fault", out, info)
            else:
                m.ev("reported")
            if isinstance(again, dict):
                right("attributor-again", again, info + " (same attributor, fault gone)")
        # a new process on the same directory

        def fresh(recache):
            def body():
                att = make()
                if recache:
                    return job(att)
                try:
                    return dict(self=att.compute_self_attribution())
                except Exception as e:  # noqa: BLE001
                    return "raised " + type(e).__name__
            return faults.child(body, HANG)
        if c["act"] == "crash" and not before:
            f = fresh(False)
            if m.check("attributor-reopen-" + f[0], f[0] == "ok", f"{f} {info}") and isinstance(f[1], dict):
                s = f[1]["self"]
                m.check("attributor-reopen", s.shape == want["self"].shape and bool(torch.allclose(s.double(), want["self"].double(), atol=2e-3 * scale["self"])),
                        f"self-influence of an interrupted run is wrong: {s} want {want['self']} {info}")
        f = fresh(True)
        if m.check("attributor-fresh-" + f[0], f[0] == "ok", f"{f} {info}"):
            right("attributor-fresh", f[1], info + " (fresh process)")
