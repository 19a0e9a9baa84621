"""Case runner and monitor object: verdict discipline shared by all checks.

A check module (checks/pNN.py) provides
  RULE        text for the evidence file
  LEVEL       manifest level
  gen(rng, tier) -> list of JSON-able case dicts, each with a "scenario" key
  run(m, case)   drives the real code and reports observations to monitor m
Verdicts are three-valued; see main().
"""
import hashlib, json, os, random, signal, sys, tempfile, time, traceback, shutil
import multiprocessing as mp
from multiprocessing.connection import wait as mpwait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Inconclusive(Exception):
    pass


class Monitor:
    """Collects observations and violations of one case."""

    def __init__(self, case, tmp):
        self.case, self.tmp = case, tmp
        self.violations = []
        self.events = {}
        self.sig = []
        self.tag = None  # names the input class a recorded finding is confined to

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def saw(self, *x):
        """Adds to the signature that distinguishes this case's behaviour."""
        self.sig.append(x)

    def fail(self, key, msg):
        if self.tag:
            key = f"{key} [{self.tag}]"
        self.violations.append({"key": key, "msg": str(msg)[:1500]})

    def check(self, key, cond, msg=""):
        self.ev("checks")
        if not cond:
            self.fail(key, msg)
        return bool(cond)

    def close(self, key, got, want, tol=1e-5, scale=None, msg=""):
        """|got-want| <= tol * scale, scale defaulting to max|want| (shape/NaN aware)."""
        import torch
        self.ev("compared")
        if got is None or not hasattr(torch.as_tensor(want), "shape"):
            self.fail(key, f"no value returned {msg}")
            return False
        try:
            g = torch.as_tensor(got).detach().to("cpu", torch.float64)
        except Exception as e:  # noqa: BLE001
            self.fail(key, f"not a tensor: {type(got)} {e} {msg}")
            return False
        w = torch.as_tensor(want).detach().to("cpu", torch.float64)
        if tuple(g.shape) != tuple(w.shape):
            self.fail(key, f"shape {tuple(g.shape)} want {tuple(w.shape)} {msg}")
            return False
        self.ev("cells", w.numel())
        if w.numel() == 0:
            return True
        if not torch.isfinite(w).all():
            raise Inconclusive(f"oracle not finite for {key}")
        if not torch.isfinite(g).all():
            self.fail(key, f"non-finite values returned {msg}")
            return False
        s = float(scale) if scale is not None else float(w.abs().max())
        s = max(s, 1e-12)
        d = (g - w).abs()
        err = float(d.max())
        if err > tol * s:
            at = int(d.argmax())
            idx = []
            for n in reversed(w.shape):
                idx.append(at % n)
                at //= n
            idx = tuple(reversed(idx))
            self.fail(key, f"err {err:.3g} (scale {s:.3g}, tol {tol:g}) at {idx}: got "
                           f"{float(g[idx]):.8g} want {float(w[idx]):.8g} {msg}")
            return False
        return True

    def equal(self, key, got, want, msg=""):
        import torch
        self.ev("compared")
        if isinstance(want, torch.Tensor):
            ok = isinstance(got, torch.Tensor) and got.shape == want.shape and \
                got.dtype == want.dtype and bool(torch.equal(got, want))
        else:
            ok = got == want
        if not ok:
            self.fail(key, f"got {str(got)[:300]} want {str(want)[:300]} {msg}")
        return ok


def _exc_site(e):
    """(in_repo, function name of innermost repo frame)"""
    name, inrepo = "", False
    root = os.path.realpath(os.path.join(REPO, "dattri")) + os.sep
    for fr in traceback.extract_tb(e.__traceback__):
        if os.path.realpath(fr.filename).startswith(root):
            inrepo, name = True, fr.name
    return inrepo, name


def run_case(mod, case):
    import torch
    tmp = case.get("_tmp") or tempfile.mkdtemp(prefix="vmon_")
    os.chdir(tmp)
    m = Monitor(case, tmp)
    seed = int(case.get("seed", 0))
    random.seed(seed)
    import numpy as np
    np.random.seed(seed % (2**32))
    torch.manual_seed(seed)
    out = {"err": None, "inc": None}
    t = time.time()
    try:
        mod.run(m, case)
    except Inconclusive as e:
        out["inc"] = str(e)
    except (MemoryError, KeyboardInterrupt) as e:
        out["inc"] = repr(e)
    except OSError as e:
        import errno
        if e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE):
            out["inc"] = repr(e)
        else:
            _, fn = _exc_site(e)
            m.fail(f"exception:{case.get('scenario')}:{type(e).__name__}:{fn}",
                   "".join(traceback.format_exception(e)[-6:]))
    except BaseException as e:  # noqa: BLE001
        inrepo, fn = _exc_site(e)
        if "DefaultCPUAllocator" in str(e) or "can't allocate memory" in str(e) or "can't start new thread" in str(e):
            out["inc"] = repr(e)
        elif inrepo or not isinstance(e, (ImportError,)):
            # On the unchanged tree no case raises; an exception on valid input is a
            # failure to deliver the promised value.
            m.fail(f"exception:{case.get('scenario')}:{type(e).__name__}:{fn}",
                   "".join(traceback.format_exception(e)[-8:]))
        else:
            out["err"] = "".join(traceback.format_exception(e))
    out.update(violations=m.violations, events=m.events,
               sig=hashlib.sha1(repr((case.get("scenario"), m.sig)).encode()).hexdigest()[:12],
               nontrivial=sum(m.events.values()) > 0, wall=time.time() - t)
    os.chdir("/")
    return out


def _worker(mod, conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import torch
    torch.set_num_threads(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VMON_STDERR"):
        os.dup2(devnull, 2)
    while True:
        try:
            item = conn.recv()
        except EOFError:
            break
        if item is None:
            break
        idx, case = item
        conn.send((idx, run_case(mod, case)))
    os._exit(0)


def run_pool(mod, cases, nproc, limit, budget):
    ctx = mp.get_context("fork")
    results = [None] * len(cases)
    base = tempfile.mkdtemp(prefix="vmon_base_")
    todo = list(range(len(cases)))[::-1]
    workers = {}
    t0 = time.time()
    failfast = bool(os.environ.get("VMON_FAILFAST"))     # used by tools/mutate.py only

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(mod, b), daemon=False)
        p.start()
        b.close()
        workers[a] = [p, None, 0.0, None]
        return a

    def give(c):
        if not todo or (budget and time.time() - t0 > budget):
            try:
                c.send(None)
            except OSError:
                pass
            workers[c][0].join(5)
            if workers[c][0].is_alive():
                workers[c][0].kill()
                workers[c][0].join()
            del workers[c]
            c.close()
            return
        i = todo.pop()
        d = os.path.join(base, f"c{i}")
        os.mkdir(d)
        workers[c][1:] = [i, time.time(), d]
        c.send((i, dict(cases[i], _tmp=d)))

    def clean(c):
        d = workers[c][3]
        if d and os.path.isdir(d):
            shutil.rmtree(d, ignore_errors=True)

    try:
        for _ in range(min(nproc, max(1, len(cases)))):
            give(spawn())
        while workers:
            for c in mpwait(list(workers), timeout=1.0):
                i = workers[c][1]
                try:
                    idx, r = c.recv()
                    results[idx] = r
                    if failfast and r["violations"]:
                        todo.clear()
                    clean(c)
                    if getattr(mod, "FRESH", False):
                        # one process per case: threads and hooks of a case end with it
                        try:
                            c.send(None)
                        except OSError:
                            pass
                        workers[c][0].join(3)
                        if workers[c][0].is_alive():
                            workers[c][0].kill()
                            workers[c][0].join()
                        del workers[c]
                        c.close()
                        if todo:
                            give(spawn())
                    else:
                        give(c)
                except (EOFError, OSError):
                    p = workers[c][0]
                    p.join(5)
                    code = p.exitcode
                    clean(c)
                    del workers[c]
                    c.close()
                    inc = f"worker died (exit {code})"
                    v = []
                    if code is not None and code < 0 and -code in (
                            signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                        v = [{"key": f"crash:{cases[i].get('scenario')}:{-code}", "msg": inc}]
                        inc = None
                    results[i] = dict(err=None, inc=inc, violations=v, events={}, sig="", nontrivial=False, wall=0)
                    give(spawn())
            now = time.time()
            for c in list(workers):
                p, i, t, _ = workers[c]
                lim = cases[i].get("limit", limit)
                if i is not None and now - t > lim:
                    p.kill()
                    p.join()
                    clean(c)
                    del workers[c]
                    c.close()
                    hk = cases[i].get("hang_key")
                    v = [{"key": hk, "msg": f"no result within {lim}s"}] if hk else []
                    results[i] = dict(err=None, inc=None if hk else f"case exceeded {lim}s", violations=v,
                                      events={}, sig="", nontrivial=False, wall=lim, hung=bool(hk))
                    if sum(1 for r in results if r and r.get("hung")) >= 10:
                        todo.clear()
                    give(spawn())
    finally:
        for c in list(workers):
            workers[c][0].kill()
        shutil.rmtree(base, ignore_errors=True)
    return results


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("known", [])


def main(pid, mod, tier, seed, replay=None, nproc=None, only=None):
    t0 = time.time()
    nproc = nproc or min(8, max(2, (os.cpu_count() or 4)))
    if replay:
        with open(replay) as f:
            cases = [json.load(f)["case"]]
    else:
        rng = random.Random(f"{pid}:{seed}:{tier}")
        cases = mod.gen(rng, tier)
        for i, c in enumerate(cases):
            c.setdefault("seed", rng.randrange(2**31))
        if only:
            cases = [c for c in cases if c["scenario"] in only]
    limit = getattr(mod, "CASE_LIMIT", 150)
    budget = 780 if tier == "quick" else None
    if hasattr(mod, "prepare"):
        mod.prepare()
    res = run_pool(mod, cases, nproc, limit, budget)
    # a hang counts only if it happens again with the machine to itself (load alone must not raise an alarm)
    hung = [i for i, r in enumerate(res) if r and r.get("hung")]
    for i in hung[:2]:
        if budget and time.time() - t0 + 1.3 * cases[i].get("limit", limit) > 850:
            break  # no time left to look again
        again = run_pool(mod, [cases[i]], 1, 1.3 * cases[i].get("limit", limit), None)[0]
        if again and not again.get("hung"):
            res[i] = again
    if hung and not any(res[i].get("hung") for i in hung[:2]):
        for i in hung[2:]:
            res[i].update(inc="case exceeded its limit once", violations=[])
    known = [k for k in load_known() if k["property"] == pid]
    viol, hits, errs, incs = [], {}, [], []
    events, sigs, per_scn = {}, set(), {}
    ran = 0
    for c, r in zip(cases, res):
        if r is None:
            incs.append("not run (budget)")
            continue
        ran += 1
        for k, n in r["events"].items():
            events[k] = events.get(k, 0) + n
        s = per_scn.setdefault(c["scenario"], [0, 0])
        s[0] += 1
        if r["nontrivial"]:
            s[1] += 1
            sigs.add(r["sig"])
        if r["err"]:
            errs.append(r["err"])
        if r["inc"]:
            incs.append(r["inc"])
        for v in r["violations"]:
            kk = next((k for k in known if v["key"] in k["keys"]), None)
            if kk:
                hits.setdefault(kk["what"], v["key"])
            else:
                viol.append((c, v))
    for k in known:
        if k["what"] in hits:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    need = getattr(mod, "MIN_EVENTS", {"compared": 10})
    starved = [k for k, n in need.items() if sum(v for e, v in events.items() if e == k) < n]
    seen = {}
    for c, v in viol:
        seen.setdefault(v["key"], (c, v))
    rdir = os.path.join(VERIF, "replays")
    first = None
    if seen:
        os.makedirs(rdir, exist_ok=True)
        for key, (c, v) in list(seen.items())[:8]:
            h = hashlib.sha1(json.dumps([pid, key, c], sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(rdir, f"{pid}_{h}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "key": key, "msg": v["msg"], "case": c}, f, indent=1, default=str)
            print(f"  key={key}\n  case={json.dumps(c, default=str)[:600]}\n  {v['msg'][:900]}")
            print(f"VIOLATION property={pid} replay={path}")
            first = first or path
    samples = []
    for c, r in zip(cases, res):
        if r and r["nontrivial"] and (not samples or all(s["case"]["scenario"] != c["scenario"] for s in samples)):
            samples.append({"case": c, "observed": r["events"]})
    evid = {
        "property": pid, "tier": tier, "seed": int(seed), "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {"evaluations": ran, "distinct_nontrivial": len(sigs), "rule": mod.RULE,
                     "samples": samples[:6], "events": events,
                     "scenarios": {k: {"cases": a, "nontrivial": b} for k, (a, b) in per_scn.items()},
                     "inconclusive_cases": len(incs), "known_findings_reproduced": sorted(hits)},
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(evid, f, indent=1, default=str)
    print(f"{pid} {tier} seed={seed}: cases={ran} distinct={len(sigs)} violations={len(viol)} "
          f"keys={len(seen)} inconclusive={len(incs)} wall={evid['wall_s']}s events={events}")
    if viol:
        return 1
    if errs:
        print("HARNESS-ERROR:", errs[0])
        return 3
    if incs:
        print(f"INCONCLUSIVE in {len(incs)} of {len(cases)} cases:", incs[0])
        if len(incs) > 0.05 * len(cases):
            return 2
    if starved and not replay and not only:
        print("INCONCLUSIVE: monitors observed too little:", starved, events)
        return 2
    return 0
