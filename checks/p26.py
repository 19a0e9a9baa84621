"""The disk chunk store against a dictionary, over random histories with a slowed-down background writer."""
import os, random, time
import torch
from vmon import store

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: random operation histories on the real store with injected writer delays, online comparison with a reference map"
RULE = ("random sessions (same manager, or a new one on the same directory) of store / re-read / finalize / iterate operations, gradients and "
        "inverse products interleaved, any store order, skipped and empty batches, batches larger than a chunk, tiny buffers and queues, several "
        "dtypes, absent layers, caller-side mutation of stored and returned tensors; file operations of background threads randomly delayed; the "
        "chunk file reader/writer called directly in every flush mode; distinct by (parameters, operation sequence)")
MIN_EVENTS = {"compared": 500, "iterated": 500, "delays": 50, "restarts": 30, "handler": 20, "lagged": 4}
FRESH = True
CASE_LIMIT = 100


def prepare():
    import dattri.algorithm.block_projected_if.offload.disk_io.manager  # noqa: F401


def gen(rng, tier):
    out = []
    for i in range(6 if tier == "quick" else 40):
        out.append(dict(scenario="lag", pick=rng.randrange(10**9), hang_key="hang:lag"))
    for i in range(130 if tier == "quick" else 1300):
        out.append(dict(scenario="history", pick=rng.randrange(10**9), hang_key="hang:history"))
    for i in range(20 if tier == "quick" else 150):
        out.append(dict(scenario="handler", pick=rng.randrange(10**9)))
    for i in range(2 if tier == "quick" else 12):
        out.append(dict(scenario="wide", pick=rng.randrange(10**9), hang_key="hang:wide"))
    for i in range(2 if tier == "quick" else 8):
        out.append(dict(scenario="big", pick=rng.randrange(10**9), hang_key="hang:big"))
    return out


def new(c, rng, **kw):
    from dattri.algorithm.block_projected_if.offload.disk_io.manager import ChunkedDiskIOManager
    return ChunkedDiskIOManager(os.path.abspath("store"), "default", **kw)


def run(m, c):
    rng = random.Random(c["pick"])
    g = torch.Generator().manual_seed(c["pick"] % 2**31)
    if c["scenario"] == "handler":
        return handler(m, c, rng, g)
    if c["scenario"] == "lag":
        return lag(m, c, rng, g)
    delays = store.slow_files(os.path.abspath("."), c["pick"], p=rng.choice([0, 0.2, 0.5]), top=rng.choice([0.005, 0.03, 0.08]))
    big = c["scenario"] == "big"
    kw = dict(chunk_size=rng.choice([1, 1, 2, 3, 5]), max_samples_per_chunk=rng.choice([2, 5, 9, 40]), buffer_pool_size=rng.choice([1, 4, 8]),
              write_queue_size=rng.choice([1, 2, 8]), num_write_workers=rng.choice([1, 2, 4]), num_threads=4)
    if big:
        kw = dict(chunk_size=rng.choice([4, 16]), max_samples_per_chunk=2048)
    if c["scenario"] == "wide":
        kw.update(chunk_size=1)
    dims = [rng.randint(1, 5) for _ in range(rng.randint(1, 4))]
    want = {"gradients": {}, "ifvp": {}}
    dtype = rng.choice([torch.float32, torch.float32, torch.bfloat16, torch.float64, torch.float16])
    mgr = new(c, rng, **kw)
    cs = kw["chunk_size"]
    put = {"gradients": mgr.store_gradients, "ifvp": mgr.store_ifvp}
    get = {"gradients": mgr.retrieve_gradients, "ifvp": mgr.retrieve_ifvp}
    nxt, log = 0, []
    m.saw(dims, sorted(kw.items()), str(dtype))
    for session in range(rng.randint(1, 4) if not big else 1):
        if session and rng.random() < 0.5:
            m.ev("restarts")
            kw2 = dict(kw, max_samples_per_chunk=rng.choice([3, 9, 40]))
            mgr = new(c, rng, **kw2)
            put = {"gradients": mgr.store_gradients, "ifvp": mgr.store_ifvp}
            get = {"gradients": mgr.retrieve_gradients, "ifvp": mgr.retrieve_ifvp}
        start = -(-nxt // cs) * cs
        n = rng.randint(1, 9)
        if c["scenario"] == "wide":
            n = rng.randint(9, 14)
        if big:
            n = 18
        end = start + n
        nxt = end
        mgr.start_batch_range(start, end)
        kinds = ["gradients"] if rng.random() < 0.3 and not big else ["gradients", "ifvp"]
        todo = []
        for k in kinds:
            ids = [b for b in range(start, end) if rng.random() < 0.9]
            how = rng.random()
            if c["scenario"] == "wide" or how < 0.2:
                rng.shuffle(ids)
                if c["scenario"] != "wide" and len({b // cs for b in ids}) > 7:
                    ids.sort()
            elif how < 0.3:
                ids.reverse()
            todo.append([(k, b) for b in ids])
        if session == 0 and "gradients" not in {k for t in todo for k, _ in t}:
            continue
        # gradients first (their layer layout defines the store), sometimes interleaved afterwards
        seq = list(todo[0])
        if len(todo) > 1:
            if rng.random() < 0.5 and len(seq) > 1:
                rest = seq[1:]
                other = todo[1]
                seq = seq[:1]
                while rest or other:
                    src = rest if (rest and (not other or rng.random() < 0.5)) else other
                    seq.append(src.pop(0))
            else:
                seq += todo[1]
        if want["gradients"] == {} and (not seq or seq[0][0] != "gradients"):
            mgr.finalize_batch_range()
            continue
        first = not want["gradients"]
        for k, b in seq:
            rows = rng.choice([1, 2, 3, 3, 4, rng.randint(1, 12)])
            if big:
                rows = rng.choice([600, 700, 2048, 2500])
            if rng.random() < 0.04 and not first:
                rows = 0
            ts = store.batch(rng, g, dims, rows, dtype, missing=rng.random() < 0.1 and not first)
            first = False
            put[k](b, [t.clone() for t in ts] if rng.random() < 0.5 else ts)
            if rows:
                want[k][b] = store.stored_form(ts, dims, rows)
            m.ev("stores")
            log.append((k[0], b, rows))
            for t in ts:  # the caller goes on using its own tensors
                t.add_(100.0)
            for _ in range(rng.choice([0, 0, 1, 2])):
                kk = rng.choice(["gradients", "ifvp"])
                pool = sorted(want[kk]) + [end + 3]
                bb = rng.choice(pool[-6:])
                got = get[kk](bb)
                store.same(m, "read", got, want[kk].get(bb), f"{kk} {bb} while storing, session {session} {kw}")
                m.ev("reads")
                for t in got:
                    t.mul_(-3)
        if rng.random() < 0.3:
            mgr.wait_for_async_operations()
        mgr.finalize_batch_range()
        for k in kinds:
            info = f"{k} session {session} {kw}"
            for _ in range(2):
                ids = list(range(start, end)) + [rng.randrange(nxt + 5) for _ in range(3)]
                rng.shuffle(ids)
                for b in ids[:30]:
                    got = get[k](b)
                    store.same(m, "read-final", got, want[k].get(b), f"{b} {info}")
                    for t in got:
                        t.mul_(-3)
            rngs = None if rng.random() < 0.5 else tuple(sorted((rng.randrange(nxt + 2), rng.randrange(nxt + 3))))
            sel = {b: w for b, w in want[k].items() if rngs is None or rngs[0] <= b < rngs[1]}
            it = mgr.create_gradient_dataloader(k, batch_size=rng.randint(1, 3), pin_memory=False, batch_range=rngs)
            for again in range(rng.choice([1, 2])):
                store.iterate(m, "iterate", it, sel, dims, f"range={rngs} pass {again} {info}")
        if rng.random() < 0.4:
            li = rng.randrange(len(dims))
            pc = torch.randn(dims[li], dims[li], generator=g)
            mgr.store_preconditioner(li, pc)
            mgr.wait_for_async_operations()
            m.equal("preconditioner", mgr.retrieve_preconditioner(li), pc)
        m.check("has_ifvp", mgr.has_ifvp() == bool(want["ifvp"]), f"{mgr.has_ifvp()}")
    # everything is still there for a new process
    mgr = new(c, rng, **kw)
    for k in ("gradients", "ifvp"):
        if not want["gradients"]:
            break
        it = mgr.create_gradient_dataloader(k, batch_size=2, pin_memory=False)
        store.iterate(m, "reopen-iterate", it, want[k], dims, f"{k} {kw}")
        f = mgr.retrieve_gradients if k == "gradients" else mgr.retrieve_ifvp
        for b in list(want[k])[:12] + [nxt + 1]:
            store.same(m, "reopen-read", f(b), want[k].get(b), f"{k} {b} {kw}")
    m.saw(log)
    m.ev("delays", delays["delays"])
    m.ev("file_events", delays["events"])


def lag(m, c, rng, g):
    """The caller runs many chunks ahead of stalled writers; every chunk must still hold what was stored in it."""
    delays = store.slow_files(os.path.abspath("."), c["pick"], p=1, top=rng.choice([0.1, 0.2]))
    cs, n = rng.choice([1, 1, 2]), rng.randint(16, 28)
    kw = dict(chunk_size=cs, max_samples_per_chunk=rng.choice([4, 8, 64]), buffer_pool_size=rng.choice([1, 4, 8]), write_queue_size=rng.choice([1, 8, 64, 64]),
              num_write_workers=rng.choice([1, 2, 4]), num_threads=4)
    mgr = new(c, rng, **kw)
    dims = [rng.randint(1, 5) for _ in range(rng.randint(1, 3))]
    m.saw("lag", n, dims, sorted(kw.items()))
    want = {"gradients": {}, "ifvp": {}}
    kinds = rng.choice([["gradients"], ["gradients", "ifvp"]])
    put = {"gradients": mgr.store_gradients, "ifvp": mgr.store_ifvp}
    get = {"gradients": mgr.retrieve_gradients, "ifvp": mgr.retrieve_ifvp}
    mgr.start_batch_range(0, n)
    t0 = time.monotonic()
    for k in kinds:
        for b in range(n):
            rows = rng.randint(1, 4)
            ts = store.batch(rng, g, dims, rows, torch.float32)
            put[k](b, ts)
            want[k][b] = store.stored_form(ts, dims, rows)
            m.ev("stores")
            if rng.random() < 0.05:
                bb = rng.randrange(b + 1)
                store.same(m, "lag-read", get[k](bb), want[k][bb], f"{bb} while writers lag {kw}")
    mgr.finalize_batch_range()
    mgr.wait_for_async_operations()
    m.ev("lagged")
    m.saw(time.monotonic() - t0 > 0.5)
    for k in kinds:
        it = mgr.create_gradient_dataloader(k, batch_size=2, pin_memory=False)
        store.iterate(m, "lag-iterate", it, want[k], dims, f"{k} {kw}")
    mgr = new(c, rng, **kw)
    for k in kinds:
        f = mgr.retrieve_gradients if k == "gradients" else mgr.retrieve_ifvp
        for b in range(n):
            store.same(m, "lag-final", f(b), want[k][b], f"{k} {b} {kw}")
    m.ev("delays", delays["delays"])
    m.ev("file_events", delays["events"])


def handler(m, c, rng, g):
    from dattri.algorithm.block_projected_if.offload.disk_io.memory_map import ChunkedMemoryMapHandler as H
    root = os.path.abspath("chunks")
    files = {}
    nxt = 0
    dims = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
    for _ in range(rng.randint(1, 4)):
        kind = rng.choice(["gradients", "ifvp"])
        nb = rng.randint(1, 5)
        ids = list(range(nxt, nxt + nb))
        nxt += nb + rng.randint(0, 2)
        if rng.random() < 0.4:
            rng.shuffle(ids)
        rows, info = 0, []
        for b in ids:
            k = rng.randint(1, 4)
            info.append({"batch_idx": b, "start_row": rows, "end_row": rows + k})
            rows += k
        dtype = rng.choice([torch.float32, torch.float32, torch.bfloat16])
        t = torch.randn(rows, sum(dims), generator=g).to(dtype)
        if rng.random() < 0.3:
            t = torch.randn(sum(dims), rows, generator=g).to(dtype).T
        mode = rng.choice(["async", "sync", "none"])
        name = H.write_chunk(root, kind, t, info, dims, flush_mode=mode)
        m.ev("handler")
        m.check("filename", name not in files, f"file name {name} reused")
        files[name] = (kind, t.clone(), info, mode)
        m.check("written", H.ensure_chunk_written(root, name, timeout=5.0), name)
    m.saw([(n, tuple(f[1].shape), str(f[1].dtype), f[3]) for n, f in files.items()])
    for kind in ("gradients", "ifvp"):
        want = [n for n in files if files[n][0] == kind]
        want.sort(key=lambda n: min(i["batch_idx"] for i in files[n][2]))
        m.check("find", H.find_chunk_files(root, kind) == want, f"{H.find_chunk_files(root, kind)} want {want}")
    for name, (kind, t, info, mode) in files.items():
        md = H.read_chunk_metadata(root, name)
        m.check("metadata", md["batches"] == info and list(md["shape"]) == list(t.shape) and md["layer_dims"] == dims, str(md))
        got, _ = H.load_chunk_tensor(root, name)
        m.equal("load", got, t, msg=f"{t.dtype} {mode}")
        for i in info:
            m.equal("slice", H.load_batch_slice(root, name, i["batch_idx"]), t[i["start_row"]:i["end_row"]], msg=f"{t.dtype} {mode}")
        m.check("slice-absent", H.load_batch_slice(root, name, 10**6) is None, "")
        lo, hi = sorted((rng.randrange(nxt + 1), rng.randrange(nxt + 2)))
        for br in (None, (lo, hi)):
            got, mp = H.load_chunk_batch_range(root, name, br)
            keep = [i for i in info if br is None or lo <= i["batch_idx"] < hi]
            m.check("range-batches", sorted(mp) == sorted(i["batch_idx"] for i in keep), f"{mp} {br}")
            for i in keep:
                s, e = mp.get(i["batch_idx"], (0, 0))
                m.equal("range-rows", got[s:e], t[i["start_row"]:i["end_row"]], msg=f"{br} {t.dtype}")
        with H.read_chunk(root, name) as (view, _):
            view.mul_(0)  # copy on write: never reaches the file
        got, _ = H.load_chunk_tensor(root, name)
        m.equal("cow", got, t)
