"""Block-projected attributors give the same answers wherever the intermediate data live."""
import os, random
import torch
from vmon import block, store
from vmon.workloads import Data, FixedSampler, rand_spec
block.no_compile()
from checks import p12

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: the same job run under every offload mode, chunk size and batching with a delayed background writer, outputs compared"
RULE = ("one attribution job (network, layers, compression, Hessian, damping) run with data kept in memory, on the host and on disk, with chunk "
        "sizes 1..16 and several train/test batch sizes incl. a batch larger than a chunk and chunks split by overflow; scores, subset scores, "
        "self-influence, stored inverse-Fisher rows and re-caching of other data compared with the in-memory run; the managers themselves driven "
        "in lockstep by random histories against a reference map; distinct by (job, variants)")
MIN_EVENTS = {"compared": 300, "disk_runs": 60, "ifvp_rows": 300, "delays": 20, "iterated": 300}
CASE_LIMIT = 120
FRESH = True


def prepare():
    import dattri.algorithm.logra, dattri.algorithm.factgrass  # noqa: F401, E401


def gen(rng, tier):
    out = []
    for i in range(44 if tier == "quick" else 420):
        s = rand_spec(rng, kinds=block.KINDS_B, maxcheck=2, fmts=("tuple", "tuple", "dict"), frozen=False, dtypes=("float32",))
        s["n"] = rng.randint(3, 17)
        if s["kind"] == "norm":
            s["h"] = 4
        out.append(dict(scenario="job", spec=s, pick=rng.randrange(10**6), comp=rng.choice(["identity", "logra", "factgrass", "generic", "default"]),
                        hess=rng.choice(["eFIM", "eFIM", "eFIM", "Identity"]), damping=rng.choice([0.01, 0.1, 1.0]), pseed=rng.choice([0, 3]),
                        k=rng.choice([1, 4, 9]), blow=rng.choice([1, 4]), t1=rng.choice(["normal", "rademacher"]), hang_key="hang:job"))
    for i in range(60 if tier == "quick" else 600):
        out.append(dict(scenario="managers", pick=rng.randrange(10**9), hang_key="hang:managers"))
    for i in range(2 if tier == "quick" else 8):
        s = dict(kind="linear", d=2, k=2, n=[9800, 5200][i % 2], m=3, loss="mse", dtype="float32", seed=rng.randrange(2**31))
        out.append(dict(scenario="large", spec=s, pick=rng.randrange(10**6), comp="identity", hess="eFIM", damping=0.1, pseed=0, k=1, blow=1,
                        t1="normal", bsz=[600, 2600][i % 2], limit=200, hang_key="hang:large"))
    return out


def rows_of(att, P):
    """Stored inverse-Fisher rows in sample order."""
    mp = att.metadata.get_batch_to_sample_mapping()
    out = torch.full((att.metadata.get_total_samples(), sum(att.layer_dims)), float("nan"))
    for t, mapping in att.offload_manager.create_gradient_dataloader("ifvp", batch_size=2, pin_memory=True):
        for b, (s, e) in mapping.items():
            a, z = mp[b]
            out[a:z] = t[s:e].float()
    return out


def run(m, c):
    if c["scenario"] == "managers":
        return managers(m, c)
    delays = store.slow_files(os.path.abspath("."), c["pick"], p=random.Random(c["pick"]).choice([0, 0.2, 0.5]), top=0.03)
    P = block.BProblem(c["spec"])
    rng = random.Random(c["pick"])
    n, mt = P.spec["n"], P.spec["m"]
    names = rng.sample(P.linears(), rng.randint(1, len(P.linears()))) if rng.random() < 0.4 else None
    large = c["scenario"] == "large"
    idx = [rng.randrange(n) for _ in range(rng.randint(1, 6))]
    sub = sorted(rng.sample(range(n), rng.randint(2, min(n, 9))))
    variants = [("none", 16, n, mt)]
    if large:
        variants += [("disk", 16, c["bsz"], 2), ("disk", 32, c["bsz"], mt)]
    else:
        for off in ("none", "cpu", "disk", "disk", "disk"):
            variants.append((off, rng.choice([1, 2, 3, 4, 16]), rng.randint(1, n), rng.randint(1, mt)))
    ref = None
    for vi, (off, ch, bs, tbs) in enumerate(variants):
        r2 = random.Random(5)
        att, used = p12.build(P, dict(c, offload=off, chunk=ch), r2, cache_dir=os.path.abspath(f"store{vi}"), offload=off, chunk=ch, layers=names)
        ltr, lte = P.loader("train", bs), P.loader("test", tbs)
        if rng.random() < 0.3 and not large:
            # something else was cached first, and must leave no trace
            att.cache(P.loader("train", rng.randint(1, 3), sampler=FixedSampler([rng.randrange(n) for _ in range(rng.randint(2, 2 * n))])))
            m.ev("recached")
        att.cache(ltr)
        out = {"scores": att.attribute(ltr, lte), "self": att.compute_self_attribution()}
        out["subset"] = att.attribute(P.loader("train", rng.randint(1, 3), sampler=FixedSampler(idx)), lte)
        if c["hess"] == "eFIM":
            # with the identity Hessian the gradients stand in for the products on request
            out["ifvp"] = rows_of(att, P)
            m.ev("ifvp_rows", len(out["ifvp"]))
            if rng.random() < 0.3:
                att.compute_ifvp()
                out["ifvp-again"] = rows_of(att, P)
        out["scores-again"] = att.attribute(ltr, lte)
        if off == "disk":
            m.ev("disk_runs")
            # a restarted process finds the same data
            att2, _ = p12.build(P, dict(c, offload=off, chunk=ch), random.Random(5), cache_dir=os.path.abspath(f"store{vi}"), offload=off, chunk=ch, layers=names)
            if rng.random() < 0.5 and c["hess"] == "eFIM":
                out["self-restart"] = att2.compute_self_attribution()
        if rng.random() < 0.3 and not large:
            att.cache(P.loader("train", rng.randint(1, 4), sampler=FixedSampler(sub)))
            out["recache-self"] = att.compute_self_attribution()
        if ref is None:
            mats = [None if c["comp"] == "identity" else block.probe(cp, *p12.dims(P, nm)) for cp, nm in zip(att.compressors, used)]
            if not large:
                _, _, mag, cond = block.oracle(P, mats, used, c["hess"], c["damping"])
                if mag is None or 1e-4 + 1e-6 * cond > 0.05:
                    m.ev("skipped")
                    return
            else:
                mag, cond = None, 100
            tol = 1e-4 + 1e-6 * cond
            ref = dict(out)
            m.saw(P.spec["kind"], c["comp"], c["hess"], str(used), n, mt, variants)
            att3, _ = p12.build(P, dict(c, offload="none", chunk=4), random.Random(5), offload="none", chunk=4, layers=names)
            if not large:
                att3.cache(P.loader("train", len(sub), sampler=FixedSampler(sub)))
                ref["recache-self"] = att3.compute_self_attribution()
        for k, v in out.items():
            w = ref.get(k, ref.get(k.split("-")[0]))
            m.close(k, v, w, tol=tol, scale=None if "ifvp" in k else mag, msg=f"{off} chunk={ch} bs={bs} tbs={tbs} {c['comp']} {c['hess']}")
        m.close("self-diag-ref", out["self"].shape[0], n)
    m.ev("delays", delays["delays"])


def managers(m, c):
    from dattri.algorithm.block_projected_if.offload import create_offload_manager
    rng = random.Random(c["pick"])
    g = torch.Generator().manual_seed(c["pick"] % 2**31)
    delays = store.slow_files(os.path.abspath("."), c["pick"], p=rng.choice([0, 0.3]), top=0.03)
    dims = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
    names = [f"l{i}" for i in range(len(dims))]
    cs = rng.choice([1, 2, 4])
    mgrs = {}
    for off in ("none", "cpu", "disk"):
        mgrs[off] = create_offload_manager(offload_type=off, device="cpu", layer_names=names,
                                           cache_dir=os.path.abspath("mstore") if off == "disk" else None, chunk_size=cs)
    m.saw(dims, cs)
    for era in range(rng.randint(1, 3)):
        n = rng.randint(1, 9)
        grads, ifvp, pre = {}, {}, {}

        def phase(kind, dst):
            for off, mg in mgrs.items():
                if hasattr(mg, "start_batch_range_processing"):
                    mg.start_batch_range_processing(0, n)
            for b in range(n):
                rows = rng.randint(1, 5)
                ts = store.batch(rng, g, dims, rows, missing=rng.random() < 0.15 and b > 0)
                dst[b] = store.stored_form(ts, dims, rows)
                for off, mg in mgrs.items():
                    cp = [t.clone() for t in ts]
                    (mg.store_gradients if kind == "gradients" else mg.store_ifvp)(b, cp)
                    if rng.random() < 0.5:
                        for t in cp:
                            t.add_(7)
                m.ev("stores")
            for off, mg in mgrs.items():
                if hasattr(mg, "finish_batch_range_processing"):
                    mg.finish_batch_range_processing()
        phase("gradients", grads)
        look(m, rng, mgrs, "gradients", grads, dims, n, era)
        for off, mg in mgrs.items():
            m.check(f"has_ifvp-{off}", not mg.has_ifvp(), f"{off}: inverse products reported before any was stored (era {era})")
            m.check(f"has_pre-{off}", not mg.has_preconditioners(), f"{off} era {era}")
        for i in range(len(dims)):
            if rng.random() < 0.8:
                pre[i] = torch.randn(dims[i], dims[i], generator=g)
                for mg in mgrs.values():
                    mg.store_preconditioner(i, pre[i].clone())
        for off, mg in mgrs.items():
            mg.wait_for_async_operations()
            m.check(f"has_pre-{off}", mg.has_preconditioners() == bool(pre), f"{off} era {era}")
            for i in range(len(dims)):
                got = mg.retrieve_preconditioner(i)
                if i in pre:
                    m.equal(f"preconditioner-{off}", got, pre[i])
                else:
                    m.check(f"preconditioner-absent-{off}", got is None, f"era {era}")
        phase("ifvp", ifvp)
        look(m, rng, mgrs, "ifvp", ifvp, dims, n, era)
        look(m, rng, mgrs, "gradients", grads, dims, n, era)
        if rng.random() < 0.8:
            for off, mg in mgrs.items():
                mg.clear_cache()
                m.check(f"cleared-{off}", not mg.has_ifvp() and not mg.has_preconditioners(), f"{off} era {era}")
                look(m, rng, {off: mg}, "gradients", {}, dims, n, era)
                look(m, rng, {off: mg}, "ifvp", {}, dims, n, era)
        else:
            break
    m.ev("delays", delays["delays"])


def look(m, rng, mgrs, kind, want, dims, n, era):
    for off, mg in mgrs.items():
        get = mg.retrieve_gradients if kind == "gradients" else mg.retrieve_ifvp
        ids = list(range(n + 2))
        rng.shuffle(ids)
        for b in ids:
            try:
                got = get(b)
            except (ValueError, KeyError, FileNotFoundError):
                # an empty store may also say so by raising
                m.check(f"read-{off}", want.get(b) is None and not want, f"{kind} {b} era {era}: raised although data are stored")
                m.ev("absent_raised")
                continue
            store.same(m, f"read-{off}", got, want.get(b), f"{kind} {b} era {era}")
            m.check(f"on-device-{off}", all(t.device.type == "cpu" for t in got), "")
        rg = None if rng.random() < 0.5 else tuple(sorted((rng.randrange(n + 1), rng.randrange(n + 2))))
        sel = {b: w for b, w in want.items() if rg is None or rg[0] <= b < rg[1]}
        it = mg.create_gradient_dataloader(kind, batch_size=rng.randint(1, 3), pin_memory=rng.random() < 0.5, batch_range=rg)
        store.iterate(m, f"iterate-{off}", it, sel, dims, f"{off} {kind} range={rg} era {era}")
