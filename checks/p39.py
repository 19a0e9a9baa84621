"""A call that fails on its way leaves nothing behind: the error surfaces, the caller's state is intact and the call can be repeated."""
import random
import torch
from vmon import attributors as A
from vmon.block import no_compile
from vmon.watch import Watch
no_compile()

LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitoring under fault injection (loader, model forward, backward and checkpoint loading failures at a counted occurrence), judged by state snapshots and a never-failed twin"
RULE = ("every attributor, random problems, formats, configurations and batchings; a fault is raised at a randomly chosen one of the counted occurrences of a "
        "batch being collated, a module being run, a gradient being computed or a checkpoint entry being loaded inside cache, attribute or self-attribute (once or twice in a row); the "
        "error, everything the caller owns, and the results of repeating the call and of all other calls are compared with a twin that never failed; "
        "distinct by (attributor, call, kind of fault, occurrence, batching)")
MIN_EVENTS = {"faults": 150, "compared": 300, "snapshots": 100, "at_loader": 30, "at_forward": 30, "at_backward": 10, "at_checkpoint": 15}
CASE_LIMIT = 200
BACKWARD = set(A.BLOCK) | {"ekfac"}


class Boom(Exception):
    pass


class Stop(KeyboardInterrupt):
    pass


class Injector:
    """Counts the occurrences of one kind of event and raises at the armed one."""

    def __init__(self, P, where, module, kind=Boom):
        self.kind = kind
        self.where, self.n, self.at = where, 0, None
        self.handle = None
        if where in ("forward", "backward"):
            self.handle = P.model.get_submodule(module).register_forward_hook(self.hook)

    def hook(self, mod, inp, out):
        if self.where == "forward":
            self.hit()
        elif torch.is_tensor(out) and out.requires_grad:
            out.register_hook(lambda g: self.hit())

    def hit(self):
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.fired = True
            raise self.kind(f"{self.where} {self.n}")

    def load(self, model, ckpt):
        """The caller's own checkpoint loading, entry by entry."""
        with torch.no_grad():
            for k, v in model.state_dict().items():
                self.hit()
                v.copy_(ckpt[k])
        return model.eval()

    def count(self, f):
        self.n, self.at = 0, None
        r = f()
        return self.n, r

    def fail(self, at, f):
        self.n, self.at, self.fired = 0, at, False
        try:
            f()
            return None
        except BaseException as e:  # noqa: BLE001
            return e
        finally:
            self.at = None


class Faulty(A.Adapter):
    inj = None

    def _ld(self, which, idx, bs, via="sampler"):
        ld = super()._ld(which, idx, bs, via)
        fn = ld.collate_fn

        def collate(b):
            if self.inj is not None and self.inj.where == "loader":
                self.inj.hit()
            return fn(b)
        return torch.utils.data.DataLoader(ld.dataset, batch_size=ld.batch_size, sampler=ld.sampler, collate_fn=collate)


def gen(rng, tier):
    out = []
    for i in range(200 if tier == "quick" else 2400):
        kind = A.ALL[i % len(A.ALL)]
        sp = A.spec(rng, kind)
        out.append(dict(scenario=kind, spec=sp, cfg=A.config(rng, kind), pick=rng.randrange(10**6), twice=rng.random() < 0.25, skip=rng.random() < 0.4, stop=rng.random() < 0.2,
                        cached=kind not in A.UNCACHED or kind in A.BLOCK or rng.random() < 0.6))
    return out


def cause(e):
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        if isinstance(e, (Boom, Stop)):
            return True
        e = e.__cause__ or e.__context__
    return False


def run(m, c):
    kind, cfg = c["scenario"], c["cfg"]
    rng = random.Random(c["pick"])

    def fresh(where, module):
        P = A.problem(kind, c["spec"])
        if kind == "dvemb":
            P.eloss = cfg["fact"] is not None
        P.model.load_state_dict(P.states[0])
        inj = Injector(P, where, module, Stop if c.get("stop") else Boom)
        cks = P.checkpoints()
        w = Watch(m, P, cks)
        kw = dict(checkpoints_load_func=inj.load) if where == "checkpoint" else {}
        a = Faulty(kind, P, cfg, task=P.task(checkpoints=cks, **kw), keep=[])
        a.inj = inj
        return P, inj, w, a
    where = rng.choice(["loader", "forward"] + (["backward"] * 2 if kind in BACKWARD or (kind == "dvemb" and cfg["fact"]) else []))
    if kind == "knn":
        where = "loader"
    if c["spec"]["ncheck"] > 1 and rng.random() < 0.4:
        where = "checkpoint"
    probe = A.problem(kind, c["spec"])
    names = [n for n, mod in probe.model.named_modules() if n and not list(mod.children())]
    module = rng.choice(names)
    if where == "backward":
        module = probe.linears()[-1] if kind in A.BLOCK else [n for n in names if isinstance(probe.model.get_submodule(n), torch.nn.Linear)][-1]
    n, mm = probe.spec["n"], probe.spec["m"]
    full, te = list(range(n)), list(range(mm))
    cbs, bs, tbs = rng.randint(1, n), rng.randint(1, n), rng.randint(1, mm)
    if not c["cached"] and kind in A.FULL_BATCH:
        bs = n
    before = rng.sample(full, rng.randint(max(2, n - 3), n)) if rng.random() < 0.4 and kind not in ("knn", "dvemb") else None
    ops = {"cache": lambda a: a.cache(full, cbs), "scores": lambda a: a.scores(full, bs, te, tbs), "self": lambda a: a.selfs(full, bs)}
    order = (["cache"] if c["cached"] else []) + rng.choice([["scores", "self"], ["self", "scores"]])

    # the twin that never fails, counting the occurrences of the event
    _, inj, _, twin = fresh(where, module)
    if c["cached"] and before:
        twin.cache(before)
    counts, want = {}, {}
    for op in order:
        counts[op], want[op] = inj.count(lambda: ops[op](twin))
    able = [op for op in order if counts[op]]
    if not able:
        m.ev("no_occurrence")
        return
    victim = "cache" if c.get("skip") and "cache" in able else rng.choice(able)
    P, inj, w, a = fresh(where, module)
    if c["cached"] and before:
        a.cache(before)
    w.check(f"{kind} before", a.keep)
    ats = []
    for op in order:
        if op == victim:
            for _ in range(2 if c["twice"] else 1):
                at = rng.randint(1, counts[op])
                ats.append(at)
                e = inj.fail(at, lambda: ops[op](a))
                # setup finished by a call that failed is not repeated, so a second call can have fewer occurrences
                if not inj.fired:
                    m.check("fault raised by nobody", e is None, f"{kind} {op}: {type(e).__name__}: {e}")
                    m.ev("not_reached")
                    break
                m.ev("faults")
                m.ev("at_" + where)
                info = f"{kind} {op}: {where} fault {at}/{counts[op]}"
                m.check("fault lost", e is not None, f"{info}: the call returned normally")
                m.check("fault masked", e is None or cause(e), f"{info}: raised {type(e).__name__}: {e}")
                w.check(f"after {info}", a.keep, grads=where != "backward", weights=where != "checkpoint")
        if op == victim == "cache" and c.get("skip") and kind not in ("trak", "dvemb", "knn", "rps"):
            # without repeating it: refusing, or scores of one of the states the attributor can be in, but not of a mixture of two
            try:
                a.cached = None
                got = a.scores(full, n, te, tbs)
            except Exception:  # noqa: BLE001
                m.ev("refused_unfinished")
            else:
                m.ev("unfinished")
                states = []
                for st in [None] * (kind in A.UNCACHED) + [before] * bool(before) + [full]:
                    _, _, _, t = fresh(where, module)
                    if st is not None:
                        t.cache(st, cbs)
                    t.cached = None
                    states.append(t.scores(full, n, te, tbs))
                best = min(float((got - s).abs().max()) / max(float(s.abs().max()), 1e-12) if s.shape == got.shape else float("inf") for s in states)
                m.check(f"{kind} scores of a mixture", best < 10 * A.tol(kind), f"{info}: off by {best:.3g} from every state ({len(states)})")
        got = ops[op](a)
        if torch.is_tensor(want[op]):
            m.close(f"{kind} {op} after failed {victim}", got, want[op], tol=0.03 if kind == "rps" else 10 * A.tol(kind), scale=float(want[op].abs().max()),
                    msg=f"{where} faults {ats} of {counts[victim]} in {victim}")
        w.check(f"{kind} {op} repeated", a.keep, grads=False)
    m.saw(kind, victim, where, str(ats), counts[victim], cbs, bs, tbs, before is not None)
