"""Benchmark data preparation against the raw data it is made from."""
import contextlib
import io
import json
import os
import pickle
import random
import runpy
import shutil
import sys
import types
import warnings
import zipfile
from pathlib import Path
import numpy as np
import torch

LEVEL = "exploration"
RULE = ("real dataset code on generated raw data: token files of any length cut into windows (full, sliding, random, from the start), character texts run "
        "through the preparation scripts, MIDI pieces written with pretty_midi, encoded, decoded and split by the metadata, images with stand-in torchvision "
        "datasets, token streams with stand-in Hugging Face loader and tokenizer, benchmark archives served by a stand-in HTTP client (missing files, "
        "errors, second calls, re-downloads, more than ten checkpoints); every item compared with the raw data; distinct by (source, sizes)")
MIN_EVENTS = {"windows": 1500, "pieces": 40, "notes": 400, "tokens": 4000, "images": 300, "downloads": 60, "blocks": 200}


def gen(rng, tier):
    q = tier == "quick"
    return [dict(scenario=s, pick=rng.randrange(10**9)) for s, k in (("epiano", 120), ("random", 40), ("codec", 60), ("maestro", 14), ("custom", 10), ("chars", 60),
                                                                     ("prepare", 20), ("images", 40), ("wikitext", 20), ("load", 40))
            for _ in range(k if q else 8 * k)]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


@contextlib.contextmanager
def patched(*subs):
    old = [(o, k, getattr(o, k)) for o, k, _ in subs]
    try:
        for o, k, v in subs:
            setattr(o, k, v)
        yield
    finally:
        for o, k, v in old:
            setattr(o, k, v)


def toks():
    from dattri.benchmark.models.MusicTransformer.utilities.constants import TOKEN_END, TOKEN_PAD
    return TOKEN_END, TOKEN_PAD


def write_pieces(rng, root, k, top):
    os.makedirs(root, exist_ok=True)
    out = {}
    for i in range(k):
        name = rng.choice(["piece", "z", "a b", "10", "2"]) + f"_{i}.pickle"
        seq = [rng.randrange(0, 388) for _ in range(rng.choice([0, 1, 2, rng.randint(0, top), rng.randint(0, top), rng.randint(0, top)]))]
        out[name] = seq
        Path(root, name).write_bytes(pickle.dumps(seq))
    if rng.random() < 0.3:
        os.makedirs(Path(root, "sub"), exist_ok=True)
    return out


def want_short(seq, T):
    END, PAD = toks()
    x = seq[:] + [PAD] * (T - len(seq))
    t = (seq[1:] + [END] if seq else []) + [PAD] * (T - len(seq))
    return x, t


def check_full(m, ds, raw, T, stride, what, rs=False):
    want = []
    for name in sorted(raw):
        seq = raw[name]
        off = 0
        while off + T < len(seq):  # every window whose last target exists
            want.append((name, off))
            off += stride
    m.equal("window-count", len(ds), len(want), msg=what)
    for i, (name, off) in enumerate(want[:400]):
        x, t = ds[i]
        m.ev("windows")
        seq = raw[name]
        if rs and off == 0 and any(x.tolist() == seq[s:s + T] and t.tolist() == seq[s + 1:s + 1 + T] for s in range(1, len(seq) - T)):
            m.tag = "first fragment drawn at random"
        m.equal("window-input", x.tolist(), seq[off:off + T], msg=f"{what} item {i} of {name} offset {off}")
        m.equal("window-target", t.tolist(), seq[off + 1:off + 1 + T], msg=f"{what} item {i} of {name} offset {off}")
        m.tag = None


def epiano(m, rng):
    from dattri.benchmark.models.MusicTransformer.dataset.e_piano import EPianoDataset, create_epiano_datasets
    T = rng.randint(1, 12)
    stride = rng.choice([None, T, 1, rng.randint(1, 2 * T)])
    kw = {} if stride is None else dict(sliding_windows_size=stride)
    split = rng.random() < 0.4
    full = rng.random() < 0.7
    rs = rng.random() < 0.4
    parts = ["train", "val", "test"] if split else [""]
    raws = [write_pieces(rng, os.path.join("root", p), rng.randint(1, 5), 5 * T) for p in parts]
    m.saw("epiano", T, stride, split, full, sum(len(s) for r in raws for s in r.values()))
    if split or rng.random() < 0.5:
        made = create_epiano_datasets("root", T, random_seq=rs, full_version=full, split=split, **kw)
        made = list(made) if split else [made]
    else:
        made = [EPianoDataset("root", T, random_seq=rs, full_version=full, **kw)]
    m.equal("split-count", len(made), len(parts))
    for ds, raw, p in zip(made, raws, parts):
        what = f"T={T} stride={stride} {p}"
        m.ev("pieces", len(raw))
        if full:
            check_full(m, ds, raw, T, stride or T, what, rs)
            continue
        names = sorted(raw)
        m.equal("piece-count", len(ds), len(names))
        for i, name in enumerate(names):
            x, t = ds[i]
            m.ev("windows")
            seq = raw[name]
            if len(seq) <= T:
                m.equal("short-piece", (x.tolist(), t.tolist()), want_short(seq, T), msg=f"{what} {len(seq)} tokens")
            elif rs:
                m.check("random-window", any(x.tolist() == seq[s:s + T] and t.tolist() == seq[s + 1:s + 1 + T] for s in range(len(seq) - T)), f"{what} {name}")
            else:
                m.equal("first-window", (x.tolist(), t.tolist()), (seq[:T], seq[1:T + 1]), msg=what)


def rand(m, rng):
    """Every start is drawn, including both ends; pieces are not modified."""
    from dattri.benchmark.models.MusicTransformer.dataset.e_piano import process_midi
    T = rng.randint(1, 6)
    n = T + 1 + rng.randint(0, 5)
    seq = list(range(n))
    raw = torch.tensor(seq)
    starts = set()
    m.saw("random", T, n)
    for _ in range(400):
        x, t = process_midi(raw, T, True)
        m.check("random-window", x.tolist() == seq[x[0]:x[0] + T] and t.tolist() == seq[x[0] + 1:x[0] + 1 + T], f"{x.tolist()} {t.tolist()} of {n}")
        starts.add(int(x[0]))
    m.ev("windows", 400)
    m.equal("starts", sorted(starts), list(range(n - T)), msg=f"T={T} n={n}")
    m.check("raw-unchanged", raw.tolist() == seq, "")


def same_notes(m, key, got, want, raw, msg=""):
    """got == want; what the recorded finding about velocities explains is kept apart from everything else."""
    if got is not None and want is not None and got != want and len(got) == len(want):
        true = {(p, s, e): v for p, v, s, e in raw}
        have = {(int(p), s, e): int(v) for p, v, s, e in got}
        vs = {v for _, v, _, _ in raw}
        bad = [k for k in true if have.get(k) != true[k] // 4 * 4]
        if set(have) == set(true) and all(true[k] // 4 in vs and have[k] in {v // 4 * 4 for v in vs} | {0} for k in bad):
            m.tag = "velocity a quarter of the previous one"
    m.equal(key, got, want, msg=msg)
    m.tag = None


def piece(rng, n):
    """Notes on a 10 ms grid, no two of one pitch overlapping: (pitch, velocity, start, end) in centiseconds."""
    notes, free = [], {}
    soft = 4 if rng.random() < 0.2 else 32
    t = rng.randint(0, 30)
    for _ in range(n):
        p = rng.choice([0, 1, 60, 61, 62, 100, 127]) if rng.random() < 0.6 else rng.randint(0, 127)
        s = max(t, free.get(p, 0))
        e = s + rng.choice([1, 2, 10, 99, 100, 101, rng.randint(1, 350)])
        free[p] = e + rng.randint(0, 1)
        notes.append((p, rng.randint(soft, 127), s, e))
        t += rng.choice([0, 0, 1, 5, 99, 100, 101, 200, rng.randint(0, 300)])
    return notes


def write_midi(notes, path):
    import pretty_midi
    mid = pretty_midi.PrettyMIDI(resolution=480)
    ins = pretty_midi.Instrument(0)
    for p, v, s, e in notes:
        ins.notes.append(pretty_midi.Note(v, p, s / 100, e / 100))
    end = max(e for *_, e in notes) / 100
    ins.control_changes += [pretty_midi.ControlChange(64, 127, end + 1), pretty_midi.ControlChange(64, 0, end + 1.5)]
    mid.instruments.append(ins)
    mid.write(str(path))


def interpret(ints):
    """Own reading of the event vocabulary."""
    t = vel = 0
    on, out = {}, []
    for i in ints:
        if i < 128:
            on[i] = (vel, t)
        elif i < 256:
            v, s = on.pop(i - 128)
            if t > s:
                out.append((i - 128, v, s, t))
        elif i < 356:
            t += i - 255
        else:
            vel = (i - 356) * 4
    return sorted(out)


def codec(m, rng):
    from dattri.benchmark.models.MusicTransformer.midi_processor.processor import Event, decode_midi, encode_midi
    for i in rng.sample(range(388), 60) + [0, 127, 128, 255, 256, 355, 356, 387]:
        e = Event.from_int(i)
        m.check("event-code", e.to_int() == i and e.value == (i if i < 128 else i - 128 if i < 256 else i - 256 if i < 356 else i - 356)
                and e.type == ("note_on" if i < 128 else "note_off" if i < 256 else "time_shift" if i < 356 else "velocity"), f"{i} -> {e}")
    notes = piece(rng, rng.randint(1, 25)) if rng.random() < 0.9 else [(60, 20, 0, 10), (62, 80, 5, 35)]
    m.saw("codec", len(notes), notes[-1][2])
    m.ev("pieces")
    m.ev("notes", len(notes))
    want = sorted((p, v // 4 * 4, s, e) for p, v, s, e in notes)
    write_midi(notes, "p.mid")
    ints = encode_midi("p.mid")
    m.check("event-range", all(0 <= i < 388 for i in ints), "")
    m.ev("tokens", len(ints))
    same_notes(m, "encoded-piece", interpret(ints), want, notes, f"{len(notes)} notes")
    form = rng.choice([list, np.array, tuple])
    mid = decode_midi(form(ints), "out.mid" if rng.random() < 0.5 else None)
    got = sorted((x.pitch, x.velocity, round(x.start * 100), round(x.end * 100)) for ins in mid.instruments for x in ins.notes)
    same_notes(m, "decoded-piece", got, want, notes, f"{len(notes)} notes")
    drift = max([abs(x.start * 100 - round(x.start * 100)) for ins in mid.instruments for x in ins.notes] or [0])
    m.check("decoded-times", drift < 1e-3, str(drift))


class Reply:
    def __init__(self, content, code=200):
        self.content, self.status_code = content, code

    @property
    def text(self):
        return self.content.decode()

    def iter_content(self, chunk_size=1):
        for i in range(0, len(self.content), chunk_size):
            yield self.content[i:i + chunk_size]
        yield b""


def zipped(folder, prefix=""):
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as z:
        for f in sorted(Path(folder).rglob("*")):
            z.write(f, os.path.join(prefix, f.relative_to(folder)))
    return buf.getvalue()


def maestro(m, rng):
    import dattri.benchmark.datasets.maestro.data as data
    T = rng.randint(3, 20)
    m.saw("maestro", T)
    root = Path("src/maestro-v2.0.0")
    played = {}
    meta, want = [], {"train": {}, "validation": {}, "test": {}}
    for i in range(rng.randint(3, 7)):
        year = rng.choice(["2004", "2011"])
        (root / year).mkdir(parents=True, exist_ok=True)
        name = f"{year}/MIDI-Unprocessed_{rng.randrange(100)}.v{i}_wav.midi"
        notes = piece(rng, rng.randint(2, 12))
        write_midi(notes, root / name)
        sp = ["train", "validation", "test"][i] if i < 3 else rng.choice(["train", "train", "validation", "test"])
        meta.append(dict(midi_filename=name, split=sp, canonical_title="x"))
        played[name.split("/")[-1]] = notes
        want[sp][name.split("/")[-1]] = sorted((p, v // 4 * 4, s, e) for p, v, s, e in notes)
    (root / "maestro-v2.0.0.json").write_text(json.dumps(meta))
    songs = write_pieces(rng, "gen", rng.randint(1, 4), 4 * T)
    shutil.rmtree("gen/sub", ignore_errors=True)
    calls = []

    def get(url, **kw):
        calls.append(url)
        m.ev("downloads")
        return Reply(zipped("gen") if "generated" in url else zipped("src/maestro-v2.0.0", "maestro-v2.0.0"))
    gm = rng.random() < 0.5
    path = rng.choice(["ds", "ds", "deep/er/ds", Path("ds2")])
    m.tag = "nested dataset path" if path == "deep/er/ds" else None
    with patched((data.requests, "get", get), (data, "MAX_SEQUENCE", T)), quiet():
        tr, va = data.create_maestro_datasets(path, generated_music=gm)
        m.tag = None
        n = len(calls)
        tr2, va2 = data.create_maestro_datasets(path, generated_music=gm)
    m.equal("downloads-once", len(calls), n)
    for ds, sp in ((tr, "train"), (va, "validation"), (tr2, "train")):
        if gm and ds is va:
            check_full(m, va, songs, T, T, "generated", True)
            continue
        raw = {}
        files = sorted(ds.data_files)
        m.equal("split-files", [os.path.basename(f) for f in files], sorted(k + ".pickle" for k in want[sp]), msg=sp)
        for f in files:
            ints = pickle.loads(Path(f).read_bytes())
            m.ev("pieces")
            m.ev("notes", len(want[sp].get(os.path.basename(f)[:-7], [])))
            m.ev("tokens", len(ints))
            same_notes(m, "processed-piece", interpret(ints), want[sp].get(os.path.basename(f)[:-7]), played.get(os.path.basename(f)[:-7], []), f)
            raw[f] = ints
        check_full(m, ds, raw, T, T, sp, True)


def custom(m, rng):
    from dattri.benchmark.models.MusicTransformer.dataset.preprocess_midi import prep_custom_midi, prep_maestro_midi
    os.makedirs("in")
    want, played = {}, {}
    dots = rng.random() < 0.3
    for i in range(rng.randint(2, 8)):
        name = rng.choice([f"op.{i}", f"song{i}", f"op.{i}.final"]) if dots else rng.choice([f"op-{i}", f"song{i}", f"op {i} final"])
        played[name] = None
        notes = piece(rng, rng.randint(1, 6))
        write_midi(notes, f"in/{name}.mid")
        want[name], played[name] = sorted((p, v // 4 * 4, s, e) for p, v, s, e in notes), notes
    m.saw("custom", len(want))
    with quiet():
        prep_custom_midi("in", "out", **(dict(valid_p=0.5, test_p=0.5) if rng.random() < 0.5 else {}))
        m.check("no-metadata", prep_maestro_midi("in", "out2") is False, "")
    got = {}
    for sp in ("train", "val", "test"):
        for f in os.listdir(f"out/{sp}"):
            m.tag = "pieces sharing a name up to the first dot" if sum(k.split(".")[0] == f.split(".")[0] for k in want) > 1 else None
            m.check("piece-once", f not in got, f)
            m.tag = None
            got[f] = interpret(pickle.loads(Path("out", sp, f).read_bytes()))
            mine = [k for k in want if k.split(".")[0] == f.split(".")[0]]
            near = [k for k in mine if {(p, s, e) for p, _, s, e in want[k]} == {(p, s, e) for p, _, s, e in got[f]}]
            m.check("piece-known", near, f"{f}: {got[f]}")
            if near:
                same_notes(m, "custom-piece", got[f], want[near[0]], played[near[0]], f)
            m.ev("pieces")
            m.ev("notes", len(got[f]))
    stems = [k.split(".")[0] for k in want]
    for k in want:
        own = stems.count(k.split(".")[0]) == 1
        m.tag = None if own else "pieces sharing a name up to the first dot"
        m.check("every-piece-kept", any({(p, s, e) for p, _, s, e in want[k]} == {(p, s, e) for p, _, s, e in v} for v in got.values()), f"{k} of {sorted(want)}")
    m.tag = None
    m.equal("files-per-stem", sorted({f.split(".")[0] for f in got}), sorted(set(stems)))


def chars(m, rng):
    import dattri
    from dattri.benchmark.datasets.shakespeare_char import create_shakespeare_dataset
    import dattri.benchmark.datasets.shakespeare_char.data as data
    root = Path("pkg/benchmark/datasets/shakespeare_char")
    root.mkdir(parents=True)
    raw = {}
    for k in ("train", "val"):
        raw[k] = np.array([rng.randrange(65000) if rng.random() < 0.1 else rng.randrange(65) for _ in range(rng.randint(1, 200))], dtype=np.uint16)
        raw[k].tofile(root / f"{k}.bin")
    T = rng.choice([1, 2, 7, 16, rng.randint(1, 60)])
    kw = dict(block_size=T) if T != 256 else {}
    m.saw("chars", T, len(raw["train"]), len(raw["val"]))
    with patched((dattri, "__file__", str(Path("pkg/__init__.py").absolute()))):
        a, b = create_shakespeare_dataset(rng.choice(["x", "pkg"]), **kw)
    for ds, k in ((a, "train"), (b, "val")):
        r = raw[k].astype(int).tolist()
        m.equal("block-count", len(ds), len(r) // T, msg=f"{len(r)} tokens T={T}")
        pick = [rng.randrange(len(ds)) for _ in range(3)] if len(ds) else []
        for i in list(range(len(ds))) + pick:
            x, t = ds[i]
            m.ev("windows")
            w = r[i * T + 1:(i + 1) * T + 1]
            m.equal("block-input", x.tolist(), r[i * T:(i + 1) * T], msg=f"{k} {i}")
            m.equal("block-target", t.tolist()[:len(w)], w, msg=f"{k} {i}")
            m.check("block-shape", tuple(x.shape) == tuple(t.shape) == (T,) and x.dtype == t.dtype == torch.int64, f"{x.dtype} {t.shape}")
        if pick:
            sx, st = ds.get_subset(pick)
            m.equal("subset", sx.tolist(), [ds[i][0].tolist() for i in pick])
            m.equal("subset", st.tolist(), [ds[i][1].tolist() for i in pick])


def scripts(m, rng):
    import dattri.benchmark
    base = Path(dattri.benchmark.__file__).parent / "datasets"
    which = rng.choice(["shakespeare_char", "tinystories"])
    alphabet = "abc XYZ\n.,;'" + ("éß世界" if which == "tinystories" else "")
    text = "".join(rng.choice(alphabet) for _ in range(rng.choice([1, 9, 10, 11, rng.randint(1, 3000)])))
    os.makedirs("prep")
    shutil.copy(base / which / "prepare.py", "prep/prepare.py")
    m.saw("prepare", which, len(text))
    argv, fetched = ["prep/prepare.py"], []
    subs = []
    if which == "tinystories":
        Path("story.txt").write_bytes(text.encode("utf8"))
        argv += ["--data_file", "story.txt"]
    else:
        import requests

        def get(url, **kw):
            fetched.append(url)
            m.ev("downloads")
            return Reply(text.encode())
        subs.append((requests, "get", get))
        if rng.random() < 0.5:
            Path("prep/input.txt").write_text(text)
    with patched((sys, "argv", argv), *subs), quiet():
        runpy.run_path("prep/prepare.py", run_name="__main__")
    meta = pickle.loads(Path("prep/meta.pkl").read_bytes())
    tr, va = (np.fromfile(f"prep/{k}.bin", dtype=np.uint16).tolist() for k in ("train", "val"))
    m.ev("tokens", len(tr) + len(va))
    m.equal("split-sizes", (len(tr), len(va)), (int(len(text) * 0.9), len(text) - int(len(text) * 0.9)))
    m.equal("text-recovered", "".join(meta["itos"][i] for i in tr + va), text)
    m.equal("vocabulary", (meta["vocab_size"], sorted(meta["itos"]), sorted(meta["stoi"])), (len(set(text)), list(range(len(set(text)))), sorted(set(text))))
    m.check("maps-inverse", all(meta["itos"][i] == c for c, i in meta["stoi"].items()), "")


def images(m, rng):
    from PIL import Image
    from torchvision import datasets
    which = rng.choice(["cifar2", "cifar2", "cifar", "mnist", "imagenet"])
    g = np.random.default_rng(rng.randrange(10**6))
    sizes = {True: rng.randint(0, 40), False: rng.randint(0, 25)}
    store = {}
    for k, n in sizes.items():
        shape = (n, 28, 28) if which == "mnist" else (n, 32, 32, 3)
        store[k] = (g.integers(0, 256, shape).astype(np.uint8), g.integers(0, 10, n).tolist())
    made = []

    class Fake(torch.utils.data.Dataset):
        def __init__(self, root, train=None, download=None, transform=None, split=None):
            made.append((str(root), train, download, split))
            train = split == "train" if train is None else train
            self.data, self.targets = store[train][0].copy(), list(store[train][1])
            self.transform = transform

        def __len__(self):
            return len(self.targets)

        def __getitem__(self, i):
            im = Image.fromarray(self.data[i])
            return (self.transform(im) if self.transform else im), self.targets[i]
    with patched((datasets, "CIFAR10", Fake), (datasets, "MNIST", Fake), (datasets, "ImageNet", Fake)):
        if which == "mnist":
            from dattri.benchmark.datasets.mnist import create_mnist_dataset as make
        elif which == "imagenet":
            from dattri.benchmark.datasets.imagenet import create_imagenet_dataset as make
        else:
            import dattri.benchmark.datasets.cifar.data as mod
            make = mod.create_cifar2_dataset if which == "cifar2" else mod.create_cifar_dataset
        tr, te = make("somewhere")
    m.saw("images", which, sizes[True], sizes[False])
    m.check("root", all(r == "somewhere" for r, *_ in made), str(made))
    for ds, k in ((tr, True), (te, False)):
        data, lab = store[k]
        keep = [i for i in range(len(lab)) if which != "cifar2" or lab[i] in (3, 5)]
        m.equal("item-count", len(ds), len(keep), msg=which)
        mean, std = (0.1307, 0.3081) if which == "mnist" else (0.5, 0.5)
        for j, i in enumerate(keep):
            x, y = ds[j]
            m.ev("images")
            m.equal("label", int(y), {3: 0, 5: 1}[lab[i]] if which == "cifar2" else lab[i], msg=f"{which} item {j}")
            if which == "imagenet":
                m.equal("shape", tuple(x.shape), (3, 224, 224))
                continue
            w = torch.tensor(data[i]).double() / 255
            w = w[None] if w.dim() == 2 else w.permute(2, 0, 1)
            m.close("pixels", x, (w - mean) / std, tol=1e-5, scale=1, msg=f"{which} item {j}")
        if which == "cifar2":
            m.equal("targets", list(ds.targets), [{3: 0, 5: 1}[lab[i]] for i in keep])
            m.check("data", np.array_equal(np.asarray(ds.data), data[keep]), "")


def wikitext(m, rng):
    import datasets
    import transformers
    from dattri.benchmark.datasets.wikitext2 import create_wikitext2_dataset
    datasets.disable_progress_bars()
    V, limit = 50, rng.choice([8, 1024])
    T = rng.choice([1, 3, 8, 13])
    with_val = rng.random() < 0.7
    texts = {k: [" ".join(str(rng.randrange(V)) for _ in range(rng.choice([0, 1, 7, rng.randint(0, 30)]))) for _ in range(rng.choice([1, 5, 60, 1200 if k == "train" else 20]))]
             for k in ("train", "validation")}
    m.saw("wikitext", T, limit, with_val, len(texts["train"]), len(texts["validation"]))
    calls = []

    def load(name, cfg, cache_dir=None, split=None):
        calls.append((name, cfg, cache_dir, split))
        m.ev("downloads")
        if split is not None:
            return datasets.Dataset.from_dict({"text": texts["validation" if split.endswith(":5%]") else "train"]})
        d = {"train": datasets.Dataset.from_dict({"text": texts["train"] if with_val else texts["train"] + texts["validation"]})}
        if with_val:
            d["validation"] = datasets.Dataset.from_dict({"text": texts["validation"]})
        return datasets.DatasetDict(d)

    class Tok:
        model_max_length = limit

        def __call__(self, batch):
            ids = [[int(w) for w in t.split()] for t in batch]
            return {"input_ids": ids, "attention_mask": [[1] * len(i) for i in ids]}
    os.environ["HF_DATASETS_CACHE"] = os.getcwd()
    with patched((datasets, "load_dataset", load), (transformers, "AutoTokenizer", types.SimpleNamespace(from_pretrained=lambda *a, **k: Tok()))):
        kw = {} if T == 13 and rng.random() < 0.3 else dict(block_size=T)
        m.tag = "block size beyond the model's maximum" if kw.get("block_size", 512) > limit else None
        out = create_wikitext2_dataset("cache", **kw)
        m.tag = None
    T = min(kw.get("block_size", 512), limit)
    m.check("cache-dir", calls[0][2] == "cache", str(calls))
    for ds, k in zip(out, ("train", "validation")):
        want = []
        for i in range(0, len(texts[k]), 1000):  # blocks are cut within each group of 1000 texts
            s = [int(w) for t in texts[k][i:i + 1000] for w in t.split()]
            want += [s[j:j + T] for j in range(0, len(s) // T * T, T)]
        got = [list(r["input_ids"]) for r in ds]
        m.ev("blocks", len(got))
        m.ev("tokens", sum(map(len, got)))
        m.equal("blocks", got, want, msg=f"{k} T={T} {len(texts[k])} texts")
        m.check("labels", [list(r["labels"]) for r in ds] == got, k)
        m.check("mask", all(list(r["attention_mask"]) == [1] * T for r in ds), k)


def load(m, rng):
    import dattri.benchmark.load as L
    ident = rng.choice(["mnist_mlp", "mnist_lr", "cifar2_resnet9", "maestro_musictransformer", "wikitext2_gpt2"])
    dataset, model = ident.split("_", 1)
    counts = {"full": rng.choice([0, 1, 3, 11, 12]), "half": rng.choice([0, 2, 10, 23])}
    metric = rng.choice(["lds", "loo"]) if ident != "wikitext2_gpt2" else "lds"
    version = [0]
    served = []
    missing = rng.random() < 0.2

    def payload(url):
        name = url.split("?")[0].split("/")[-1]
        kind = "full" if "_full.zip" in name else "half" if "_half.zip" in name else None
        if kind:
            buf = io.BytesIO()
            with zipfile.ZipFile(buf, "w") as z:
                for i in rng.sample(range(counts[kind]), counts[kind]):
                    b = io.BytesIO()
                    torch.save({"id": f"{kind}{i}", "v": version[0]}, b)
                    z.writestr(f"{i}/model_weights_0.pt", b.getvalue())
                    z.writestr(f"{i}/indices.txt", "1\n")
            return buf.getvalue()
        b = io.BytesIO()
        which = "loo" if "loo" in name else "lds"
        torch.save(torch.full((2, 3), {"lds": 1.0, "loo": 2.0}[which] + (0.5 if "indices" in name else 0) + 10 * version[0]), b)
        return b.getvalue()

    def get(url, **kw):
        served.append(url)
        m.ev("downloads")
        m.check("url", ident in url and url.startswith(L.REPO_URL), url)
        if missing and "_half.zip" in url:
            return Reply(b"", 404)
        return Reply(payload(url))
    seen = []
    tr, te = object(), object()

    def data(path):
        seen.append(Path(path))
        return tr, te
    mk = torch.nn.Sequential(torch.nn.Dropout())
    m.saw("load", ident, metric, counts["full"], counts["half"], missing)

    class Models(dict):
        pass
    subs = [(L.requests, "get", get), (L, "SUPPORTED_DATASETS", {**L.SUPPORTED_DATASETS, dataset: data})]
    if ident == "wikitext2_gpt2" or rng.random() < 0.3:
        subs.append((L, "MODEL_MAP", {**L.MODEL_MAP, ident: lambda: mk}))
    home = rng.choice(["dl", "deep/dl"])
    with patched(*subs), warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        for rep, redo in enumerate([False, False, True]):
            version[0] = rep
            before = len(served)
            out, (vals, ind) = L.load_benchmark(model, dataset, metric, download_path=home, **(dict(redownload=True) if redo else {}))
            fresh = len(served) - before
            m.check("downloads-when-needed", (fresh > 0) == (rep != 1), f"call {rep}: {fresh} downloads")
            v = 0 if rep < 2 else 2
            base = {"lds": 1.0, "loo": 2.0}[metric] + 10 * v
            m.check("ground-truth", bool((vals == base).all()) and bool((ind == base + 0.5).all()), f"{metric}: {vals[0, 0]} {ind[0, 0]} want {base}")
            for kind in ("full", "half"):
                paths = out[f"models_{kind}"]
                n = 0 if missing and kind == "half" else counts[kind]
                m.equal("checkpoint-count", len(paths), n)
                for i, p in enumerate(paths):
                    ck = torch.load(p)
                    m.equal("checkpoint", (ck["id"], ck["v"]), (f"{kind}{i}", v), msg=str(p))
            m.check("datasets", out["train_dataset"] is tr and out["test_dataset"] is te, "")
            sizes = {"maestro_musictransformer": (5000, 178), "wikitext2_gpt2": (4656, 481)}.get(ident, (5000, 500))
            m.equal("samplers", (list(out["train_sampler"]), list(out["test_sampler"])), tuple(list(range(s)) for s in sizes))
            m.check("evaluation-model", not any(x.training for x in out["model"].modules()), ident)
            m.check("functions", out["loss_func"].__name__ == f"loss_{ident.replace('cifar2', 'cifar')}" and out["target_func"] is out["loss_func"]
                    and out["train_func"].__name__ == f"train_{ident.replace('cifar2', 'cifar')}", f"{out['loss_func']} {out['train_func']}")
        m.check("missing-warned", not missing or any("_half.zip" in str(w.message) for w in caught), "")
        m.check("dataset-path", all(p == Path(home) / "dataset" for p in seen), str(seen[:2]))
        try:
            L.load_benchmark("nosuch", dataset, metric, download_path=home)
            m.fail("unknown-accepted", "")
        except ValueError:
            pass
        with patched((L.requests, "get", lambda url, **kw: Reply(b"", 500))):
            try:
                L.load_benchmark(model, dataset, metric, download_path="other")
                m.fail("server-error-ignored", "")
            except ValueError:
                pass


def run(m, c):
    {"epiano": epiano, "random": rand, "codec": codec, "maestro": maestro, "custom": custom, "chars": chars, "prepare": scripts, "images": images,
     "wikitext": wikitext, "load": load}[c["scenario"]](m, random.Random(c["pick"]))
