"""Author/verify planted changes (developer tool; no check uses it).

  seed.py make ID PROPERTY FILE <<< edits : not used interactively, see new()
  seed.py verify ID...    : patch applies, demo 0 clean / nonzero patched, stable tests pass
  seed.py catch ID [tier] : run this property's check against a patched copy
"""
import json, os, shutil, subprocess as sp, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def copy(tag):
    d = f"/tmp/seed_{tag}"
    shutil.rmtree(d, ignore_errors=True)
    sp.run(["cp", "-a", os.environ.get("SEED_BASE", "/repo"), d], check=True)
    sp.run(["git", "-C", d, "checkout", "-q", "--", "."], check=True)
    return d


def new(sid, prop, edits, needs, breaks, demo):
    """edits: [(file, old, new)], demo: python source run with PYTHONPATH=repo."""
    d = copy(sid)
    for f, a, b in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    o = os.path.join(S, sid)
    os.makedirs(o, exist_ok=True)
    diff = sp.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
    open(os.path.join(o, "patch.diff"), "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(o, "meta.json"), "w"), indent=1)
    open(os.path.join(o, "demo.py"), "w").write(demo)
    open(os.path.join(o, "demo.sh"), "w").write(
        '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nrepo=$PWD\nwork=$(mktemp -d)\ntrap \'rm -rf "$work"\' EXIT\n'
        'cd "$work"\nTQDM_DISABLE=1 PYTHONWARNINGS=ignore TORCHDYNAMO_DISABLE=1 CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$repo" '
        'timeout 250 /opt/venv/bin/python "$here/demo.py"\n')
    shutil.rmtree(d)


def verify(sid, tests=True):
    o = os.path.join(S, sid)
    d = copy(sid)
    r0 = sp.run(["bash", o + "/demo.sh"], cwd=d, capture_output=True, text=True)
    a = sp.run(["git", "-C", d, "apply", o + "/patch.diff"], capture_output=True, text=True)
    r1 = sp.run(["bash", o + "/demo.sh"], cwd=d, capture_output=True, text=True)
    res = dict(clean=r0.returncode, apply=a.returncode, patched=r1.returncode)
    if r0.returncode:
        print(r0.stdout[-1500:], r0.stderr[-1500:])
    res["why"] = (r1.stdout + r1.stderr).strip()[-160:]
    if tests:
        t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + d)
        open(d + "_t.sh", "w").write(t)
        sp.run(["bash", d + "_t.sh", d + "_t.json"], capture_output=True)
        j = json.load(open(d + "_t.json"))
        st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        failed = sorted(st & set(j.get("failed", []))) or sorted(st - set(j.get("passed", [])))
        res["stable_failed"] = failed[:5]
        os.remove(d + "_t.sh"); os.remove(d + "_t.json")
    shutil.rmtree(d)
    res["ok"] = not (res["clean"] or res["apply"] or not res["patched"] or res.get("stable_failed"))
    print(sid, json.dumps(res))


def catch(sid, tier="quick"):
    o = os.path.join(S, sid)
    d = copy(sid + "_c")
    sp.run(["git", "-C", d, "apply", o + "/patch.diff"], check=True)
    pid = json.load(open(o + "/meta.json"))["property"]
    r = sp.run([V + "/check.sh", pid, tier], cwd=V, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=tier),
               capture_output=True, text=True)
    print(sid, pid, "exit", r.returncode, [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")][:2])
    shutil.rmtree(d)


if __name__ == "__main__":
    for sid in sys.argv[2:]:
        {"verify": verify, "demo": lambda s: verify(s, False), "catch": catch}[sys.argv[1]](sid)
