"""Plant one bug: python tools/plant.py SPEC.json
SPEC: {"id", "property", "edits": [[file, old, new], ...], "needs", "what_it_breaks", "demo": python source}
Writes /verif/seeded/<id>/ after confirming in a scratch copy that the tests pass with the change and the demonstration
fails with it and passes without it; then reports what the check of the property says about the changed tree."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def run(spec, extra=()):
    t = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        repo = t + "/repo"
        sh("cp -a /repo %s" % repo)
        base = sh("git -C %s blame -s 6c700ad..HEAD -- %s" % (repo, " ".join(sorted({e[0] for e in spec["edits"]}))))
        for f, old, new in spec["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "edit does not apply once (%d): %s %r" % (s.count(old), f, old[:60])
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C %s diff" % repo).stdout
        d = os.path.join(V, "seeded", spec["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(spec["demo"])
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                                        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["what_it_breaks"]}, open(d + "/meta.json", "w"), indent=1)
        # changed lines must be original ones
        orig = {f: sh("git -C /repo show 6c700ad:%s" % f).stdout.splitlines() for f in {e[0] for e in spec["edits"]}}
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        miss = [l for l in removed if not any(l in o for o in orig.values())]
        a = sh("bash %s/demo.sh" % d, cwd="/repo")
        b = sh("bash %s/demo.sh" % d, cwd=repo)
        s = open("/opt/vp/test.sh").read()
        tst = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -2", cwd=repo, env=dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1"))
        c = sh("./check %s --seed 1" % spec["property"], cwd=V, env=dict(os.environ, VERIF_REPO=repo))
        out = "%-22s %s demo %d/%d tests: %s | check rc=%d %s%s" % (
            spec["id"], spec["property"], a.returncode, b.returncode, tst.stdout.strip().splitlines()[-1] if tst.stdout else tst.stderr[-200:],
            c.returncode, " ; ".join(l.strip()[:110] for l in c.stdout.splitlines()[:2]), "  NOT ORIGINAL: %r" % miss if miss else "")
        if a.returncode:
            out += "\n  demo on unchanged: " + (a.stdout + a.stderr)[-400:]
        return out
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    specs = json.load(open(sys.argv[1]))
    specs = specs if isinstance(specs, list) else [specs]
    only = sys.argv[2:]
    for s in specs:
        if not only or s["id"] in only:
            print(run(s), flush=True)
