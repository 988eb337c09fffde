"""Which checks report which planted bugs (a development tool: no check runs it).
python tools/detect.py OUT.json [--ids a,b] [--all] [--workers 8] [--seed 1]   each bug in a scratch copy; --all: every check, not only its property's"""
import argparse, concurrent.futures as cf, json, os, queue, re, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("out")
ap.add_argument("--ids")
ap.add_argument("--all", action="store_true")
ap.add_argument("--workers", type=int, default=8)
ap.add_argument("--seed", default="1")
a = ap.parse_args()
ids = a.ids.split(",") if a.ids else sorted(os.listdir(V + "/seeded"))
props = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
pool = queue.Queue()
for k in range(a.workers):
    d = "/tmp/detect/w%d" % k
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run("cp -a /repo %s/repo; mkdir %s/verif; cd %s && cp -a rv check *.json* *.txt %s/verif/" % (d, d, V, d), shell=True)
    pool.put(d)


def one(i):
    meta = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    d = pool.get()
    res = {}
    try:
        p = subprocess.run(["git", "apply", "%s/seeded/%s/patch.diff" % (V, i)], cwd=d + "/repo", capture_output=True, text=True)
        if p.returncode:
            return i, {"does not apply": p.stderr}
        env = dict(os.environ, VERIF_REPO=d + "/repo")
        for c in (props if a.all else [meta["property"]]):
            r = subprocess.run(["./check", c, "--seed", a.seed], cwd=d + "/verif", env=env, capture_output=True, text=True)
            if r.returncode or c == meta["property"]:
                res[c] = r.returncode
                if c == meta["property"] and r.returncode == 1:  # how often, over all oracles
                    res["observations"] = sum(int(x) for x in re.findall(r"^  .* x(\d+): ", r.stdout, re.M))
    finally:
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d + "/repo")
        pool.put(d)
    return i, res


out = {}
with cf.ThreadPoolExecutor(a.workers) as ex:
    for i, r in ex.map(one, ids):
        out[i] = r
        if not a.all and (1 not in list(r.values())[:1] or r.get("observations", 0) < 4):
            print(i, r, flush=True)
json.dump(out, open(a.out, "w"), indent=1)
print(len(out), "bugs,", sum(1 in r.values() for r in out.values()), "reported")
shutil.rmtree("/tmp/detect", ignore_errors=True)
