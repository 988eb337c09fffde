"""python -m rv.run ID [--tier quick|thorough] [--seed N] : decide one property on /repo's working tree."""
import argparse
import concurrent.futures as cf
import contextlib
import importlib
import io
import json
import os
import signal
import subprocess
import sys
import time
import traceback
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(v, "1")
sys.dont_write_bytecode = True

from rv import core  # noqa: E402

if core.REPO not in sys.path[:1]:
    sys.path.insert(0, core.REPO)

FAMILIES = {"A": ["a1", "a2", "a3"], "B": ["b"], "C": ["b"], "D": ["d"], "E": ["e"], "F": ["f"], "G": ["g"],
            "H": ["h"], "I": ["i"]}


class Sink(io.StringIO):
    """swallows what the code under test prints"""

    def write(self, s):
        return len(s)


def load(pid):
    for f in FAMILIES[pid[0]]:
        try:
            importlib.import_module("rv.props." + f)
        except ModuleNotFoundError as e:
            if e.name != "rv.props." + f:
                raise
    return core.REG[pid]


def run_part(pid, tier, seed, part):
    fn, meta = load(pid)
    ck = core.Check(pid, tier, seed, part)
    with contextlib.redirect_stdout(Sink()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import numpy as np
        with np.errstate(all="ignore"):
            try:
                fn(ck)
            except core.ImportFailed:
                pass
            except core.Enough as e:
                ck.notes["ended early"] = str(e)
            except (ArithmeticError, AttributeError, LookupError, TypeError, ValueError, AssertionError, RuntimeError) as e:
                # an observation no oracle could read (a result of another kind, a missing attribute, an exception
                # escaping from the code under test): the real code did not deliver what the property describes
                tb = traceback.extract_tb(e.__traceback__)
                ck.decide("observation readable", False, "%s:%d" % (tb[-1].filename, tb[-1].lineno),
                          {"exception": "%s: %s" % (type(e).__name__, str(e)[:300]),
                           "frames": ["%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-6:]]})
            except Exception as e:
                # any other one only counts against the code under test when it was raised there; after a violation it
                # only ends the run
                tb = traceback.extract_tb(e.__traceback__)
                here = [f for f in tb if os.path.abspath(f.filename).startswith(os.path.join(core.REPO, "aerokit") + os.sep)]
                if here:
                    ck.decide("observation readable", False, "%s:%d" % (here[-1].filename, here[-1].lineno),
                              {"exception": "%s: %s" % (type(e).__name__, str(e)[:300])})
                elif any(m not in ck.known for m in ck.viol):
                    ck.notes["ended early"] = "%s: %s" % (type(e).__name__, str(e)[:300])
                else:
                    raise
    signal.alarm(0)
    return ck.result()


def merge(rs):
    out = rs[0]
    for r in rs[1:]:
        for k in ("evals", "elements", "distinct", "steps"):
            out[k] += r[k]
        for k in ("by_mech", "skipped", "nested", "viol_count"):
            for m, c in r[k].items():
                out[k][m] = out[k].get(m, 0) + c
        for m, c in r["arcs"].items():
            out["arcs"][m] = max(out["arcs"].get(m, 0), c)
        for m, w in r["viol"].items():
            out["viol"].setdefault(m, w)
        out["wall"] = max(out["wall"], r["wall"])
        if "ended early" in r["notes"]:
            out["notes"]["ended early"] = r["notes"]["ended early"]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--part", type=int, default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.id
    if a.replay:
        w = json.load(open(a.replay))
        a.tier, a.seed = w["tier"], w["seed"]
    limit = 820 if a.tier == "quick" else 3400 - 60 * (a.part is not None)
    fired = []

    def watchdog(*_):
        # a run that takes too long reports the violations it has seen; without any it gives no answer
        if fired or (a.tier == "thorough" and a.part is None):
            sys.__stdout__.write("INCONCLUSIVE property=%s watchdog\n" % pid)
            sys.__stdout__.flush()
            os._exit(3)
        fired.append(1)
        signal.alarm(30)
        raise core.Enough("watchdog")

    signal.signal(signal.SIGALRM, watchdog)
    signal.alarm(limit)
    t0 = time.time()
    if a.part is not None:  # worker of a thorough run
        r = run_part(pid, a.tier, a.seed, a.part)
        sys.__stdout__.write("RESULT " + json.dumps(r) + "\n")
        return 0
    if a.tier == "thorough":
        nw = int(os.environ.get("VERIF_WORKERS", "8"))

        def one(k):
            p = subprocess.run([sys.executable, "-B", "-m", "rv.run", pid, "--tier", a.tier, "--seed", str(a.seed), "--part", str(k)],
                               cwd=core.VERIF, capture_output=True, text=True)
            for line in p.stdout.splitlines():
                if line.startswith("RESULT "):
                    return json.loads(line[7:])
            raise RuntimeError("worker %d gave no result (%s): %s" % (k, p.returncode, (p.stdout + p.stderr)[-2000:]))

        with cf.ThreadPoolExecutor(nw) as ex:
            r = merge(list(ex.map(one, range(nw))))
    else:
        r = run_part(pid, a.tier, a.seed, 0)
    fn, meta = load(pid)
    known = core.known_findings(pid)
    new = {m: w for m, w in r["viol"].items() if m not in known}
    found = {m: w for m, w in r["viol"].items() if m in known}
    if not new and "watchdog" in str(r["notes"].get("ended early")):
        r["required"]["end of the workload"] = 1
    missing = [m for m, c in r["required"].items() if r["by_mech"].get(m, 0) < c]
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": r["evals"], "distinct_nontrivial": r["distinct"],
            "rule": r["rule"] + "; counted once per distinct (oracle, arguments), only when the arguments are in the domain of"
                    " the oracle and a verdict was reached (out-of-domain observations are counted apart)",
            "samples": r["samples"],
            "decided_by_oracle": dict(sorted(r["by_mech"].items())),
            "array_elements_decided": r["elements"],
            "nested_calls_observed": r["nested"],
            "out_of_domain_observations": r["skipped"],
            "branch_arcs_reached_in_repo": r["arcs"], "logical_steps_observed": r["steps"],
            "known_findings_observed": {m: r["viol_count"][m] for m in found},
        },
        "assumptions": r["assumptions"], "wall_s": round(time.time() - t0, 3), "violations": len(new),
    }
    if r["notes"]:
        ev["coverage"]["notes"] = r["notes"]
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for m in found:
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[m], m))
    if new:
        d = os.path.join(core.VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (pid, a.tier, a.seed))
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": a.tier, "seed": a.seed,
                       "rerun": "cd /verif && ./check %s --replay %s" % (pid, path),
                       "violations": [dict(w, count=r["viol_count"][m]) for m, w in new.items()]}, f, indent=1)
        for m, w in list(new.items())[:12]:
            print("  %s x%d: %s" % (m, r["viol_count"][m], json.dumps({"case": w["case"], "detail": w["detail"]})[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if missing:
        print("INCONCLUSIVE property=%s monitors not reached: %s" % (pid, missing))
        return 3
    print("OK property=%s decisions=%d distinct=%d %.1fs" % (pid, r["evals"], r["distinct"], time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 4
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
