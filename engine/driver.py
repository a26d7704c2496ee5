"""Runs the jobs of one property in parallel, replays what it finds on the
compiled code, writes the evidence file and decides the exit status."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

import build
import rt

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = f"{VERIF}/evidence"
KNOWN = f"{VERIF}/known-findings.json"


class Spec:
    """one property: how to prepare (build), which jobs, how to run and replay one"""
    level = "model_checking"
    assumptions = ()
    bounds = ""

    def prepare(self, tier):
        raise NotImplementedError

    def jobs(self, tier):
        raise NotImplementedError

    def run(self, job):
        """-> {stats, problems, notes, functions?}"""
        raise NotImplementedError

    def replay(self, problem):
        """-> description of the reproduced behaviour, or None"""
        raise NotImplementedError

    def validate(self, jobs, seed):
        """-> arguments of validate_one: concrete points at which encoding and compiled code are compared"""
        return []

    def validate_one(self, arg):
        """-> (agreements, disagreement texts, sample texts)"""
        return 0, [], []

    def sample(self, job):
        return str(job)


_spec = None
JOB_LIMIT = {"quick": 120, "thorough": 240}


class JobTimeout(Exception):
    pass


def _alarm(*a):
    raise JobTimeout()


def _chunk(args):
    return [_work(a) for a in args]


def _work(arg):
    i, job, limit = arg
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        r = _spec.run(job)
    except rt.Unsupported as e:
        r = {"stats": {}, "problems": [], "notes": [f"unsupported: {e}"]}
    except JobTimeout:
        r = {"stats": {}, "problems": [], "notes": [f"time limit of {limit} s"]}
    except RecursionError:
        r = {"stats": {}, "problems": [], "notes": ["recursion limit"]}
    except Exception as e:
        tb = traceback.format_exc().strip().splitlines()
        r = {"stats": {}, "problems": [], "notes": [f"engine: {e!r} {' | '.join(x.strip() for x in tb[-5:])}"]}
    finally:
        signal.alarm(0)
    r["job"] = i
    return r


def _val(arg):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(60)
    try:
        return _spec.validate_one(arg)
    except JobTimeout:
        return 0, [], []
    except Exception as e:
        return 0, [repr(e) + traceback.format_exc()[-200:]], []
    finally:
        signal.alarm(0)


def known_for(pid):
    try:
        return [f for f in json.load(open(KNOWN))["findings"] if f["property"] == pid and f.get("status") == "known"]
    except FileNotFoundError:
        return []


def main(spec, pid, tier):
    global _spec
    sys.setrecursionlimit(20000)
    t0 = time.time()
    budget = float(os.environ.get("VP_BUDGET", "600" if tier == "quick" else "780"))
    _spec = spec
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(f"{EVID}/replays", exist_ok=True)
    for f in os.listdir(f"{EVID}/replays"):
        if f.startswith(pid + "-"):
            os.unlink(f"{EVID}/replays/{f}")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.level}
    tot, fns, notes, problems, done, skipped = {}, set(), {}, [], 0, 0
    samples, undecided, fresh = [], 0, 0
    known = known_for(pid)
    kept = {}
    jobs = []
    try:
        spec.prepare(tier)
        jobs = list(spec.jobs(tier))
    except (build.BuildError, rt.Unsupported) as e:
        notes[f"not encodable: {str(e)[:600]}"] = 1
    t_build = time.time() - t0
    n = min(8, os.cpu_count() or 1)
    limit = JOB_LIMIT[tier]
    if jobs:
        order = list(range(len(jobs)))
        ctx = mp.get_context("fork")
        chunk = max(1, min(16, len(jobs) // (4 * n)))
        with ctx.Pool(n, maxtasksperchild=max(1, 160 // chunk)) as pool:
            work = [(i, jobs[i], limit) for i in order]
            it = pool.imap_unordered(_chunk, [work[i:i + chunk] for i in range(0, len(work), chunk)])
            while done < len(jobs):
                left = budget - (time.time() - t0)
                try:
                    rs = it.next(timeout=max(1, left))
                except mp.TimeoutError:
                    skipped = len(jobs) - done
                    pool.terminate()
                    break
                for r in rs:
                    done += 1
                    for q, x in r["stats"].items():
                        if isinstance(x, (int, float)):
                            tot[q] = tot.get(q, 0) + x
                    fns |= set(r.get("functions", ()))
                    for x in r["notes"]:
                        notes[x] = notes.get(x, 0) + 1
                    if r["notes"]:
                        undecided += 1
                    for p in r["problems"]:
                        p["jobno"] = r["job"]
                        kf = next((f["id"] for f in known if spec.matches(f, p)), None)
                        if kf is None:
                            fresh += 1
                        else:                    # a listed finding: keep a few of its inputs
                            kept[kf] = kept.get(kf, 0) + 1
                            if kept[kf] > 8:
                                continue
                        problems.append(p)
                    if len(samples) < 3:
                        samples.append(spec.sample(jobs[r["job"]]) + f" -> {len(r['problems'])} counterexamples")
                if fresh > 60:
                    pool.terminate()
                    break
    # ---- counterexamples: reproduce on the compiled code
    viol, hit, unconfirmed, tried = 0, {}, [], {}
    problems.sort(key=lambda p: (p["jobno"], p["kind"]))
    for p in problems:
        key = spec.key(p)
        if tried.get(key, 0) >= 2 or viol >= 5:
            continue
        if key in tried and viol and any(v == key for v in ()):
            continue
        tried[key] = tried.get(key, 0) + 1
        kf = next((f for f in known if spec.matches(f, p)), None)
        if kf is not None and kf["id"] in hit:
            continue
        try:
            rep = spec.replay(p)
        except Exception as e:
            rep = None
            notes[f"replay failed: {e!r}"[:300]] = 1
        if rep is None:
            unconfirmed.append(f"{key}: {p['what']}"[:300])
            continue
        tried[key] = 99
        if kf is not None:
            hit[kf["id"]] = kf
            continue
        viol += 1
        path = f"{EVID}/replays/{pid}-{viol}.json"
        with open(path, "w") as o:
            json.dump({"property": pid, "counterexample": {q: x for q, x in p.items()}, "reproduced": rep}, o, indent=1, default=str)
        print(f"  {key}: {p['what'][:300]}")
        print(f"  reproduced on the compiled code: {json.dumps(rep)[:300]}")
        print(f"VIOLATION property={pid} replay={path}")
    for f in known:
        if f["id"] in hit:
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
    nval, vtext = 0, []
    if not viol and jobs and budget - (time.time() - t0) > 60:
        try:
            picked = spec.validate(jobs, seed)
            with mp.get_context("fork").Pool(n) as pool:
                it = pool.imap_unordered(_val, picked)
                end = time.time() + 90
                for _ in picked:
                    ok, bad, text = it.next(timeout=max(1, end - time.time()))
                    nval += ok
                    vtext += text
                    for x in bad:
                        notes[f"encoding and compiled code disagree: {x}"] = 1
        except mp.TimeoutError:
            pass
        except Exception as e:
            notes[f"validation failed: {e!r}"[:300]] = 1
    tot = {q: round(x, 3) if isinstance(x, float) else x for q, x in tot.items()}
    ev["coverage"] = {
        "states": tot.get("paths", 0), "transitions": tot.get("steps", 0),
        "traces_validated_against_impl": nval, "samples": samples + vtext[:2],
        "cases": len(jobs), "cases_done": done, "cases_not_run": skipped, "cases_undecided": undecided,
        "obligations": tot.get("cells", 0) + tot.get("bounds", 0) + tot.get("accesses", 0) + tot.get("asserts", 0),
        "queries": tot.get("queries", 0) + tot.get("eq_queries", 0), "solver_s": round(tot.get("solver_s", 0) + tot.get("eq_solver_s", 0), 2),
        "totals": tot, "functions_encoded": sorted(fns), "bounds": spec.bounds,
        "undecided": [f"{x} (x{c})" for x, c in list(notes.items())[:20]],
        "unconfirmed_counterexamples": unconfirmed[:10],
        "explanation": "states = symbolic paths, transitions = instructions executed symbolically; every path covers all values of the symbolic inputs within the bounds",
    }
    ev["assumptions"] = list(spec.assumptions)
    ev["violations"] = viol
    ev["wall_s"] = round(time.time() - t0, 2)
    with open(f"{EVID}/{pid}.json", "w") as o:
        json.dump(ev, o, indent=1)
    print(f"{pid} {tier}: {done}/{len(jobs)} cases, {tot.get('paths', 0)} paths, {ev['coverage']['obligations']} obligations, "
          f"{ev['coverage']['queries']} queries, undecided {undecided}, not run {skipped}, unconfirmed {len(unconfirmed)}, "
          f"violations {viol}, build {t_build:.0f} s, {ev['wall_s']:.0f} s")
    for x in list(notes)[:6]:
        print("  note:", x[:300])
    for x in unconfirmed[:4]:
        print("  unconfirmed:", x[:300])
    return 1 if viol else 0
