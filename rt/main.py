"""Runs one check: enumerates its cases, spreads them over worker processes,
aggregates what the monitors saw, and decides."""
import hashlib
import importlib
import json
import multiprocessing as mp
from multiprocessing.connection import wait
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

from rt.core import Mon, Stop, dumps, jsonable

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")
HARD = {"quick": 800.0, "thorough": 3000.0}     # watchdog: inconclusive
SOFT = {"quick": 480.0, "thorough": 1500.0}     # no new cases after this


def _in_repo(tb):
    for f in traceback.extract_tb(tb):
        p = os.path.realpath(f.filename)
        if p.startswith("/repo/OpenNTN/"):
            return True
    return False


def run_case(mod, case):
    from rt import boot
    m = Mon(case)
    err = None
    try:
        boot.boot()
        boot.reset()
        boot.seed_all(case["seed"])
        mod.run(case, m)
    except Stop:
        pass
    except Exception as e:                       # noqa: BLE001
        text = traceback.format_exc()[-1800:]
        # (a traced function's error carries the user code's frames in its text)
        if _in_repo(sys.exc_info()[2]) or "/channel/tr38811/" in str(e) or "/repo/OpenNTN/" in str(e):
            m.fail(f"exception:{type(e).__name__}",
                   f"{type(e).__name__}: {str(e)[-300:] if 'user code' in str(e) else str(e)[:300]}", traceback=text)
        elif m.viol:
            m.count("harness error after a violation")
        else:
            err = text
    finally:
        try:
            boot.reset()
        except Exception:                        # noqa: BLE001
            pass
    d = m.dump()
    d["err"] = err
    return d


def worker(conn, name, faults):
    import faulthandler
    f = open(faults, "w")
    faulthandler.enable(f)
    # keep stdout for the main process
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("RT_DEBUG"):
        os.dup2(devnull, 2)
    mod = importlib.import_module("checks." + name)
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        i, case = msg
        t0 = time.time()
        d = run_case(mod, case)
        d["t"] = time.time() - t0
        conn.send((i, d))


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known:"):
                f = dict(p.split("=", 1) for p in line[6:].split(" :: ")[0].split()
                         if "=" in p)
                if f.get("property") == prop:
                    f["what"] = line.split(" :: ", 1)[1] if " :: " in line else ""
                    out.append(f)
    return out


def pool(name, cases, tier, progress):
    ctx = mp.get_context("spawn")
    nproc = max(1, min(int(os.environ.get("RT_JOBS", "8")), len(cases)))
    t0 = time.time()
    todo = list(range(len(cases)))[::-1]
    procs, busy, died = {}, {}, {}
    scratch = tempfile.mkdtemp(prefix="rt-faults-")
    results, crashed, truncated = {}, [], False

    def start():
        if not todo:
            return
        a, b = ctx.Pipe()
        faults = os.path.join(scratch, str(len(procs)))
        p = ctx.Process(target=worker, args=(b, name, faults), daemon=True)
        p.start()
        p.faults = faults
        b.close()
        procs[a] = p
        i = todo.pop()
        a.send((i, cases[i]))
        busy[a] = i
    for _ in range(nproc):
        start()
    while busy:
        left = HARD[tier] - (time.time() - t0)
        if left <= 0:
            break
        for a in wait(list(busy), timeout=min(left, 5.0)):
            i = busy.pop(a)
            try:
                j, d = a.recv()
                results[j] = d
            except (EOFError, OSError):
                # (OpenNTN is Python: a dead worker is TensorFlow's or the machine's; one more try)
                procs[a].join(5)
                try:
                    text = open(procs[a].faults).read()[-1500:]
                except OSError:
                    text = ""
                died[i] = died.get(i, 0) + 1
                print(f"note: worker ended with {procs[a].exitcode} on case {i} {text}")
                if died[i] > 1:
                    crashed.append(i)
                else:
                    todo.insert(0, i)
                start()
                continue
            if todo and time.time() - t0 < SOFT[tier]:
                n = todo.pop()
                a.send((n, cases[n]))
                busy[a] = n
            else:
                truncated = truncated or bool(todo)
                try:
                    a.send(None)
                except OSError:
                    pass
    hung = [busy[a] for a in busy]
    for a, p in procs.items():
        if a in busy:
            p.kill()
        else:
            p.join(5)
            if p.is_alive():
                p.kill()
    shutil.rmtree(scratch, ignore_errors=True)
    return results, crashed, hung, truncated or bool(todo)


def main(argv):
    t0 = time.time()
    prop = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    rest = argv[1:]
    if rest and rest[0] == "--replay":
        replay = json.load(open(rest[1]))
        tier = replay.get("tier", tier)
    elif rest:
        tier = rest[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if replay is not None:
        seed = int(replay.get("seed", seed))
    name = prop.lower()
    mod = importlib.import_module("checks." + name)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    evfile = os.path.join(ROOT, "evidence", prop + ".json")
    if replay is None and os.path.exists(evfile):
        os.remove(evfile)

    rng = random.Random(f"{prop}-{tier}-{seed}")
    cases = mod.cases(tier, rng)
    for i, c in enumerate(cases):
        c.setdefault("seed", rng.randrange(1, 2**31 - 1))
        c["id"] = i
    if replay is not None and replay.get("case") is not None:
        cases = [replay["case"]]
    cases = json.loads(json.dumps(cases))
    results, crashed, hung, truncated = pool(name, cases, tier, None)

    agg = Mon()
    viols, errs = [], []
    for i in sorted(results):
        d = results[i]
        agg.merge(d)
        if d["err"]:
            errs.append((i, d["err"]))
        for v in d["viol"]:
            viols.append((cases[i], v))
    complete = replay is None or replay.get("case") is None
    if hasattr(mod, "finish") and complete and not errs:
        fin = Mon()
        fin.acc = agg.acc
        fin.notes = agg.notes
        try:
            mod.finish(fin, tier)
        except Exception:                        # noqa: BLE001
            if not viols:
                errs.append((-1, traceback.format_exc()[-1500:]))
        agg.ev.update(fin.ev)
        agg.dist.update(fin.dist)
        agg.samples.extend(fin.samples)
        for v in fin.viol:
            viols.append((None, v))

    # known findings
    known = known_findings(prop)
    hit, new = {}, []
    for case, v in viols:
        k = next((f for f in known if f.get("key") == v["key"]), None)
        if k is not None:
            hit[k["key"]] = (case, v)
        else:
            new.append((case, v))
    for key, (case, v) in hit.items():
        f = next(f for f in known if f["key"] == key)
        print(f"KNOWN-FINDING: property={prop} key={key} {f['what']} [{v['msg'][:160]}]")

    inconclusive = []
    if complete and not new:
        for k, n in getattr(mod, "MIN_EVENTS", {}).items():
            if tier == "thorough":
                n = n
            if agg.ev.get(k, 0) < n:
                inconclusive.append(f"monitor '{k}' saw {agg.ev.get(k, 0)} events, needs {n}")
    for i in crashed:
        inconclusive.append(f"worker died on case {i}: {dumps(cases[i])[:300]}")
    for i in hung:
        inconclusive.append(f"watchdog ended case {i}: {dumps(cases[i])[:300]}")
    for i, e in errs:
        inconclusive.append(f"harness error in case {i}:\n{e}")

    seen_keys = {}
    for case, v in new:
        seen_keys.setdefault(v["key"], []).append((case, v))
    for key, lst in list(seen_keys.items())[:8]:
        case, v = lst[0]
        rec = {"property": prop, "tier": tier, "seed": seed, "case": case,
               "violation": v, "count": len(lst)}
        text = json.dumps(jsonable_deep(rec), indent=1, sort_keys=True)
        h = hashlib.sha1(text.encode()).hexdigest()[:10]
        path = os.path.join(ROOT, "replays", f"{prop}-{h}.json")
        with open(path, "w") as f:
            f.write(text)
        print(f"  {key}: {v['msg']}  ({len(lst)} occurrence(s))")
        print(f"VIOLATION property={prop} replay={path}")

    wall = time.time() - t0
    evaluations = sum(agg.ev.values())
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": int(len(results)),
              "distinct_nontrivial": int(len(agg.dist)),
              "rule": mod.RULE,
              "samples": (agg.samples[:4] or [jsonable(c) for c in cases[:2]]),
              "oracle_evaluations": int(evaluations),
              "monitor_events": {k: int(v) for k, v in sorted(agg.ev.items())},
              "observations": {k: int(v) for k, v in sorted(agg.notes.items())},
              "cases_planned": len(cases),
              "cases_run": len(results),
              "truncated": bool(truncated),
              "slowest_case_s": round(max([d["t"] for d in results.values()] or [0]), 2),
          },
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "wall_s": round(wall, 2), "violations": len(new),
          "known_findings_seen": sorted(hit)}
    if inconclusive:
        ev["inconclusive"] = inconclusive[:10]
    if replay is None:
        with open(evfile, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)

    if new:
        return 1
    if inconclusive:
        print("INCONCLUSIVE:", prop)
        for s in inconclusive[:5]:
            print("  ", s)
        return 2
    print(f"OK property={prop} tier={tier} seed={seed} cases={len(results)} "
          f"distinct={len(agg.dist)} oracle_evaluations={evaluations} "
          f"wall={wall:.1f}s")
    return 0


def jsonable_deep(rec):
    return {"property": rec["property"], "tier": rec["tier"], "seed": rec["seed"],
            "case": rec["case"], "count": rec["count"],
            "violation": jsonable(rec["violation"])}


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
