"""Seeded search: generate scenarios, run each in its own process, check, minimise, replay, write evidence."""
import argparse
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

from . import env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")
LINECOUNT = True
HARD = 240          # seconds for one run before the machinery gives up on it (no answer)


class Ctx:
    def __init__(self, kernel, oracle, scenario):
        self.k, self.oracle, self.sc = kernel, oracle, scenario

    def quote(self, key, params, op):
        """(outcome, value, lines) of the query on a new option in a fresh process"""
        return self.oracle.ask(("quote", key, params, op))

    def quotes(self, key, params, ops):
        """the same for several queries, each on its own new option, in one fresh process"""
        return self.oracle.ask(("quotes", key, params, ops))


def _handler(q):
    from . import catalog, kernel
    if q[0] == "quote":
        k = kernel.Kernel()
        if LINECOUNT:
            kernel.activate(k)
        _, key, params, op = q
        st, v = catalog.evaluate(key, params, op)
        return st, v, k.clock
    if q[0] == "quotes":
        return [catalog.evaluate(q[1], q[2], op) for op in q[3]]
    raise ValueError(q)


def run_here(mod, scenario):
    """execute one scenario in this process, which must not have used the library before"""
    import warnings
    import numpy as np
    from . import kernel, pristine, sobolseam
    warnings.simplefilter("ignore")
    global LINECOUNT
    LINECOUNT = getattr(mod, "LINES", True)
    oracle = pristine.Server(getattr(mod, "handler", _handler)) if getattr(mod, "PRISTINE", False) else None
    k = kernel.Kernel()
    seed = int(scenario.get("seed", 0))
    np.random.seed(seed % 2 ** 32)
    cnt = [0]

    def seeder():
        cnt[0] += 1
        return [seed, cnt[0]]
    sobolseam.SEEDER = seeder
    if LINECOUNT:
        kernel.activate(k)
    else:
        kernel.K = k
    k.event("seed", seed)
    res = {"status": "ok"}
    try:
        nontrivial = mod.run(scenario, Ctx(k, oracle, scenario))
        res["nontrivial"] = bool(nontrivial)
    except kernel.Violation as v:
        res.update(status="violation", kind=v.kind, msg=v.msg, details=v.details)
    except BaseException as e:       # noqa: BLE001
        res.update(status="error", msg=f"{e!r}\n{traceback.format_exc()}")
    finally:
        kernel.K = None
        sobolseam.SEEDER = None
        if oracle:
            oracle.close()
    res.update(clock=k.clock, faults=k.faults, probes=k.probes, states=sorted(k.states), digest=k.digest(), nlog=len(k.log), sample=k.sample)
    if res["status"] != "ok" or os.environ.get("FOSIM_LOG"):
        res["log"] = k.log[-400:]
    return res


def run_forked(mod, scenario, timeout=HARD):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            dn = os.open(os.devnull, os.O_RDWR)
            if not os.environ.get("FOSIM_DEBUG"):
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            b = pickle.dumps(run_here(mod, scenario), protocol=5)
            b = struct.pack("<Q", len(b)) + b
            while b:
                b = b[os.write(w, b):]
        except BaseException:        # noqa: BLE001
            code = 3
        os._exit(code)
    os.close(w)
    buf = b""
    end = time.monotonic() + timeout
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                os.killpg(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return {"status": "error", "msg": f"run exceeded {timeout} s", "timeout": True}
            if select.select([r], [], [], left)[0]:
                c = os.read(r, 1 << 16)
                if not c:
                    break
                buf += c
                if len(buf) >= 8 and len(buf) >= 8 + struct.unpack("<Q", buf[:8])[0]:
                    break
    finally:
        os.close(r)
    os.waitpid(pid, 0)
    if len(buf) < 8:
        return {"status": "error", "msg": "run process died"}
    return pickle.loads(buf[8:])


def scenario_for(mod, prop, seed, i, tier):
    return mod.gen(random.Random(f"{seed}:{prop}:{i}"), i, tier)


# ------------------------------------------------------------------ known findings
def known(prop):
    try:
        entries = json.load(open(KNOWN))["findings"]
    except FileNotFoundError:
        return []
    return [e for e in entries if e["property"] == prop and e.get("status") == "known"]


def matches(entry, res):
    if res.get("kind") != entry["kind"]:
        return False
    d = res.get("details", {})
    return all(d.get(k) == v for k, v in entry.get("match", {}).items())


# ------------------------------------------------------------------ minimisation
def _lists(sc, paths):
    for path in paths:
        def walk(node, parts, trail):
            if not parts:
                if isinstance(node, list):
                    yield trail
                return
            h, rest = parts[0], parts[1:]
            if h == "*":
                for i in range(len(node)):
                    yield from walk(node[i], rest, trail + [i])
            elif isinstance(node, dict) and h in node and node[h] is not None:
                yield from walk(node[h], rest, trail + [h])
        yield from walk(sc, path.split("."), [])


def _get(sc, trail):
    for t in trail:
        sc = sc[t]
    return sc


def _set(sc, trail, val):
    sc = json.loads(json.dumps(sc))
    node = sc
    for t in trail[:-1]:
        node = node[t]
    node[trail[-1]] = val
    return sc


def minimise(mod, sc, kind, seconds=45, maxruns=300):
    end = time.monotonic() + seconds
    runs = [0]
    best = sc

    def fails(c):
        if time.monotonic() > end or runs[0] >= maxruns:
            return False
        runs[0] += 1
        try:
            r = run_forked(mod, c, 60)
        except Exception:            # noqa: BLE001
            return False
        return r["status"] == "violation" and r["kind"] == kind
    changed = True
    while changed and time.monotonic() < end and runs[0] < maxruns:
        changed = False
        for trail in list(_lists(best, getattr(mod, "LISTS", ()))):
            try:
                lst = _get(best, trail)
            except (KeyError, IndexError):
                continue
            n = max(1, len(lst) // 2)
            while n >= 1 and lst:
                i = 0
                while i < len(lst):
                    cand = lst[:i] + lst[i + n:]
                    c = _set(best, trail, cand)
                    if getattr(mod, "valid", lambda s: True)(c) and fails(c):
                        best, lst, changed = c, cand, True
                    else:
                        i += n
                n //= 2
        for c in getattr(mod, "simplify", lambda s: ())(best):
            if time.monotonic() > end:
                break
            if c != best and fails(c):
                best, changed = c, True
                break
    return best, runs[0]


# ------------------------------------------------------------------ the batch
def batch(mod, prop, tier, seed, n, workers, on_result, stop_on_violation=True, wall=None):
    """run scenarios 0..n-1; returns list of (i, result) of violations / errors"""
    pipes = {}
    pids = []
    sys.stdout.flush()
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            try:
                os.close(r)
                for i in range(w, n, workers):
                    try:
                        res = run_forked(mod, scenario_for(mod, prop, seed, i, tier))
                    except BaseException as e:   # noqa: BLE001
                        res = {"status": "error", "msg": f"generator: {e!r} {traceback.format_exc()}"}
                    b = pickle.dumps((i, res), protocol=5)
                    b = struct.pack("<Q", len(b)) + b
                    while b:
                        b = b[os.write(wr, b):]
            finally:
                os._exit(0)
        os.close(wr)
        pipes[r] = b""
        pids.append(pid)
    bad = []
    done = 0
    end = time.monotonic() + wall if wall else None
    truncated = False
    grace = None
    while pipes:
        now = time.monotonic()
        if (end and now > end) or (grace and now > grace):
            truncated = True
            break
        ready = select.select(list(pipes), [], [], 1.0)[0]
        for fd in ready:
            c = os.read(fd, 1 << 20)
            if not c:
                os.close(fd)
                del pipes[fd]
                continue
            pipes[fd] += c
            while len(pipes[fd]) >= 8:
                (ln,) = struct.unpack("<Q", pipes[fd][:8])
                if len(pipes[fd]) < 8 + ln:
                    break
                i, res = pickle.loads(pipes[fd][8:8 + ln])
                pipes[fd] = pipes[fd][8 + ln:]
                done += 1
                on_result(i, res)
                if res["status"] != "ok":
                    bad.append((i, res))
                    if stop_on_violation and grace is None and res["status"] == "violation" and not any(matches(e, res) for e in known(prop)):
                        grace = now + 2.0
    for p in pids:
        try:
            os.kill(p, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(p, 0)
    for fd in list(pipes):
        os.close(fd)
    return bad, done, truncated


def write_replay(prop, sc, res, meta):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "scenario": sc, "kind": res["kind"], "message": res["msg"], "details": res.get("details", {}),
            "digest": res["digest"], "trace": res.get("log", []), **meta}
    h = hashlib.sha256(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{h}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1, default=str)
    return path


def load(prop):
    return importlib.import_module(f"fosim.props.{prop.lower()}")


def cmd_check(prop, tier, seed, workers, n=None):
    t0 = time.monotonic()
    env.boot()
    mod = load(prop)
    n = n or mod.RUNS[tier]
    agg = {"faults": {}, "probes": {}, "clock": 0, "states": set(), "digests": set(), "non": 0, "samples": [], "curve": []}

    def on_result(i, res):
        if res["status"] == "error":
            return
        for k in ("faults", "probes"):
            for a, b in res[k].items():
                agg[k][a] = agg[k].get(a, 0) + b
        agg["clock"] += res["clock"]
        agg["states"].update(res["states"])
        if res.get("nontrivial"):
            agg["non"] += 1
            agg["digests"].add(res["digest"])
        if res.get("sample") is not None and len(agg["samples"]) < 5:
            agg["samples"].append(res["sample"])

    status = 0
    lines = []
    for e in known(prop):
        r = run_forked(mod, e["scenario"])
        if r["status"] == "violation" and matches(e, r):
            lines.append(f"KNOWN-FINDING: property={prop} {e['what']}")
    wall = 780 if tier == "quick" else 6 * 3600
    bad, done, truncated = batch(mod, prop, tier, seed, n, workers, on_result, wall=wall)
    t_search = time.monotonic() - t0
    viol = sorted([(i, r) for i, r in bad if r["status"] == "violation" and not any(matches(e, r) for e in known(prop))], key=lambda x: x[0])
    errs = [(i, r) for i, r in bad if r["status"] == "error"]
    nviol = len(viol)
    if viol:
        i, res = viol[0]
        sc = scenario_for(mod, prop, seed, i, tier)
        msc, mruns = minimise(mod, sc, res["kind"])
        mres = run_forked(mod, msc)
        if mres["status"] != "violation" or mres["kind"] != res["kind"]:
            msc, mres = sc, res
        path = write_replay(prop, msc, mres, {"verif_seed": seed, "run": i, "tier": tier, "minimising_runs": mruns, "original_scenario": sc})
        p = subprocess.run([sys.executable, os.path.join(VERIF, "check"), "replay", path], capture_output=True, text=True,
                           env={**os.environ, "FOSIM_INNER": "1"})
        print(f"# seed {seed} run {i}: {mres['kind']}: {mres['msg']}")
        print(f"# replay in a fresh process: {'identical' if p.returncode == 1 else 'DIFFERENT (' + p.stdout.strip()[-300:] + ')'}")
        lines.append(f"VIOLATION property={prop} replay={path}")
        status = 1
    elif errs:
        print(f"# {len(errs)} runs gave no answer; first: run {errs[0][0]}: {errs[0][1]['msg']}", file=sys.stderr)
        status = 2
    elif truncated:
        print("# the batch ran out of time", file=sys.stderr)
        status = 2
    wall_s = time.monotonic() - t0
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": done, "distinct_nontrivial": len(agg["digests"]), "rule": mod.RULE,
            "samples": agg["samples"] or [scenario_for(mod, prop, seed, 0, tier)],
            "seeds_per_hour": round(done / max(t_search, 1e-9) * 3600), "runs_per_hour": round(done / max(t_search, 1e-9) * 3600),
            "simulated_time": {"unit": getattr(mod, "UNIT", "library source lines executed under the logical clock"), "total": agg["clock"]},
            "faults_fired": dict(sorted(agg["faults"].items())),
            "probes": dict(sorted(agg["probes"].items(), key=lambda x: -x[1])[:60]),
            "distinct_states": {"measure": mod.STATE, "count": len(agg["states"])},
            "nontrivial_runs": agg["non"], "workers": workers,
            "components": {"real": mod.REAL, "stub": mod.STUB},
            "no_answer": len(errs),
        },
        "assumptions": getattr(mod, "ASSUME", []), "wall_s": round(wall_s, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for ln in lines:
        print(ln)
    print(f"# {prop} {tier}: {done} runs, {len(agg['digests'])} distinct non-trivial, {sum(agg['faults'].values())} faults, "
          f"{len(agg['states'])} states, {agg['clock']} ticks, {wall_s:.1f} s, exit {status}")
    return status


def cmd_replay(path):
    env.boot()
    body = json.load(open(path))
    mod = load(body["property"])
    res = run_forked(mod, body["scenario"])
    if res["status"] == "violation" and res["kind"] == body["kind"]:
        same = res["digest"] == body["digest"]
        print(f"# {res['kind']}: {res['msg']}\n# event log {'identical' if same else 'differs'}: {res['digest']}")
        if not os.environ.get("FOSIM_INNER"):
            print("\n".join("  " + x for x in res.get("log", [])))
        print(f"VIOLATION property={body['property']} replay={path}")
        return 1 if same or not os.environ.get("FOSIM_INNER") else 4
    print(f"# the replay did not violate: {res['status']} {res.get('kind', '')} {res.get('msg', '')}")
    return 2 if res["status"] == "error" else 0


def cmd_digests(props, tier, seed, n, workers):
    """event-log digests of the first n runs, for the determinism proof"""
    env.boot()
    for prop in props:
        mod = load(prop)
        out = {}

        def on_result(i, res):
            out[i] = (res["status"], res.get("digest"), res.get("clock"), res.get("msg", "")[:300] if res["status"] == "error" else "")
        batch(mod, prop, tier, seed, min(n, mod.RUNS[tier]), workers, on_result, stop_on_violation=False)
        for i in sorted(out):
            print(prop, i, *out[i])
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("rest", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--workers", type=int, default=os.cpu_count() or 8)
    ap.add_argument("-n", type=int, default=None)
    a = ap.parse_args(argv)
    sys.path.insert(0, VERIF)
    try:
        if a.what == "setup":
            env.boot()
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            return 0
        if a.what == "replay":
            return cmd_replay(a.rest[0])
        if a.what == "digests":
            return cmd_digests(a.rest, a.tier, a.seed, a.n or 40, a.workers)
        if a.what == "one":
            env.boot()
            os.environ["FOSIM_DEBUG"] = os.environ["FOSIM_LOG"] = "1"
            mod = load(a.rest[0])
            sc = scenario_for(mod, a.rest[0], a.seed, int(a.rest[1]), a.tier)
            print(json.dumps(sc, indent=1))
            r = run_forked(mod, sc)
            print(json.dumps({k: v for k, v in r.items()}, indent=1, default=str))
            return 0
        return cmd_check(a.what, a.tier, a.seed, a.workers, a.n)
    except env.BuildError as e:
        print(f"# {e}", file=sys.stderr)
        return 2
