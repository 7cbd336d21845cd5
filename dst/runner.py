"""Seeded search, minimisation, replay files and evidence."""
import hashlib
import importlib
import json
import errno
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
from collections import Counter

from .core import HarnessError, Sim, Violation, seed_everything

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_TIMEOUT = 150.0


def run_seed(prop, master, index):
    h = hashlib.sha256(f"{prop}/{master}/{index}".encode()).digest()
    return int.from_bytes(h[:8], "little")


REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


def _environment(e):
    """Did the sandbox (not the code under test) get in the way?"""
    if not isinstance(e, Exception):
        return True
    if _through_repo(e):
        return False
    if isinstance(e, MemoryError) or "t allocate memory" in str(e):
        return True
    return isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN)


def _through_repo(e):
    tb = e.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def _execute(mod, seed, replay, quiet=True):
    """One simulated run in this process.  Returns a result dict."""
    sim = Sim(seed=seed, replay=replay)
    root = tempfile.mkdtemp(prefix="dst-", dir=os.environ.get("DST_TMP"))
    sim.scratch = os.path.realpath(root)
    res = {"status": "ok"}
    try:
        seed_everything(12345)
        if quiet:
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        mod.run(sim)
    except Violation as v:
        res = {"status": "violation", "kind": v.kind, "detail": v.detail}
    except HarnessError as e:
        res = {"status": "harness", "detail": f"{e}\n{traceback.format_exc()}"}
    except BaseException as e:
        tb = traceback.format_exc()
        if not _environment(e):
            # code under test raised where the run required it to succeed, or
            # returned something the checks cannot even be applied to
            sim.event("VIOLATION unexpected-exception", type(e).__name__)
            res = {
                "status": "violation",
                "kind": f"unexpected-exception-{type(e).__name__}",
                "detail": f"{e!r}\n{tb[-3000:]}",
            }
        else:
            res = {"status": "harness", "detail": f"{e!r}\n{tb}"}
    finally:
        shutil.rmtree(root, ignore_errors=True)
    res.update(
        choices=[v for _, v in sim.log],
        labels=[l for l, _ in sim.log],
        events=sim.events,
        digest=sim.digest(),
        faults=dict(sim.faults),
        covered=sim.covered,
        now=sim.now,
        evaluations=sim.evaluations,
        steps=sim.steps,
        processes=sim.incarnations,
        notes=dict(sim.notes),
    )
    return res


def forked(mod, seed=None, replay=None, timeout=RUN_TIMEOUT, keep=False):
    """One simulated run in a fork of this warmed-up image (pristine state)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    tmp = tempfile.mkdtemp(prefix="dstrun-", dir=os.environ.get("DST_TMP"))
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            os.close(r)
            os.environ["DST_TMP"] = tmp
            os.environ["TMPDIR"] = tmp
            tempfile.tempdir = tmp
            res = _execute(mod, seed, replay)
            if not keep and res["status"] == "ok":
                res["events"] = res["events"][:40]
            data = pickle.dumps(res)
            view = memoryview(struct.pack("<Q", len(data)) + data)
            while view:
                n = os.write(w, view[:65536])
                view = view[n:]
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(w)
    buf = bytearray()
    deadline = time.monotonic() + timeout
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], min(left, 5.0))
        if ready:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    shutil.rmtree(tmp, ignore_errors=True)
    if timed_out:
        return {"status": "hang", "kind": "no-progress", "detail": f"no completion within {timeout:.0f} s"}
    if len(buf) < 8:
        return {"status": "harness", "detail": "run died without reporting"}
    n = struct.unpack("<Q", buf[:8])[0]
    return pickle.loads(bytes(buf[8 : 8 + n]))


# --------------------------------------------------------------------------
def minimise(mod, first, budget_s=60.0, budget_n=300):
    """Shrink the decision list while the same violation keeps happening."""
    best = first
    t0 = time.monotonic()
    tries = 0

    def attempt(cand):
        nonlocal best, tries
        if tries >= budget_n or time.monotonic() - t0 > budget_s:
            return False
        tries += 1
        res = forked(mod, replay=cand, timeout=60, keep=True)
        if res["status"] == "violation" and res["kind"] == first["kind"]:
            # normalise to what was actually consumed
            used = res["choices"]
            while used and used[-1] == 0:
                used = used[:-1]
            if (len(used), sum(1 for v in used if v)) <= (
                len(best["choices"]),
                sum(1 for v in best["choices"] if v),
            ):
                res["choices"] = used
                best = res
                return True
        return False

    c = list(first["choices"])
    while c and c[-1] == 0:
        c.pop()
    attempt(c)
    improved = True
    while improved and time.monotonic() - t0 < budget_s and tries < budget_n:
        improved = False
        # drop suffixes
        c = best["choices"]
        size = len(c) // 2
        while size >= 1:
            if attempt(best["choices"][:-size] if size else best["choices"]):
                improved = True
            size //= 2
        # zero blocks, delete blocks
        for mode in ("zero", "del"):
            size = max(1, len(best["choices"]) // 2)
            while size >= 1:
                i = 0
                while i < len(best["choices"]):
                    c = best["choices"]
                    blk = c[i : i + size]
                    if mode == "zero":
                        if any(blk) and attempt(c[:i] + [0] * len(blk) + c[i + size :]):
                            improved = True
                    else:
                        if attempt(c[:i] + c[i + size :]):
                            improved = True
                            continue
                    i += size
                    if tries >= budget_n or time.monotonic() - t0 > budget_s:
                        break
                if tries >= budget_n or time.monotonic() - t0 > budget_s:
                    break
                size //= 2
        # lower single values
        for i in range(len(best["choices"])):
            c = best["choices"]
            if i < len(c) and c[i] > 1:
                for v in (1, c[i] // 2):
                    if v < c[i] and attempt(c[:i] + [v] + c[i + 1 :]):
                        improved = True
                        break
    best["minimise_tries"] = tries
    return best


# --------------------------------------------------------------------------
def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            return json.load(f)
    except FileNotFoundError:
        return []


def is_known(prop, res, findings):
    for f in findings:
        if f.get("status") != "known" or f["property"] != prop:
            continue
        if f["kind"] == res["kind"] and f.get("match", "") in res.get("detail", ""):
            return f
    return None


def load_module(prop):
    for n in sorted(os.listdir(os.path.join(VERIF, "props"))):
        if n.lower().startswith(prop.lower() + "_") and n.endswith(".py"):
            return importlib.import_module("props." + n[:-3])
    raise SystemExit(f"unknown property {prop}")


def worker(mod, prop, master, indices, stop_at, out_fd, findings):
    agg = {
        "runs": 0, "faults": Counter(), "covered": set(), "now": 0.0,
        "evaluations": 0, "steps": 0, "processes": 0, "known": {},
        "samples": [], "bad": None, "harness": [], "notes": Counter(),
        "nontrivial": set(), "digests": [],
    }
    for i in indices:
        if time.monotonic() > stop_at:
            break
        seed = run_seed(prop, master, i)
        res = forked(mod, seed=seed, keep=(i < 3))
        agg["runs"] += 1
        if res["status"] == "hang":
            res2 = forked(mod, seed=seed, timeout=RUN_TIMEOUT * 2)
            if res2["status"] == "hang":
                res2.update(choices=None)
                res2["status"] = "violation"
                res2["hang"] = True
            res = res2
        if "faults" in res:
            agg["faults"].update(res["faults"])
            agg["covered"] |= res["covered"]
            agg["now"] += res["now"]
            agg["evaluations"] += res["evaluations"]
            agg["steps"] += res["steps"]
            agg["processes"] += res["processes"]
            agg["notes"].update(res["notes"])
            agg["digests"].append((i, res["digest"]))
            if res["faults"] or res["steps"] or res["processes"] > 1:
                agg["nontrivial"].add(res["digest"])
            if len(agg["samples"]) < 1 and res["status"] == "ok":
                agg["samples"].append(
                    {"seed": seed, "index": i, "decisions": len(res["choices"]),
                     "events": res["events"][:14]}
                )
        if res["status"] == "harness":
            agg["harness"].append((i, seed, res["detail"][-3000:]))
            if len(agg["harness"]) >= 3:
                break
            continue
        if res["status"] == "violation":
            k = is_known(prop, res, findings)
            if k is not None:
                agg["known"][k["id"]] = agg["known"].get(k["id"], 0) + 1
                continue
            res["index"], res["run_seed"] = i, seed
            agg["bad"] = res
            break
    data = pickle.dumps(agg)
    view = memoryview(struct.pack("<Q", len(data)) + data)
    while view:
        n = os.write(out_fd, view[:65536])
        view = view[n:]


def search(mod, prop, master, runs, nworkers, budget_s, findings):
    """Spread run indices over forked workers; stop all on first violation."""
    stop_at = time.monotonic() + budget_s
    procs = {}
    for w in range(nworkers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                worker(mod, prop, master, range(w, runs, nworkers), stop_at, wr, findings)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(wr)
        procs[r] = (pid, bytearray())
    out = []
    bad_seen = None
    while procs:
        ready, _, _ = select.select(list(procs), [], [], 1.0)
        for r in ready:
            pid, buf = procs[r]
            b = os.read(r, 1 << 16)
            if b:
                buf += b
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del procs[r]
            if len(buf) >= 8:
                n = struct.unpack("<Q", buf[:8])[0]
                a = pickle.loads(bytes(buf[8 : 8 + n]))
                out.append(a)
                if a["bad"] is not None and bad_seen is None:
                    bad_seen = time.monotonic()
            else:
                raise SystemExit(f"worker {pid} died without a result")
        if bad_seen is not None and time.monotonic() - bad_seen > 2.0 and procs:
            for r, (pid, buf) in list(procs.items()):
                _kill_tree(pid)
                os.close(r)
                os.waitpid(pid, 0)
            procs = {}
    return out


def _kill_tree(pid):
    """Stop a worker of ours and the simulated run it currently hosts."""
    kids = []
    try:
        with open(f"/proc/{pid}/task/{pid}/children") as f:
            kids = [int(x) for x in f.read().split()]
    except OSError:
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    for k in kids:
        try:
            os.killpg(k, signal.SIGKILL)
        except OSError:
            pass


# --------------------------------------------------------------------------
def write_replay(prop, master, res, tier):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    name = f"{prop}-{res['kind'].replace('/', '_').replace(' ', '_')[:60]}-{res.get('index', 0)}.json"
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop,
                "kind": res["kind"],
                "detail": res.get("detail", "")[:4000],
                "verif_seed": master,
                "run_index": res.get("index"),
                "seed": res.get("run_seed"),
                "choices": res.get("choices"),
                "decisions": [
                    f"{l}={v}" for l, v in zip(res.get("labels", []), res.get("choices") or []) if v
                ],
                "digest": res.get("digest"),
                "events": res.get("events", [])[-400:],
                "replay_cmd": f"bash /verif/run.sh {prop} --replay {path}",
            },
            f,
            indent=1,
        )
    return path


def do_replay(prop, path):
    with open(path) as f:
        rep = json.load(f)
    mod = load_module(prop)
    mod.setup()
    if rep["choices"] is None:
        res = forked(mod, seed=rep["seed"], keep=True)
    else:
        res = forked(mod, replay=rep["choices"], keep=True)
    kind = res.get("kind") if res["status"] in ("violation", "hang") else None
    same = kind == rep["kind"] and (
        rep["choices"] is None or res.get("digest") == rep["digest"]
    )
    print(f"replay status={res['status']} kind={kind} exact={same}")
    if res["status"] == "harness":
        print(res["detail"])
    for e in res.get("events", [])[-60:]:
        print("  ", e)
    if kind:
        print("  ", res.get("detail", "")[:1500])
        print(f"VIOLATION property={prop} replay={path}")
    return 1 if kind else 0, same


def main(argv=None):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("DST_WORKERS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int, help="run one index verbosely")
    ap.add_argument("--digests", help="write run digests here (determinism self-test)")
    a = ap.parse_args(argv)
    prop = a.property.upper()
    base = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    os.environ["DST_TMP"] = base
    try:
        return _main(a, prop)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _main(a, prop):
    t0 = time.time()
    if a.replay:
        code, _ = do_replay(prop, a.replay)
        return code
    mod = load_module(prop)
    findings = load_findings()
    mod.setup()
    if a.one is not None:
        res = forked(mod, seed=run_seed(prop, a.seed, a.one), keep=True)
        for e in res.get("events", []):
            print(e)
        print({k: v for k, v in res.items() if k not in ("events", "covered", "choices", "labels")})
        print(res.get("detail", ""))
        return 0
    tier = "thorough" if a.tier == "thorough" else "quick"
    runs = a.runs or mod.RUNS[tier]
    budget = a.budget or {"quick": 330.0, "thorough": 3000.0}[tier]
    parts = search(mod, prop, a.seed, runs, a.workers, budget, findings)
    harness = [h for p in parts for h in p["harness"]]
    bad = sorted(
        (p["bad"] for p in parts if p["bad"] is not None), key=lambda r: r["index"]
    )
    code = 0
    violations = []
    known = Counter()
    for p in parts:
        known.update(p["known"])
    for f in findings:
        if f.get("status") == "known" and f["property"] == prop:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    if bad:
        first = bad[0]
        if first.get("hang"):
            best = first
        else:
            best = minimise(mod, first)
            best["index"], best["run_seed"] = first["index"], first["run_seed"]
        path = write_replay(prop, a.seed, best, tier)
        # replay in a fresh interpreter before reporting
        import subprocess

        confirmed = False
        for _ in range(2):
            rc = subprocess.run(
                [sys.executable, os.path.join(VERIF, "check.py"), prop, "--replay", path],
                capture_output=True, text=True,
            )
            if rc.returncode == 1 and (first.get("hang") or "exact=True" in rc.stdout):
                confirmed = True
                break
            if rc.returncode == 1:
                confirmed = "inexact"
        print(f"{prop}: {best['kind']}: {best.get('detail', '')[:600]}")
        print(
            f"{prop}: seed={first['run_seed']} decisions={len(best.get('choices') or [])}"
            f" (found with {len(first.get('choices') or [])}) fresh-process replay={confirmed}"
        )
        violations.append(
            {"kind": best["kind"], "detail": best.get("detail", "")[:800], "replay": path,
             "fresh_process_replay": str(confirmed)}
        )
        print(f"VIOLATION property={prop} replay={path}")
        code = 1
    elif harness:
        for i, s, d in harness[:2]:
            print(f"harness problem in run {i} (seed {s}):\n{d}", file=sys.stderr)
        code = 2
    wall = time.time() - t0
    faults = Counter()
    covered = set()
    notes = Counter()
    tot = Counter()
    nontrivial = set()
    for p in parts:
        faults.update(p["faults"])
        covered |= p["covered"]
        notes.update(p["notes"])
        nontrivial |= p["nontrivial"]
        for k in ("runs", "evaluations", "steps", "processes"):
            tot[k] += p[k]
    simtime = sum(p["now"] for p in parts)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(nontrivial),
            "rule": "evaluations = simulated runs, one seed each; distinct_nontrivial = "
            "distinct event-history digests among the runs in which at least one fault, "
            "scheduling step or extra process incarnation happened; distinct_states = "
            + mod.MEASURE,
            "samples": [s for p in parts for s in p["samples"]][:3],
            "assertions_checked": tot["evaluations"],
            "runs_per_hour": round(tot["runs"] / max(wall, 1e-9) * 3600),
            "simulated_seconds": round(simtime, 3),
            "simulated_processes": tot["processes"],
            "scheduling_steps": tot["steps"],
            "faults_injected": dict(sorted(faults.items())),
            "distinct_states": len(covered),
            "notes": dict(sorted(notes.items())),
            "components_real": mod.REAL,
            "components_stub": mod.STUB,
            "known_findings_hit": dict(known),
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(violations),
        "violation_details": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if a.digests:
        with open(a.digests, "w") as f:
            json.dump(sorted(d for p in parts for d in p["digests"]), f)
    print(
        f"{prop}: {tot['runs']} runs, {tot['evaluations']} checks, "
        f"{len(covered)} states, {sum(faults.values())} faults, "
        f"{simtime:.1f} sim-s, {wall:.1f} s wall, exit {code}"
    )
    return code
