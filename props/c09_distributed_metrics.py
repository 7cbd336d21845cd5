"""C09: metrics on N simulated ranks equal the single-process value."""
import os
import pickle

import numpy as np

from dst.core import HarnessError, Violation, tensor_hash
from dst.sched import Sched

from .common import REPO, base_setup

RUNS = {"quick": 1600, "thorough": 30000}
MEASURE = (
    "distinct rank interleavings (sequence of (rank, step) hand-overs) plus distinct (metric, "
    "world size, per-rank update counts, rounds, crash, outcome) tuples"
)
REAL = ["neuralcompression.metrics.{FrechetInceptionDistance, FrechetInceptionDistanceSwAV, KernelInceptionDistance, "
        "MultiscaleStructuralSimilarity, DeepImageStructureTextureSimilarity, update_patch_fid}",
        "torchmetrics state synchronisation", "torch_fidelity FID/KID formulas"]
STUB = ["ranks are tasks of the baton scheduler (line-level preemption inside the metrics package)",
        "the all-gather collective (torchmetrics' dist_sync_fn seam): blocks until every rank arrives, checks that ranks contribute compatible tensors",
        "feature networks (Inception, SwAV, VGG) replaced by small deterministic per-image features, as the repository's tests do"]
ASSUMPTIONS = ["every rank sees at least one real and one fake batch before a value is computed (torchmetrics 1.1 cannot synchronise an empty list state)",
               "KID is compared where every subset is the whole set, so that the value does not depend on sample order"]


def setup():
    global M, torch, metrics, ncF
    base_setup()
    import torch as t

    import neuralcompression.functional as f
    import neuralcompression.metrics as m

    from . import metrics_common as mc

    mc.install()
    M, torch, metrics, ncF = mc, t, m, f


class Group:
    """A process group: k-th collective of every rank meets in slot k."""

    def __init__(self, sim, sched, world):
        self.sim, self.sched, self.world = sim, sched, world
        self.slots = {}
        self.count = [0] * world
        self.log = [[] for _ in range(world)]

    def fn(self, rank):
        def gather(t, group=None):
            k = self.count[rank]
            self.count[rank] += 1
            self.log[rank].append((tuple(t.shape), str(t.dtype)))
            slot = self.slots.setdefault(k, {})
            slot[rank] = t.detach().clone()
            self.sim.event("gather", k, "rank", rank, tuple(t.shape))
            if len(slot) == self.world:
                ts = [slot[r] for r in range(self.world)]
                if len({x.ndim for x in ts}) != 1 or len({x.dtype for x in ts}) != 1 or (
                    ts[0].ndim > 1 and len({tuple(x.shape[1:]) for x in ts}) != 1
                ):
                    self.sim.check(False, "collective-mismatch", f"collective {k}: {[(tuple(x.shape), x.dtype) for x in ts]}")
                self.sched.wake(("gather", k))
            else:
                while len(slot) < self.world:
                    self.sched.block(("gather", k))
            return [slot[r].clone() for r in range(self.world)]

        return gather


def make(kind, cfg):
    if kind == "fid":
        return metrics.FrechetInceptionDistance(normalize=cfg["normalize"])
    if kind == "swav":
        return metrics.FrechetInceptionDistanceSwAV(normalize=cfg["normalize"])
    if kind == "kid":
        return metrics.KernelInceptionDistance(
            subsets=cfg["subsets"], subset_size=cfg["n"], degree=cfg["degree"], gamma=cfg["gamma"],
            coef=cfg["coef"], normalize=cfg["normalize"])
    if kind == "msssim":
        return metrics.MultiscaleStructuralSimilarity(**ms_args(cfg))
    return metrics.DeepImageStructureTextureSimilarity(reduction=cfg["reduction"])


MS = (
    dict(data_range=1.0, k1=0.01, k2=0.03, gaussian_std=1.5, power_factors=(0.4, 0.6)),
    dict(data_range=2.0, k1=0.05, k2=0.03, gaussian_std=1.5, power_factors=(1.0,)),
    dict(data_range=1.0, k1=0.01, k2=0.1, gaussian_std=0.8, power_factors=(0.2, 0.5)),
)


def ms_args(cfg):
    return dict(MS[cfg["ms"]], window_size=cfg["window"])


def patches(img, p):
    """Reference FID/256-style patches of a uint8 batch."""
    out = []

    def grid(x):
        for b in range(x.shape[0]):
            for i in range(x.shape[2] // p):
                for j in range(x.shape[3] // p):
                    out.append(x[b : b + 1, :, i * p : (i + 1) * p, j * p : (j + 1) * p])

    grid(img)
    if img.shape[2] >= 1.5 * p and img.shape[3] >= 1.5 * p:
        grid(img[:, :, p // 2 :, p // 2 :])
    return torch.cat(out)


def expand(batches):
    """Patch updates as the real and fake batches they stand for."""
    out = []
    for b in batches:
        if len(b) == 4:
            x, y = patches(b[0], b[3]), patches(b[1], b[3])
            out += [(x, x, True), (y, y, False)]
        else:
            out.append(b)
    return out


def feed(m, kind, cfg, batch):
    """batch: (uint8 imgs, uint8 other, real flag) or (imgs, other, "patch", patch size)"""
    a, b, real = batch[:3]
    if len(batch) == 4:
        arg = {"fid": "fid_metric", "swav": "fid_swav_metric", "kid": "kid_metric"}[kind]
        metrics.update_patch_fid(a.float() / 255.0, b.float() / 255.0, patch_size=batch[3], **{arg: m})
        return
    if kind in ("fid", "kid"):
        m.update(a.float() / 255.0 + 1e-4 if cfg["normalize"] else a, real)
    elif kind == "swav":
        m.update(a, real)
    else:
        m.update(a.float() / 255.0, b.float() / 255.0)


def reference(kind, cfg, batches):
    if kind in ("fid", "swav", "kid"):
        real = np.concatenate([M.ref_features(a, kind, cfg["normalize"]) for a, _, r in batches if r])
        fake = np.concatenate([M.ref_features(a, kind, cfg["normalize"]) for a, _, r in batches if not r])
        if kind == "kid":
            return [M.ref_kid_full(real, fake, cfg["degree"], cfg["gamma"], cfg["coef"]), 0.0]
        return [M.ref_fid(real, fake)]
    tot, n = 0.0, 0
    for a, b, _ in batches:
        x, y = a.float() / 255.0, b.float() / 255.0
        for i in range(len(x)):
            if kind == "msssim":
                tot += float(ncF.multiscale_structural_similarity(
                    x[i : i + 1], y[i : i + 1], reduction="sum", **ms_args(cfg)))
            else:
                fa = M.ref_features(x[i : i + 1], "dists", False)
                fb = M.ref_features(y[i : i + 1], "dists", False)
                tot += float(np.abs(fa - fb).mean())
            n += 1
    if kind == "dists" and cfg["reduction"] == "sum":
        return [tot]
    return [tot / n]


def plan_round(sim, kind, world, seed, rnd, may_patch=False):
    """Per-rank batches of one round; every rank has >=1 real and >=1 fake."""
    out = []
    for r in range(world):
        bs = []
        if kind in ("fid", "swav", "kid"):
            flags = [True, False] + [sim.flip("real", 0.5) for _ in range(sim.choose("extra", 4))]
        else:
            flags = [True] * (1 + sim.choose("extra", 4))
        for j, f in enumerate(flags):
            n = 1 + sim.choose("batch", 4)
            s = seed + 10000 * rnd + 100 * r + j
            size = (20, 20) if kind == "msssim" else (9, 9)
            bs.append((M.images(s, n, size), M.images(s + 50, n, size), f))
        if sim.flip("fake-first", 0.3):
            bs.reverse()
        if may_patch and sim.flip("patch", 0.3):
            ps = sim.pick("patch.size", (8, 9))
            n, size = 1 + sim.choose("patch.n", 2), (ps + sim.choose("patch.h", 12), ps + sim.choose("patch.w", 12))
            s = seed + 10000 * rnd + 100 * r + 60
            bs.insert(sim.choose("patch.at", len(bs) + 1), (M.images(s, n, size), M.images(s + 1, n, size), "patch", ps))
        out.append(bs)
    return out


def balance(kind, rounds):
    """KID: equally many real and fake images overall (subset = whole set)."""
    nr = sum(len(a) for rnd in rounds for bs in rnd for a, _, f in expand(bs) if f)
    nf = sum(len(a) for rnd in rounds for bs in rnd for a, _, f in expand(bs) if not f)
    d = nr - nf
    if d:
        rounds[-1][0].append((M.images(777, abs(d)), M.images(778, abs(d)), d < 0))
    return max(nr, nf)


def run(sim):
    kind = sim.pick("metric", ("fid", "swav", "kid", "msssim", "dists"))
    world = 1 + sim.choose("world", 4)
    nrounds = 1 + sim.choose("rounds", 2)
    cfg = dict(
        normalize=sim.flip("normalize", 0.3),
        subsets=1 + sim.choose("subsets", 3), degree=3 - sim.choose("degree", 2, zero=0.6),
        gamma=sim.pick("gamma", (None, 0.3), zero=0.6), coef=sim.pick("coef", (1.0, 0.5), zero=0.6),
        window=sim.pick("window", (5, 3)), reduction=sim.pick("reduction", ("mean", "sum")),
        ms=sim.choose("ms", len(MS)),
    )
    if kind == "kid":
        nrounds = 1
    may_patch = kind == "swav" or kind in ("fid", "kid") and not cfg["normalize"]
    rounds = [plan_round(sim, kind, world, 17 * sim.choose("seed", 50), r, may_patch) for r in range(nrounds)]
    if kind in ("fid", "swav", "kid"):
        # enough samples for a meaningful covariance
        for k, rnd in enumerate(rounds):
            for f in (True, False):
                rnd[0].append((M.images(901 + f + 7 * k, 8), M.images(905 + f + 7 * k, 8), f))
    if kind == "kid":
        cfg["n"] = balance(kind, rounds)
    late = [sim.choose("late", 4) for _ in range(world)]
    crash = sim.flip("job-crash", 0.3)
    crash_round = sim.choose("crash.round", nrounds) if crash else None
    crash_after = sim.choose("crash.after", 6) if crash else None
    reset_between = nrounds > 1 and sim.flip("reset-between", 0.3)
    snaps = [None] * world  # durable: per-rank pickled metric
    cases = tuple(tuple(len(b) for b in r) for r in rounds)
    sim.cover(kind, world, cases, cfg["normalize"], crash_round, reset_between)
    done = []
    rnd = 0
    while rnd < nrounds:
        attempt_crash = crash_round == rnd
        if attempt_crash:
            crash_round = None
        sched = Sched(sim, watch=(os.path.join(REPO, "neuralcompression", "metrics"),))
        group = Group(sim, sched, world)
        budget = [crash_after if attempt_crash else None]

        class Killed(Exception):
            pass

        def rank_main(r):
            m = make(kind, cfg) if snaps[r] is None else pickle.loads(snaps[r])
            m.dist_sync_fn = group.fn(r)
            m.distributed_available_fn = lambda: world > 1
            if reset_between and rnd > 0 and snaps[r] is not None:
                m.reset()
            for b in rounds[rnd][r]:
                if late[r]:
                    sched.sleep(0.01 * late[r])
                if budget[0] is not None:
                    budget[0] -= 1
                    if budget[0] < 0:
                        raise Killed()
                a0 = tensor_hash(b[0], b[1])
                feed(m, kind, cfg, b)
                sim.check(tensor_hash(b[0], b[1]) == a0, "update-modified-its-input", kind)
                sched.yield_()
            if budget[0] is not None:
                raise Killed()
            v = m.compute()
            v = [float(x) for x in (v if isinstance(v, (tuple, list)) else (v,))]
            v2 = m.compute()
            v2 = [float(x) for x in (v2 if isinstance(v2, (tuple, list)) else (v2,))]
            sim.check(v == v2, "repeated-compute-differs", f"{kind}: {v} {v2}")
            m.dist_sync_fn = m.distributed_available_fn = None
            return v, pickle.dumps(m)

        if attempt_crash:
            # the whole job dies: ranks stop where they are, then restart from
            # the last snapshots
            def guarded(r):
                def f():
                    try:
                        return rank_main(r)
                    except Killed:
                        return None
                return f

            try:
                sched.run([(f"rank{r}", guarded(r)) for r in range(world)])
            except Violation as v:
                if v.kind != "deadlock":
                    raise
            sim.fault("job_kill")
            continue
        res = sched.run([(f"rank{r}", (lambda r=r: rank_main(r))) for r in range(world)])
        for n, (k, v) in sorted(res.items()):
            if k == "exc":
                raise v
        used = rounds[rnd] if reset_between else [
            [b for x in rounds[: rnd + 1] for b in x[r]] for r in range(world)]
        flat = expand(b for bs in used for b in bs)
        want = reference(kind, cfg, flat)
        tol = dict(rtol=2e-5, atol=2e-6)
        for r in range(world):
            got = res[f"rank{r}"][1][0]
            sim.event("rank", r, "value", [round(x, 5) for x in got])
            for g, w in zip(got, want):
                sim.check(M.close(g, w, **tol), "distributed-value-differs",
                          f"{kind} world={world} rank={r} round={rnd}: {got} expected {want}")
            snaps[r] = res[f"rank{r}"][1][1]
        rnd += 1
