"""C10: accumulated metric values depend only on the samples, not the history."""
import contextlib
import copy
import os
import pickle

import numpy as np

from dst.core import HarnessError, tensor_hash
from dst.ops import FailAt
from dst.sched import Sched

from . import c09_distributed_metrics as c9
from .common import REPO

RUNS = {"quick": 1600, "thorough": 30000}
MEASURE = (
    "distinct interleavings of the metric users plus distinct (metric, operation sequence, "
    "fault) tuples"
)
REAL = c9.REAL
STUB = ["metric users are tasks of the baton scheduler (line-level preemption inside the metrics package)",
        "feature networks (Inception, SwAV, VGG) replaced by small deterministic per-image features; they can fail on demand (simulated allocation failure)"]
ASSUMPTIONS = ["one metric object is used by one task at a time; different objects concurrently",
               "a killed process resumes from the metric it last pickled"]


def setup():
    global M, torch, metrics, kid_ref, ncF
    import neuralcompression.functional as ncF

    c9.setup()
    from torch_fidelity.metric_kid import kid_features_to_metric

    kid_ref = kid_features_to_metric
    M, torch, metrics = c9.M, c9.torch, c9.metrics


class Model:
    """Reference: the samples that count."""

    def __init__(self):
        self.batches = []

    def n(self, real):
        return sum(len(a) for a, _, r in self.batches if r == real)


def value(m):
    v = m.compute()
    return [float(x) for x in (v if isinstance(v, (tuple, list)) else (v,))]


def reference(kind, cfg, model):
    if kind != "kid":
        return c9.reference(kind, cfg, model.batches)
    f = [np.concatenate([M.ref_features(a, kind, False) for a, _, r in model.batches if r == x]) for x in (True, False)]
    o = kid_ref(torch.tensor(f[0]), torch.tensor(f[1]), kid_subsets=cfg["subsets"], kid_subset_size=cfg["n"],
                kid_kernel_poly_degree=cfg["degree"], kid_kernel_poly_gamma=cfg["gamma"], kid_kernel_poly_coef0=cfg["coef"])
    return [o["kernel_inception_distance_mean"], o["kernel_inception_distance_std"]]


def ready(kind, model):
    if kind in ("fid", "swav"):
        return model.n(True) >= 9 and model.n(False) >= 9
    return bool(model.batches)


def user(sim, sched, name, kind, cfg, ops, seed):
    m = c9.make(kind, cfg)
    model = Model()
    snap = (pickle.dumps(m), [])
    trail = []
    for step, op in enumerate(ops):
        trail.append(op[0])
        if op[0] == "update":
            n, real = op[1], op[2]
            size = (20, 20) if kind == "msssim" else (9, 9)
            b = (M.images(seed + 10 * step, n, size), M.images(seed + 10 * step + 5, n, size), real)
            h = tensor_hash(b[0], b[1])
            c9.feed(m, kind, cfg, b)
            sim.check(tensor_hash(b[0], b[1]) == h, "update-modified-its-input", kind)
            model.batches.append(b)
        elif op[0] == "failing-update":
            if kind == "msssim":
                # images smaller than the window, or an allocation failure inside the similarity
                a, b = M.images(seed + step, 2, (20, 20)), M.images(seed + step + 1, 2, (20, 20))
                x, y = a.float() / 255.0, b.float() / 255.0
                mode = contextlib.nullcontext()
                if sim.flip("too-small", 0.5):
                    x, y = x[..., : cfg["window"] - 1], y[..., : cfg["window"] - 1]
                else:
                    count = FailAt(10**9)
                    with count:
                        ncF.multiscale_structural_similarity(x, y, reduction="sum", **c9.ms_args(cfg))
                    mode = FailAt(sim.choose("oom.at", max(1, 10**9 - count.left - 2)))
                try:
                    with mode:
                        m.update(x, y)
                    ok = True
                except Exception:
                    ok = False
                hit = not isinstance(mode, FailAt) or mode.hit
                if hit:
                    sim.fault("alloc_failure" if isinstance(mode, FailAt) else "bad_input")
                    sim.check(not ok, "failure-swallowed", kind)
                else:
                    sim.check(ok, "healthy-update-failed", kind)
                    model.batches.append((a, b, True))
                sched.yield_()
                continue
            M.FAIL.add(M.get_ident())
            try:
                c9.feed(m, kind, cfg, (M.images(seed + step, 2), M.images(seed + step + 1, 2), True))
                ok = True
            except MemoryError:
                ok = False
            M.FAIL.discard(M.get_ident())
            sim.fault("alloc_failure")
            sim.check(not ok, "failure-swallowed", kind)
        elif op[0] == "bad-input":
            if kind == "dists":
                x = torch.rand(2, 3, 8, 8) + (0.5 if op[1] else -0.5)
                try:
                    m.update(x, torch.rand(2, 3, 8, 8))
                    ok = True
                except ValueError:
                    ok = False
                sim.check(not ok, "out-of-range-image-accepted", kind)
        elif op[0] == "compute":
            if kind == "kid" and model.batches and min(model.n(True), model.n(False)) > 0 and (
                min(model.n(True), model.n(False)) < cfg["n"]
            ):
                try:
                    value(m)
                    ok = True
                except Exception:
                    ok = False
                sim.check(not ok, "too-small-sample-accepted", f"{model.n(True)} {model.n(False)} < {cfg['n']}")
            elif ready(kind, model) and (kind != "kid" or min(model.n(True), model.n(False)) >= cfg["n"]):
                got, want = value(m), reference(kind, cfg, model)
                sim.check(value(m) == got, "repeated-compute-differs", kind)
                check_value(sim, kind, got, want, trail)
        elif op[0] == "reset":
            m.reset()
            model.batches = []
        elif op[0] == "mode":
            m.train(op[1])
        elif op[0] == "clone":
            other = m.clone() if op[1] else copy.deepcopy(m)
            # feeding the clone must not reach the original
            size = (20, 20) if kind == "msssim" else (9, 9)
            c9.feed(other, kind, cfg, (M.images(3, 2, size), M.images(4, 2, size), True))
        elif op[0] == "snapshot":
            snap = (pickle.dumps(m), list(model.batches))
        elif op[0] == "kill":
            sim.fault("process_kill")
            del m
            m = pickle.loads(snap[0])
            model.batches = list(snap[1])
        elif op[0] == "patch":
            B, H, W, p = op[1:]
            if kind not in ("fid", "swav", "kid") or cfg["normalize"] and kind != "swav":
                continue
            a, b = M.images(seed + 10 * step, B, (H, W)), M.images(seed + 10 * step + 5, B, (H, W))
            fa, fb = a.float() / 255.0, b.float() / 255.0
            h = tensor_hash(fa, fb)
            arg = {"fid": "fid_metric", "swav": "fid_swav_metric", "kid": "kid_metric"}[kind]
            if H < p or W < p:
                try:
                    metrics.update_patch_fid(fa, fb, patch_size=p, **{arg: m})
                    ok = True
                except Exception:
                    ok = False
                sim.check(not ok, "image-smaller-than-a-patch-accepted", f"{H}x{W} p={p}")
                continue
            n = metrics.update_patch_fid(fa, fb, patch_size=p, **{arg: m})
            ra, rb = c9.patches(a, p), c9.patches(b, p)
            sim.check(n == len(ra), "wrong-patch-count", f"{B}x{H}x{W} p={p}: {n} != {len(ra)}")
            sim.check(tensor_hash(fa, fb) == h, "update-modified-its-input", "patch")
            model.batches.append((ra, ra, True))
            model.batches.append((rb, rb, False))
        sched.yield_()
    # closing value
    if kind in ("fid", "swav", "kid"):
        for real in (True, False):
            lack = max(9, cfg["n"]) - model.n(real)
            if lack > 0:
                b = (M.images(seed + 5000 + real, lack), M.images(seed + 6000, lack), real)
                c9.feed(m, kind, cfg, b)
                model.batches.append(b)
    if ready(kind, model):
        check_value(sim, kind, value(m), reference(kind, cfg, model), trail + ["final"])
    sim.cover(kind, tuple(trail))
    return True


def check_value(sim, kind, got, want, trail):
    for g, w in zip(got, want):
        if not M.close(g, w, rtol=5e-5, atol=5e-6):
            sim.check(False, "value-depends-on-history", f"{kind}: {got} expected {want} after {trail}")
    sim.check(len(got) == len(want), "wrong-value-shape", kind)


def run(sim):
    users = 1 + sim.choose("users", 3)
    tasks = []
    sched = Sched(sim, watch=(os.path.join(REPO, "neuralcompression", "metrics"),))
    kind0 = sim.pick("metric", ("fid", "swav", "kid", "msssim", "dists"))
    for u in range(users):
        kind = kind0 if sim.flip("same-kind", 0.6) else sim.pick("metric", ("fid", "swav", "kid", "msssim", "dists"))
        cfg = dict(normalize=sim.flip("normalize", 0.3), subsets=1 + sim.choose("subsets", 3),
                   degree=3 - sim.choose("degree", 2, zero=0.6), gamma=sim.pick("gamma", (None, 0.3), zero=0.6),
                   coef=sim.pick("coef", (1.0, 0.5), zero=0.6), window=sim.pick("window", (5, 3)),
                   reduction=sim.pick("reduction", ("mean", "sum")), n=4 + sim.choose("n", 8), ms=sim.choose("ms", len(c9.MS)))
        ops = []
        for _ in range(3 + sim.choose("nops", 10)):
            o = sim.pick("op", ("update", "update", "update", "compute", "patch", "reset", "clone",
                                "snapshot", "kill", "failing-update", "bad-input", "mode"))
            if o == "update":
                ops.append((o, 1 + sim.choose("n", 6), sim.flip("real", 0.5)))
            elif o == "patch":
                p = sim.pick("p", (6, 9, 5, 8))
                ops.append((o, 1 + sim.choose("B", 2), p - 1 + sim.choose("H", 2 * p), p - 1 + sim.choose("W", 2 * p), p))
            elif o in ("mode", "clone", "bad-input"):
                ops.append((o, sim.flip("flag", 0.5)))
            else:
                ops.append((o,))
        seed = 100000 * (u + 1) + 1000 * sim.choose("seed", 20)
        tasks.append((f"u{u}", (lambda a=(f"u{u}", kind, cfg, ops, seed): user(sim, sched, *a))))
    res = sched.run(tasks)
    for n, (k, v) in sorted(res.items()):
        if k == "exc":
            raise v
