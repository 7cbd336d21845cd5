"""C13: vector quantisation and its usage statistics over histories, callers and restarts."""
import copy
import io
import os
import pickle

import numpy as np
import torch

from dst.core import seed_everything, tensor_hash
from dst.ops import FailAt
from dst.sched import Sched

from .codec_common import dump, load
from .common import REPO, base_setup

RUNS = {"quick": 3000, "thorough": 80000}
MEASURE = "distinct caller interleavings plus distinct (codebook, operation history) tuples"
REAL = ["neuralcompression.layers.VQBottleneck / QBottleneck, ProjectLatent, NormalizeLatent"]
STUB = ["callers are tasks of the baton scheduler with line-level preemption in the layers package",
        "allocation failures at a chosen torch operation; restarts restore a new instance from checkpoint bytes"]
ASSUMPTIONS = ["no two code vectors are equally close to an input (random inputs)", "usage metrics are computed after at least one counted vector"]


def setup():
    global nl, Out
    base_setup()
    import neuralcompression.layers as l
    from neuralcompression import VqVaeAutoencoderOutput as o

    nl, Out = l, o


def counts(m):
    return [v for k, v in m.state_dict().items() if "codebook_hits_0" in k][0].clone()


def nearest(book, x):
    """Reference assignment: x (B, C, H, W) -> index per position, row major."""
    b = book.double().numpy()
    b = b / np.maximum(np.linalg.norm(b, axis=1, keepdims=True), 1e-12)
    v = x.double().permute(0, 2, 3, 1).reshape(-1, x.shape[1]).numpy()
    d = ((v[:, None, :] - b[None]) ** 2).sum(-1)
    s = np.sort(d, axis=1)
    sure = s[:, 1] - s[:, 0] > 1e-5 * (1 + s[:, 0]) if d.shape[1] > 1 else np.ones(len(d), bool)
    return d.argmin(1), sure, b


def run(sim):
    K = sim.pick("codebook", (6, 2, 17, 64))
    C = sim.pick("length", (3, 2, 5))
    init = sim.pick("init", ("normal", "uniform"))
    seed = sim.choose("weights", 40)

    def build(s):
        seed_everything(700 + s)
        return nl.VQBottleneck(K, C, init)

    m = build(seed)
    book = [p for _, p in m.named_parameters()][0].detach().clone()
    total = np.zeros(K, dtype=np.int64)
    ckpt = (dump(m), total.copy())
    hist = [K, C, init]

    def image(j, large=False):
        g = torch.Generator().manual_seed(j)
        b, h, w = 1 + sim.choose("b", 2), 1 + sim.choose("h", 4), 1 + sim.choose("w", 4)
        if large and sim.flip("large", 0.1):
            h, w = 64 + sim.choose("h", 4), 65 + sim.choose("w", 4)
        x = torch.randn(b, C, h, w, generator=g)
        if sim.flip("scaled", 0.3):
            x = x * sim.pick("scale", (10.0, 0.01))
        return x

    def check_output(x, out):
        idx, sure, nb = nearest(book, x)
        got = out.indices.numpy().reshape(-1)
        sim.check(len(got) == len(idx), "wrong-number-of-indices", f"{len(got)} {len(idx)}")
        sim.check(bool((got[sure] == idx[sure]).all()), "not-the-nearest-code", f"{hist}")
        q = torch.from_numpy(nb[got]).float().view(x.shape[0], x.shape[2], x.shape[3], C).permute(0, 3, 1, 2)
        sim.check(torch.allclose(out.latent, q, atol=1e-4 * max(1.0, float(x.abs().max()))), "latent-is-not-the-code", f"{hist}")
        sim.check(torch.equal(out.prequantized_latent, x), "prequantised-latent-wrong", f"{hist}")
        n = x.shape[0] * x.shape[2] * x.shape[3]
        sim.check(out.num_bytes == int(n * np.log2(K) / 8), "coding-cost-wrong", f"{out.num_bytes}")
        return np.bincount(got, minlength=K)

    def expect(what):
        got = counts(m).numpy()
        sim.check(bool((got == total).all()), f"usage-counts-wrong-{what}", f"{hist}: {got.tolist()} expected {total.tolist()}")

    for step in range(2 + sim.choose("ops", 10)):
        op = sim.pick("op", ("forward", "concurrent", "reset", "metrics", "checkpoint", "crash", "oom", "copy", "mode", "grad", "aged"))
        hist.append(op)
        if op in ("forward", "grad"):
            x = image(step, True)
            keep = x.clone()
            if op == "grad":
                xg = x.clone().requires_grad_(True)
                out = m(Out(latent=xg))
                out.latent.sum().backward()
                sim.check(torch.allclose(xg.grad, torch.ones_like(xg)), "straight-through-gradient-wrong", f"{hist}")
                out.latent = out.latent.detach()
                out.prequantized_latent = out.prequantized_latent.detach()
            else:
                with torch.no_grad():
                    out = m(Out(latent=x))
            sim.check(torch.equal(x, keep), "forward-changed-its-input", "")
            total += check_output(x, out)
        elif op == "oom":
            x = image(step)
            before = counts(m).numpy().copy()
            mode = FailAt(sim.choose("oom.at", 30))
            try:
                with torch.no_grad(), mode:
                    m(Out(latent=x))
            except Exception:
                if not mode.hit:
                    raise
            if mode.hit:
                sim.fault("allocation_failure")
            idx, sure, _ = nearest(book, x)
            after = counts(m).numpy()
            d = after - before
            sim.check(d.sum() in (0, len(idx)) and bool((d >= 0).all()), "partial-count", f"{hist} {d}")
            if d.sum():
                if sure.all():
                    sim.check(bool((d == np.bincount(idx, minlength=K)).all()), "wrong-count", f"{hist}")
                total += d
        elif op == "concurrent":
            n = 2 + sim.choose("callers", 2)
            xs = [[image(100 * step + 10 * c + j) for j in range(1 + sim.choose("calls", 2))] for c in range(n)]
            sched = Sched(sim, watch=(os.path.join(REPO, "neuralcompression", "layers"),))
            outs = {}

            def caller(c):
                def f():
                    for j, x in enumerate(xs[c]):
                        with torch.no_grad():
                            outs[c, j] = m(Out(latent=x))
                        sched.yield_()
                return f

            res = sched.run([(f"caller{c}", caller(c)) for c in range(n)])
            for _, (k, v) in sorted(res.items()):
                if k == "exc":
                    raise v
            for (c, j), o in sorted(outs.items()):
                total += check_output(xs[c][j], o)
        elif op == "reset":
            m.reset_hits()
            total[:] = 0
        elif op == "metrics":
            m.update_metrics()
            if total.sum():
                p = total / total.sum()
                nz = p[p > 0]
                perp = 2 ** float(-(nz * np.log2(nz)).sum())
                sim.check(abs(float(m.perplexities[0]) - perp) <= 1e-3 * perp + 1e-3, "perplexity-wrong", f"{hist} {m.perplexities} {perp}")
                sim.check(abs(float(m.max_hits[0]) - total.max()) <= 1e-6 * total.max(), "max-hits-wrong", f"{hist} {m.max_hits} {total.max()}")
                sim.check(abs(float(m.percentage_hits[0]) - (total > 0).mean()) < 1e-5, "percentage-wrong", f"{hist}")
        elif op == "checkpoint":
            ckpt = (dump(m), total.copy())
        elif op == "crash":
            sim.fault("job_kill")
            m = load(build(seed + 1), ckpt[0])
            total = ckpt[1].copy()
        elif op == "aged":
            # continue a long job: its counts are those of many earlier batches
            sim.fault("job_kill")
            old = np.random.RandomState(step).randint(0, 3, K) * sim.pick("age", (5000, 1 << 24, 1 << 32)) + np.arange(K) % 2
            sd = m.state_dict()
            sd[[k for k in sd if "codebook_hits_0" in k][0]].copy_(torch.from_numpy(old))
            m = build(seed + 1)
            m.load_state_dict(sd)
            total = old.astype(np.int64)
        elif op == "copy":
            m = copy.deepcopy(m) if sim.flip("deep", 0.5) else pickle.loads(pickle.dumps(m))
        elif op == "mode":
            m.train(sim.flip("train", 0.5))
        expect(op)
        sim.event("op", op, int(total.sum()))
    sim.cover(tuple(hist))
