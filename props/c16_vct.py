"""C16: the VCT video model codes from the past only, and every way of running it agrees."""
import copy
import functools
import os

import torch
import torch.nn as nn

from dst.core import seed_everything, tensor_hash
from dst.ops import FailAt
from dst.sched import Sched

from .codec_common import Frozen, dump, load
from .common import REPO, base_setup

RUNS = {"quick": 500, "thorough": 14000}
MEASURE = "distinct caller interleavings plus distinct (model, video shapes, operation history) tuples"
REAL = ["projects/torch_vct: VCTPipeline, VCTEntropyModel, GsnConditionalLocScaleShift, Patcher, transformer layers, memoize, "
        "ConvGDN and ELIC transforms (narrow widths, small windows and tables)", "compressai entropy coder"]
STUB = ["callers and frame-by-frame streams are tasks of the baton scheduler, preempted between any two lines of projects/torch_vct",
        "allocation failures at a chosen torch operation; a crash discards the model and rebuilds it from checkpoint bytes"]
ASSUMPTIONS = ["no latent value lies within 1e-4 of a rounding tie (such runs are skipped)",
               "coding tables are built before callers share the model; checkpoints are taken before they are built",
               "sender and receiver run the same numeric libraries on the same kind of device (CPU)"]
TIE = 1e-4


def setup():
    global P, E, T, D, memo, PROJ
    base_setup(project="torch_vct")
    import datamodules.video_data_api as d
    import model_pipeline as p
    import neural.entropy_model as e
    import neural.transforms as t
    import utils.memoize as m

    PROJ = os.path.join(REPO, "projects", "torch_vct")
    for x in (p, e, t, d, m):
        if not os.path.realpath(x.__file__).startswith(PROJ + os.sep):
            raise RuntimeError(f"foreign {x.__name__}")
    P, E, T, D, memo = p, e, t, d, m
    real_em, real_b = e.VCTEntropyModel, e.GsnConditionalLocScaleShift

    def small_bottleneck(*a, **k):
        k.update(num_scales=24, num_means=6)
        return real_b(*a, **k)

    e.GsnConditionalLocScaleShift = small_bottleneck

    def small_em(*a, **k):
        k.update(window_size_enc=4, window_size_dec=2, num_layers_encoder_sep=1, num_layers_encoder_joint=1,
                 num_layers_decoder=2, d_model=8, num_head=2, mlp_expansion=2)
        return real_em(*a, **k)

    p.VCTEntropyModel = small_em


def build(cfg, salt):
    seed_everything(1000 + salt)
    c = cfg["ch"]
    if cfg["kind"] == "gdn":
        a, s = T.ConvGDNAnalysis(4, c), T.ConvGDNSynthesis(4, c)
        if s.compression_channels != c:  # the class reports 192 whatever it was given
            s._compression_channels = c
    else:
        a = T.ELICAnalysis(1, [4, 4, 4, c], max_frames=cfg["max_frames"])
        s = T.ELICSynthesis(1, [c, 4, 4, 3], max_frames=cfg["max_frames"])
    return P.VCTPipeline(a, s, c)


def shape_weights(m, sim, seed):
    g = torch.Generator().manual_seed(seed)
    amp = sim.pick("w.amp", (100.0, 600.0, 20.0))
    with torch.no_grad():
        mods = [x for x in m.analysis_transform.transforms if isinstance(x, nn.Conv2d)]
        mods[-1].weight.mul_(amp)
        for h in (m.entropy_model.mean_head, m.entropy_model.scale_head):
            h[-1].weight.mul_(sim.pick("w.head", (4.0, 20.0)))
            h[-1].bias.add_(torch.randn(h[-1].bias.shape, generator=g))


def video(sim, j, batch):
    g = torch.Generator().manual_seed(40 + j)
    t = 1 + sim.choose("frames", 5)
    h, w = 33 + sim.choose("h", 20), 33 + sim.choose("w", 20)
    x = [torch.rand(batch, 3, h, w, generator=g)]
    for k in range(t - 1):
        x.append((torch.roll(x[-1], (k, 1), (2, 3)) * 0.8 + 0.2 * torch.rand(batch, 3, h, w, generator=g)).clamp(0, 1))
    return torch.stack(x, 1)


def padded(cfg, x):
    """The frames as the transforms see them (GDN transforms need multiples of 16)."""
    f = 16 if cfg["kind"] == "gdn" else 1
    h, w = x.shape[-2:]
    return torch.nn.functional.pad(x, (0, -w % f, 0, -h % f, 0, 0), "reflect")


def VD(x):
    return D.VideoDataset(x)


class Skip(Exception):
    pass


def run(sim):
    try:
        body(sim)
    except Skip:
        sim.event("skip")


def body(sim):
    cfg = dict(kind=sim.pick("kind", ("gdn", "elic")), ch=sim.pick("ch", (4, 2)), max_frames=sim.pick("max", (None, 1)))
    seed = sim.choose("weights", 40)
    origin = build(cfg, seed)
    shape_weights(origin, sim, seed)
    ckpt = dump(origin)
    truth = load(build(cfg, 7), ckpt).eval()
    salt = [50]

    def node():
        salt[0] += 1
        m = load(build(cfg, salt[0]), ckpt).eval()
        m.entropy_model.update(force=True)
        return m

    def rate(lik):
        return (-lik.double().log2()).sum(dim=tuple(range(1, lik.dim())))

    vids = []
    for j in range(1 + sim.choose("videos", 3)):
        x = video(sim, 100 * seed + j, 1 + sim.choose("batch", 2, zero=0.6))
        with torch.no_grad():
            pad = padded(cfg, x.clone())
            lat = truth.analysis_transform(pad)
            d = (lat - torch.floor(lat) - 0.5).abs().min()
            if float(d) < TIE:
                raise Skip()
            y, [lik] = truth(VD(x.clone()))
        # per sample: the entropy model puts (batch, patches) on one axis
        vids.append(dict(x=x, y=y, lik=lik, rate=rate(lik), q=torch.round(lat)))
        sim.check(y.shape == x.shape, "wrong-size", f"{tuple(y.shape)} expected {tuple(x.shape)}")

    def close(a, b, what, detail=""):
        sim.check(a.shape == b.shape and bool(torch.allclose(a, b, rtol=1e-3, atol=1e-3)), what,
                  lambda: f"{cfg} {detail} shapes {tuple(a.shape)} {tuple(b.shape)} " + (f"max {float((a - b).abs().max())}" if a.shape == b.shape else "") + f" {hist}")

    def close_rate(a, b, what, detail=""):
        sim.check(a.shape == b.shape and bool(((a - b).abs() <= 2.0 + 0.02 * b.abs()).all()), what, lambda: f"{detail} {a} {b} {hist}")

    hist = []
    m = node()
    frozen = Frozen(m)
    counted = []

    def watch_bytes(model):
        """Count the bytes the entropy coder really produced."""
        bn = model.entropy_model.bottleneck
        real = bn.compress

        def compress(*a, **k):
            out = real(*a, **k)
            counted.append(sum(len(s) for s in out[1]))
            return out

        bn.compress = compress
        return lambda: bn.__dict__.pop("compress")

    def do_forward(model, v, frames=None, sample=None):
        x = v["x"] if frames is None else v["x"][:, :frames]
        x = x if sample is None else x[sample : sample + 1]
        x = x.clone()
        keep = x.clone()
        with torch.no_grad():
            y, [lik] = model(VD(x))
        sim.check(torch.equal(x, keep), "forward-changed-its-input", "")
        n = x.shape[1]
        want = v["y"][:, :n]
        if sample is not None:
            want = want[sample : sample + 1]
            close(y, want, "depends-on-other-samples", f"sample {sample}")
            return y
        close(y, want, "forward-differs" if frames is None else "depends-on-later-frames", f"frames {n} of {v['x'].shape[1]}")
        close_rate(rate(lik), v["rate"][:n], "rate-differs" if frames is None else "rate-depends-on-later-frames")
        return y

    def do_future(model, v):
        """Other frames after frame t: nothing up to t may change."""
        t = v["x"].shape[1]
        keepn = 1 + sim.choose("prefix", t)
        x = v["x"].clone()
        if keepn < t:
            x[:, keepn:] = torch.rand(x[:, keepn:].shape, generator=torch.Generator().manual_seed(9))
        with torch.no_grad():
            y, [lik] = model(VD(x))
        close(y[:, :keepn], v["y"][:, :keepn], "depends-on-later-frames", f"prefix {keepn}")
        close_rate(rate(lik)[:keepn], v["rate"][:keepn], "rate-depends-on-later-frames")

    def do_compress(model, v, count=True):
        if v["x"].shape[0] != 1:
            return
        x = v["x"].clone()
        counted.clear()
        undo = watch_bytes(model) if count else None
        try:
            with torch.no_grad():
                rec, bits = model.compress_video(VD(x))
        finally:
            if undo:
                undo()
        sim.check(torch.equal(x, v["x"]), "compress-changed-its-input", "")
        sim.check(len(bits) == x.shape[1], "wrong-number-of-frames", f"{len(bits)}")
        with torch.no_grad():
            y = model.decompress_video(x.shape, [rec])
        close(y, v["y"], "decompressed-video-differs-from-model-output", f"{tuple(x.shape)}")
        if count:
            n = x.shape[1] - 1
            sim.check(len(counted) % max(n, 1) == 0, "wrong-number-of-strings", f"{len(counted)} {n}")
            per = len(counted) // n if n else 0
            want = [8 * sum(counted[k * per : (k + 1) * per]) for k in range(n)]
            sim.check([int(b) for b in bits[1:]] == want, "reported-bits-are-not-the-coded-bits", f"{bits} {want}")
        close_rate(torch.tensor([bits[0]]).double(), v["rate"][:1], "key-frame-rate-differs")
        return tuple(bits)

    def do_entropy(model, v):
        """The entropy coder really decodes what it coded."""
        if v["x"].shape[0] != 1:
            return
        em = model.entropy_model
        with torch.no_grad():
            lat = model.analysis_transform(padded(cfg, v["x"].clone()))
            prev = [em.process_previous_latent_q(v["q"][:, k]) for k in range(min(2, lat.shape[1]))]
            k = sim.choose("frame", lat.shape[1])
            o = em.compress(latent_unquantized=lat[:, k], previous_latents=tuple(prev), run_decode=True, validate_causal=sim.flip("causal", 0.5))
        sim.check(torch.equal(o.perturbed_latent, v["q"][:, k]), "decoded-latent-is-not-the-coded-one", f"{cfg} frame {k} {hist}")

    def do_stream(model, vs, cached):
        """Encode and decode frame by frame, several videos alternately, one cache."""
        cache = memo.create_cache() if cached else None
        with torch.no_grad():
            gens = [model.encode_and_decode_scenes(D.Scenes(model.analysis_transform(padded(cfg, v["x"].clone()))), cache=cache) for v in vs]
            outs = [[] for _ in vs]
            live = list(range(len(vs)))
            while live:
                i = sim.pick("stream", live)
                try:
                    outs[i].append(next(gens[i]))
                except StopIteration:
                    live.remove(i)
                    continue
                if sim.flip("abandon", 0.05):
                    gens[i].close()
                    live.remove(i)
            for v, o in zip(vs, outs):
                if not o:
                    continue
                n = len(o)
                y = model.synthesis_transform(torch.stack([r.reconstruction for r in o], 1), (*v["x"].shape[:1], n, *v["x"].shape[2:]))
                y = y[..., : v["x"].shape[-2], : v["x"].shape[-1]]
                close(y, v["y"][:, :n], "streamed-video-differs", f"{n} frames cached={cached}")
                close_rate(rate(torch.stack([r.likelihood for r in o])), v["rate"][:n], "streamed-rate-differs")

    OPS = ("forward", "compress", "prefix", "future", "stream", "entropy", "concurrent", "oom", "crash", "sample", "train")
    packets = {}
    for step in range(2 + sim.choose("ops", 6)):
        op = sim.pick("op", OPS)
        hist.append(op)
        j = sim.choose("video", len(vids))
        v = vids[j]
        if op == "forward":
            do_forward(m, v)
        elif op == "prefix":
            do_forward(m, v, frames=1 + sim.choose("prefix", v["x"].shape[1]))
        elif op == "sample":
            do_forward(m, v, sample=sim.choose("which", v["x"].shape[0]))
        elif op == "future":
            do_future(m, v)
        elif op == "compress":
            b = do_compress(m, v)
            if b is not None:
                sim.check(packets.setdefault(j, b) == b, "same-video-different-bits", f"{packets[j]} {b} {hist}")
        elif op == "entropy":
            do_entropy(m, v)
        elif op == "stream":
            do_stream(m, vids, sim.flip("cached", 0.6))
        elif op == "oom":
            mode = FailAt(sim.choose("oom.at", 600))
            which = sim.pick("oom.op", ("forward", "compress"))
            try:
                with mode, torch.no_grad():
                    (m if which == "forward" else m.compress_video)(VD(v["x"].clone()[:1]))
            except Exception:
                if not mode.hit:
                    raise
            if mode.hit:
                sim.fault("allocation_failure")
        elif op == "crash":
            sim.fault("node_crash")
            m = node()
            frozen = Frozen(m)
        elif op == "train":
            m.train()
            if sim.flip("train-forward", 0.5):
                torch.manual_seed(3)
                with torch.no_grad():
                    m(VD(torch.rand(1, 2, 3, 48, 48)))
            m.eval()
        elif op == "concurrent":
            sched = Sched(sim, watch=(PROJ,))
            plan = []
            for c in range(2 + sim.choose("callers", 2)):
                plan.append((sim.pick("what", ("forward", "compress", "prefix")), sim.choose("video", len(vids)), sim.choose("prefix", 5)))

            def caller(what, jj, n):
                vv = vids[jj]

                def f():
                    if what == "compress":
                        do_compress(m, vv, count=False)
                    elif what == "prefix":
                        do_forward(m, vv, frames=1 + n % vv["x"].shape[1])
                    else:
                        do_forward(m, vv)
                return f

            res = sched.run([(f"caller{c}", caller(*p)) for c, p in enumerate(plan)])
            for _, (k, e) in sorted(res.items()):
                if k == "exc":
                    raise e
            hist.append(tuple(plan))
        sim.check(frozen.same(m), "running-changed-the-model", f"{op} {hist}")
        sim.check(not m.training, "mode-changed", f"{op}")
        sim.event("op", op)
    sim.cover(tuple(sorted((k, str(x)) for k, x in cfg.items())), seed, tuple(tuple(v["x"].shape) for v in vids), tuple(hist))
