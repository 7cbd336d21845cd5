"""C25: library calls do not influence each other.

The value (and the gradients) of every call of a history - sequential or by
concurrent callers, with rejected arguments and failing allocations in
between - is compared with the same call made alone in a pristine process.
"""
import os
import pickle
import random
import types
import warnings

import numpy as np
import torch
from torch import nn

from dst.core import HarnessError, seed_everything, tensor_hash
from dst.ops import FailAt
from dst.sched import Sched

from .common import REPO, base_setup

RUNS = {"quick": 2400, "thorough": 20000}
MEASURE = "distinct call histories (call, options, fault) plus distinct caller interleavings (sequence of (caller, step) hand-overs)"
REAL = ["neuralcompression.functional (all public functions), neuralcompression.distributions, neuralcompression.loss_fn, "
        "ChannelNorm2D, SimplifiedGDN, SimplifiedInverseGDN, XCA, ContinuousEntropy, calc_psnr, calc_psnr_numpy, pickle_size_of; fvcore, lpips"]
STUB = ["the convolutional trunks (AlexNet, VGG, SqueezeNet) under LPIPS: 1x1 convolutions with the same channel counts and fixed weights",
        "callers are tasks of the baton scheduler, preempted between any two source lines of neuralcompression"]
ASSUMPTIONS = ["a call alone in a freshly started process is the reference; this check says nothing about that value being the right number (see N02-N04)",
               "count_flops is exercised sequentially only: torch's tracer is not meant for concurrent use"]


def _trunk(chns, ends):
    def make(**_):
        mods, cin = [], 3
        start = 0
        g = torch.Generator().manual_seed(len(chns) * 100 + ends[0])
        for c, e in zip(chns, ends):
            conv = nn.Conv2d(cin, c, 1, stride=2)
            with torch.no_grad():
                conv.weight.copy_(torch.randn(conv.weight.shape, generator=g) * (2.0 / cin) ** 0.5)
                conv.bias.copy_(torch.randn(conv.bias.shape, generator=g) * 0.1)
            mods += [conv, nn.ReLU()] + [nn.Identity() for _ in range(e - start - 2)]
            start, cin = e, c
        return types.SimpleNamespace(features=mods)
    return make


def _squeeze(**_):
    chns, ends = [64, 128, 256, 384, 384, 512, 512], [2, 5, 8, 10, 11, 12, 13]
    g = torch.Generator().manual_seed(77)
    mods, cin, start = [], 3, 0
    for c, e in zip(chns, ends):
        conv = nn.Conv2d(cin, c, 1, stride=2)
        with torch.no_grad():
            conv.weight.copy_(torch.randn(conv.weight.shape, generator=g) * (2.0 / cin) ** 0.5)
            conv.bias.copy_(torch.randn(conv.bias.shape, generator=g) * 0.1)
        mods.append(nn.Sequential(conv, nn.ReLU()))
        mods += [nn.Identity() for _ in range(e - start - 1)]
        start, cin = e, c
    return types.SimpleNamespace(features=mods)


def setup():
    global ncF, ncd, ncl, ncloss, ncm
    base_setup()
    import torchvision.models as tv

    tv.alexnet = _trunk([64, 192, 384, 256, 256], [2, 5, 8, 10, 12])
    tv.vgg16 = _trunk([64, 128, 256, 512, 512], [4, 9, 16, 23, 30])
    tv.squeezenet1_1 = _squeeze
    import neuralcompression.distributions as d
    import neuralcompression.functional as f
    import neuralcompression.layers as l
    import neuralcompression.loss_fn as lo
    import neuralcompression.metrics as m

    ncF, ncd, ncl, ncloss, ncm = f, d, l, lo, m
    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    # lazy imports of torch itself happen before the image is forked
    x = torch.ones(2, 2, requires_grad=True)
    (torch.where(x > 0, x, -x).sum() + torch.max(x, torch.tensor(0.5)).sum()).backward()
    torch.jit.trace(nn.Linear(2, 2), (torch.ones(1, 2),))
    torch.distributions.Normal(0.0, 1.0).icdf(torch.tensor([0.5]))


# ---- arguments -----------------------------------------------------------
def G(p, k=0):
    return torch.Generator().manual_seed(1000 + 31 * p["data"] + k)


def img(p, k=0, lo=0.0, hi=1.0, size=None):
    b, c, h, w = size or (p["b"], p["c"], p["h"], p["w"])
    t = torch.rand(b, c, h, w, generator=G(p, k)) * (hi - lo) + lo
    return t.to(p["dtype"])


def vec(p, lo, hi, k=0):
    return (torch.rand(p["n"], generator=G(p, k)) * (hi - lo) + lo).to(p["dtype"])


DT = (torch.float32, torch.float64)
IMG = dict(b=(1, 2), c=(3,), h=(16, 17, 33), w=(16, 21, 40))


class Logistic(torch.distributions.Distribution):
    """A distribution with a cdf but no icdf."""
    arg_constraints = {}
    has_rsample = False

    def __init__(self, loc, scale):
        self.loc, self.scale = loc, scale
        super().__init__(loc.shape, validate_args=False)

    mean = property(lambda s: s.loc)
    support = torch.distributions.constraints.real

    def cdf(self, x):
        return torch.sigmoid((x - self.loc) / self.scale)

    def log_prob(self, x):
        z = (x - self.loc) / self.scale
        return -z - 2 * torch.nn.functional.softplus(-z) - torch.log(self.scale)


def dist(p):
    loc = torch.tensor([0.3, -1.2, 2.0])[: p["k"]] + p["shift"]
    scale = torch.tensor([1.0, 0.5, 2.5])[: p["k"]] * p["spread"]
    kind = p["dist"]
    if kind == "normal":
        return torch.distributions.Normal(loc, scale)
    if kind == "noisy":
        return ncd.NoisyNormal(loc, scale)
    if kind == "laplace":
        return torch.distributions.Laplace(loc, scale)
    if kind == "uniform":
        return torch.distributions.Uniform(loc, loc + scale)
    if kind == "noisylaplace":
        return ncd.UniformNoise(torch.distributions.Laplace(loc, scale))
    if kind == "noisylogistic":
        return ncd.UniformNoise(Logistic(loc, scale))
    return Logistic(loc, scale)


DIST = dict(k=(1, 3), shift=(0.0, 0.4), spread=(1.0, 2.0))


class Net(nn.Module):
    def __init__(self, bad):
        super().__init__()
        self.a = nn.Conv2d(3, 4, 3)
        self.b = nn.Linear(4, 2)
        self.bad = bad

    def forward(self, x, y=None):
        h = torch.relu(self.a(x))
        h = torch.exp(-h) + torch.sqrt(h + 1) * 2
        if self.bad:
            raise ValueError("this module cannot run")
        h = torch.sigmoid(h.mean((2, 3)))
        if y is not None:
            h = h / (1 + y.abs())
        return torch.log(self.b(h).abs() + 1)


def flops_override(k):
    def seven(inputs, outputs):
        return 7
    return {1: {"aten::conv": seven, "aten::_convolution": seven, "aten::mul": None, "aten::exp": seven},
            2: {"aten::add": seven, "aten::sigmoid": seven},
            3: {"aten::sqrt": None, "aten::addmm": seven}}.get(k)


# ---- objects shared by the callers ----------------------------------------
def make_object(kind, p):
    seed_everything(50 + p["data"])
    if kind == "dist":
        return dist(p)
    if kind == "channelnorm":
        m = ncl.ChannelNorm2D(3, epsilon=p["eps"], affine=p["affine"])
    elif kind in ("gdn", "igdn"):
        m = (ncl.SimplifiedGDN if kind == "gdn" else ncl.SimplifiedInverseGDN)(3, gamma_init=p["gamma"])
        with torch.no_grad():
            m.gamma.add_(torch.randn(m.gamma.shape) * 0.05)
    elif kind == "xca":
        m = ncl.XCA(8, num_heads=p["heads"], qkv_bias=p["bias"])
    elif kind == "entropy":
        loc, scale = 0.3 + p["shift"], 1.5 * p["spread"]
        prior = (ncd.NoisyNormal(loc, scale) if p["dist"] == "noisy" else torch.distributions.Normal(loc, scale) if p["dist"] == "normal"
                 else ncd.UniformNoise(torch.distributions.Laplace(loc, scale)))
        prior._batch_shape = torch.Size([p["k"]])  # as the repository's tests do
        return prior
    elif kind == "mse":
        m = ncloss.MSELoss(*p["scale"])
    elif kind == "mselpips":
        m = ncloss.MSELPIPSLoss(mse_param=p["mse"], lpips_param=p["lp"], normalize=p["norm"], backbone=p["net"])
    elif kind == "normfix":
        m = ncloss.NormFixLPIPS(net=p["net"], lpips=p["lin"], version=p["version"], spatial=p["spatial"], pnet_rand=True, verbose=False)
    elif kind == "bce":
        m = nn.ModuleList([ncloss.BinaryCrossentropyDiscriminatorLoss(), ncloss.BinaryCrossentropyGeneratorLoss()])
    elif kind == "oasis":
        m = nn.ModuleList([ncloss.OASISDiscriminatorLoss(), ncloss.OASISGeneratorLoss()])
    elif kind == "net":
        m = Net(p["bad"])
    m.train(p.get("train", False))
    return m


def hooks(m):
    return len(m._forward_hooks) + len(m._forward_pre_hooks) + len(m._backward_hooks)


def object_state(o):
    """Observable state of a shared object, one entry per tensor/flag."""
    out = {}
    if isinstance(o, nn.Module):
        for k, v in o.state_dict().items():
            out["t:" + k] = tensor_hash(v)
        for k, m in o.named_modules():
            out["m:" + k] = (m.training, 0 if isinstance(o, Net) else hooks(m))
        for k, q in o.named_parameters():
            out["g:" + k] = q.requires_grad
    elif isinstance(o, torch.distributions.Distribution):
        out["batch"] = tuple(o.batch_shape)
        d = getattr(o, "_distribution", o)
        for k in ("loc", "scale", "low", "high"):
            if hasattr(d, k):
                out[k] = tensor_hash(getattr(d, k))
    return out


# ---- the calls -------------------------------------------------------------
class C:
    """One kind of call: its options, its arguments and how it is made."""

    def __init__(self, params, args, call, obj=None, grad=True, seq=False, draws=False, w=1):
        self.params = dict(params, data=tuple(range(8)))
        if obj:
            self.params["weights"] = (0, 1)
        self.args, self.call, self.obj = args, call, obj
        self.grad, self.seq, self.draws, self.w = grad, seq, draws, w


def one(lo, hi):
    return lambda p: [vec(p, lo, hi)]


V = dict(n=(1, 6, 33), dtype=DT)
F32 = (torch.float32,)


def _calls():
    R = ("mean", "sum", "none", "bogus")
    c = {}
    c["count_flops"] = C(dict(size=(8, 12), extra=(False, True), est=(False, True), over=(0, 1, 2, 3), bad=(False, False, False, True), aslist=(True, False), train=(False, True)),
                         lambda p: [torch.rand(1, 3, p["size"], p["size"], generator=G(p))] + ([torch.rand(1, 4, generator=G(p, 1))] if p["extra"] else []),
                         lambda a, p, o: ncF.count_flops(o, a if p["aslist"] else tuple(a), counter_overrides=flops_override(p["over"]),
                                                         use_single_flop_estimates=p["est"]),
                         obj=("net", ("bad", "train")), grad=False, seq=True, w=3)
    c["dense_image_warp"] = C(dict(IMG, dtype=DT, fh=(8, 16), fw=(16, 8, 9), mode=("bilinear", "nearest", "bicubic"),
                                   pad=("border", "zeros", "reflection"), align=(False, True), mix=(False, False, True)),
                              lambda p: [img(p), (torch.randn(p["b"], p["fh"], p["fw"], 2, generator=G(p, 1)) * 0.2).to(
                                  torch.float16 if p["mix"] else p["dtype"])],
                              lambda a, p, o: ncF.dense_image_warp(*a, mode=p["mode"], padding_mode=p["pad"], align_corners=p["align"]), w=2)
    c["estimate_tails"] = C(dict(f=("ndtr", "sigmoid", "logsigmoid"), q=(0.1, 0.3, 0.8), shape=((1,), (2, 2)), dtype=DT),
                            lambda p: [],
                            lambda a, p, o: ncF.estimate_tails(
                                {"ndtr": ncF.ndtr, "sigmoid": torch.sigmoid, "logsigmoid": nn.functional.logsigmoid}[p["f"]],
                                float(np.log(p["q"])) if p["f"] == "logsigmoid" else p["q"], torch.Size(p["shape"]), device="cpu", dtype=p["dtype"]).detach(),
                            grad=False)
    c["hsv_to_rgb"] = C(dict(IMG, dtype=DT, bad=(False, False, True)),
                        lambda p: [torch.cat([img(p)[:, :1] * (700 if p["bad"] else 360), img(p)[:, 1:]], 1)],
                        lambda a, p, o: ncF.hsv_to_rgb(*a))
    c["image_to_255_scale"] = C(dict(IMG, dtype=DT, out=(None, torch.uint8, torch.float64), hi=(1.0, 1.0, 1.5)),
                                lambda p: [img(p, hi=p["hi"])], lambda a, p, o: ncF.image_to_255_scale(*a, dtype=p["out"]))
    c["information_content"] = C(dict(IMG, dtype=DT, r=("sum", "batch_el", "none", "bogus"), base=(2.0, 10.0, 2.718281828)),
                                 lambda p: [img(p, lo=0.01)], lambda a, p, o: ncF.information_content(*a, reduction=p["r"], base=p["base"]))
    c["log_expm1"] = C(V, one(0.1, 30), lambda a, p, o: ncF.log_expm1(*a))
    c["log_ndtr"] = C(dict(V, dtype=DT + (torch.float16,)), one(-30, 12), lambda a, p, o: ncF.log_ndtr(*a))
    c["ndtr"] = C(V, one(-5, 5), lambda a, p, o: ncF.ndtr(*a))
    c["lower_bound"] = C(dict(V, g=("disconnected", "identity", "identity_if_towards", "bogus"), bound=(0.0, 0.7)), one(-2, 2),
                         lambda a, p, o: ncF.lower_bound(a[0], torch.tensor(p["bound"]), p["g"]), w=2)
    c["lpips"] = C(dict(b=(1, 2), c=(3,), h=(16,), w=(16, 24), dtype=F32, net=("alex", "vgg", "squeeze", "bogus"), lin=(True, False),
                        ver=("0.1", "0.0", "9"), norm=(False, True), r=R),
                   lambda p: [img(p), img(p, 1)],
                   lambda a, p, o: ncF.lpips(*a, base_network=p["net"], use_linear_calibration=p["lin"], linear_weights_version=p["ver"],
                                             normalize=p["norm"], reduction=p["r"]), draws=True, w=2)
    c["ms_ssim"] = C(dict(b=(1, 2), c=(1, 3), h=(24, 33), w=(24, 40), dtype=DT, win=(3, 5, 11, 4), std=(1.5, 0.8), rng=(1.0, 255.0), k1=(0.01, 0.1),
                          k2=(0.03, 0.3), pf=((0.5, 0.5), (0.3, 0.3, 0.4), (1.0,), (0.2, 0.2, 0.2, 0.2, 0.2)), r=R),
                     lambda p: [img(p), img(p, 1)],
                     lambda a, p, o: ncF.multiscale_structural_similarity(*a, data_range=p["rng"], window_size=p["win"], k1=p["k1"], k2=p["k2"],
                                                                          gaussian_std=p["std"], power_factors=p["pf"], reduction=p["r"]), w=3)
    c["optical_flow_to_color"] = C(dict(IMG, c=(2,), dtype=DT, eps=(1e-5, 0.1), flat=(False, False, True)),
                                   lambda p: [img(p, lo=-2, hi=2)[0] if p["flat"] else img(p, lo=-2, hi=2)],
                                   lambda a, p, o: ncF.optical_flow_to_color(a[0], eps=p["eps"]), grad=False)
    c["pad_image_to_factor"] = C(dict(IMG, dtype=DT, f=(4, 8, 16, 64), mode=("reflect", "replicate", "constant")),
                                 lambda p: [img(p)], lambda a, p, o: ncF.pad_image_to_factor(a[0], p["f"], p["mode"]))
    c["soft_round"] = C(dict(V, alpha=(0.0, 1e-4, 1.0, 7.0), eps=(1e-3, 0.5), which=(0, 1, 2)), one(-3, 3),
                        lambda a, p, o: (ncF.soft_round(a[0], p["alpha"], p["eps"]) if p["which"] == 0 else
                                         ncF.soft_round_inverse(a[0], p["alpha"], p["eps"]) if p["which"] == 1 else
                                         ncF.soft_round_conditional_mean(a[0], p["alpha"])), w=2)
    c["calc_psnr"] = C(dict(IMG, dtype=DT, rng=(255.0, 1.0)), lambda p: [img(p), img(p, 1)], lambda a, p, o: ncm.calc_psnr(*a, data_range=p["rng"]))
    c["calc_psnr_numpy"] = C(dict(IMG, dtype=DT, rng=(255.0, 1.0)), lambda p: [img(p).numpy(), img(p, 1).numpy()],
                             lambda a, p, o: torch.as_tensor(ncm.calc_psnr_numpy(*a, data_range=p["rng"])), grad=False)
    c["pickle_size_of"] = C(dict(sz=(3, 40, 400), what=("bytes", "array", "bad")),
                            lambda p: [bytes(p["sz"]) if p["what"] == "bytes" else np.zeros(p["sz"]) if p["what"] == "array" else (lambda: 0)],
                            lambda a, p, o: ncm.pickle_size_of(*a), grad=False)
    DI = dict(DIST, dist=("normal", "noisy", "laplace", "uniform", "noisylaplace", "logistic", "noisylogistic"))
    dk = ("dist", "k", "shift", "spread")
    fns = {"log_cdf": lambda a, p, o: ncF.log_cdf(a[0], o), "survival_function": lambda a, p, o: ncF.survival_function(a[0], o),
           "log_survival_function": lambda a, p, o: ncF.log_survival_function(a[0], o),
           "dist.cdf": lambda a, p, o: o.cdf(a[0]), "dist.prob": lambda a, p, o: o.prob(a[0]), "dist.log_prob": lambda a, p, o: o.log_prob(a[0]),
           "dist.icdf": lambda a, p, o: o.icdf(a[0].sigmoid()), "dist.log_cdf": lambda a, p, o: o.log_cdf(a[0]),
           "dist.survival": lambda a, p, o: o.survival_function(a[0]), "dist.log_survival": lambda a, p, o: o.log_survival_function(a[0])}
    NZ = ("noisy", "noisylaplace", "noisylogistic")
    for n, f in fns.items():
        kinds = NZ if n.split(".")[-1] in ("prob", "log_cdf", "survival", "log_survival") else DI["dist"]
        c[n] = C(dict(DI, dist=kinds, n=(4,), dtype=F32), lambda p: [vec(p, -3, 3).unsqueeze(1).repeat(1, p["k"])], f, obj=("dist", dk))
    c["quantization_offset"] = C(DI, lambda p: [], lambda a, p, o: ncF.quantization_offset(o), obj=("dist", dk))
    c["dist.offset"] = C(dict(DI, dist=NZ), lambda p: [], lambda a, p, o: o.quantization_offset, obj=("dist", dk))
    c["dist.moments"] = C(DI, lambda p: [], lambda a, p, o: (o.mean, o.variance, o.entropy()), obj=("dist", dk))
    c["dist.expand"] = C(DI, lambda p: [], lambda a, p, o: o.expand(torch.Size([2, p["k"]])).mean, obj=("dist", dk))
    TM = dict(DI, dist=("normal", "noisy", "noisylaplace", "laplace", "noisylogistic", "logistic"), tm=(2**-8, 0.1))
    c["lower_tail"] = C(TM, lambda p: [], lambda a, p, o: ncF.lower_tail(o, p["tm"]), obj=("dist", dk))
    # upper_tail does not end for a distribution without icdf (DESIGN.md, observations)
    TU = dict(TM, dist=("normal", "noisy", "noisylaplace", "laplace"))
    TN = dict(TM, dist=("noisy", "noisylaplace"))
    c["upper_tail"] = C(TU, lambda p: [], lambda a, p, o: ncF.upper_tail(o, p["tm"]), obj=("dist", dk))
    c["dist.tails"] = C(TN, lambda p: [], lambda a, p, o: (o.lower_tail(p["tm"]), o.upper_tail(p["tm"])), obj=("dist", dk))
    c["dist.rsample"] = C(DI, lambda p: [], lambda a, p, o: o.rsample(torch.Size([5])) if p["k"] == 1 else o.rsample(), obj=("dist", dk), draws=True, seq=True)
    c["entropy_tables"] = C(dict(DIST, k=(2, 16), dist=("noisy", "normal", "noisylaplace"), tm=(2**-8, 0.1), prec=(12, 8), comp=(True, True, False)),
                            lambda p: [],
                            lambda a, p, o: _tables(o, p), obj=("entropy", dk), grad=False, w=2)
    c["channelnorm"] = C(dict(IMG, dtype=F32, eps=(1e-3, 0.5), affine=(True, False), train=(False, True)), lambda p: [img(p, lo=-1)],
                         lambda a, p, o: o(*a), obj=("channelnorm", ("eps", "affine", "train")))
    for n in ("gdn", "igdn"):
        c[n] = C(dict(IMG, dtype=F32, gamma=(0.1, 0.3), train=(False, True), c=(3, 3, 3, 2)), lambda p: [img(p, lo=-1)],
                 lambda a, p, o: o(*a), obj=(n, ("gamma", "train")))
    c["xca"] = C(dict(b=(1, 2), nn=(3, 7), heads=(2, 4), bias=(False, True), train=(False, True), dim=(8, 8, 8, 6)),
                 lambda p: [torch.randn(p["b"], p["nn"], p["dim"], generator=G(p))], lambda a, p, o: o(*a), obj=("xca", ("heads", "bias", "train")))
    c["mse_loss"] = C(dict(IMG, dtype=F32, scale=((), (1.0,))), lambda p: [img(p), img(p, 1)], lambda a, p, o: o(*a), obj=("mse", ("scale",)))
    c["mselpips"] = C(dict(b=(1, 2), c=(3,), h=(16,), w=(16, 24), dtype=F32, mse=(255.0**2, 1.0), lp=(1.0, 4.0), norm=(True, False), net=("alex", "squeeze"), train=(False, True)),
                      lambda p: [img(p), img(p, 1)], lambda a, p, o: o(*a), obj=("mselpips", ("mse", "lp", "norm", "net", "train")))
    c["normfix"] = C(dict(b=(1, 2), c=(3,), h=(16,), w=(16, 24), dtype=F32, net=("alex", "squeeze"), lin=(True, False), version=("0.1", "0.0"),
                          spatial=(False, True), per=(False, True), norm=(False, True), train=(False, True)),
                     lambda p: [img(p), img(p, 1)], lambda a, p, o: o(*a, retPerLayer=p["per"], normalize=p["norm"]),
                     obj=("normfix", ("net", "lin", "version", "spatial", "train")))
    c["bce"] = C(dict(b=(1, 3), gen=(False, True), nd=(0, 0, 2, 3), tv=(1.0, 0.3)),
                 lambda p: [torch.randn(p["b"], 4, generator=G(p)), torch.randn(p["b"], 4, generator=G(p, 1)),
                            torch.full((p["b"], 4, 2)[: p["nd"]], p["tv"])],
                 lambda a, p, o: o[1](a[0], a[2]) if p["gen"] else o[0](*a), obj=("bce", ()))
    c["oasis"] = C(dict(b=(1, 2), gen=(False, True), cls=(2, 5), tdt=(torch.long, torch.long, torch.float32), th=(4, 4, 4, 3)),
                   lambda p: [torch.randn(p["b"], p["cls"] + 1, 4, 5, generator=G(p)), torch.randn(p["b"], p["cls"] + 1, 4, 5, generator=G(p, 1)),
                              torch.randint(p["cls"], (p["b"], p["th"], 5), generator=G(p, 2)).to(p["tdt"])],
                   lambda a, p, o: o[1](a[0], a[2]) if p["gen"] else o[0](*a), obj=("oasis", ()))
    c["target_rate"] = C(dict(bpp=(0.14, 0.45), n=(1, 2)), lambda p: [],
                         lambda a, p, o: _rate(p), grad=False)
    return c


def _tables(prior, p):
    e = ncl.ContinuousEntropy(prior=prior, compressible=p["comp"], tail_mass=p["tm"], range_coder_precision=p["prec"])
    return e.cdfs, e.cdf_sizes, e.cdf_offsets


def _rate(p):
    t = ncloss.TargetRateConfig(p["bpp"], [1.4, 1.0], [500] * p["n"], (1.0, 2.0), [2.0, 1.0], [50])
    return [t.target_bpp, *t.target_factors, *t.target_steps, *t.lam_levels, *t.lam2_factors, *t.lam2_steps]


CALLS = _calls()
NAMES = tuple(n for n, c in CALLS.items() for _ in range(c.w))
CONC = tuple(n for n in NAMES if not CALLS[n].seq)


# ---- making a call ----------------------------------------------------------
def flat(o):
    if isinstance(o, dict):
        return [x for k in sorted(o) for x in [k] + flat(o[k])]
    if isinstance(o, (tuple, list, torch.Size)):
        return [x for v in o for x in flat(v)]
    return [o]


def obj_key(name, p):
    c = CALLS[name]
    if c.obj is None:
        return None
    kind, keys = c.obj
    return (kind, tuple((k, p[k]) for k in keys), p["weights"])


def obj_params(key):
    return dict(key[1], data=key[2])


def fingerprint(a):
    return [(tensor_hash(x), x.requires_grad) if isinstance(x, torch.Tensor) else x.tobytes() if isinstance(x, np.ndarray) else repr(type(x)) for x in a]


def make_call(name, p, grad, o, note=None):
    """Returns (arguments, outputs, gradients); notes a changed argument."""
    c = CALLS[name]
    args = c.args(p)
    if grad and c.grad:
        for x in args:
            if isinstance(x, torch.Tensor) and x.is_floating_point():
                x.requires_grad_(True)
    before = fingerprint(args)
    ids = [id(x) for x in args]
    try:
        raw = c.call(args, p, o)
    finally:
        if note is not None and (fingerprint(args) != before or ids != [id(x) for x in args]):
            note.append(name)
    outs = flat(raw)

    def gradients():
        live = [x for x in outs if isinstance(x, torch.Tensor) and x.requires_grad and x.is_floating_point()]
        leaves = [x for x in args if isinstance(x, torch.Tensor) and x.requires_grad]
        if not (grad and c.grad and live and leaves):
            return []
        loss = sum((x.double() * torch.linspace(-0.7, 1.3, x.numel(), dtype=torch.float64).view(x.shape)).sum() for x in live)
        return list(torch.autograd.grad(loss, leaves, allow_unused=True))

    return args, outs, gradients


def plain(xs):
    return [x.detach().clone() if isinstance(x, torch.Tensor) else x for x in xs]


def alone(name, p, grad):
    """The call in a pristine process: its outcome and the object afterwards."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            key = obj_key(name, p)
            o = make_object(key[0], obj_params(key)) if key else None
            seed_everything(5)
            try:
                _, outs, grads = make_call(name, p, grad, o)
                out = ("ok", plain(outs), plain(grads()))
            except Exception as e:
                out = ("exc", type(e).__name__)
            data = pickle.dumps((out, object_state(o)))
        except BaseException as e:
            data = pickle.dumps((("harness", repr(e)), None))
        with os.fdopen(w, "wb") as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    out, st = pickle.loads(data)
    if out[0] == "harness":
        raise HarnessError(f"{name} {p}: {out[1]}")
    return out, st


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, torch.Tensor) or isinstance(y, torch.Tensor):
            if not (isinstance(x, torch.Tensor) and isinstance(y, torch.Tensor)) or x.shape != y.shape or x.dtype != y.dtype:
                return False
            if x.is_floating_point():
                if not torch.allclose(x, y, rtol=1e-5, atol=1e-6, equal_nan=True):
                    return False
            elif not torch.equal(x, y):
                return False
        elif x != y and not (x != x and y != y):
            return False
    return True


def process_state(rng):
    s = {
        "default dtype": torch.get_default_dtype(), "grad mode": torch.is_grad_enabled(), "inference mode": torch.is_inference_mode_enabled(),
        "deterministic": torch.are_deterministic_algorithms_enabled(), "threads": torch.get_num_threads(), "anomaly": torch.is_anomaly_enabled(),
        "autocast": torch.is_autocast_cpu_enabled(), "numpy errors": tuple(sorted(np.geterr().items())), "cwd": os.getcwd(),
        "validate args": torch.distributions.Distribution._validate_args, "cudnn": (torch.backends.cudnn.enabled, torch.backends.cudnn.benchmark,
                                                                                   torch.backends.cudnn.deterministic),
        "mkldnn": torch.backends.mkldnn.enabled if hasattr(torch.backends.mkldnn, "enabled") else None,
        "environment": hash(frozenset(os.environ.items())),
    }
    if rng:
        s["torch random state"] = tensor_hash(torch.get_rng_state())
        s["python random state"] = hash(random.getstate())
        st = np.random.get_state()
        s["numpy random state"] = hash((st[1].tobytes(), st[2:]))
    return s


def run(sim):
    conc = sim.flip("concurrent", 0.5)
    ncall = 2 + sim.choose("callers", 2) if conc else 1
    # a history keeps coming back to a few functions, with different options
    pool = tuple(sim.pick("function", CONC if conc else NAMES) for _ in range(1 + sim.choose("functions", 3, zero=0.6)))
    plan, last = [], {}
    for c in range(ncall):
        for j in range((1 + sim.choose("calls", 3)) if conc else (2 + sim.choose("calls", 6))):
            name = sim.pick("call", pool)
            opts = sorted(CALLS[name].params.items())
            if name in last and sim.flip("similar", 0.7):
                # like an earlier call, up to one or two options
                p = dict(last[name], data=sim.pick("data", CALLS[name].params["data"]))
                for _ in range(sim.choose("changes", 3)):
                    k, v = sim.pick("option", opts)
                    p[k] = sim.pick(k, v)
            else:
                p = {k: sim.pick(k, v) for k, v in opts}
            last[name] = p
            grad = sim.flip("grad", 0.5)
            oom = sim.choose("oom.at", 40) if sim.flip("oom", 0.15) else None
            # backward right after the call, or after the caller's other calls
            late = grad and sim.flip("late", 0.5)
            plan.append((c, j, name, p, grad, oom, sim.flip("scribble", 0.5) and not late, late))
    known = {}
    for _, _, name, p, grad, _, _, _ in plan:
        if (name, repr(p), grad) not in known:
            known[name, repr(p), grad] = alone(name, p, grad)
    expect = [known[q[2], repr(q[3]), q[4]] for q in plan]
    objs, first = {}, {}
    allowed = {}
    for (c, j, name, p, grad, oom, scr, late), (out, st) in zip(plan, expect):
        k = obj_key(name, p)
        if k is not None:
            if k not in objs:
                objs[k] = make_object(k[0], obj_params(k))
                first[k] = object_state(objs[k])
                allowed[k] = {a: {b} for a, b in first[k].items()}
            # the GDN layers clamp their own parameters on use; nothing else may change
            for a, b in st.items() if k[0] in ("gdn", "igdn") else ():
                allowed[k].setdefault(a, set()).add(b)
    seed_everything(5)
    norng = any(CALLS[q[2]].draws for q in plan)
    if conc:
        sched = Sched(sim, watch=(os.path.join(REPO, "neuralcompression"),))
    kept, waiting = [], []

    def one_call(i):
        c, j, name, p, grad, oom, scribble, late = plan[i]
        want, _ = expect[i]
        key = obj_key(name, p)
        o = objs[key] if key else None
        if not conc:
            seed_everything(5)
        rng = not (CALLS[name].draws or (conc and norng))
        before = process_state(rng)
        note = []
        # fvcore leaves its hooks on a module whose forward fails: only successes count
        hooked = [hooks(m) for m in o.modules()] if isinstance(o, nn.Module) else None
        tag = f"{name} {({k: v for k, v in p.items()})} caller {c} call {j}"
        mode = FailAt(oom) if oom is not None else None
        try:
            if mode is None:
                args, outs, grads = make_call(name, p, grad, o, note)
                mine = None if late else plain(grads())
            else:
                with mode:
                    args, outs, grads = make_call(name, p, grad, o, note)
                    mine = None if late else plain(grads())
            got = ("ok", plain(outs), mine)
        except Exception as e:
            got = ("exc", type(e).__name__)
            args, outs = [], []
            msg = repr(e)
        sim.check(not note, "call-changed-its-arguments", tag)
        if mode is not None and mode.hit:
            sim.fault("allocation_failure")
            sim.check(got[0] == "exc", "failure-swallowed", tag)
        else:
            if want[0] == "exc":
                sim.fault("rejected_call")
            sim.check(got[0] == want[0], "call-outcome-depends-on-history", lambda: f"{tag}: {got[0]} ({msg if got[0] == 'exc' else ''}), alone {want[0]}")
            if got[0] == "exc":
                sim.check(got[1] == want[1], "call-error-depends-on-history", lambda: f"{tag}: {got[1]}, alone {want[1]}")
            else:
                sim.check(same(got[1], want[1]), "result-depends-on-history", lambda: f"{tag}: {str(got[1])[:300]}, alone {str(want[1])[:300]}")
                if late:
                    waiting.append((c, tag, grads, want[2]))
                else:
                    sim.check(same(got[2], want[2]), "gradient-depends-on-history", tag)
        if conc:
            for k in ("grad mode", "inference mode", "anomaly"):
                sim.check(process_state(False)[k] == before[k], "call-changed-process-state", f"{k}: {tag}")
        else:
            after = process_state(rng)
            for k in before:
                sim.check(after[k] == before[k], "call-changed-process-state", f"{k}: {tag}")
        if got[0] == "ok":
            if hooked is not None and not conc:
                sim.check(hooked == [hooks(m) for m in o.modules()], "call-left-hooks-behind", tag)
            if scribble:
                # the caller owns what it was given: it may overwrite it
                mine = {x.untyped_storage().data_ptr() for x in args if isinstance(x, torch.Tensor)}
                if o is None:
                    with torch.no_grad():
                        for x in outs:
                            if isinstance(x, torch.Tensor) and x.untyped_storage().data_ptr() not in mine and x.numel():
                                try:
                                    x.detach().fill_(1 if x.dtype == torch.bool else 77)
                                except RuntimeError:
                                    pass
            else:
                kept.append((tag, outs, want[1]))
        sim.event("done", c, j, name, got[0])

    def settle(c):
        for d, tag, grads, want in list(waiting):
            if d == c:
                sim.check(same(plain(grads()), want), "gradient-depends-on-history", tag)

    start = process_state(not norng)
    if conc:
        def caller(c):
            def f():
                for i, q in enumerate(plan):
                    if q[0] == c:
                        one_call(i)
                        sched.yield_()
                settle(c)
            return f

        res = sched.run([(f"caller{c}", caller(c)) for c in range(ncall)])
        for n, (k, v) in sorted(res.items()):
            if k == "exc":
                raise v
        after = process_state(not norng)
        for k in start:
            sim.check(after[k] == start[k], "calls-changed-process-state", k)
    else:
        for i in range(len(plan)):
            one_call(i)
        settle(0)
    for tag, outs, want in kept:
        sim.check(same(plain(outs), want), "result-changed-after-return", tag)
    for k, o in objs.items():
        now = object_state(o)
        for a, b in now.items():
            sim.check(b in allowed[k].get(a, ()), "call-changed-a-shared-object", f"{k}: {a}")
        sim.check(now.keys() == first[k].keys(), "call-changed-a-shared-object", lambda: f"{k}: {sorted(set(now) ^ set(first[k]))}")
    sim.cover(conc, tuple((q[0], q[2], repr(q[3]), q[4], q[5], q[7]) for q in plan))
