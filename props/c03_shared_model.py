"""C03: concurrent callers sharing one eval-mode model do not influence each other."""
import copy
import os
import pickle

import torch

from dst.core import seed_everything, tensor_hash
from dst.ops import AllocationFailure, FailAt
from dst.sched import Sched

from . import c02_video_packets as c02
from .codec_common import Frozen
from .common import REPO, base_setup

RUNS = {"quick": 900, "thorough": 20000}
MEASURE = "distinct caller interleavings (sequence of (caller, step) hand-overs) plus distinct (model, operations, sizes) tuples"
REAL = ["HiFiCAutoencoder, DVC, VqVaeXCiTAutoencoder with ProjectLatent/NormalizeLatent/VQBottleneck, VqVaeProjector, "
        "UnetDiscriminator, ConditionalUnetDiscriminator and the compressai entropy models they use"]
STUB = ["callers are tasks of the baton scheduler, preempted between any two source lines of neuralcompression and compressai's entropy models"]
ASSUMPTIONS = ["callers only use inference operations (no mode, device or weight changes while calls are in flight)"]


def setup():
    global nm, nl, CA
    base_setup()
    import compressai.entropy_models as ce

    import neuralcompression.layers as l
    import neuralcompression.models as m

    nm, nl = m, l
    CA = os.path.dirname(os.path.realpath(ce.__file__))
    c02.setup()


def build(kind, sim):
    seed = sim.choose("weights", 20)
    seed_everything(300 + seed)
    if kind == "hific":
        m = nm.HiFiCAutoencoder(3, 4, 4, 0)
        with torch.no_grad():
            m.encoder.blocks[-1].weight.mul_(20)
            m.hyper_analysis[-1].weight.mul_(30)
            m.hyper_synthesis_scale[-1].weight.mul_(10)
        m.eval()
        m.update_tensor_devices("compress")
        m.update_tensor_devices("forward")
    elif kind == "dvc":
        cfg = dict(default=False, ch=4, layers=sim.pick("layers", (3, 2)), gdn=sim.flip("gdn", 0.5), levels=3, kernel=3)
        m = c02.build(cfg, seed)
        c02.shape_weights(m, sim, seed)
        m.eval()
        m.update()
    elif kind in ("vq", "projector"):
        norm = sim.pick("norm", ("channel", "group"))
        vq = nl.VQBottleneck(codebook_size=sim.pick("codebook", (16, 5)), vector_length=4,
                             init_distribution=sim.pick("init", ("normal", "uniform")))
        m = nm.VqVaeXCiTAutoencoder(
            ch=16 if norm == "group" else 6, ch_mult=[1, 2, 2], num_res_blocks=1, attn_resolutions=[16], resolution=32,
            embed_dim=16, norm_type=norm,
            bottleneck_op=nl.ProjectLatent(16, 4, child=nl.NormalizeLatent(child=vq)))
        if kind == "projector":
            m = nm.VqVaeProjector(m)
        m.eval()
    elif kind == "disc":
        m = nm.UnetDiscriminator(5, sim.pick("factor", (4, 1)), chans=[3, 8, 8, 12],
                                 norm_type=sim.pick("dnorm", ("spectral", "batch", "instance", "identity")))
        m.eval()
    else:
        m = nm.ConditionalUnetDiscriminator(5, sim.pick("factor", (4, 1)), context_in=4, context_out=3, chans=[6, 8, 8, 12],
                                            norm_type=sim.pick("dnorm", ("spectral", "batch", "instance", "identity")))
        m.eval()
    return m


def make_input(kind, sim, j, op):
    g = torch.Generator().manual_seed(900 + j + 13 * sim.choose("input", 30))
    b = 1 + sim.choose("batch", 2)
    if kind == "hific":
        h, w = sim.pick("size", ((64, 64), (40, 64), (64, 35)))
        if op == "forward":  # forward does not pad
            h = w = 64
        return (torch.rand(1, 3, h, w, generator=g),)
    if kind == "dvc":
        h, w = 16 + sim.choose("h", 20), 16 + sim.choose("w", 20)
        a = torch.rand(b, 3, h, w, generator=g)
        return (a, (torch.roll(a, 1, 3) * 0.9).contiguous())
    if kind == "vq":
        h, w = 8 + sim.choose("h", 17), 8 + sim.choose("w", 17)
        return (torch.rand(b, 3, h, w, generator=g),)
    if kind == "projector":
        h, w = 8 + 4 * sim.choose("h", 4), 8 + 4 * sim.choose("w", 4)
        return (torch.rand(b, 3, h, w, generator=g),)
    h, w = 16 + 8 * sim.choose("h", 3), 16 + 8 * sim.choose("w", 3)
    x = torch.rand(b, 3, h, w, generator=g)
    return (x,) if kind == "disc" else (x, torch.rand(b, 4, 3, 3, generator=g))


OPS = {"hific": ("forward", "compress", "decompress"), "dvc": ("forward", "compress", "decompress")}


def flat(o):
    if isinstance(o, torch.Tensor) or o is None or isinstance(o, (bytes, str, int, float)):
        return [o]
    if hasattr(o, "__dataclass_fields__"):
        return [x for k in sorted(o.__dataclass_fields__) for x in flat(getattr(o, k))]
    return [x for v in o for x in flat(v)]


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, torch.Tensor):
            if not isinstance(y, torch.Tensor) or x.shape != y.shape or x.dtype != y.dtype:
                return False
            if x.is_floating_point():
                if not torch.allclose(x, y, rtol=1e-5, atol=1e-5, equal_nan=True):
                    return False
            elif not torch.equal(x, y):
                return False
        elif x != y:
            return False
    return True


def call(m, kind, op, x, packet):
    with torch.no_grad():
        if op == "snapshot":
            return pickle.dumps([(k, v.numpy().tobytes()) for k, v in m.state_dict().items() if "hits" not in k])
        if op == "bad":
            try:
                if kind == "hific":
                    m.compress(x[0][:, :2])
                else:
                    m(*(t[:, :2] for t in x))
            except Exception as e:
                return ["rejected"]
            return ["accepted"]
        if op == "forward":
            return m(*x)
        if op == "compress":
            return m.compress(*x)
        if kind == "hific":
            return m.decompress(packet)
        return m.decompress(x[0], packet)


def hits(m):
    return [v.clone() for k, v in m.state_dict().items() if "codebook_hits" in k]


def run(sim):
    kind = sim.pick("model", ("vq", "dvc", "projector", "disc", "cdisc", "hific"))
    m = build(kind, sim)
    ncall = 2 + sim.choose("callers", 2)
    plan, expect, total, maybe = [], [], hits(m), hits(m)
    for c in range(ncall):
        ops = []
        for j in range(1 + sim.choose("calls", 3 if kind != "hific" else 2)):
            op = sim.pick("op", OPS.get(kind, ("forward",) * 3) * 2 + ("bad", "snapshot"))
            x = make_input(kind, sim, 10 * c + j, op)
            alone = copy.deepcopy(m)
            packet = call(copy.deepcopy(m), kind, "compress", x, None) if op == "decompress" else None
            want = flat(call(alone, kind, op, tuple(t.clone() for t in x), pickle.loads(pickle.dumps(packet))))
            oom = None
            if op not in ("bad", "snapshot") and sim.flip("oom", 0.2):
                oom = sim.choose("oom.at", 60)
            # a failed call may or may not have counted
            if op != "bad" and oom is None:
                total = [t + h for t, h in zip(total, hits(alone))]
            maybe = [t + h for t, h in zip(maybe, hits(alone))]
            ops.append((op, x, packet, oom))
            expect.append(((c, j), want))
        plan.append(ops)
    expect = dict(expect)
    frozen = Frozen(m)
    sched = Sched(sim, watch=(os.path.join(REPO, "neuralcompression"), CA))

    def caller(c):
        def f():
            for j, (op, x, packet, oom) in enumerate(plan[c]):
                mine = tuple(t.clone() for t in x)
                keep = repr(packet)
                if op == "bad":
                    sim.fault("bad_input")
                if oom is None:
                    out = flat(call(m, kind, op, mine, packet))
                else:
                    mode = FailAt(oom)
                    try:
                        with mode:
                            out = flat(call(m, kind, op, mine, packet))
                    except Exception:
                        if not mode.hit:
                            raise
                        out = None
                    if mode.hit:
                        sim.fault("allocation_failure")
                        sim.check(out is None, "failure-swallowed", f"{kind} {op}")
                if out is None:
                    sim.check(all(torch.equal(a, b) for a, b in zip(mine, x)), "call-changed-its-input", f"{kind} {op}")
                    sched.yield_()
                    continue
                sim.check(all(torch.equal(a, b) for a, b in zip(mine, x)), "call-changed-its-input", f"{kind} {op}")
                sim.check(repr(packet) == keep, "call-changed-its-packet", f"{kind} {op}")
                sim.check(same(out, expect[(c, j)]), "concurrent-call-differs", f"{kind} {op} caller {c} call {j}")
                # a later look at the same result: nobody may write into it
                results.append((c, j, op, out))
                sim.event("done", c, j, op)
                sched.yield_()
        return f

    results = []
    res = sched.run([(f"caller{c}", caller(c)) for c in range(ncall)])
    for n, (k, v) in sorted(res.items()):
        if k == "exc":
            raise v
    for c, j, op, out in results:
        sim.check(same(out, expect[(c, j)]), "result-changed-after-return", f"{kind} {op}")
    sd = {k: v for k, v in frozen.sd.items() if "codebook_hits" not in k}
    now = m.state_dict()
    sim.check(all(torch.equal(now[k], v) for k, v in sd.items()) and now.keys() == frozen.sd.keys(), "inference-changed-the-model", kind)
    sim.check(all(bool((a <= b).all()) and bool((b <= c).all()) for a, b, c in zip(total, hits(m), maybe)),
              "usage-counts-wrong", lambda: f"{kind} {hits(m)} {total} {maybe}")
    sim.cover(kind, tuple(tuple((o[0], o[3], tuple(o[1][0].shape)) for o in ops) for ops in plan))
    if kind == "hific":
        sim.check(m.device_setting == "forward", "device-setting-changed", m.device_setting)
