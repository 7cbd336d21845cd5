"""C12: frozen parts stay frozen over training histories with faults and restarts."""
import copy
import io
import io
import pickle

import torch
import torch.nn as nn

from dst.core import seed_everything
from dst.ops import AllocationFailure, FailAt

from .codec_common import dump, load
from .common import base_setup

RUNS = {"quick": 800, "thorough": 16000}
MEASURE = "distinct (model, frozen parts, operation history) tuples"
REAL = ["HiFiCAutoencoder freezing and collect_parameters", "VqVaeXCiTAutoencoder freezing", "VqVaeProjector", "torch optimizers"]
STUB = ["the training job: random operation histories; allocation failures at a chosen torch operation; a crash keeps only the last checkpoint"]
ASSUMPTIONS = ["gradients are cleared after a part is frozen and before the next optimizer step"]


def setup():
    global nm, nl
    base_setup()
    import neuralcompression.layers as l
    import neuralcompression.models as m

    nm, nl = m, l
    p = nn.Parameter(torch.ones(2))
    for o in (torch.optim.AdamW([p], lr=0.1), torch.optim.SGD([p], lr=0.1)):
        (p**2).sum().backward()
        o.step()


def vqvae(**kw):
    return nm.VqVaeXCiTAutoencoder(
        ch=6, ch_mult=[1, 2], num_res_blocks=1, attn_resolutions=[16], resolution=16, embed_dim=8, norm_type="channel",
        dropout=kw.pop("dropout", 0.0),
        bottleneck_op=nl.ProjectLatent(8, 4, child=nl.NormalizeLatent(child=nl.VQBottleneck(7, 4, "normal"))), **kw)


class Parent(nn.Module):
    """A user's training module owning the model (and a trained head)."""

    def __init__(self, model, head=None):
        super().__init__()
        self.model = model
        self.head = head


def load_parts(top, data):
    """Each part loads its own section: only the model itself can size its coding tables."""
    sd = torch.load(io.BytesIO(data), map_location="cpu")
    for name, part in top.named_children():
        part.load_state_dict({k[len(name) + 1 :]: v for k, v in sd.items() if k.startswith(name + ".")})


def run(sim):
    kind = sim.pick("model", ("vq", "projector", "hific"))
    flags = dict(enc=sim.flip("freeze-encoder", 0.6), bot=sim.flip("freeze-bottleneck", 0.6))
    late = kind == "hific" and sim.flip("late", 0.4)
    dropout = sim.pick("dropout", (0.0, 0.3)) if kind != "hific" else 0.0
    seed = sim.choose("weights", 30)
    now = dict(flags) if not late else dict(enc=False, bot=False)

    def build():
        seed_everything(50 + seed)
        if kind == "hific":
            m = nm.HiFiCAutoencoder(3, 4, 4, 0, freeze_encoder=now["enc"], freeze_bottleneck=now["bot"])
            return Parent(m)
        if kind == "vq":
            return Parent(vqvae(freeze_encoder=flags["enc"], freeze_bottleneck=flags["bot"], dropout=dropout))
        proj = nm.VqVaeProjector(vqvae(dropout=dropout))
        return Parent(proj, nn.Conv2d(3, 3, 3, padding=1))

    def frozen_modules(p):
        m = p.model
        if kind == "projector":
            return [m]
        out = []
        if now["enc"]:
            out.append(m.encoder)
        if now["bot"]:
            out += ([m.hyper_bottleneck, m.hyper_synthesis_mean, m.hyper_synthesis_scale, m.hyper_analysis, m.latent_bottleneck]
                    if kind == "hific" else [m.bottleneck_op])
        return out

    def optimizer(p):
        ps = [q for q in p.parameters() if q.requires_grad or sim.flip("all-params", 0.0)]
        if every:
            ps = list(p.parameters())
        return torch.optim.AdamW(ps, lr=0.01, weight_decay=0.1) if otype else torch.optim.SGD(ps, lr=0.01, momentum=0.9, weight_decay=0.1)

    otype = sim.choose("optimizer", 2)
    every = sim.flip("optimizer-gets-all", 0.4)
    top = build()
    opt = optimizer(top)
    ckpt = pickle.dumps((dump(top), dict(now)))

    def snap():
        return [
            {k: v.clone() for k, v in f.state_dict().items() if "hits" not in k} for f in frozen_modules(top)
        ]

    base = snap()
    size = 64 if kind == "hific" else 16
    hist = [kind, tuple(sorted(flags.items())), late]

    def image():
        g = torch.Generator().manual_seed(sim.choose("image", 20))
        return torch.rand(1 + sim.choose("batch", 2), 3, size, size, generator=g)

    def forward(x):
        if kind == "projector":
            y = top.head(x)
            lab = top.model(y)
            return y, lab
        out = top.model(x)
        return out.image, out

    def verify(op, trained=False):
        cur = [{k: v for k, v in f.state_dict().items() if "hits" not in k} for f in frozen_modules(top)]
        for a, b in zip(base, cur):
            for k in a:
                sim.check(torch.equal(a[k], b[k]), "frozen-state-changed", f"{hist} after {op}: {k}")
        frozen = {id(q) for f in frozen_modules(top) for q in f.parameters()}
        if kind == "hific":
            mp, qp = top.model.collect_parameters()
            ids = [id(q) for q in mp + qp]
            want = {id(q) for q in top.model.parameters() if q.requires_grad}
            sim.check(len(ids) == len(set(ids)) and set(ids) == want, "parameter-groups-do-not-partition", f"{hist}")
            names = {id(q): n for n, q in top.model.named_parameters()}
            sim.check(all(names[id(q)].endswith(".quantiles") for q in qp) and not any(names[id(q)].endswith(".quantiles") for q in mp),
                      "parameter-in-wrong-group", f"{hist}")
            sim.check(not (set(ids) & frozen), "frozen-parameter-offered-for-training", f"{hist} after {op}")
        if kind == "projector":
            sim.check(not any(mod.training for mod in top.model.modules()), "projector-in-training-mode", f"{hist} after {op}")
            sim.check(not any(q.requires_grad for q in top.model.parameters()), "projector-trainable", f"{hist} after {op}")

    for _ in range(2 + sim.choose("ops", 6 if kind == "hific" else 12)):
        op = sim.pick("op", ("step", "train", "eval", "forward", "oom", "checkpoint", "crash", "copy", "noise", "freeze", "child-train", "update"))
        hist.append(op)
        if op == "step" or op == "oom":
            mode = FailAt(sim.choose("oom.at", 120)) if op == "oom" else None
            opt.zero_grad()
            before = {n: q.clone() for n, q in top.named_parameters()}
            try:
                if mode is not None:
                    with mode:
                        y, _ = forward(image())
                else:
                    y, _ = forward(image())
                    loss = ((y - 0.3) ** 2).mean()
                    if kind == "hific":
                        loss = loss + _.latent_likelihoods.clamp_min(1e-9).log().mean() * -0.1 + _.hyper_latent_likelihoods.clamp_min(1e-9).log().mean() * -0.1
                    loss.backward()
                    frozen = {id(q) for f in frozen_modules(top) for q in f.parameters()}
                    sim.check(not any(q.grad is not None and bool(q.grad.any()) for q in top.parameters() if id(q) in frozen),
                              "gradient-in-frozen-part", f"{hist}")
                    opt.step()
                    moved = [n for n, q in top.named_parameters() if not torch.equal(q, before[n])]
                    sim.check(bool(moved), "nothing-trained", f"{hist}")
                    part = {"hific": "model.decoder", "vq": "model.decoder", "projector": "head"}[kind]
                    sim.check(any(n.startswith(part) for n in moved), "trainable-part-did-not-train", f"{hist} {moved[:5]}")
            except Exception:
                if mode is None or not mode.hit:
                    raise
                sim.fault("allocation_failure")
                opt.zero_grad()
        elif op == "train":
            top.train()
        elif op == "child-train":
            top.model.train(sim.flip("mode", 0.7))
        elif op == "eval":
            top.eval()
        elif op == "forward":
            with torch.no_grad():
                forward(image())
        elif op == "noise":
            # frozen parts compute the same in training mode, whatever the random state
            x = image()
            with torch.no_grad():
                torch.manual_seed(1)
                a = forward(x)[1]
                torch.manual_seed(2)
                b = forward(x)[1]
            if kind == "projector":
                sim.check(torch.equal(a, b), "projector-output-random", f"{hist}")
            elif kind == "hific" and now["bot"]:
                sim.check(torch.equal(a.latent_likelihoods, b.latent_likelihoods) and torch.equal(a.hyper_latent, b.hyper_latent)
                          and torch.equal(a.image, b.image),
                          "frozen-bottleneck-noisy", f"{hist}")
            elif kind == "vq" and now["enc"]:
                sim.check(torch.equal(a.indices, b.indices) and torch.equal(a.latent, b.latent), "frozen-encoder-noisy", f"{hist}")
        elif op == "checkpoint":
            ckpt = pickle.dumps((dump(top), dict(now)))
        elif op == "crash":
            sim.fault("job_kill")
            data, now2 = pickle.loads(ckpt)
            now.clear()
            now.update(now2)
            top = build()
            load_parts(top, data)
            opt = optimizer(top)
            base = snap()
        elif op == "copy":
            if kind != "hific" or sim.flip("pickle", 0.5):
                top = copy.deepcopy(top)
            else:
                top = pickle.loads(pickle.dumps(top))
            opt = optimizer(top)
        elif op == "freeze" and kind == "hific" and late:
            which = sim.pick("part", ("enc", "bot"))
            opt.zero_grad()
            (top.model.freeze_encoder if which == "enc" else top.model.freeze_bottleneck)()
            now[which] = True
            base = snap()
        elif op == "update" and kind == "hific":
            top.model.update_tensor_devices("compress")
            top.model.update_tensor_devices("forward")
            base = snap()
        verify(op)
        sim.event("op", op)
    sim.cover(tuple(hist))
