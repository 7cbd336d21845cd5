"""C01: image packets sent over a faulty network decode to the sender's reconstruction."""
import torch

from dst.core import seed_everything, tensor_hash

from .codec_common import Frozen, Wire, dump, load
from .common import base_setup

RUNS = {"quick": 240, "thorough": 6000}
MEASURE = ("distinct (model configuration, weights, checkpoint kind, image shape, node history, delivery order) tuples")
REAL = ["neuralcompression.models.HiFiCAutoencoder (all of it, with narrow latents)",
        "compressai entropy bottlenecks and range coder", "neuralcompression.functional.pad_image_to_factor"]
STUB = ["the network between sender and receiver nodes (loss, duplication, reordering, delay, partition)",
        "node crashes: the node's model object is discarded and rebuilt from the checkpoint bytes"]
ASSUMPTIONS = ["sender and receivers run the same numeric libraries on the same kind of device (CPU)",
               "images are at least 33 pixels on each side that is not a multiple of 64 (reflection padding)"]
SHAPES = [(1, 64, 64), (1, 64, 50), (1, 33, 64), (1, 49, 37), (2, 64, 40), (1, 70, 64), (1, 64, 97), (3, 40, 40), (1, 128, 64)]


def setup():
    global HiFiC
    base_setup()
    from neuralcompression.models import HiFiCAutoencoder as H

    HiFiC = H


def shape_weights(model, sim, seed):
    """Stand-in for training: weights for which latents spread over many symbols."""
    g = torch.Generator().manual_seed(seed)
    amp = sim.pick("w.amp", (4.0, 30.0, 1.0, 120.0))
    hyp = sim.pick("w.hyper", (8.0, 60.0, 1.0))
    with torch.no_grad():
        model.encoder.blocks[-1].weight.mul_(amp)
        for seq in (model.hyper_analysis, model.hyper_synthesis_mean, model.hyper_synthesis_scale):
            seq[-1].weight.mul_(hyp)
            seq[-1].bias.add_(torch.randn(seq[-1].bias.shape, generator=g) * 2)
        model.hyper_synthesis_scale[-1].bias.add_(1.5)
        for n, p in model.named_parameters():
            if n.endswith(".quantiles"):
                mid = torch.randn(p.shape[0], generator=g) * 3
                width = 3 + torch.rand(p.shape[0], generator=g) * 12
                p[:, 0, 1] = mid
                p[:, 0, 0] = mid - width
                p[:, 0, 2] = mid + width


def run(sim):
    cfg = (sim.pick("channels", (3, 1)), sim.pick("latent", (6, 4)), sim.pick("hyper", (4, 7)),
           sim.choose("residual", 2, zero=0.7))
    seed = sim.choose("weights", 40)

    def build(salt):
        seed_everything(1000 + salt)
        return HiFiC(cfg[0], cfg[1], cfg[2], cfg[3])

    origin = build(seed)
    shape_weights(origin, sim, seed)
    origin.eval()
    updated = sim.flip("ckpt-after-update", 0.5)
    if updated:
        origin.update_tensor_devices("compress")
    ckpt = dump(origin)
    truth = load(build(7), ckpt).eval()

    salt = [50]

    def node():
        salt[0] += 1
        m = load(build(salt[0]), ckpt).eval()
        m.update_tensor_devices("compress")
        return m, Frozen(m)

    imgs, expected, packets = [], [], []
    for k in range(1 + sim.choose("images", 3)):
        b, h, w = sim.pick("shape", SHAPES)
        if sim.flip("any-size", 0.25):
            b, h, w = 1 + sim.choose("b", 4), 33 + sim.choose("h", 100), 33 + sim.choose("w", 100)
        g = torch.Generator().manual_seed(7000 + 31 * k + seed)
        style = sim.choose("style", 4)
        x = torch.rand(b, cfg[0], h, w, generator=g)
        if style == 1:
            x = (x > 0.5).float()
        elif style == 2:
            x = torch.linspace(0, 1, w).expand(b, cfg[0], h, w) * x.mean()
        elif style == 3:
            x = torch.zeros_like(x)
        imgs.append(x.clone())
        ph, pw = -h % 64, -w % 64
        # independent padding: mirror without repeating the edge
        rows = list(range(h)) + [h - 2 - i for i in range(ph)]
        cols = list(range(w)) + [w - 2 - i for i in range(pw)]
        padded = x[:, :, rows][:, :, :, cols]
        with torch.no_grad():
            out = truth(padded.clone()).image
        expected.append(out[:, :, :h, :w].clamp(0, 1))
        packets.append(None)

    wire = Wire(sim)
    nodes = {"S": node(), "R": node()}
    got = {}
    hist = []

    def send(k):
        m, before = nodes["S"]
        x = imgs[k].clone()
        if sim.flip("layout", 0.3):
            # part of a larger tensor
            x = torch.nn.functional.pad(x, (1, 2, 3, 1), value=2.0)[:, :, 3:-1, 1:-2]
        with torch.set_grad_enabled(sim.flip("grad", 0.3)):
            p = m.compress(x, force_cpu=not sim.flip("no-force", 0.3))
        sim.check(torch.equal(x, imgs[k]), "compress-changed-the-image", k)
        sim.check(before.same(m), "compress-changed-the-model", k)
        key = (tuple(p.latent_strings), tuple(p.hyper_latent_strings), tuple(p.image_size), tuple(p.padded_size))
        if packets[k] is None:
            packets[k] = key
        sim.check(packets[k] == key, "same-image-different-packet", f"image {k} {tuple(x.shape)}")
        sim.event("send", k, sum(map(len, p.latent_strings)), sum(map(len, p.hyper_latent_strings)))
        wire.send("R", (k, p))

    def receive():
        d = wire.deliver()
        if d is None:
            return False
        _, (k, p) = d
        m, before = nodes["R"]
        keep = repr(p)
        with torch.set_grad_enabled(sim.flip("grad", 0.3)):
            y = m.decompress(p, force_cpu=not sim.flip("no-force", 0.3)).detach()
        sim.check(repr(p) == keep, "decompress-changed-the-packet", k)
        sim.check(before.same(m), "decompress-changed-the-model", k)
        e = expected[k]
        sim.check(y.shape == e.shape, "wrong-size", f"{tuple(y.shape)} expected {tuple(e.shape)}")
        err = float((y - e).abs().max())
        sim.check(err <= 1e-4, "decoded-image-differs", f"image {k} {tuple(imgs[k].shape)} max error {err}")
        sim.event("recv", k, tensor_hash((y * 1000).round()))
        got[k] = got.get(k, 0) + 1
        hist.append(("recv", k))
        return True

    for _ in range(3 + sim.choose("ops", 7)):
        op = sim.pick("op", ("send", "recv", "crash-R", "crash-S", "forward", "train", "partition", "reload"))
        hist.append(op)
        if op == "send":
            send(sim.choose("which", len(imgs)))
        elif op == "recv":
            receive()
        elif op.startswith("crash"):
            sim.fault("node_crash")
            nodes[op[-1]] = node()
        elif op == "forward":
            m = nodes[sim.pick("node", ("S", "R"))][0]
            m.update_tensor_devices("forward")
            with torch.no_grad():
                m(torch.rand(1, cfg[0], 64, 64, generator=torch.Generator().manual_seed(3)))
            m.update_tensor_devices("compress")
        elif op == "reload" and updated:
            # the checkpoint is loaded again into the running node (compressai refuses one
            # without tables there)
            m = load(nodes[sim.pick("node", ("S", "R"))][0], ckpt)
            m.update_tensor_devices("compress")
        elif op == "train":
            m = nodes[sim.pick("node", ("S", "R"))][0]
            m.train()
            m.eval()
        elif op == "partition":
            wire.partitioned = not wire.partitioned
            sim.fault("partition" if wire.partitioned else "heal")
    # faults stop: everything must arrive
    wire.heal()
    for k in range(len(imgs)):
        if k not in got:
            send(k)
    while receive():
        pass
    sim.check(len(got) == len(imgs), "image-never-arrived", sorted(got))
    sim.cover(cfg, seed, updated, tuple(tuple(x.shape) for x in imgs), tuple(hist))
