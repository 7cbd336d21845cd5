"""C14: pretrained model entry points under network/disk faults, kills and concurrent loads."""
import io
import os
import sys
import uuid

import torch
import torch.nn as nn

from dst.core import HarnessError, seed_everything
from dst.disk import SimDisk, tree
from dst.net import SimNet
from dst.sched import Sched

from .common import REPO, base_setup

RUNS = {"quick": 1100, "thorough": 30000}
MEASURE = "distinct (entry points, cache state before, outcome, faults hit, cache state after) tuples plus distinct caller interleavings"
REAL = ["neuralcompression.zoo and hubconf.py entry points", "torch.hub downloader and torch.load", "urllib.request, http.client, shutil",
        "kernel file system below a scratch root"]
STUB = ["the web server and TCP (simulated socket behind urllib's opener seam)", "system-call layer of the scratch directory",
        "the network architectures: a tiny module with the same load_state_dict contract stands in for HiFiCAutoencoder and VqVaeXCiTAutoencoder, "
        "and small per-model weights for the published files"]
ASSUMPTIONS = ["torch.hub caches whatever body the server completed; a cached truncated or foreign body has to be deleted by the user before a retry can succeed",
               "a rename inside the cache directory does not fail (torch.hub's shutil.move would then copy to the final name, which is not atomic)"]
BASE = "https://dl.fbaipublicfiles.com/NeuralCompression/2023-muckley-msillm/"
Q = {"quality_vlo1": "0.00218", "quality_vlo2": "0.00438", "quality_1": "0.035", "quality_2": "0.07", "quality_3": "0.14",
     "quality_4": "0.3", "quality_5": "0.45", "quality_6": "0.9"}
ENTRIES = {f"msillm_{q}": f"msillm_target_{v}bpp.ckpt" for q, v in Q.items()}
ENTRIES.update({f"noganms_{q}": f"noganms_target_{v}bpp.ckpt" for q, v in Q.items() if "vlo" not in q})
ENTRIES["vqvae_xcit_p8_ch64_cb1024_h8"] = "vqvae_xcit_p8_ch64_cb1024_h8.ckpt"
NAMES = sorted(ENTRIES)
RAISING = ("dns_failure", "connect_timeout", "http_503", "http_404", "conn_reset", "read_timeout")
STICKY = ("truncated_body", "wrong_body", "empty_body")
DISK = ("enospc", "eio_write", "short_write", "eio_read")


class Tiny(nn.Module):
    def __init__(self, *a, **k):
        super().__init__()
        self.body = nn.Sequential(nn.Conv2d(3, 4, 3), nn.BatchNorm2d(4), nn.Conv2d(4, 3, 3))
        self.register_buffer("table", torch.zeros(5))
        self.encoder, self.bottleneck_op = self.body[0], None


def setup():
    global zoo, hubconf, SERVER, WEIGHTS, MISFIT
    base_setup()
    import neuralcompression.models as nm

    heavy = (nm.HiFiCAutoencoder, nm.VqVaeXCiTAutoencoder)
    for m in list(sys.modules):
        if m.startswith("neuralcompression.zoo"):
            del sys.modules[m]
    for m in [v for k, v in sys.modules.items() if k.split(".")[0] == "neuralcompression"]:
        for k, v in list(vars(m).items()):
            if any(v is h for h in heavy):
                setattr(m, k, Tiny)
    import neuralcompression.zoo as z

    sys.path.insert(0, REPO)
    import hubconf as h

    if not os.path.realpath(h.__file__).startswith(REPO + os.sep):
        raise RuntimeError("foreign hubconf")
    zoo, hubconf = z, h
    SERVER, WEIGHTS, MISFIT = {}, {}, {}
    for i, n in enumerate(NAMES):
        torch.manual_seed(5000 + i)
        t = Tiny()
        for p in t.state_dict().values():
            if p.is_floating_point():
                p.copy_(torch.randn(p.shape))
        buf = io.BytesIO()
        torch.save(t.state_dict(), buf)
        SERVER[BASE + ENTRIES[n]] = buf.getvalue()
        for odd in ("missing", "extra", "shape"):
            sd = dict(t.state_dict())
            if odd == "missing":
                del sd["body.2.weight" if i % 2 else "body.1.running_var"]
            elif odd == "extra":
                sd["body.3.bias"] = torch.zeros(3)
            else:
                sd["body.2.weight"] = torch.zeros(3, 4, 5, 5)
            buf = io.BytesIO()
            torch.save(sd, buf)
            MISFIT[n, odd] = buf.getvalue()
        WEIGHTS[n] = {k: v.clone() for k, v in t.state_dict().items()}


def entry(name, via):
    if via == "zoo":
        return getattr(zoo, name)
    if via == "hubconf":
        return getattr(hubconf, "msillm_" + name if name.startswith("vqvae") else name)

    def f(**kw):
        return torch.hub.load(REPO, "msillm_" + name if name.startswith("vqvae") else name, source="local", **kw)

    return f


def cache_state(root, server):
    out = []
    d = os.path.join(root, "checkpoints")
    if os.path.isdir(d):
        for n in sorted(os.listdir(d)):
            with open(os.path.join(d, n), "rb") as f:
                data = f.read()
            out.append((n if not n.endswith(".partial") else "partial", data == server.get(BASE + n)))
    return tuple(out)


def load_once(sim, net, disk, root, plan, serial):
    """plan: list (callers) of lists of (name, via, pretrained)."""

    def main():
        torch.hub.set_dir(root)
        k = [0]

        def uid():
            k[0] += 1
            return uuid.UUID(int=(serial << 32) + k[0])

        real = uuid.uuid4
        uuid.uuid4 = uid
        sched = Sched(sim, watch=(os.path.join(REPO, "neuralcompression", "zoo"), torch.hub.__file__))
        net.sched = disk.sched = sched
        got = []

        def caller(c):
            def f():
                for name, via, pre in plan[c]:
                    n0 = len(net.requests)
                    effective = pre if pre is not None else via != "zoo"
                    try:
                        m = entry(name, via)(**({} if pre is None else {"pretrained": pre}))
                    except Exception as e:
                        got.append((c, name, effective, "exc", f"{type(e).__name__}: {str(e)[:120]}", 0))
                        continue
                    sd = m.state_dict()
                    ok = all(torch.equal(sd[k], v) for k, v in WEIGHTS[name].items()) and sd.keys() == WEIGHTS[name].keys()
                    got.append((c, name, effective, "ok" if ok == bool(effective) else "wrong", "", len(net.requests) - n0))
                    sched.yield_()
            return f

        try:
            with sched.patched_threading(), net.installed(), disk.installed():
                res = sched.run([(f"caller{c}", caller(c)) for c in range(len(plan))])
        finally:
            uuid.uuid4 = real
        for _, (kind, v) in sorted(res.items()):
            if kind == "exc":
                raise v
        return got, net.requests

    out = sim.process(main)
    if out[0] == "ok":
        net.requests = out[1][1]
    net.armed = {}
    disk.disarm()
    return out


def run(sim):
    root = os.path.join(sim.scratch, "hub")
    server = dict(SERVER)
    net = SimNet(sim, server)
    disk = SimDisk(sim, sim.scratch)
    disk.rename_faults = False
    serial = 0
    pool = [sim.pick("model", NAMES) for _ in range(1 + sim.choose("models", 3))]
    # what is published under this name does not fit the model: nothing may be returned for it
    misfit = sim.pick("misfit", pool) if sim.flip("misfit?", 0.15) else None
    if misfit:
        server[BASE + ENTRIES[misfit]] = net.files[BASE + ENTRIES[misfit]] = MISFIT[misfit, sim.pick("misfit.how", ("missing", "extra", "shape"))]

    def plan(ncall):
        return [[(sim.pick("which", pool), sim.pick("via", ("zoo", "hubconf", "hub")), sim.pick("pretrained", (True, None, False), zero=0.7))
                 for _ in range(1 + sim.choose("loads", 2))] for _ in range(ncall)]

    for _ in range(1 + sim.choose("rounds", 3)):
        serial += 1
        p = plan(1 + sim.choose("callers", 3))
        before = cache_state(root, server)
        net.arm(horizon=4, kinds=RAISING + (STICKY if sim.flip("sticky", 0.3) else ()), max_faults=2, zero=0.4)
        disk.arm(horizon=25, kinds=DISK, max_faults=1, zero=0.5, crash=0.4)
        f0 = dict(sim.faults)
        out = load_once(sim, net, disk, root, p, serial)
        hit = sorted(k for k in sim.faults if sim.faults[k] != f0.get(k, 0))
        after = cache_state(root, server)
        if out[0] == "exc":
            raise HarnessError(f"{out[1:]}")
        if out[0] == "ok":
            for c, name, pre, kind, detail, nreq in out[1][0]:
                sim.event("load", c, name, pre, kind)
                sim.check(kind != "wrong" or name == misfit, "not-the-published-weights" if pre else "unrequested-weights", f"{name} {hit} {before}")
                if not pre and kind == "ok" and len(p) == 1:
                    sim.check(nreq == 0, "network-used-without-pretrained", name)
                sim.check(kind == "exc" or name != misfit or not pre, "misfit-weights-accepted", name)
                if kind == "exc":
                    sim.check((bool(hit) or name == misfit) and pre, "healthy-load-failed", f"{name}: {detail} {before}")
                if kind == "ok" and pre and len(p) == 1 and (ENTRIES[name], True) in before:
                    sim.check(nreq == 0, "cached-weights-fetched-again", name)
        sim.cover(tuple(sorted(pool)), before, out[0], tuple(hit), after)
        # a completed foreign body stays in torch.hub's cache: the user deletes it
        for n, ok in after:
            if not ok and n != "partial":
                sim.check(any(h.split(".")[-1] in STICKY for h in hit), "damaged-file-in-cache", f"{n} after {hit}")
                os.remove(os.path.join(root, "checkpoints", n))
        want = set(net.requests) - {BASE + v for v in ENTRIES.values()}
        sim.check(not want, "unknown-url-requested", str(sorted(want)[:3]))
    # faults have stopped
    serial += 1
    p = [[(n, "zoo", True) for n in pool]]
    out = load_once(sim, net, disk, root, p, serial)
    sim.check(out[0] == "ok" and all(g[3] == ("exc" if g[1] == misfit else "ok") for g in out[1][0]), "no-recovery-after-faults", f"{out[1]}")
    got = {BASE + ENTRIES[n] for n in pool}
    for n in pool:
        sim.check((ENTRIES[n], True) in cache_state(root, server), "cache-not-exact", n)
