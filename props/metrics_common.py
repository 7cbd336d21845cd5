"""Stub feature networks and reference formulas for the metric harnesses."""
from _thread import get_ident

import numpy as np
import torch
import torch.nn as nn

D = 6  # feature width of the stub networks
SEEN = []  # (tag, images) every stub network was shown, when recording
FAIL = set()  # threads whose next feature computation fails


def _maybe_fail():
    if get_ident() in FAIL:
        FAIL.discard(get_ident())
        raise MemoryError("simulated allocation failure in the feature network")


class StubBackbone(nn.Module):
    """Per-image features; depends on the mode, so that train mode shows."""

    def __init__(self, *a, **k):
        super().__init__()
        g = torch.Generator().manual_seed(7)
        self.register_buffer("w", torch.randn(D, 27, generator=g, dtype=torch.float64))
        self.eval()

    def train(self, mode=True):
        return super().train(False)

    def forward(self, x):
        _maybe_fail()
        SEEN.append(x.detach().clone())
        return feats(x, self.w)


def feats(x, w):
    scale = 255.0 if x.dtype == torch.uint8 else 1.0
    x = x.to(torch.float64)
    parts = []
    h, ww = x.shape[2], x.shape[3]
    for i in range(3):
        for j in range(3):
            blk = x[:, :, i * h // 3 : max(i * h // 3 + 1, (i + 1) * h // 3),
                    j * ww // 3 : max(j * ww // 3 + 1, (j + 1) * ww // 3)]
            parts.append(blk.mean(dim=(2, 3)))
    v = torch.cat(parts, 1)
    return torch.tanh(v / scale @ w.T).to(torch.float32)


class StubDiff(nn.Module):
    def __init__(self, *a, **k):
        super().__init__()
        self.b = StubBackbone()

    def forward(self, x, y, *a, **k):
        return (self.b(x) - self.b(y)).abs().mean(1)


def install():
    import neuralcompression.metrics._dists as a
    import neuralcompression.metrics._fid as b
    import neuralcompression.metrics._fid_swav as c
    import neuralcompression.metrics._kid as d

    a.NoTrainDists = StubDiff
    b.NoTrainInceptionV3 = StubBackbone
    c.NoTrainSwAV = StubBackbone
    d.NoTrainInceptionV3 = StubBackbone


W = None


def ref_features(imgs, kind, normalize):
    """Reference features of uint8 images (N,3,H,W)."""
    global W
    if W is None:
        W = StubBackbone().w
    x = imgs
    if kind == "swav":
        x = x.float() / 255.0
        if normalize:
            m = torch.tensor([0.485, 0.456, 0.406]).view(1, 3, 1, 1)
            s = torch.tensor([0.228, 0.224, 0.225]).view(1, 3, 1, 1)
            x = (x - m) / s
    return torch.cat([feats(x[i : i + 1], W) for i in range(len(x))]).double().numpy()


def ref_fid(a, b):
    """Frechet distance of the Gaussians fitted to two feature sets."""
    mu1, mu2 = a.mean(0), b.mean(0)
    s1, s2 = np.atleast_2d(np.cov(a, rowvar=False)), np.atleast_2d(np.cov(b, rowvar=False))
    ev = np.linalg.eigvals(s1 @ s2)
    tr = np.sqrt(np.maximum(ev.real, 0)).sum()
    d = mu1 - mu2
    return float(d @ d + np.trace(s1) + np.trace(s2) - 2 * tr)


def ref_kid_full(a, b, degree, gamma, coef):
    """MMD^2 when every subset is the whole set (order independent)."""
    m = len(a)
    g = 1.0 / a.shape[1] if gamma is None else gamma
    k = lambda x, y: (x @ y.T * g + coef) ** degree
    kxx, kyy, kxy = k(a, a), k(b, b), k(a, b)
    s = (kxx.sum() - np.trace(kxx) + kyy.sum() - np.trace(kyy)) / (m * (m - 1))
    return float(s - 2 * kxy.sum() / (m * m))


def images(seed, n, size=(9, 9)):
    g = torch.Generator().manual_seed(seed)
    base = torch.rand(n, 3, 1, 1, generator=g) * 200
    x = base + torch.rand(n, 3, *size, generator=g) * 55
    return x.to(torch.uint8)


def close(a, b, rtol=1e-6, atol=1e-7):
    return abs(float(a) - float(b)) <= atol + rtol * abs(float(b))
