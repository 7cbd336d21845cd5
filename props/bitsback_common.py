"""Shared by the bits-back harnesses: stand-in dependencies, a tiny model, reference data."""
import os
import sys

from .common import REPO, base_setup

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUBS = [
    "craystack (not installed): a vectorised rANS coder with its interface, in stubs/craystack",
    "improved_diffusion, hydra, omegaconf, wandb, plotly (not installed): small stand-ins in stubs/ (Gaussian diffusion formulas, config dictionaries, loggers)",
    "the trained network: a small deterministic noise predictor",
]


def setup():
    base_setup(project="bits_back_diffusion")
    p = os.path.join(HERE, "stubs")
    if p not in sys.path:
        sys.path.insert(1, p)
    import numpy as np
    import torch

    import bits_back_diffusion.codec as codec
    import bits_back_diffusion.script_util as util

    if not os.path.realpath(codec.__file__).startswith(REPO + os.sep):
        raise RuntimeError("foreign codec")

    class Eps(torch.nn.Module):
        """Noise predictor eps(x, t)."""

        def __init__(self, ch=3, seed=0):
            super().__init__()
            g = torch.Generator().manual_seed(seed)
            self.w = torch.nn.Parameter(torch.randn(ch, ch, 3, 3, generator=g) * 0.2)
            self.b = torch.nn.Parameter(torch.randn(ch, generator=g) * 0.1)

        def forward(self, x, t, **k):
            y = torch.nn.functional.conv2d(x, self.w, self.b, padding=1)
            return torch.tanh(y + 0.01 * t.float().view(-1, 1, 1, 1)) + 0.5 * x

    return codec, util, np, torch, Eps
