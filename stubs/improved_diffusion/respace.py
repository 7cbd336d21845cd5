import numpy as np

from .gaussian_diffusion import GaussianDiffusion


class SpacedDiffusion(GaussianDiffusion):
    def __init__(self, use_timesteps, betas, **k):
        ac, last, new = np.cumprod(1 - np.asarray(betas)), 1.0, []
        for i, a in enumerate(ac):
            if i in use_timesteps:
                new.append(1 - a / last)
                last = a
        super().__init__(betas=np.array(new), **k)
