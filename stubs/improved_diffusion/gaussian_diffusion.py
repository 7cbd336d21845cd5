import enum
import math

import numpy as np
import torch


class ModelMeanType(enum.Enum):
    START_X = enum.auto()
    EPSILON = enum.auto()


class ModelVarType(enum.Enum):
    FIXED_SMALL = enum.auto()
    FIXED_LARGE = enum.auto()
    LEARNED_RANGE = enum.auto()


class LossType(enum.Enum):
    MSE = enum.auto()
    RESCALED_MSE = enum.auto()
    KL = enum.auto()
    RESCALED_KL = enum.auto()


def get_named_beta_schedule(name, steps):
    if name == "linear":
        s = 1000 / steps
        return np.linspace(s * 0.0001, min(0.9, s * 0.02), steps, dtype=np.float64)

    def bar(t):
        return math.cos((t + 0.008) / 1.008 * math.pi / 2) ** 2

    return np.array([min(1 - bar((i + 1) / steps) / bar(i / steps), 0.999) for i in range(steps)])


def _at(arr, t, x):
    v = torch.from_numpy(arr).to(t.device)[t].float()
    return v.view(-1, *([1] * (x.dim() - 1))).expand(x.shape)


class GaussianDiffusion:
    def __init__(self, *, betas, model_mean_type=None, model_var_type=None, loss_type=None, rescale_timesteps=False):
        b = np.array(betas, np.float64)
        self.betas, self.num_timesteps = b, len(b)
        ac = np.cumprod(1 - b)
        prev = np.append(1.0, ac[:-1])
        self.ac = ac
        self.post_var = b * (1 - prev) / (1 - ac)
        self.post_log = np.log(np.append(self.post_var[1], self.post_var[1:])) if len(b) > 1 else np.log(b)
        self.c1 = b * np.sqrt(prev) / (1 - ac)
        self.c2 = (1 - prev) * np.sqrt(1 - b) / (1 - ac)
        self.large = np.append(self.post_var[1], b[1:]) if len(b) > 1 else b

    def q_mean_variance(self, x_start, t):
        m = _at(np.sqrt(self.ac), t, x_start) * x_start
        return m, _at(1 - self.ac, t, x_start), _at(np.log(1 - self.ac), t, x_start)

    def q_posterior_mean_variance(self, x_start, x_t, t):
        m = _at(self.c1, t, x_t) * x_start + _at(self.c2, t, x_t) * x_t
        return m, _at(self.post_var, t, x_t), _at(self.post_log, t, x_t)

    def p_mean_variance(self, model, x, t, clip_denoised=True, denoised_fn=None, model_kwargs=None):
        eps = model(x, t)
        x0 = _at(np.sqrt(1 / self.ac), t, x) * x - _at(np.sqrt(1 / self.ac - 1), t, x) * eps
        if clip_denoised:
            x0 = x0.clamp(-1, 1)
        mean, _, _ = self.q_posterior_mean_variance(x0, x, t)
        var = _at(self.large, t, x)
        return {"mean": mean, "variance": var, "log_variance": torch.log(var), "pred_xstart": x0}

    def calc_bpd_loop(self, model, x_start, clip_denoised=True, model_kwargs=None):
        """Terms of the variational bound; the noise of a sample depends only on the sample and the step."""
        vb, xs, mse = [], [], []
        keys = [int(abs(float(x.double().sum())) * 1e6) % 1000003 for x in x_start]
        for t in reversed(range(self.num_timesteps)):
            noise = torch.stack([torch.randn(x.shape, generator=torch.Generator().manual_seed(k + 7 * t)) for x, k in zip(x_start, keys)])
            tt = torch.full((len(x_start),), t, dtype=torch.long)
            x_t = _at(np.sqrt(self.ac), tt, x_start) * x_start + _at(np.sqrt(1 - self.ac), tt, x_start) * noise
            with torch.no_grad():
                eps = model(x_t, tt, **(model_kwargs or {}))
            x0 = _at(np.sqrt(1 / self.ac), tt, x_t) * x_t - _at(np.sqrt(1 / self.ac - 1), tt, x_t) * eps
            if clip_denoised:
                x0 = x0.clamp(-1, 1)
            dims = tuple(range(1, x_t.dim()))
            m1, var, _ = self.q_posterior_mean_variance(x_start, x_t, tt)
            m2, _, _ = self.q_posterior_mean_variance(x0, x_t, tt)
            vb.append((((m1 - m2) ** 2) / (2 * var + 1e-6)).mean(dims) / math.log(2.0))
            xs.append(((x0 - x_start) ** 2).mean(dims))
            mse.append(((eps - noise) ** 2).mean(dims))
        vb, xs, mse = (torch.stack(v, 1) for v in (vb, xs, mse))
        prior = 0.5 * (self.ac[-1] * x_start**2).mean(tuple(range(1, x_start.dim()))) / math.log(2.0)
        return {"total_bpd": vb.sum(1) + prior, "prior_bpd": prior, "vb": vb, "xstart_mse": xs, "mse": mse}
