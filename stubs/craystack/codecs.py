from collections import namedtuple
from functools import lru_cache

import numpy as np
from scipy.special import ndtr, ndtri

from . import rans

Codec = namedtuple("Codec", ["push", "pop"])


class norm:
    @staticmethod
    def cdf(x, loc=0.0, scale=1.0):
        with np.errstate(all="ignore"):
            return np.array(ndtr((np.asarray(x, np.float64) - loc) / scale))

    @staticmethod
    def ppf(q, loc=0.0, scale=1.0):
        with np.errstate(all="ignore"):
            return np.array(ndtri(q)) * scale + loc


def NonUniform(enc_statfun, dec_statfun, precision):
    def push(message, symbol):
        start, freq = enc_statfun(symbol)
        return (rans.push(message, start, freq, precision),)

    def pop(message):
        cf, fun = rans.pop(message, precision)
        symbol = dec_statfun(cf)
        start, freq = enc_statfun(symbol)
        assert np.all(start.astype(np.uint64) <= cf) and np.all(cf < (start + freq).astype(np.uint64))
        return fun(start, freq), symbol

    return Codec(push, pop)


def Uniform(precision):
    return NonUniform(
        lambda s: (np.asarray(s).astype(np.uint64), np.ones_like(np.asarray(s), dtype=np.uint64)),
        lambda cf: cf.astype(np.int64),
        precision,
    )


def substack(codec, view_fun):
    def split(head):
        idx = view_fun(np.arange(head.size).reshape(head.shape))

        def update(sub):
            new = np.ravel(head).copy()
            new[np.ravel(idx)] = np.ravel(sub)
            return new.reshape(head.shape)

        return np.ravel(head)[idx], update

    def push(message, data, *a, **k):
        head, tail = message
        sub, update = split(head)
        (sub, tail), *ctx = codec.push((sub, tail), data, *a, **k)
        return ((update(sub), tail), *ctx)

    def pop(message, *a, **k):
        head, tail = message
        sub, update = split(head)
        (sub, tail), data, *ctx = codec.pop((sub, tail), *a, **k)
        return ((update(sub), tail), data, *ctx)

    return Codec(push, pop)


@lru_cache(None)
def std_gaussian_buckets(precision):
    return norm.ppf(np.linspace(0, 1, (1 << precision) + 1))


@lru_cache(None)
def std_gaussian_centres(precision):
    return norm.ppf((np.arange(1 << precision) + 0.5) / (1 << precision))


def _cdf_to_enc_statfun(cdf):
    def enc_statfun(x):
        lower = cdf(x)
        return lower, cdf(x + 1) - lower

    return enc_statfun


def _cumulative_buckets_from_probs(probs, precision):
    probs = np.rint(probs * (1 << precision)).astype(np.int64)
    probs[probs == 0] = 1
    at = np.argmax(probs, axis=-1)[..., None]
    top = np.take_along_axis(probs, at, axis=-1)
    diff = (1 << precision) - np.sum(probs, axis=-1, keepdims=True)
    assert not np.any(top + diff <= 0), "cannot rebalance buckets, consider increasing precision"
    np.put_along_axis(probs, at, top + diff, axis=-1)
    zero = np.zeros(probs.shape[:-1] + (1,), np.int64)
    return np.concatenate((zero, np.cumsum(probs, axis=-1)), axis=-1).astype(np.uint64)


def _cdf_from_cumulative_buckets(c):
    return lambda s: np.take_along_axis(c, np.asarray(s)[..., None].astype(np.int64), axis=-1)[..., 0]


def _ppf_from_cumulative_buckets(c):
    return lambda cf: (np.sum(c <= cf[..., None], axis=-1) - 1).astype(np.int64)


def DiagGaussian_GaussianBins(mean, stdd, bin_mean, bin_stdd, coding_prec, bin_prec):
    """N(mean, stdd) over the bins of equal mass under N(bin_mean, bin_stdd)."""
    buckets = std_gaussian_buckets(bin_prec)

    def cdf(idx):
        with np.errstate(all="ignore"):
            x = buckets[idx] * bin_stdd + bin_mean
            return np.rint(norm.cdf(x, mean, stdd) * (1 << coding_prec)).astype(np.int64)

    def ppf(cf):
        lo = np.zeros(cf.shape, np.int64)
        hi = np.full(cf.shape, (1 << bin_prec), np.int64)
        cf = cf.astype(np.int64)
        for _ in range(bin_prec + 1):  # the largest idx with cdf(idx) <= cf
            mid = (lo + hi) // 2
            ok = cdf(mid) <= cf
            lo, hi = np.where(ok, mid, lo), np.where(ok, hi, mid)
        return lo

    return NonUniform(_cdf_to_enc_statfun(cdf), ppf, coding_prec)
