"""Stand-in for craystack (not installed here): vectorised rANS with the same interface."""
from . import codecs, rans
from .codecs import Codec, DiagGaussian_GaussianBins, Uniform, std_gaussian_buckets, std_gaussian_centres, substack
from .rans import base_message, flatten, random_message, unflatten
