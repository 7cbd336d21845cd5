from .codecs import Codec
from .rans import flatten

AFTER_POP = []  # message size after each posterior sample, for the harness


def BBANS(prior, likelihood, posterior):
    def push(message, data):
        message, latent = posterior(data).pop(message)
        AFTER_POP.append(flatten(message).nbytes)
        (message,) = likelihood(latent).push(message, data)
        (message,) = prior.push(message, latent)
        return (message,)

    def pop(message):
        message, latent = prior.pop(message)
        message, data = likelihood(latent).pop(message)
        (message,) = posterior(data).push(message, latent)
        return message, data

    return Codec(push, pop)
