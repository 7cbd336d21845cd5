class UniformSampler:
    def __init__(self, diffusion):
        self.diffusion = diffusion


def create_named_schedule_sampler(name, diffusion):
    return UniformSampler(diffusion)
