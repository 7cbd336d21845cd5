import torch
import torch.distributed as dist


def setup_dist():
    pass


def dev():
    return torch.device("cpu")


def load_state_dict(path, **k):
    return torch.load(path, **k)


def sync_params(params):
    for p in params:
        with torch.no_grad():
            dist.broadcast(p, 0)
