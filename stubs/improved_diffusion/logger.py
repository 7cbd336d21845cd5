"""Stand-in for improved_diffusion.logger: one current logger per rank (ranks are threads here)."""
import os
import threading


class KVWriter:
    def writekvs(self, kvs):
        raise NotImplementedError


class _Logger:
    def __init__(self, dir):
        self.dir, self.output_formats, self.kvs = dir, [], {}


_local = threading.local()


def history():
    """What this rank dumped, in order."""
    if not hasattr(_local, "history"):
        _local.history = []
    return _local.history


def configure(dir=None, format_strs=None):
    os.makedirs(os.path.expanduser(dir), exist_ok=True)
    _local.current = _Logger(dir)


def get_current():
    return getattr(_local, "current", None)


def get_dir():
    return get_current().dir if get_current() else None


def log(*args):
    pass


def logkv(k, v):
    get_current().kvs[k] = v


def logkvs(d):
    get_current().kvs.update(d)


def dumpkvs():
    c = get_current()
    history().append(dict(c.kvs))
    for f in c.output_formats:
        f.writekvs(dict(c.kvs))
    c.kvs.clear()
