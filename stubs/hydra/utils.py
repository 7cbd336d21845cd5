import importlib
import os


def _get(path):
    mod, name = path.rsplit(".", 1)
    return getattr(importlib.import_module(mod), name)


def instantiate(cfg, *args, **kw):
    def build(c, extra):
        c = dict(c)
        for k, v in extra.items():
            c[k] = {**c[k], **v} if isinstance(v, dict) and isinstance(c.get(k), dict) else v
        c = {k: (build(v, {}) if isinstance(v, dict) and "_target_" in v else v) for k, v in c.items()}
        target = c.pop("_target_")
        c = {k: (tuple(v) if isinstance(v, list) else v) for k, v in c.items()}
        return (target if callable(target) else _get(target))(*args, **c)

    return None if cfg is None else build(dict(cfg), kw)


def to_absolute_path(p):
    return os.path.abspath(p)
