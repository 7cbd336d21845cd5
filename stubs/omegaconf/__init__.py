"""Stand-in for omegaconf (not installed here): attribute dictionaries."""


class DictConfig(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)

    def __setattr__(self, k, v):
        self[k] = v


def wrap(x):
    return DictConfig({k: wrap(v) for k, v in x.items()}) if isinstance(x, dict) else x


class OmegaConf:
    @staticmethod
    def register_new_resolver(name, f, **k):
        pass

    @staticmethod
    def select(cfg, key):
        for k in key.split("."):
            cfg = cfg.get(k) if cfg is not None else None
        return cfg

    @staticmethod
    def update(cfg, key, value, **k):
        *path, last = key.split(".")
        for k in path:
            cfg = cfg[k]
        cfg[last] = value

    @staticmethod
    def to_container(cfg, resolve=False):
        return {k: (OmegaConf.to_container(v) if isinstance(v, dict) else v) for k, v in cfg.items()}

    @staticmethod
    def set_struct(cfg, flag):
        pass

    @staticmethod
    def create(x):
        return wrap(x)
