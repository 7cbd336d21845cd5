from types import SimpleNamespace


class HydraConfig:
    @staticmethod
    def get():
        return SimpleNamespace(
            run=SimpleNamespace(dir="outputs/encode/now"), job=SimpleNamespace(name="encode"),
            overrides=SimpleNamespace(task=[]),
        )
