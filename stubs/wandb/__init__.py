"""Stand-in for wandb (not installed here): records the runs opened and what was logged."""

RUNS, LOGGED = [], []


class _Config:
    def update(self, *a, **k):
        pass


class _Run:
    def log(self, *a, **k):
        pass

    def finish(self):
        pass


config = _Config()


def init(**k):
    RUNS.append(k)
    return _Run()


def log(*a, **k):
    LOGGED.append(a)


def require(**k):
    pass


def Image(data, caption=None):
    return (caption, data)
