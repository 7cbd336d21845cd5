"""Shared pieces of the training-job harnesses: running a real training script as a restartable simulated process."""
import contextlib
import importlib.util
import io
import os
import sys

from dst.core import tensor_hash

from .common import REPO

KINDS = ("enospc", "eio_write", "short_write", "eio_read", "short_read")


def use_stubs():
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs")
    if d not in sys.path:
        sys.path.append(d)


def load_script(name, *path):
    f = os.path.join(REPO, *path)
    spec = importlib.util.spec_from_file_location(name, f)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


def use_project(project, wanted):
    """Import project modules by their bare names, from the repository only."""
    p = os.path.join(REPO, "projects", project)
    sys.path.insert(1, p)
    out = []
    for n in wanted:
        m = __import__(n, fromlist=["x"])
        if not os.path.realpath(m.__file__).startswith(p + os.sep):
            raise RuntimeError(f"foreign {n}: {m.__file__}")
        out.append(m)
    return out


def fresh_names(sim):
    """Unique names are drawn from a counter instead of the machine's entropy."""
    import itertools
    import random
    import uuid

    c = itertools.count(1)
    uuid.uuid4 = lambda: uuid.UUID(int=random.Random(next(c) * 7919 + sim.incarnations * 1000003).getrandbits(128), version=4)


def norm(v):
    """A comparable form of a logged value (bit exact)."""
    import torch

    if isinstance(v, torch.Tensor):
        return tensor_hash(v.detach().double())
    if isinstance(v, (list, tuple)):
        return tuple(norm(x) for x in v)
    if isinstance(v, (int, float)):
        return tensor_hash(torch.tensor(float(v), dtype=torch.float64))
    return repr(v)


def state_digest(ck):
    import torch

    def walk(x):
        if isinstance(x, torch.Tensor):
            return tensor_hash(x)
        if isinstance(x, dict):
            return tuple((str(k), walk(x[k])) for k in sorted(x, key=str) if "codebook_hits" not in str(k))
        if isinstance(x, (list, tuple)):
            return tuple(walk(v) for v in x)
        if isinstance(x, (int, float, str, bool, type(None))):
            return repr(x)
        return type(x).__name__

    return {k: walk(v) for k, v in ck.items()}


class Recorder:
    """Takes what the trainer logs; in a judged process compares it at once with the reference run."""

    def __init__(self, sim, pl):
        self.sim, self.pl = sim, pl
        self.ref = None
        self.log, self.images, self.steps = {}, {}, []
        self.raw = {}  # numbers reported by tests
        self.nums = {}  # learning rates after each batch, validation numbers
        self.prefix = ""
        self.on_step = None

    def install(self):
        self.pl.HOOKS.update(log=self._log, image=self._image, step=self._step)

    def _put(self, table, key, value):
        v = norm(value)
        table[key] = v
        if self.ref is not None:
            want = self.ref[table is self.images].get(key)
            self.sim.check(want == v, "image-log-depends-on-history" if table is self.images else f"log-depends-on-history-{key[1]}",
                           lambda: f"{self.prefix}{key}: {value} differs from the uninterrupted job" + ("" if want is not None else " (which never logged it)"))

    def _log(self, where, seen, name, value):
        if where == "test" and getattr(value, "numel", lambda: 1)() == 1:
            self.raw[name] = float(value)
        if where == "lr":
            self.nums[where, seen, name] = [float(x) for x in value]
        elif where == "val" and getattr(value, "numel", lambda: 1)() == 1:
            self.nums[where, seen, name] = float(value)
        self._put(self.log, (self.prefix, where, seen, name), value)

    def _image(self, d):
        for k, v in d.items():
            if k != "global_step":
                self._put(self.images, (self.prefix, "image", d.get("global_step"), k), v)

    def _step(self, trainer, model):
        self.steps.append((getattr(model, "training_stage", ""), trainer.seen))
        self.sim.steps += 1
        self.sim.advance(1.0)
        if self.on_step:
            self.on_step(trainer, model)


def check_rates(sim, nums, want, kind="learning-rate"):
    """``want(tag, k)``: the documented learning rates in force after batch k."""
    for (where, seen, tag), v in sorted(nums.items()):
        if where == "lr":
            w = want(tag, seen)
            sim.check(len(v) == len(w) and all(abs(a - b) <= 1e-6 * max(abs(b), 1e-12) for a, b in zip(v, w)), kind, f"{tag} after batch {seen}: {v}, expected {w}")


@contextlib.contextmanager
def silent():
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def checkpoint(path):
    import torch

    return torch.load(path, map_location="cpu")


class Job:
    """A training job in the simulator: a reference run, then the same job under kills, failures and restarts.

    ``main`` runs the real script; ``config(cwd, **k)`` its configuration; ``last(cwd)`` the checkpoint files by stage.
    """

    def __init__(self, sim, pl, main, config, last, start_seed):
        from dst.disk import SimDisk

        self.sim, self.main, self.config, self.last, self.start_seed = sim, main, config, last, start_seed
        self.root = os.path.realpath(sim.scratch)
        self.rec = Recorder(sim, pl)
        self.rec.install()
        self.disk = SimDisk(sim, self.root)
        self.outcomes = []
        self.each_step = None

    def go(self, cwd, cfg, kill=None, faults=False):
        from dst.core import seed_everything

        sim, rec = self.sim, self.rec

        def body():
            os.chdir(cwd)
            seed_everything(self.start_seed)
            first = len(rec.steps)

            def on_step(trainer, model):
                if self.each_step:
                    self.each_step(trainer, model)
                if kill is not None and len(rec.steps) - first == kill[0]:
                    if kill[1]:
                        sim.fault("allocation_failure")
                        raise MemoryError("simulated")
                    sim.crash("training step")

            rec.on_step = on_step
            with silent():
                if faults:
                    with self.disk.installed():
                        self.main(cfg)
                else:
                    self.main(cfg)
            return rec.log, rec.images, rec.steps[first:], rec.raw, rec.nums

        return sim.process(body)

    def mkdir(self, name):
        d = os.path.join(self.root, name)
        os.mkdir(d)
        return d

    def reference(self):
        self.refdir = self.mkdir("ref")
        out = self.go(self.refdir, self.config(self.refdir))
        self.sim.check(out[0] == "ok", "training-job-failed", lambda: f"{out[1:]}")
        self.ref = out[1]
        self.want = self.digests(self.refdir)
        return out[1]

    def digests(self, cwd):
        return {k: state_digest(checkpoint(f)) for k, f in self.last(cwd).items()}

    def compare(self, cwd, kind, detail, view=None):
        got, want = self.digests(cwd), self.want
        if view:  # compare an equivalent form of the saved weights
            got, want = ({k: state_digest(view(checkpoint(f))) for k, f in self.last(d).items()} for d in (cwd, self.refdir))
        for st, w in want.items():
            for k in w:
                self.sim.check(got[st][k] == w[k], f"{kind}-{k}", f"{st} {detail}")

    def position(self, cwd):
        """Batches of each stage covered by its checkpoint."""
        out = {}
        for k, f in self.last(cwd).items():
            if os.path.exists(f):
                out[k] = checkpoint(f)["seen"]
        return out

    def judge(self, cwd, out, pos, clean, what):
        sim = self.sim
        self.outcomes.append((what, tuple(sorted(pos.items())), out[0], out[1] if out[0] != "ok" else len(out[1][2])))
        sim.event(*self.outcomes[-1])
        if out[0] == "exc":
            sim.check(not clean, "restart-cannot-complete", lambda: f"{self.outcomes} {out[1:]}")
        if out[0] == "ok":
            todo = [(s, n) for s, n in self.ref[2] if n > pos.get(s, 0)]
            sim.check(out[1][2] == todo, "resumed-at-the-wrong-batch", lambda: f"{self.outcomes}: trained {out[1][2]}, expected {todo}")
            self.compare(cwd, "result-depends-on-restarts", f"{self.outcomes}")

    def torture(self, most=5, horizon=600):
        from dst.disk import tree

        sim, n = self.sim, len(self.ref[2])
        cwd = self.mkdir("job")
        self.rec.ref = (self.ref[0], self.ref[1])
        for _ in range(1 + sim.choose("incarnations", most)):
            act = sim.pick("act", ("run", "run", "run", "run", "guard", "overwrite"))
            pos = self.position(cwd)
            if act == "guard":
                if not pos:
                    continue
                before = tree(cwd)
                o = self.go(cwd, self.config(cwd, resume=False))
                sim.check(o[0] == "exc" and o[1] == "RuntimeError", "existing-checkpoints-not-protected", lambda: f"{o[:3]}")
                after = tree(cwd)
                sim.check({k: v for k, v in after.items() if k.endswith(".ckpt")} == {k: v for k, v in before.items() if k.endswith(".ckpt")},
                          "existing-checkpoints-not-protected", "files changed")
                continue
            over = act == "overwrite"
            kill = (1 + sim.choose("kill.at", n), sim.flip("kill.alloc", 0.3)) if sim.flip("kill", 0.6) else None
            self.disk.shuffle_listings()
            self.disk.arm(horizon if kill is None else horizon // 3, KINDS, max_faults=1, zero=0.6, crash=0.6)
            before = sum(sim.faults.values())
            o = self.go(cwd, self.config(cwd, overwrite=True, resume=False) if over else self.config(cwd), kill, True)
            self.disk.disarm()
            self.judge(cwd, o, {} if over else pos, sum(sim.faults.values()) == before, act)
        pos = self.position(cwd)
        self.judge(cwd, self.go(cwd, self.config(cwd)), pos, True, "final")
        return cwd
