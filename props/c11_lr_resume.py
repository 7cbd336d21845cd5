"""C11: learning rates over a training job that is killed and resumed."""
import importlib.util
import io
import math
import os

import torch

from dst.core import tensor_hash

from .common import REPO, base_setup

RUNS = {"quick": 2400, "thorough": 60000}
MEASURE = "distinct (schedules, sizes, parameter groups, checkpoint steps, crash steps, restore order) tuples"
REAL = ["neuralcompression.optim.{IdentitySchedule, RampConstCosineLRSchedule, RampCosineLRSchedule}",
        "projects/torch_vct/utils/schedulers.py (all three)", "torch optimizers and their state dictionaries"]
STUB = ["the training job: a small deterministic problem; a crash discards every object and keeps only the last checkpoint's bytes"]
ASSUMPTIONS = ["a resumed job builds its schedules with the same arguments and restores optimizer and schedule state from one checkpoint",
               "the cosine part has at least two steps and the step count does not exceed the configured total"]
KINDS = ("identity", "rcc", "rc", "lrc", "lrl", "lwc")


def setup():
    global optim, vct
    base_setup()
    import neuralcompression.optim as o

    p = os.path.join(REPO, "projects", "torch_vct", "utils", "schedulers.py")
    spec = importlib.util.spec_from_file_location("vct_schedulers", p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    optim, vct = o, m
    # warm torch's lazy imports before forking
    for t in (0, 1):
        job = Job(["identity"], [{}], [[0.1]], t)
        job.build_scheds()
        job.train_step()
        job.save()


def make(kind, a, opt):
    if kind == "identity":
        return optim.IdentitySchedule(opt)
    if kind == "rcc":
        return optim.RampConstCosineLRSchedule(opt, num_max_steps=a["total"], num_ramp_steps=a["ramp"],
                                               num_cosine_steps=a["cosine"], min_val=a["min"])
    if kind == "rc":
        return optim.RampCosineLRSchedule(opt, num_ramp_steps=a["ramp"], num_max_steps=a["total"], min_val=a["min"])
    if kind == "lrc":
        return vct.LinearRampCosineLR(opt, T_max=a["total"], eta_min=a["eta"], ramp_len=max(1, a["ramp"]))
    if kind == "lrl":
        return vct.LinearRampLinearLR(opt, T_max=a["total"], ramp_len=max(1, a["ramp"]))
    return vct.LinearWarmUpCosineLR(opt, T_max=a["total"], eta_min=a["eta"], ramp_len=max(1, a["ramp"]))


def reference(kind, a, base, step):
    """The documented learning rate at a global step."""
    ramp = a["ramp"]
    if kind == "identity":
        return base
    if kind == "rcc":
        if step < ramp:
            f = step / ramp
        elif step > a["total"] - a["cosine"]:
            f = math.cos((step - (a["total"] - a["cosine"])) / a["cosine"] * math.pi / 2)
        else:
            f = 1.0
        return base * max(f, a["min"])
    if kind == "rc":
        f = step / ramp if step < ramp else math.cos((step - ramp) / a["total"] * math.pi / 2)
        return base * max(f, a["min"])
    ramp = max(1, ramp)
    lin = base * (1 + step) / ramp
    if kind == "lrl":
        return lin if step < ramp else base
    cos = a["eta"] + (base - a["eta"]) * (1 + math.cos(math.pi * (step - ramp) / (a["total"] - ramp - 1))) / 2
    if kind == "lwc":
        return base if step < ramp else cos
    return min(lin, cos)


class Job:
    def __init__(self, kinds, args, bases, otype):
        g = torch.Generator().manual_seed(4)
        self.params, self.opts, self.scheds = [], [], []
        self.step = 0
        for kind, a, bs in zip(kinds, args, bases):
            ps = [torch.nn.Parameter(torch.randn(3, generator=g)) for _ in bs]
            groups = [{"params": [p], "lr": b} for p, b in zip(ps, bs)]
            opt = torch.optim.AdamW(groups) if otype else torch.optim.SGD(groups, lr=0.1, momentum=0.5)
            self.params.append(ps)
            self.opts.append(opt)
        self.kinds, self.args = kinds, args

    def build_scheds(self):
        self.scheds = [make(k, a, o) for k, a, o in zip(self.kinds, self.args, self.opts)]

    def save(self):
        buf = io.BytesIO()
        torch.save({"step": self.step, "params": self.params, "opts": [o.state_dict() for o in self.opts],
                    "scheds": [s.state_dict() for s in self.scheds]}, buf)
        return buf.getvalue()

    def restore(self, data, order):
        d = torch.load(io.BytesIO(data))
        self.step = d["step"]
        with torch.no_grad():
            for mine, theirs in zip(self.params, d["params"]):
                for p, q in zip(mine, theirs):
                    p.copy_(q)
        if order == 0:
            self.build_scheds()
            for o, s in zip(self.opts, d["opts"]):
                o.load_state_dict(s)
            for o, s in zip(self.scheds, d["scheds"]):
                o.load_state_dict(s)
        else:
            self.build_scheds()
            for o, s in zip(self.scheds, d["scheds"]):
                o.load_state_dict(s)
            for o, s in zip(self.opts, d["opts"]):
                o.load_state_dict(s)

    def train_step(self):
        lrs = []
        for i, (ps, o, s) in enumerate(zip(self.params, self.opts, self.scheds)):
            o.zero_grad()
            loss = sum(((p - 0.1 * self.step % 1.0) ** 2).sum() for p in ps)
            loss.backward()
            lrs.append([g["lr"] for g in o.param_groups])
            o.step()
            s.step()
        self.step += 1
        return lrs


def run(sim):
    n = 1 + sim.choose("optimizers", 2)
    kinds = [sim.pick("schedule", KINDS) for _ in range(n)]
    args = []
    for k in kinds:
        total = 6 + sim.choose("total", 30)
        ramp = sim.choose("ramp", total // 3)
        cosine = sim.choose("cosine", total - ramp - 1)
        args.append(dict(total=total, ramp=ramp, cosine=cosine, min=sim.pick("min", (1e-12, 0.05)), eta=sim.pick("eta", (0, 0.001))))
    bases = [[sim.pick("lr", (0.1, 0.01, 0.3)) for _ in range(1 + sim.choose("groups", 2))] for _ in kinds]
    otype = sim.choose("optimizer", 2)
    steps = min(a["total"] for a in args)

    # uninterrupted run
    job = Job(kinds, args, bases, otype)
    job.build_scheds()
    for k in range(steps):
        lrs = job.train_step()
        for i in range(n):
            for lr, b in zip(lrs[i], bases[i]):
                want = reference(kinds[i], args[i], b, k)
                sim.check(abs(lr - want) <= 1e-9 + 1e-6 * abs(want), "wrong-learning-rate", f"{kinds[i]} {args[i]} step {k}: {lr} expected {want}")
    final = tensor_hash(*[p for ps in job.params for p in ps])

    # the same job with kills
    ckpt = None
    hist = []
    crashes = sim.choose("crashes", 4)
    done = False
    while not done:
        job = Job(kinds, args, bases, otype)
        if ckpt is None:
            job.build_scheds()
        else:
            job.restore(ckpt, sim.choose("restore-order", 2))
        die = None
        if crashes:
            crashes -= 1
            die = sim.choose("die-after", max(1, steps - job.step) + 1)
        start = job.step
        while job.step < steps:
            if die is not None and job.step - start >= die:
                break
            k = job.step
            lrs = job.train_step()
            sim.steps += 1
            for i in range(n):
                for lr, b in zip(lrs[i], bases[i]):
                    want = reference(kinds[i], args[i], b, k)
                    sim.check(abs(lr - want) <= 1e-9 + 1e-6 * abs(want), "resumed-learning-rate-differs",
                              f"{kinds[i]} {args[i]} step {k} after resuming at {start}: {lr} expected {want}")
            if sim.flip("checkpoint", 0.3):
                ckpt = job.save()
                hist.append(("ckpt", job.step))
        else:
            done = True
        if not done:
            sim.fault("job_kill")
            hist.append(("kill", job.step))
        sim.event("incarnation", start, job.step)
    sim.check(tensor_hash(*[p for ps in job.params for p in ps]) == final, "resumed-job-ends-elsewhere", f"{kinds} {hist}")
    sim.cover(tuple(kinds), tuple(tuple(sorted(a.items())) for a in args), tuple(hist))
