"""C24: a diffusion training job continues from its newest checkpoint with exactly what was saved, on every rank."""
import contextlib
import importlib
import io
import os
import re
import sys

from dst.core import HarnessError, seed_everything, tensor_hash
from dst.disk import SimDisk
from dst.sched import Sched

from . import bitsback_common as bb
from .common import REPO
from .dist_common import Group, launch

RUNS = {"quick": 500, "thorough": 10000}
MEASURE = "distinct rank interleavings plus distinct (configuration, sequence of incarnation outcomes, checkpoints left) tuples"
REAL = ["projects/bits_back_diffusion: train.py main, script_util.setup/update_checkpoint/parse_resume_step_from_filename/TrainLoop/divide_by_n_proc/WandbOutputFormat",
        "torch.save/torch.load and the kernel file system below a scratch root"]
STUB = bb.STUBS[1:] + [
    "improved_diffusion.train_util.TrainLoop, the base class: its loop, saving and file names, with gradient averaging over the ranks",
    "torch.distributed: ranks are tasks of the baton scheduler; broadcast, all-reduce and barrier block until every rank arrived with a matching call",
    "system-call layer of the output directory (fault-injecting wrappers around open/read/listing)",
    "a restarted job is a fork with a different random state; only files survive",
]
ASSUMPTIONS = ["a kill does not fall inside the base class's save (the library writes its files in place)",
               "resuming from the checkpoint numbered 0 restores the weights only (the base class treats it as a fresh start)"]


def setup():
    global util, np, torch, Eps, job, OmegaConf, logger, wandb, train_util
    _, util, np, torch, Eps = bb.setup()
    import wandb
    from improved_diffusion import logger, train_util
    from omegaconf import OmegaConf

    d = os.path.join(REPO, "projects", "bits_back_diffusion")
    if d not in sys.path:
        sys.path.insert(0, d)
    spec = importlib.util.spec_from_file_location("bits_back_train", os.path.join(d, "train.py"))
    job = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(job)
    m = Eps(3, 0)  # warm up lazy imports of the optimizers before any process is forked
    o = torch.optim.AdamW(m.parameters())
    m(torch.zeros(1, 3, 2, 2), torch.zeros(1)).sum().backward()
    o.step()
    o.zero_grad()


def opt_hash(sd):
    return tensor_hash(*[sd["state"][i][k] for i in sorted(sd["state"]) for k in sorted(sd["state"][i])])


def run(sim):
    root = os.path.realpath(sim.scratch)
    world = 1 + sim.choose("world", 3)
    per = 1 + sim.choose("batch", 2)
    rates = sim.pick("rates", ("0.9", "0.9,0.5", "0.999,0.9999"))
    save = sim.pick("save", (1, 2, 3, 7))
    first = sim.pick("first", (None, 3, 9, 99999, 999998, 1234567), zero=0.4)
    total = (first or 0) + 2 + sim.choose("steps", 8)
    seed = sim.choose("data", 200)
    decay = sim.pick("decay", (0.0, 0.1))
    indivisible = world > 1 and sim.flip("indivisible", 0.05)
    out = os.path.join(root, "out0")
    os.makedirs(os.path.join(out, "logging"))
    resume = None

    def put(d, step, s):
        m = Eps(3, 500 + s)
        torch.save(m.state_dict(), os.path.join(d, f"model{step:06d}.pt"))
        for i, r in enumerate(rates.split(",")):
            torch.save(Eps(3, 600 + s + i).state_dict(), os.path.join(d, f"ema_{float(r)}_{step:06d}.pt"))
        o = torch.optim.AdamW(m.parameters(), lr=0.01)
        g = torch.Generator().manual_seed(s)
        for _ in range(2):
            for p in m.parameters():
                p.grad = torch.randn(p.shape, generator=g)
            o.step()
        torch.save(o.state_dict(), os.path.join(d, f"opt{step:06d}.pt"))

    if first is not None:
        d = os.path.join(out, "logging") if sim.flip("own", 0.5) else os.path.join(root, "earlier")
        os.makedirs(d, exist_ok=True)
        put(d, first, seed)
        if sim.flip("older", 0.5):
            put(d, first - sim.pick("gap", (1, 2)), seed + 50)
        if d.endswith("earlier"):
            resume = d if sim.flip("as-dir", 0.5) else os.path.join(d, f"model{first:06d}.pt")

    def newest(path):
        if os.path.isfile(path):
            return path
        have = [f for f in (os.listdir(path) if os.path.isdir(path) else ()) if re.fullmatch(r"model\d+\.pt", f)]
        return os.path.join(path, max(have, key=lambda f: int(f[5:-3]))) if have else None

    def batch():
        g = torch.Generator().manual_seed(seed)
        x = torch.rand((8, 3, 3, 3), generator=g) * 2 - 1
        while True:
            yield x[:per], {}

    def config(rank, bs, rseed):
        return OmegaConf.create(dict(
            trainer=dict(_target_="bits_back_diffusion.script_util.TrainLoop", batch_size=bs, microbatch=-1, lr=0.01, ema_rate=rates,
                         log_interval=1, save_interval=save, resume_checkpoint=resume, use_fp16=False, fp16_scale_growth=1e-3,
                         schedule_sampler=dict(_target_="improved_diffusion.resample.create_named_schedule_sampler", name="uniform"),
                         weight_decay=decay, lr_anneal_steps=total),
            model=dict(_target_=lambda: Eps(3, rseed + rank)), diffusion=dict(_target_=lambda **k: util.create_gaussian_diffusion(steps=4)),
            data=dict(train=dict(_target_=lambda **k: batch(), data_dir="data", batch_size=bs, image_size=3))))

    disk = SimDisk(sim, root)

    def incarnation(rseed, kill):
        want = newest(resume or os.path.join(out, "logging"))
        step0 = int(os.path.basename(want)[5:-3]) if want else 0
        exp = {}
        if want:
            sd = torch.load(want)
            exp["model"] = tensor_hash(*[sd[k] for k in sorted(sd)])
            if step0:
                d = os.path.dirname(want)
                for r in rates.split(","):
                    sd = torch.load(os.path.join(d, f"ema_{float(r)}_{step0:06d}.pt"))
                    exp[f"ema{float(r)}"] = tensor_hash(*[sd[k] for k in sorted(sd)])
                exp["opt"] = opt_hash(torch.load(os.path.join(d, f"opt{step0:06d}.pt")))

        def body():
            os.chdir(out)
            seed_everything(rseed)
            wandb.RUNS.clear()
            sched = Sched(sim, watch=(job.__file__, util.__file__))
            disk.sched = sched
            group = Group(sim, sched, world)
            state = dict(steps=0, saving=0, hashes={})
            real = {n: getattr(train_util.TrainLoop, n) for n in ("run_loop", "run_step", "save")}

            def weights(loop, params):
                return tensor_hash(*[p for _, p in sorted(zip([n for n, _ in loop.model.named_parameters()], params), key=lambda x: x[0])])

            def same(key, h):
                first = state["hashes"].setdefault(key, h)
                sim.check(first == h, "ranks-disagree", lambda: f"{key}")

            def run_loop(loop):
                r = group.rank()
                sim.check(loop.resume_step == step0, "continues-at-the-wrong-step", lambda: f"rank {r}: {loop.resume_step}, newest checkpoint {want}")
                got = {"model": weights(loop, loop.master_params)}
                same("start", got["model"])
                sim.check(weights(loop, list(loop.model.parameters())) == got["model"], "trained-weights-are-not-the-models", "")
                for rate, p in zip(loop.ema_rate, loop.ema_params):
                    got[f"ema{rate}"] = weights(loop, p)
                    same(f"start{rate}", got[f"ema{rate}"])
                    sim.check(all(a is not b for a, b in zip(p, loop.master_params)), "ema-shares-the-models-weights", "")
                if not want:
                    sim.check(all(v == got["model"] for v in got.values()), "fresh-average-differs-from-weights", "")
                if step0:
                    got["opt"] = opt_hash(loop.opt.state_dict())
                for k, v in exp.items():
                    sim.check(got.get(k) == v, "continues-with-other-state", lambda: f"rank {r}: {k} is not that of {want}")
                sim.check(loop.model.training, "trains-in-eval-mode", "")
                return real["run_loop"](loop)

            def run_step(loop, *a):
                if kill is not None and not state["saving"]:
                    state["steps"] += 1
                    if state["steps"] > kill:
                        sim.crash(f"step {loop.step + loop.resume_step} of rank {group.rank()}")
                real["run_step"](loop, *a)
                k = loop.step + loop.resume_step
                same(f"model after {k}", weights(loop, loop.master_params))
                for rate, p in zip(loop.ema_rate, loop.ema_params):
                    same(f"ema {rate} after {k}", weights(loop, p))

            def save_(loop):
                state["saving"] += 1
                real["save"](loop)
                state["saving"] -= 1

            train_util.TrainLoop.run_loop, train_util.TrainLoop.run_step, train_util.TrainLoop.save = run_loop, run_step, save_

            def main(r):
                bs = per * world
                if indivisible:
                    try:
                        util.divide_by_n_proc(bs + 1)
                    except ValueError:
                        pass
                    else:
                        sim.check(False, "indivisible-batch-accepted", f"{bs + 1} over {world}")
                bs = util.divide_by_n_proc(bs)
                sim.check(bs == per, "wrong-batch-size", f"{bs} on rank {r}, expected {per}")
                job.main(config(r, bs, rseed))
                return [e["step"] for e in logger.history()]

            with contextlib.redirect_stdout(io.StringIO()), disk.installed(), group.installed():
                steps = launch(sim, sched, group, main)
            for s in steps:
                sim.check(s == list(range(step0, total)), "wrong-steps", lambda: f"{s}, expected {step0} to {total - 1}")
            return [k["id"] for k in wandb.RUNS]

        return sim.process(body)

    outcomes, ids = [], {}
    for k in range(1 + sim.choose("incarnations", 5)):
        disk.shuffle_listings()
        kill = sim.choose("kill", 3 * world * 8, zero=0.1) if sim.flip("kills", 0.8) else None
        disk.arm(30, ("eio_read",), max_faults=1, zero=0.7, crash=0.0)
        before = sum(sim.faults.values())
        res = incarnation(5 + sim.choose("reseed", 1000), kill)
        outcomes.append((res[0], res[1] if res[0] != "ok" else ""))
        sim.event("incarnation", res[0])
        if res[0] == "exc":
            sim.check(sum(sim.faults.values()) > before, "job-failed-without-a-fault", lambda: f"{outcomes}\n{res[-1]}")
        if res[0] == "ok":
            ids.setdefault(out, set()).update(res[1])
            sim.check(len(res[1]) == 1, "wrong-number-of-log-runs", f"{res[1]}")
        have = newest(os.path.join(out, "logging"))
        if have and sim.flip("move", 0.2):
            resume = os.path.dirname(have) if sim.flip("as-dir", 0.5) else have
            out = os.path.join(root, f"out{k + 1}")
            os.mkdir(out)
            sim.fault("moved_to_new_directory")
            outcomes.append(("move",))
    disk.disarm()
    for _ in range(2):
        disk.shuffle_listings()
        res = incarnation(9999, None)
        sim.check(res[0] == "ok", "restart-cannot-complete", lambda: f"after {outcomes}: {res[1:3]}\n{res[-1]}")
        ids.setdefault(out, set()).update(res[1])
        have = newest(os.path.join(out, "logging"))
        if have is None:
            raise HarnessError("finished without a checkpoint")
    for d, s in ids.items():
        sim.check(len(s) == 1, "restart-opens-another-log-run", f"{d}: {sorted(s)}")
    runs = [next(iter(s)) for s in ids.values()]
    sim.check(len(set(runs)) == len(runs), "different-jobs-share-a-log-run", f"{ids}")
    sim.cover(world, rates, save, first, total, tuple(outcomes), os.path.basename(have))
