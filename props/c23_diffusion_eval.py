"""C23: the distributed evaluation of the variational bound reports the values over all samples of all ranks."""
import contextlib
import importlib
import io
import os
import sys

from dst.core import seed_everything
from dst.disk import SimDisk
from dst.sched import Sched

from . import bitsback_common as bb
from .common import REPO
from .dist_common import Group, launch

RUNS = {"quick": 500, "thorough": 10000}
MEASURE = "distinct rank interleavings plus distinct (configuration, sequence of incarnation outcomes) tuples"
REAL = ["projects/bits_back_diffusion: compute_vlb.py main, script_util.setup/update_checkpoint/parse_resume_step_from_filename/plot_evolution/WandbOutputFormat"]
STUB = bb.STUBS + [
    "torch.distributed: ranks are tasks of the baton scheduler; all-gather, all-reduce and barrier block until every rank arrived with a matching call",
    "improved_diffusion's calc_bpd_loop: its output format with terms that depend only on the sample, the step and the weights",
    "system-call layer of the output directory (fault-injecting wrappers around open/read/write/mkdir/rename/listing)",
    "a restarted job is a fork with a different random state; only files survive",
]
ASSUMPTIONS = ["every rank's loader yields batches of the configured size", "a checkpoint directory holds EMA checkpoints of one rate"]
KINDS = ("enospc", "eio_write", "short_write", "eio_read", "short_read")
NAMES = ("vb", "mse", "xstart_mse")


def curves(fig):
    """{curve: {x: values drawn there}}"""
    out = {}
    for c in fig.data:
        pts = out.setdefault(c["name"], {})
        for x, y in zip(c["x"], c["y"]):
            pts.setdefault(int(x), []).append(float(y))
    return out


def setup():
    global util, np, torch, Net, job, OmegaConf, logger, wandb
    _, util, np, torch, Eps = bb.setup()
    import wandb
    from improved_diffusion import logger
    from omegaconf import OmegaConf

    d = os.path.join(REPO, "projects", "bits_back_diffusion")
    if d not in sys.path:
        sys.path.insert(0, d)
    job = importlib.import_module("compute_vlb")
    if not os.path.realpath(job.__file__).startswith(REPO + os.sep):
        raise RuntimeError("foreign compute_vlb.py")

    class N(Eps):
        """Eps with dropout and class labels, so that the mode and the labels matter."""

        def forward(self, x, t, y=None):
            out = torch.nn.functional.dropout(super().forward(x, t), 0.3, self.training)
            return out if y is None else out + 0.1 * y.float().view(-1, 1, 1, 1)

    Net = N


def sample(seed, rank, i, shape, cond):
    g = torch.Generator().manual_seed(seed * 7919 + rank * 131 + i)
    x = torch.rand(shape, generator=g) * 2 - 1
    return x, ({"y": torch.randint(0, 5, (shape[0],), generator=g)} if cond else {})


def run(sim):
    root = os.path.realpath(sim.scratch)
    world = 1 + sim.choose("world", 4)
    b = 1 + sim.choose("batch", 3)
    rounds = 1 + sim.choose("rounds", 4)
    ragged = sim.choose("ragged", b * world, zero=0.7)
    shape = (b, 3, 2 + sim.choose("h", 2), 2)
    steps, spacing = sim.pick("steps", ((5, ""), (12, "vlb4"), (3, [3]), (10, "ddim5")))
    cond = sim.flip("labels", 0.4)
    clip = not sim.flip("noclip", 0.4)
    seed, wseed = sim.choose("data", 500), sim.choose("weights", 10)
    num = rounds * b * world - ragged
    late = [sim.choose("late", 3) for _ in range(world)]

    models = os.path.join(root, "models")
    os.mkdir(models)
    new, old = sim.pick("numbers", ((10, 9), (100000, 99999), (1000000, 999999), (1500000, 2)))
    torch.save(Net(3, wseed).state_dict(), os.path.join(models, f"ema_0.9999_{new:06d}.pt"))
    if sim.flip("older-model", 0.4):
        torch.save(Net(3, wseed + 100).state_dict(), os.path.join(models, f"ema_0.9999_{old:06d}.pt"))
    if sim.flip("other-files", 0.3):
        torch.save(Net(3, wseed + 200).state_dict(), os.path.join(models, f"model{new + 5:06d}.pt"))
        torch.save({}, os.path.join(models, f"opt{new + 5:06d}.pt"))
    model_path = models if sim.flip("model-dir", 0.5) else os.path.join(models, f"ema_0.9999_{new:06d}.pt")

    def diffusion(**k):
        return util.create_gaussian_diffusion(steps=steps, timestep_respacing=spacing, noise_schedule="cosine")

    def loader(rank):
        i = 0
        while True:
            yield sample(seed, rank, i, shape, cond)
            i += 1

    def config(rank):
        return OmegaConf.create(dict(
            evaluator=dict(model_path=model_path, num_samples=num, clip_denoised=clip),
            model=dict(_target_=lambda: Net(3, 77)), diffusion=dict(_target_=diffusion),
            data=dict(val=dict(_target_=lambda **k: loader(rank), data_dir="data", batch_size=b, image_size=2))))

    # the values over every sample of every rank, by the same formulas in one process
    ref_model, ref_diff = Net(3, wseed).eval(), diffusion()
    terms, bpd = {n: [] for n in NAMES}, []
    for i in range(rounds):
        rows = []
        for r in range(world):
            x, kw = sample(seed, r, i, shape, cond)
            m = ref_diff.calc_bpd_loop(ref_model, x, clip_denoised=clip, model_kwargs=kw)
            rows.append(m)
            bpd.append(m["total_bpd"].numpy())
        for n in NAMES:
            for m in rows:
                t = m[n].numpy()[:, ::-1]  # step 0 first
                terms[n].append(np.concatenate([t, m["prior_bpd"].numpy()[:, None]], 1) if n == "vb" else t)
    full = range(max(1, num // (b * world)), rounds + 1)
    disk = SimDisk(sim, root)
    cwd = os.path.join(root, "out")
    os.mkdir(cwd)

    def incarnation(rseed):
        def body():
            os.chdir(cwd)
            seed_everything(rseed)
            wandb.RUNS.clear()
            wandb.LOGGED.clear()
            sched = Sched(sim, watch=(job.__file__, util.__file__))
            disk.sched = sched
            group = Group(sim, sched, world)

            def main(r):
                if late[r]:
                    sched.sleep(0.01 * late[r])
                job.main(config(r))
                return list(logger.history())

            with contextlib.redirect_stdout(io.StringIO()), disk.installed(), group.installed():
                hist = launch(sim, sched, group, main)
            plots = [{k: curves(v) for k, v in a[0].items()} for a in wandb.LOGGED]
            return hist, plots, [k["id"] for k in wandb.RUNS]

        return sim.process(body)

    def verify(val, when):
        hist, plots, runs = val
        sim.check(len(hist[0]) in full, "wrong-number-of-batches", lambda: f"{when}: {len(hist[0])}, expected {list(full)}")
        n = len(hist[0])
        for r, h in enumerate(hist):
            sim.check(len(h) == n, "ranks-report-different-progress", lambda: f"{when}: {list(map(len, hist))}")
            for i, e in enumerate(h):
                want = float(np.concatenate(bpd[: (i + 1) * world]).mean())
                sim.check(abs(e["total_bpd"] - want) <= 1e-4 * max(1, abs(want)), "wrong-bits-per-dimension",
                          lambda: f"{when}: rank {r} after {i + 1} rounds: {e['total_bpd']} expected {want}")
                sim.check(e["samples"] == (i + 1) * b * world, "wrong-sample-count", lambda: f"{when}: {e['samples']}")
        d = os.path.join(cwd, "logging")
        for name in NAMES:
            rows = np.concatenate(terms[name][: n * world])
            z = np.load(os.path.join(d, f"{name}-terms.npz"))
            for key, want in (("mean", rows.mean(0)), ("stdd", rows.std(0)), ("min", rows.min(0)), ("max", rows.max(0))):
                sim.check(z[key].shape == want.shape and np.allclose(z[key], want, rtol=1e-3, atol=1e-5), "wrong-term-statistics",
                          lambda: f"{when}: {name} {key}: {z[key]} expected {want}")
            z.close()
            got = [p[name] for p in plots if name in p]
            mean, std = rows.mean(0), rows.std(0)
            want = {"mean": (mean,), "stdd": (mean - std, mean + std), "range": (rows.min(0), rows.max(0))}
            sim.check(len(got) == 1 and all(
                len(got[0].get(c, ())) == len(mean) and all(np.allclose(sorted(ys), [b[x] for b in w], rtol=1e-3, atol=1e-3 * max(1.0, float(abs(mean[x]))))
                                                            for x, ys in got[0][c].items())
                for c, w in want.items()), "wrong-plot", lambda: f"{when}: {name} logged {len(got)} times")
        sim.check(len(runs) == 1, "wrong-number-of-log-runs", f"{when}: {runs}")

    outcomes, ids = [], set()
    for _ in range(sim.choose("incarnations", 4)):
        disk.shuffle_listings()
        disk.arm(60, KINDS, max_faults=2, zero=0.4, crash=0.6)
        before = sum(sim.faults.values())
        out = incarnation(5 + sim.choose("reseed", 1000))
        outcomes.append((out[0], out[1] if out[0] != "ok" else ""))
        sim.event("incarnation", *outcomes[-1])
        if out[0] == "exc":
            sim.check(sum(sim.faults.values()) > before, "evaluation-failed-without-a-fault", lambda: f"{outcomes}\n{out[-1]}")
        if out[0] == "ok":
            verify(out[1], f"{outcomes}")
            ids.update(out[1][2])
    disk.disarm()
    disk.shuffle_listings()
    out = incarnation(9999)
    sim.check(out[0] == "ok", "evaluation-cannot-complete", lambda: f"after {outcomes}: {out[1:3]}\n{out[-1]}")
    verify(out[1], f"after {outcomes}")
    ids.update(out[1][2])
    sim.check(len(ids) == 1, "restart-opens-another-log-run", f"{sorted(ids)}")
    sim.cover(world, b, rounds, ragged, shape, steps, tuple(outcomes))
