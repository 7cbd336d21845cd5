"""C22: a VCT training job that is killed and restarted ends as the uninterrupted job and reports the same test results."""
import os

from . import c16_vct as c16
from .c21_dvc_job import clamped, put_videos
from .common import REPO, png
from .c11_lr_resume import reference as lr_reference
from .train_common import Job, check_rates, load_script, norm, use_stubs

RUNS = {"quick": 60, "thorough": 2500}
MEASURE = "distinct (job configuration, sequence of incarnation outcomes and resume points) tuples"
REAL = ["projects/torch_vct: model_train.py main/build_image_logger/WandbImageCallback, VCTModule, VCTPipeline (narrow), VimeoDataModule, UVGDataModule, utils.schedulers",
        "neuralcompression.data.Vimeo90kSeptuplet, compressai entropy coder, torch optimisers, torch.save/load, the file system of a scratch root"]
STUB = ["PyTorch Lightning: stubs/pytorch_lightning (one device, atomic last.ckpt, batch randomness tied to the batch position)",
        "hydra, omegaconf, wandb: minimal stand-ins; torch.distributed.destroy_process_group returns",
        "system-call layer of the scratch directory; a restart is a fork in which only files survive"]
ASSUMPTIONS = ["the trainer restores what it saved and repeats a batch bit for bit from its position",
               "the configuration does not change between restarts of one job"]
SCHEDULES = (
    ("lrc", lambda n: dict(_target_="utils.schedulers.LinearRampCosineLR", T_max=n + 5, ramp_len=2, eta_min=0.00001)),
    ("lrl", lambda n: dict(_target_="utils.schedulers.LinearRampLinearLR", T_max=n + 5, ramp_len=2)),
    ("lwc", lambda n: dict(_target_="utils.schedulers.LinearWarmUpCosineLR", T_max=n + 5, ramp_len=2, eta_min=0.00001)),
    ("exp", lambda n: dict(_target_="torch.optim.lr_scheduler.ExponentialLR", gamma=0.7)),
)


def setup():
    global torch, pl, T, OmegaConf, VCTModule
    use_stubs()
    c16.setup()
    import pytorch_lightning as pl
    import torch
    import torch.distributed
    from omegaconf import OmegaConf

    import sys

    import torchvision.transforms._functional_tensor as ft

    sys.modules.setdefault("torchvision.transforms.functional_tensor", ft)  # where pytorchvideo looks for it
    import datamodules.uvg
    import datamodules.vimeo
    import utils.schedulers as us

    if not os.path.realpath(us.__file__).startswith(REPO + os.sep):
        raise RuntimeError("foreign utils.schedulers")
    T = load_script("vct_train", "projects", "torch_vct", "model_train.py")
    torch.distributed.destroy_process_group = lambda *a, **k: None


def run(sim):
    root = os.path.realpath(sim.scratch)
    seed = sim.choose("seed", 200)
    cfg2 = dict(kind=sim.pick("kind", ("gdn", "elic")), ch=2, max_frames=sim.pick("max", (None, 1)))
    batch = 1 + sim.choose("batch", 2)
    ntrain, nval = batch * (1 + sim.choose("epoch", 2)) + sim.choose("ragged", 2, zero=0.6) * (batch > 1), 1 + sim.choose("nval", 3)
    steps = 2 + sim.choose("steps", 5)
    every = sim.pick("save", (1, 2, 3))
    val_every = sim.pick("val", (2, 1, None))
    anneal = sim.pick("anneal", (1, 2, 3))
    kind, sched = sim.pick("sched", SCHEDULES)
    opt = sim.pick("opt", (dict(_target_="torch.optim.AdamW", lr=0.003, weight_decay=0.01), dict(_target_="torch.optim.Adam", lr=0.003)))
    limit = sim.pick("limit", (100, 1))
    clip = sim.pick("clip", (1.0, 0.05))
    test = sim.flip("test", 0.4)
    data = os.path.join(root, "data")
    put_videos(data, seed, ntrain, nval, (36, 34))
    uvg = os.path.join(root, "uvg")
    uw, uh = sim.pick("uvg", ((32, 32), (48, 32), (32, 40)))
    uf = 2 + sim.choose("frames", 2)
    for v in ("a", "b"):
        os.makedirs(os.path.join(uvg, v))
        for k in range(uf):
            with open(os.path.join(uvg, v, f"{k}.png"), "wb") as f:
                f.write(png(seed * 7 + k + ord(v), size=(uw, uh)))

    def config(cwd, overwrite=False, resume=True, validate=True):
        c = dict(
            seed=7 + seed, ngpu=0, model=dict(_target_=lambda: c16.build(cfg2, seed)),
            datamodule=dict(_target_="datamodules.vimeo.VimeoDataModule", data_dir=data, train_batch_size=batch, val_batch_size=batch, video_crop_size=(32, 32), num_workers=0),
            optim=opt, scheduler=sched(steps // anneal),
            training_loop=dict(learning_rate=0.003, lr_annealing_frequency=anneal, distortion_lambda=0.0067),
            checkpoint=dict(overwrite=overwrite, resume_training=resume, callback=dict(dirpath="checkpoints", save_last=True, every_n_train_steps=every)),
            trainer=dict(max_steps=steps, val_check_interval=val_every if validate else None, limit_val_batches=limit, gradient_clip_val=clip, gradient_clip_algorithm="norm"),
            tester=dict(accelerator="cpu", devices=1), logger=dict(project="torch_vct", group="dev"), test_datamodule=None)
        if test:
            c["test_datamodule"] = dict(_target_="datamodules.uvg.UVGDataModule", data_dir=uvg, num_frames=uf, num_workers=0)
        return OmegaConf.create(c)

    def lasts(cwd):
        return {"": os.path.join(cwd, "checkpoints", "last.ckpt")}

    def report(cwd):
        """What coding the test videos with the trained weights gives, in a process that did nothing else."""
        import math

        import numpy as np
        from PIL import Image

        m = c16.build(cfg2, seed)
        sd = torch.load(lasts(cwd)[""])["state_dict"]
        m.load_state_dict({k[len("model."):]: v for k, v in sd.items() if k.startswith("model.")})
        m.eval()
        rows = []
        for v in ("a", "b"):
            px = np.stack([np.array(Image.open(os.path.join(uvg, v, f"{k}.png")).convert("RGB")) for k in range(uf)])
            x = torch.from_numpy(px).permute(0, 3, 1, 2).float()[None] / 255
            with torch.no_grad():
                fwd, (lik,) = m(c16.VD(x))
                out, bits = m.compress_video(c16.VD(x))
                y = m.decompress_video(x.shape, bottleneck_args=[out])

            def psnr(v):
                got = torch.floor(v[0].clamp(0, 1) * 255 + 0.5).double()
                return 10 * math.log10(255**2 / float(((got - torch.from_numpy(px).permute(0, 3, 1, 2).double()) ** 2).mean()))

            soft = (-torch.log2(lik.double())).reshape(uf, -1).sum(1).tolist()
            pixels = uw * uh
            rows.append((psnr(y), sum(bits) / (pixels * uf), sum(bits[1:]) / (pixels * (uf - 1)),
                         psnr(fwd), sum(soft) / (pixels * uf), sum(soft[1:]) / (pixels * (uf - 1))))
        return {k: sum(r[i] for r in rows) / 2 for i, k in enumerate(("psnt_int", "bpp", "bpp_xfirst", "cts_psnr", "cts_rate", "cts_rate_x1"))}

    job = Job(sim, pl, lambda c: T.main(c), config, lasts, seed)
    ref = job.reference()
    sim.check(ref[2] == [("", b) for b in range(1, steps + 1)], "training-length", f"{ref[2]} for {steps}")
    check_rates(sim, ref[4], lambda tag, k: [0.003 * 0.7 ** (k // anneal) if kind == "exp"
                                             else lr_reference(kind, dict(ramp=2, total=steps // anneal + 5, eta=0.00001), 0.003, k // anneal)])
    if test:
        names = {n for (_, where, _, n) in ref[0] if where == "test"}
        sim.check(len(names) >= 6, "test-report-incomplete", f"{sorted(names)}")
        want = sim.process(lambda: report(job.refdir))
        sim.check(want[0] == "ok", "training-job-failed", lambda: f"{want[1:]}")
        for k, v in want[1].items():
            sim.check(k in ref[3] and abs(ref[3][k] - v) <= 1e-4 * max(1.0, abs(v)), "wrong-test-report", lambda: f"{k}: {ref[3].get(k)}, expected {v}")
    if val_every and sim.flip("noval", 0.25):
        d = job.mkdir("noval")
        o = job.go(d, config(d, validate=False))
        sim.check(o[0] == "ok", "training-job-failed", lambda: f"{o[1:]}")
        job.compare(d, "validation-changes-training", "", clamped)
        for k, v in ref[0].items():
            if k[1] in ("train", "lr", "test"):
                sim.check(o[1][0].get(k) == v, f"validation-changes-{k[1]}-report", f"{k}")
    job.torture()
    sim.cover(tuple(cfg2.items()), steps, every, val_every, anneal, test, tuple(job.outcomes))
