"""C21: a DVC training job that is killed and restarted in any of its stages ends as the uninterrupted job."""
import os

from dst.core import seed_everything

from . import c02_video_packets as c02
from .common import base_setup, png
from .train_common import Job, check_rates, checkpoint, load_script, state_digest, use_project, use_stubs

RUNS = {"quick": 160, "thorough": 2500}
MEASURE = "distinct (job configuration, sequence of incarnation outcomes and resume points) tuples"
REAL = ["projects/deep_video_compression: train.py main/run_training_stage/merge_configs/WandbImageCallback, DvcModule, the five stages, Vimeo90kSeptupletLightning",
        "neuralcompression.models.DVC (narrow), Vimeo90kSeptuplet, functional.information_content/dense_image_warp/optical_flow_to_color",
        "torch optimisers, torch.save/load, the file system of a scratch root"]
STUB = ["PyTorch Lightning: stubs/pytorch_lightning (one device, atomic last.ckpt, batch randomness tied to the batch position)",
        "hydra, omegaconf, wandb: minimal stand-ins; the pretrained I-frame model: a small fixed network with CompressAI's interface",
        "system-call layer of the scratch directory; a restart is a fork in which only files survive"]
ASSUMPTIONS = ["the trainer restores what it saved and repeats a batch bit for bit from its position",
               "every restart of a job draws the same initial weights (the same start seed) and has the same configuration"]
STAGES = ("1_motion_estimation", "2_motion_compression", "3_motion_compensation", "4_total_2frame", "5_total")


def setup():
    global torch, pl, T, OmegaConf
    base_setup()
    use_stubs()
    import pytorch_lightning as pl
    import torch
    import torch.nn as nn
    import torchmetrics
    from omegaconf import OmegaConf

    c02.setup()
    if not hasattr(torchmetrics, "PSNR"):
        torchmetrics.PSNR = torchmetrics.PeakSignalNoiseRatio
    import compressai.zoo

    class IFrame(nn.Module):
        """Compresses visibly and differently each time it is applied to its own output."""

        def __init__(self, quality, pretrained=False):
            super().__init__()
            self.register_buffer("gain", torch.tensor(0.9))

        def update(self, force=False):
            return True

        def forward(self, x):
            y = torch.round(x * 20) / 20 * self.gain
            return {"x_hat": y, "likelihoods": {"y": torch.full_like(x[:, :1], 0.5)}}

    compressai.zoo.models["verif-iframe"] = IFrame
    use_project("deep_video_compression", ["_utils", "dvc_module", "data_module"])
    T = load_script("dvc_train", "projects", "deep_video_compression", "train.py")


def put_videos(root, seed, ntrain, nval, size):
    k = 0
    for split, n in (("train", ntrain), ("test", nval)):
        names = []
        for i in range(n):
            names.append(f"{1 + i:05d}/{1 + len(split):04d}")
            d = os.path.join(root, "sequences", names[-1])
            os.makedirs(d)
            for j in range(7):
                k += 1
                with open(os.path.join(d, f"im{j + 1}.png"), "wb") as f:
                    f.write(png(seed * 1000 + k, size=size))
        with open(os.path.join(root, f"sep_{split}list.txt"), "w") as f:
            f.write("\n".join(names) + "\n")


def clamped(ck):
    """GDN layers clamp their weights when next applied; a forward pass after the last step may have done so already."""
    sd = ck["state_dict"]
    for k in sd:
        if k.endswith(".gamma"):
            sd[k] = sd[k].clamp(min=0)
        elif k.endswith(".beta"):
            sd[k] = sd[k].clamp(min=1e-6)
    return ck


def parts(stage, sd):
    """The DVC model's own names for the weights a stage holds."""
    pre = {"1": "model.model.", "2": "model.", "3": "model.", "4": "model.model.", "5": "model.model."}[stage[0]]
    new = "motion_estimator." if stage[0] == "1" else ""
    return {new + k[len(pre):]: v for k, v in sd.items() if k.startswith(pre)}


def coded(m, stage, x1, x2):
    """What the parts trained so far make of the second frame given the first, and the bits it takes."""
    import math

    import neuralcompression.functional as ncF

    bits = lambda p: float(-torch.log(p.double()).sum() / math.log(2))
    if stage[0] in "45":
        o = m(x1, x2)
        return o.image2_est, bits(o.flow_probabilities), bits(o.resid_probabilities)
    flow = m.motion_estimator(x1, x2)
    if stage[0] == "1":
        return ncF.dense_image_warp(x1, flow.permute(0, 2, 3, 1)), None, None
    y, sizes = m.motion_encoder(flow)
    y, p = m.motion_entropy_bottleneck(y)
    flow = m.motion_decoder(y, sizes)
    est = ncF.dense_image_warp(x1, flow.permute(0, 2, 3, 1))
    if stage[0] == "3":
        est = m.motion_compensation(x1, est, flow)
    return est, bits(p), None


def expected_report(m, stage, pf, batches):
    """The validation report for the given weights, from its definition."""
    import math

    rows, se, n = [], 0.0, 0
    for x in batches:
        px = x.shape[0] * x.shape[-2] * x.shape[-1]
        prev = torch.round(x[:, 0] * 20) / 20 * 0.9
        r = dict(bpp=1.0, flow_bpp=0.0, residual_bpp=0.0, distortion_loss=0.0)
        for i in range(pf):
            est, f, q = coded(m, stage, prev, x[:, i + 1])
            d = ((est.double() - x[:, i + 1].double()) ** 2)
            se, n = se + float(d.sum()), n + d.numel()
            r["distortion_loss"] += 16.0 * float(d.mean())
            r["flow_bpp"] += (f or 0.0) / px
            r["residual_bpp"] += (q or 0.0) / px
            prev = est
        r["bpp"] += r["flow_bpp"] + r["residual_bpp"]
        r["loss"] = r["distortion_loss"] + r["flow_bpp"] + r["residual_bpp"]
        rows.append({k: v / (pf + 1) for k, v in r.items()})
    out = {f"val_gop_{k}": sum(r[k] for r in rows) / len(rows) for k in rows[0]}
    out["val_psnr"] = -10 * math.log10(se / n)
    if stage[0] == "1":  # its loss is that of the whole flow pyramid
        out = {k: out[k] for k in ("val_gop_bpp", "val_psnr")}
    elif stage[0] in "23":
        out.pop("val_gop_residual_bpp")
    return out


def run(sim):
    root = os.path.realpath(sim.scratch)
    seed = sim.choose("seed", 200)
    first = sim.choose("first", 5, zero=0.4)
    last = first + sim.choose("count", 5 - first)
    stages = [("s" + x, x) for x in STAGES[first : last + 1]]
    pf = [1 if i < 4 else 2 + sim.choose("pframes", 3) for i in range(first, last + 1)]
    steps = [1 + sim.choose("steps", 5 if len(stages) < 3 else 3) for _ in stages]
    batch = 1 + sim.choose("batch", 2)
    ntrain, nval = batch * (1 + sim.choose("epoch", 2)) + sim.choose("ragged", 2, zero=0.6) * (batch > 1), 1 + sim.choose("nval", 3)
    every = sim.pick("save", (1, 2))
    val_every = sim.pick("val", (1, 2, None))
    lr = [sim.choose("sched", 3) for _ in stages]
    gcv = sim.pick("clip", (1.0, 0.05))
    cfg2 = dict(default=False, ch=3, layers=2, gdn=sim.flip("gdn", 0.5), levels=2, kernel=3)
    data = os.path.join(root, "data")
    put_videos(data, seed, ntrain, nval, (18, 17))
    T.DVC = lambda **k: c02.build(cfg2, seed)

    def config(cwd, overwrite=False, resume=True, dirs=None, validate=True):
        st = {}
        for i, (key, name) in enumerate(stages):
            st[key] = dict(save_dir=(dirs or {}).get(key),
                           module=dict(num_pframes=pf[i], training_stage=name, learning_rate=0.003, distortion_lambda=16.0),
                           trainer=dict(max_steps=steps[i] * (pf[i] + (0 if name.startswith("1") else 1))))
            if lr[i]:
                st[key]["module"]["lr_scheduler_params"] = dict(step_size=lr[i], gamma=0.5)
        return OmegaConf.create(dict(
            data=dict(data_dir=data, num_workers=0, image_size=[16, 16], train_batch_size=batch, val_batch_size=batch), ngpu=0,
            trainer=dict(gpus=0, accelerator="cpu", val_check_interval=val_every if validate else None), model=dict(coder_channels=3),
            module=dict(pretrained_model_name="verif-iframe", pretrained_model_quality_level=3, distortion_type="MSE", distortion_lambda=256.0, aux_learning_rate=0.01, grad_clip_value=gcv),
            checkpoint=dict(overwrite=overwrite, resume_training=resume, model_checkpoint=dict(save_last=True, every_n_train_steps=every)),
            logging=dict(image_seed=123, save_root=".", num_log_images=2), training_stages=st))

    def lasts(cwd):
        return {name: os.path.join(cwd, key, "last.ckpt") for key, name in stages}

    carried = {}

    def on_start(trainer, model):
        """A stage that starts from scratch starts from what the stages before it left."""
        if trainer.seen == 0:
            for k, v in parts(model.training_stage, model.state_dict()).items():
                if k in carried:
                    sim.check(torch.equal(v.clamp(min=0) if k.endswith(".gamma") else v, carried[k].clamp(min=0) if k.endswith(".gamma") else carried[k]),
                              "stage-does-not-start-from-the-previous-one", f"{model.training_stage}: {k}")

    def on_step(trainer, model):
        carried.update({k: v.detach().clone() for k, v in parts(model.training_stage, model.state_dict()).items()})

    pl.HOOKS["start"] = on_start
    job = Job(sim, pl, lambda c: T.main(c), config, lasts, seed)
    job.each_step = on_step
    carried.update({k: v.detach().clone() for k, v in c02.build(cfg2, seed).state_dict().items()})
    ref = job.reference()
    job.each_step = None
    pl.HOOKS["start"] = lambda *a: None
    sim.check(ref[2] == [(name, b) for (key, name), n in zip(stages, steps) for b in range(1, n + 1)], "training-length", f"{ref[2]} for {steps}")
    of = {name: i for i, (_, name) in enumerate(stages)}
    check_rates(sim, ref[4], lambda tag, k: [0.003 * (0.5 ** (k // lr[of[tag.split("@")[1]]]) if lr[of[tag.split("@")[1]]] else 1)] + [0.01] * (not tag.split("@")[1].startswith("1")))
    i = len(stages) - 1
    if val_every and steps[i] % val_every == 0:
        name = stages[i][1]

        def report():
            from torchvision.transforms import functional as TF

            from PIL import Image

            m = c02.build(cfg2, seed).eval()
            m.load_state_dict({**m.state_dict(), **parts(name, checkpoint(lasts(job.refdir)[name])["state_dict"])})
            clips = []
            for line in open(os.path.join(data, "sep_testlist.txt")).read().split():
                frames = [Image.open(os.path.join(data, "sequences", line, f"im{j + 1}.png")).convert("RGB") for j in range(7)]
                clips.append(torch.stack([TF.to_tensor(TF.center_crop(f, [16, 16])) for f in frames]))
            with torch.no_grad():
                return expected_report(m, name, pf[i], torch.stack(clips).split(batch))

        o = sim.process(report)
        sim.check(o[0] == "ok", "training-job-failed", lambda: f"{o[1:]}")
        for k, v in sorted(o[1].items()):
            got = ref[4].get(("val", steps[i], f"{name}/{k}@{name}"))
            sim.check(got is not None and abs(got - v) <= 2e-4 * max(1.0, abs(v)), "wrong-validation-report", lambda: f"{name} {k}: {got}, expected {v}")
    if val_every and sim.flip("noval", 0.25):
        d = job.mkdir("noval")
        o = job.go(d, config(d, validate=False))
        sim.check(o[0] == "ok", "training-job-failed", lambda: f"{o[1:]}")
        job.compare(d, "validation-changes-training", "", clamped)
    cwd = job.torture()
    # finished stages of an earlier run are loaded, not trained again
    if sim.flip("reuse", 0.4):
        k = 1 + sim.choose("reuse.n", len(stages))
        d = job.mkdir("reuse")
        done = {key: os.path.join(cwd, key) for key, _ in stages[:k]}
        o = job.go(d, config(d, dirs=done))
        sim.check(o[0] == "ok", "finished-stages-not-reused", lambda: f"{o[1:]}")
        left = [x for x in ref[2] if x[0] not in {name for _, name in stages[:k]}]
        sim.check(o[1][2] == left, "finished-stages-not-reused", f"trained {o[1][2]}, expected {left}")
        for key, name in stages:
            f = os.path.join(cwd if key in done else d, key, "last.ckpt")
            got = state_digest(checkpoint(f))
            for part in got:
                sim.check(got[part] == job.want[name][part], f"result-depends-on-restarts-{part}", f"{name} after loading {sorted(done)}")
    sim.cover(tuple(stages), tuple(pf), tuple(steps), every, val_every, tuple(job.outcomes))
