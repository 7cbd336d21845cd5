"""C20: an ILLM training job that is killed and restarted ends as the uninterrupted job, and its tests report what they should."""
import math
import os
import pickle

from PIL import Image

from dst.core import Violation, seed_everything
from dst.disk import SimDisk, tree
from dst.sched import Sched

from . import metrics_common as mc
from .c11_lr_resume import reference as lr_reference
from .common import REPO, base_setup, png
from .train_common import KINDS, Recorder, check_rates, checkpoint, fresh_names, load_script, norm, silent, state_digest, use_project, use_stubs

RUNS = {"quick": 180, "thorough": 4000}
MEASURE = "distinct (job configuration, sequence of incarnation outcomes and resume points) tuples"
REAL = ["projects/illm: train.py main/build_module/build_trainer/fetch_checkpoint/build_wandb_image_logger/WandbImageCallback/pretrained_state_dict/build_test_dataloaders, "
        "ImageModule, TargetRateCompressionModule, GANCompressionModule, OpenImagesDataModule, default_transforms",
        "neuralcompression: HiFiCAutoencoder (hyperprior, freezing, compress/decompress), ConditionalUnetDiscriminator, OASIS losses, "
        "TargetRateConfig, RampCosineLRSchedule, IdentitySchedule, OpenImagesV6, metric classes", "torch optimisers, torch.save/load, the file system of a scratch root"]
STUB = ["PyTorch Lightning: stubs/pytorch_lightning (one device, atomic last.ckpt, batch randomness tied to the batch position)",
        "hydra, omegaconf, wandb: minimal stand-ins; data-loader workers run inline",
        "feature networks of FID/KID/DISTS/LPIPS and MS-SSIM: cheap deterministic stand-ins; encoder and generator trunks: two small convolutions",
        "system-call layer of the scratch directory; a restart is a fork in which only files survive"]
ASSUMPTIONS = ["the trainer restores what it saved and repeats a batch bit for bit from its position",
               "the configuration does not change between restarts of one job"]


def setup():
    global torch, nn, np, pl, T, IM, TM, GM, DM, HiFiC, OmegaConf
    base_setup()
    use_stubs()
    import numpy as np
    import pytorch_lightning as pl
    import torch
    import torch.nn as nn
    from omegaconf import OmegaConf
    from torchmetrics import Metric

    IM, TM, GM, DM = use_project("illm", ["image_module", "target_compression_module", "gan_compression_module", "open_images_datamodule"])
    T = load_script("illm_train", "projects", "illm", "train.py")
    from neuralcompression.models import HiFiCAutoencoder as HiFiC

    mc.install()

    class Mean(Metric):
        def __init__(self, *a, **k):
            super().__init__()
            self.add_state("s", torch.tensor(0.0, dtype=torch.float64), dist_reduce_fx="sum")
            self.add_state("n", torch.tensor(0.0, dtype=torch.float64), dist_reduce_fx="sum")

        def update(self, p, t):
            d = (p.double() - t.double()).abs()
            self.s += (d / (1 + d)).mean(dim=(1, 2, 3)).sum()
            self.n += len(p)

        def compute(self):
            return (self.s / self.n).float()

    import neuralcompression.metrics as ncm

    IM.MultiscaleStructuralSimilarity = IM.LearnedPerceptualImagePatchSimilarity = Mean
    IM.FrechetInceptionDistance = ncm.FrechetInceptionDistance
    kid = ncm.KernelInceptionDistance
    ncm.KernelInceptionDistance = lambda: kid(subsets=3, subset_size=2)
    real = DM.DataLoader

    def inline(*a, **k):
        k.pop("prefetch_factor", None)
        k.update(num_workers=0, pin_memory=False)
        return real(*a, **k)

    DM.DataLoader = inline


def make_model(latent=4, hyper=4, freeze_encoder=False, freeze_bottleneck=False):
    """The real autoencoder with narrow latents and two-layer trunks."""
    import neuralcompression.models._hific_autoencoder as H

    keep = H.HiFiCEncoder, H.HiFiCGenerator

    class Enc(nn.Module):
        def __init__(self, in_channels, latent_features):
            super().__init__()
            self.blocks = nn.Sequential(nn.Sequential(nn.Conv2d(in_channels, 5, 4, stride=4)), nn.LeakyReLU(), nn.Conv2d(5, latent_features, 4, stride=4))

        def forward(self, x):
            return 6 * self.blocks(x)

    class Dec(nn.Module):
        def __init__(self, image_channels, latent_features, n_residual_blocks):
            super().__init__()
            self.blocks = nn.Sequential(nn.ConvTranspose2d(latent_features, 5, 4, stride=4), nn.LeakyReLU(), nn.ConvTranspose2d(5, image_channels, 4, stride=4))

        def forward(self, x):
            return 0.5 + self.blocks(x)

    H.HiFiCEncoder, H.HiFiCGenerator = Enc, Dec
    try:
        return HiFiC(3, latent, hyper, 0, freeze_encoder=freeze_encoder, freeze_bottleneck=freeze_bottleneck)
    finally:
        H.HiFiCEncoder, H.HiFiCGenerator = keep


def make_vq(codes):
    """Stand-in for the label VQ-VAE: a strided convolution and a real codebook."""
    from neuralcompression.layers import VQBottleneck

    m = nn.Module()
    m.encoder = nn.Conv2d(3, 2, 8, stride=8)
    m.bottleneck_op = VQBottleneck(codes, 2)
    return m


def scheduled(base, factors, steps, at):
    """The value in force at optimiser step ``at``."""
    k = sum(1 for s in steps if at >= s)
    return base * factors[k]


def ranks(sim):
    """Several processes of one job, or several jobs, share the cache of images to log."""
    root = os.path.realpath(sim.scratch)
    seed = sim.choose("seed", 100)
    data = os.path.join(root, "data")
    put_images(data, seed, 3, 3, small=True)
    tr, ev = [sim.choose("ti", 3), sim.choose("ti", 3)], [sim.choose("vi", 3), sim.choose("vi", 3)]
    other = sim.flip("other-indices", 0.3)
    fresh_names(sim)
    disk = SimDisk(sim, root)
    import torchvision

    tt = torchvision.transforms.ToTensor()

    def make(ev):
        cfg = OmegaConf.create(dict(data=dict(_target_="open_images_datamodule.OpenImagesDataModule"),
                                    image_logs=dict(log_cache_dir=os.path.join(root, "run", "log_batches"), train_log_indices=tr, val_log_indices=ev)))
        return cfg, DM.OpenImagesDataModule(data, 2, workers=1, train_transform=tt, val_transform=tt)

    def truth(ev):
        _, dm = make(ev)
        dm.setup()
        return norm([torch.stack([dm.train_dataset[i] for i in tr]), torch.stack([dm.eval_dataset[i] for i in ev])])

    want = {0: truth(ev), 1: truth([2 - v for v in ev])}
    n = 2 + sim.choose("ranks", 3)
    hist = []

    def wave(n, faulty):
        def main():
            sched = Sched(sim, watch=(T.__file__,))
            disk.sched = sched

            def rank(k):
                w = 1 if other and k % 2 else 0
                cb = T.build_wandb_image_logger(*make([2 - v for v in ev] if w else ev))
                sim.check(norm([cb.train_batch, cb.eval_batch]) == want[w], "wrong-log-images", f"rank {k} of {n} after {hist}")

            with silent(), sched.patched_threading(), disk.installed():
                res = sched.run([(f"rank{k}", lambda k=k: rank(k)) for k in range(n)])
            bad = []
            for k, (kind, v) in sorted(res.items()):
                if kind == "exc":
                    if isinstance(v, Violation):
                        raise v
                    bad.append((k, type(v).__name__, str(v)[:200]))
            return bad

        before = sum(sim.faults.values())
        out = sim.process(main)
        disk.disarm()
        hits = sum(sim.faults.values()) - before
        hist.append((n, out[0], hits))
        sim.event("wave", *hist[-1])
        sim.check(out[0] != "exc", "image-cache-failed", lambda: f"{out[1:]}")
        if out[0] == "ok":
            sim.check(len(out[1]) <= hits, "image-cache-fails-for-other-ranks", lambda: f"{hist} {out[1]}")
        sim.cover("ranks", other, tuple(hist))

    for _ in range(1 + sim.choose("waves", 3)):
        disk.arm(60 * n, KINDS, max_faults=2, zero=0.45, crash=0.6)
        wave(n, True)
    wave(1 + sim.choose("after", 3), False)


def put_images(data, seed, ntrain, nval, small=False):
    rs = np.random.RandomState(seed)
    for sub, n in (("train", ntrain), ("validation", nval)):
        os.makedirs(os.path.join(data, sub))
        names = [f"{i:016x}" for i in range(n)]
        for i, x in enumerate(names):
            size = (9, 8) if small else (int(rs.randint(66, 80)), int(rs.randint(66, 80)))
            with open(os.path.join(data, sub, x + ".jpg"), "wb") as f:
                f.write(png(seed * 100 + i + 1000 * len(sub), size=size, fmt="JPEG"))
        with open(os.path.join(data, f"list-{sub}-files.txt"), "w") as f:
            f.write("\n".join(names) + "\n")


def run(sim):
    if sim.flip("ranks-mode", 0.4):
        return ranks(sim)
    root = os.path.realpath(sim.scratch)
    gan = sim.flip("gan", 0.5)
    frozen = gan and sim.flip("frozen", 0.4)
    pretrained = gan and sim.flip("pretrained", 0.4)
    labels = gan and sim.flip("labels", 0.6)
    codes = 3
    latent, hyper = sim.pick("latent", (4, 3)), sim.pick("hyper", (4, 3))
    mc_sampling = gan and sim.flip("mc", 0.3)
    conditional = gan and not sim.flip("unconditional", 0.25)
    batch = 2 + sim.choose("batch", 2)
    ntrain = batch * (1 + sim.choose("epoch", 3)) + sim.choose("ragged", batch, zero=0.7) * (1 - mc_sampling)
    nval = 2 + sim.choose("nval", 3)
    steps = 2 + sim.choose("steps", 6)
    every = sim.pick("save", (1, 2, 3))
    val_every = sim.pick("val", (1, 2, 3, None))
    seed = sim.choose("seed", 200)
    opts = (2 + (1 if not frozen else 0)) if gan else 2
    tsteps = sorted(1 + sim.choose("tstep", steps * opts) for _ in range(1 + sim.choose("tsteps", 2)))
    lsteps = sorted(1 + sim.choose("lstep", steps * opts) for _ in range(1 + sim.choose("lsteps", 2)))
    tfac = [sim.pick("tfac", (1.429, 2.0, 1.7)) for _ in tsteps] + [1.0]
    lfac = [sim.pick("lfac", (0.5, 0.25, 3.0)) for _ in lsteps] + [1.0]
    bpp, lam = sim.pick("bpp", (0.14, 0.01, 2.0)), sim.pick("lam", (2.0, 16.0))
    cosine = sim.flip("cosine", 0.6)
    clip = sim.pick("clip", (1.0, None, 0.05))

    data = os.path.join(root, "data")
    put_images(data, seed, ntrain, nval)
    pre = os.path.join(root, "pre.ckpt")
    if pretrained:
        seed_everything(4000 + seed)
        m = make_model(latent, hyper)
        torch.save({"state_dict": {"model." + k: v for k, v in m.state_dict().items()} | {"other.x": torch.zeros(1)}}, pre)

    vqfile = os.path.join(root, "vq.ckpt")
    vqpre = labels and sim.flip("vqpre", 0.5)
    if vqpre:
        seed_everything(6000 + seed)
        torch.save({"state_dict": {"model." + k: v for k, v in make_vq(codes).state_dict().items()}}, vqfile)

    tests = []
    for nm, n, size in (("kodak", 2, (64, 80)), ("clic2020_test", 2, (256, 272)), ("div2k_val", 3, (270, 256)), ("photos", 3, (80, 64))):
        if sim.flip("test." + nm, 0.4):
            tests.append((nm, n, size))
    if sim.flip("test.rev", 0.5):
        tests.reverse()

    def loader(nm, n, size, raw=False):
        g = torch.Generator().manual_seed(len(nm) * 7 + seed)
        x = torch.rand(n, 3, *size, generator=g)
        if raw:
            return x
        return torch.utils.data.DataLoader(x if nm != "photos" else torch.utils.data.TensorDataset(x, torch.arange(n)), batch_size=1)

    ident = dict(_target_="neuralcompression.optim.IdentitySchedule")
    ramp = dict(_target_="neuralcompression.optim.RampCosineLRSchedule", num_ramp_steps=2, num_max_steps=steps + 2, min_val=1e-6) if cosine else ident
    decay = lambda g: dict(_target_="torch.optim.lr_scheduler.ExponentialLR", gamma=g)
    aux_s, disc_s = (decay(0.7), decay(0.6)) if sim.flip("decay", 0.6) else (ident, ident)
    adam = lambda lr: dict(_target_="torch.optim.AdamW", lr=lr)

    def config(cwd, overwrite=False, resume=True, mode="train", which=None, validate=True):
        c = dict(
            ngpu=0, seed=18 + seed, training_mode=mode,
            data=dict(_target_="open_images_datamodule.OpenImagesDataModule", open_images_root=data, batch_size=batch, workers=1, image_size=[64, 64], pin_memory=False),
            model=dict(_target_=make_model, latent=latent, hyper=hyper, freeze_encoder=frozen, freeze_bottleneck=frozen),
            distortion_loss=dict(_target_="neuralcompression.loss_fn.MSELoss", scale_param=255.0),
            rate_target=dict(_target_="neuralcompression.loss_fn.TargetRateConfig", target_bpp=bpp, target_factors=tfac, target_steps=tsteps,
                             lam_levels=[0.0625, lam], lam2_factors=lfac, lam2_steps=lsteps),
            lightning_module=dict(distortion_lam=1.0, gradient_clip_val=clip, gradient_clip_algorithm="norm"),
            optimizer=dict(model_opt=adam(0.003), model_opt_schedule=ramp, aux_opt=adam(0.01), aux_opt_schedule=aux_s),
            trainer=dict(max_steps=steps, val_check_interval=val_every if validate else None, accelerator="cpu", devices=1),
            logger=dict(group="dev"),
            image_logs=dict(log_cache_dir=os.path.join(cwd, "rundir", "log_batches"), train_log_indices=[0, 1], val_log_indices=[1, 0]),
            checkpoint=dict(overwrite=overwrite, resume_training=resume, callback=dict(dirpath="checkpoints", save_last=True, every_n_train_steps=every)),
            test_dataloaders={f"ds{i}": dict(name=nm, class_params=dict(_target_=lambda nm=nm, n=n, size=size: loader(nm, n, size)))
                              for i, (nm, n, size) in enumerate(tests if which is None else which)})
        if gan:
            kind = "OASIS" if labels else "BinaryCrossentropy"
            c["lightning_module"].update(generator_weight=0.5, mc_sampling=mc_sampling)
            disc = dict(_target_="neuralcompression.models.ConditionalUnetDiscriminator", context_in=latent, context_out=2, chans=[5, 4, 4, 4, 4, 4, 4])
            if not conditional:
                disc = dict(_target_="neuralcompression.models.UnetDiscriminator", chans=[3, 4, 4, 4, 4, 4, 4])
            c["discriminator"] = dict(
                model=dict(disc, output_channels=codes + 1 if labels else 1, output_downsampling_factor=8),
                discriminator_loss=dict(_target_=f"neuralcompression.loss_fn.{kind}DiscriminatorLoss"),
                generator_loss=dict(_target_=f"neuralcompression.loss_fn.{kind}GeneratorLoss"))
            if labels:
                c["latent_projector"] = dict(autoencoder=dict(_target_=make_vq, codes=codes), projector=dict(_target_="neuralcompression.models.VqVaeProjector"))
                if vqpre:
                    c["pretrained_latent_autoencoder"] = dict(path=vqfile)
            c["optimizer"].update(discriminator_opt=adam(0.004), discriminator_opt_schedule=disc_s)
        if pretrained:
            c["pretrained_autoencoder"] = dict(path=pre)
        return OmegaConf.create(c)

    fresh_names(sim)
    rec = Recorder(sim, pl)
    rec.install()
    disk = SimDisk(sim, root)

    def body(cwd, cfg, kill=None, faults=False):
        def go():
            os.chdir(cwd)
            first = len(rec.steps)

            def on_step(trainer, model):
                nonlocal kill
                if frozen:
                    for n, p in model.model.named_parameters():
                        if not n.startswith("decoder."):
                            sim.check(torch.equal(p, frozen0[n]), "frozen-weights-changed", f"{n} at step {trainer.seen}")
                for n, p in model.latent_projector.state_dict().items() if labels else ():
                    if n in label0:
                        sim.check(torch.equal(p, label0[n]), "label-model-changed", f"{n} at step {trainer.seen}")
                if kill is not None and len(rec.steps) - first == kill[0]:
                    if kill[1]:
                        sim.fault("allocation_failure")
                        raise MemoryError("simulated")
                    sim.crash("training step")

            rec.on_step = on_step
            with silent():
                if faults:
                    with disk.installed():
                        T.main(cfg)
                else:
                    T.main(cfg)
            return rec.log, rec.images, rec.steps[first:], disk.ops, rec.raw, rec.nums

        return sim.process(go)

    frozen0, label0 = {}, {}
    if vqpre:
        params = {n for n, _ in make_vq(codes).named_parameters()}
        label0 = {k[6:]: v for k, v in torch.load(vqfile)["state_dict"].items() if k[6:] in params}
    if frozen:
        if pretrained:
            frozen0 = {k[6:]: v for k, v in torch.load(pre)["state_dict"].items() if k.startswith("model.")}
        else:
            seed_everything(18 + seed)
            frozen0 = dict(make_model(latent, hyper, True, True).named_parameters())
            frozen0 = {k: v.detach().clone() for k, v in frozen0.items()}

    # the job without any interruption
    refdir = os.path.join(root, "ref")
    os.mkdir(refdir)
    out = body(refdir, config(refdir))
    sim.check(out[0] == "ok", "training-job-failed", lambda: f"{out[1:]}")
    ref = out[1]
    sim.check([s for _, s in ref[2]] == list(range(1, steps + 1)), "training-length", f"{ref[2]} for {steps} steps")
    final = checkpoint(os.path.join(refdir, "checkpoints", "last.ckpt"))
    want = state_digest(final)
    for (pre_, where, seen, name), v in ref[0].items():
        if name in ("train/target", "train/lam2"):
            # the rates in force in the k-th batch: the trainer counts one step per optimiser stepped so far
            at = {(seen * opts) + d for d in range(opts)}
            ok = {norm(scheduled(bpp, tfac, tsteps, a) if name == "train/target" else scheduled(lam, lfac, lsteps, a)) for a in at}
            sim.check(v in ok, "rate-schedule", f"{name} in batch {seen}")
    def rates(tag, k):
        w = [lr_reference("rc", dict(ramp=2, total=steps + 2, min=1e-6), 0.003, k) if cosine else 0.003]
        if not frozen:
            w.append(0.01 * (0.7 if aux_s is not ident else 1.0) ** k)
        if gan:
            w.append(0.004 * (0.6 if disc_s is not ident else 1.0) ** k)
        return sorted(w)

    check_rates(sim, {k: sorted(v) if k[0] == "lr" else v for k, v in ref[5].items()}, rates)
    if val_every and steps % val_every == 0:
        # the last validation: what coding the validation images (resized, nothing random) with the final weights gives
        m = make_model(latent, hyper).eval()
        m.load_state_dict({k[6:]: v for k, v in final["state_dict"].items() if k.startswith("model.")})
        xs = []
        for i in range(nval):
            with open(os.path.join(data, "validation", f"{i:016x}.jpg"), "rb") as f:
                im = Image.open(f).convert("RGB").resize((64, 64), Image.BILINEAR)
            xs.append(torch.from_numpy(np.array(im)).permute(2, 0, 1).float() / 255)
        parts = torch.stack(xs).split(batch)
        se, bits, dist = 0.0, [], []
        with torch.no_grad():
            for x in parts:
                o = m(x)
                se += float(((torch.round(255 * o.image.clamp(0, 1)) - torch.round(255 * x)).double() ** 2).sum())
                q = sum(-torch.log2(l.double()).sum() for l in (o.quantized_latent_likelihoods, o.quantized_hyper_latent_likelihoods))
                bits.append(float(q) / (len(x) * 64 * 64))
                dist.append(float(((o.image - x).double() ** 2).mean() * 255))
        mse = se / (nval * 3 * 64 * 64)
        even = (("val/quantized_total_bpp", sum(bits) / len(bits)), ("val/distortion_loss", sum(dist) / len(dist))) if nval % batch == 0 else ()
        for name, v in (("val/mse", mse), ("val/psnr", 10 * math.log10(255.0 ** 2 / mse)), *even):
            g = ref[5].get(("val", steps, name))
            sim.check(g is not None and abs(g - v) <= 3e-4 * max(1.0, abs(v)), "wrong-validation-report", lambda: f"{name}: {g}, expected {v}")
    # validation and image logging do not change what is trained
    if val_every and sim.flip("noval", 0.3):
        d2 = os.path.join(root, "noval")
        os.mkdir(d2)
        o2 = body(d2, config(d2, validate=False))
        sim.check(o2[0] == "ok", "training-job-failed", lambda: f"{o2[1:]}")
        w2 = state_digest(checkpoint(os.path.join(d2, "checkpoints", "last.ckpt")))
        for k in w2:
            sim.check(w2[k] == want[k], f"validation-changes-training-{k}", "")
    if pretrained:
        p0 = torch.load(pre)["state_dict"]
        sim.check(set(k[6:] for k in p0 if k.startswith("model.")) == set(k[6:] for k in final["state_dict"] if k.startswith("model.")), "pretrained-keys")

    # the same job under kills, failures and restarts
    cwd = os.path.join(root, "job")
    os.mkdir(cwd)
    ck = os.path.join(cwd, "checkpoints")
    rec.ref = (ref[0], ref[1])
    outcomes = []

    def position():
        try:
            return checkpoint(os.path.join(ck, "last.ckpt"))["seen"]
        except FileNotFoundError:
            return 0

    def judge(out, start, clean, what):
        outcomes.append((what, start, out[0], out[1] if out[0] != "ok" else len(out[1][2])))
        sim.event(*outcomes[-1])
        if out[0] == "exc":
            sim.check(not clean, "restart-cannot-complete", lambda: f"{outcomes} {out[1:]}")
        if out[0] == "ok":
            sim.check([s for _, s in out[1][2]] == list(range(start + 1, steps + 1)), "resumed-at-the-wrong-batch", f"{outcomes}: {out[1][2]}")
            got = state_digest(checkpoint(os.path.join(ck, "last.ckpt")))
            for k in want:
                sim.check(got[k] == want[k], f"result-depends-on-restarts-{k}", f"{outcomes}")

    horizon = ref[3] if ref[3] else 300
    for _ in range(1 + sim.choose("incarnations", 5)):
        act = sim.pick("act", ("run", "run", "run", "run", "guard", "overwrite"))
        start = position()
        if act == "guard":
            before = tree(ck) if os.path.isdir(ck) else None
            have = [x for x in (before or {}) if x.endswith(".ckpt")]
            if not have:
                continue
            o = body(cwd, config(cwd, resume=False))
            sim.check(o[0] == "exc" and o[1] == "RuntimeError", "existing-checkpoints-not-protected", lambda: f"{o[:3]}")
            sim.check(tree(ck) == before, "existing-checkpoints-not-protected", "files changed")
            continue
        over = act == "overwrite"
        kill = None
        if sim.flip("kill", 0.6):
            kill = (1 + sim.choose("kill.at", steps), sim.flip("kill.alloc", 0.3))
        disk.shuffle_listings()
        disk.arm(600 if kill is None else 200, KINDS, max_faults=1, zero=0.6, crash=0.6)
        before = sum(sim.faults.values())
        o = body(cwd, config(cwd, overwrite=over), kill, True)
        disk.disarm()
        judge(o, 0 if over else start, sum(sim.faults.values()) == before, act)
    start = position()
    o = body(cwd, config(cwd))
    judge(o, start, True, "final")
    # testing: what is reported for a dataset does not depend on what else is tested, nor on the training history
    if tests:
        rec.ref = None
        results = {}

        def coding_of(nm, n, size):
            """Rate and quality of coding a test set with the trained weights, one image at a time."""
            m = make_model(latent, hyper).eval()
            m.load_state_dict({k[6:]: v for k, v in final["state_dict"].items() if k.startswith("model.")})
            m.update()
            m.update_tensor_devices("compress")
            acc = {"bpp": [], "mse": [], "psnr": [], "test_distortion": []}
            with torch.no_grad():
                for x in loader(nm, n, size, raw=True):
                    c = m.compress(x[None], force_cpu=False)
                    y = m.decompress(c, force_cpu=False)[0].double()
                    acc["bpp"].append(8 * len(pickle.dumps(c)) / (size[0] * size[1]))
                    acc["test_distortion"].append(float(((y - x.double()) ** 2).mean() * 255.0))
                    e = float(((torch.round(255 * y.float().clamp(0, 1)) - torch.round(255 * x)).double() ** 2).mean())
                    acc["mse"].append(e)
                    acc["psnr"].append(10 * math.log10(255.0 ** 2 / e))
            return {k: sum(v) / len(v) for k, v in acc.items()}

        for k, which in enumerate([tests] + [[t] for t in tests] + ([list(reversed(tests))] if len(tests) > 1 else [])):
            o = body(refdir if k == 1 else cwd, config(cwd, mode="test", which=which))
            sim.check(o[0] == "ok", "test-job-failed", lambda: f"{which} {o[1:]}")
            raw = o[1][4]
            got = {n: v for (_, where, _, n), v in o[1][0].items() if where == "test"}
            for nm, n, size in which:
                mine = {a: v for a, v in got.items() if a.startswith(f"test/{nm}_")}
                sim.check(len(mine) >= 10, "test-report-incomplete", f"{nm}: {sorted(mine)}")
                if nm not in results:
                    for what, v in coding_of(nm, n, size).items():
                        g = raw.get(f"test/{nm}_{what}")
                        sim.check(g is not None and abs(g - v) <= 2e-4 * max(1.0, abs(v)), "wrong-test-report", lambda: f"{nm} {what}: {g}, coding the set gives {v}")
                base = results.setdefault(nm, mine)
                for a in base:
                    sim.check(mine.get(a) == base[a], "test-report-depends-on-other-datasets", f"{a} with {[w[0] for w in which]}")
        sim.check(state_digest(checkpoint(os.path.join(ck, "last.ckpt"))) == want, "testing-changes-the-checkpoint", "")
    sim.cover(gan, conditional, frozen, pretrained, labels, vqpre, steps, every, val_every, tuple(outcomes), tuple(t[0] for t in tests))
