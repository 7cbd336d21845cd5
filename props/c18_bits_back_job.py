"""C18: a bits-back encoding job survives kills and disk failures at any point and still is lossless."""
import contextlib
import copy
import importlib
import io
import mmap
import os
import shutil
import sys

from dst.core import seed_everything
from dst.disk import SimDisk

from . import bitsback_common as bb
from .common import REPO
from .dist_common import replaced

RUNS = {"quick": 500, "thorough": 12000}
MEASURE = "distinct (configuration, sequence of incarnation outcomes, checkpoint files left) tuples"
REAL = ["projects/bits_back_diffusion: encode.py main/encode/decode, script_util.setup/update_checkpoint/parse_resume_step_from_filename/WandbOutputFormat, BitsBackCodec, DiffusionModel",
        "numpy npz files and the kernel file system below a scratch root"]
STUB = bb.STUBS + [
    "torch.distributed: world size and rank are given, the barrier returns (ranks run one after another as separate processes)",
    "system-call layer of the scratch directory (fault-injecting wrappers around open/read/write/mkdir/rename/listing)",
    "a restarted process is a fork with a different random state; only files survive",
]
ASSUMPTIONS = ["a killed process loses nothing it had already written (no power loss)",
               "the set of requested samples and the number of ranks do not change between restarts of one job",
               "the data iterator yields the same batches in every incarnation", "fewer than 100000 samples per rank"]
KINDS = ("enospc", "eio_write", "short_write", "eio_read", "short_read")


def setup():
    global codec, util, np, torch, Eps, job, dist, OmegaConf
    codec, util, np, torch, Eps = bb.setup()
    d = os.path.join(REPO, "projects", "bits_back_diffusion")
    if d not in sys.path:
        sys.path.insert(0, d)
    import torch.distributed as dist
    from omegaconf import OmegaConf

    job = importlib.import_module("encode")
    if not os.path.realpath(job.__file__).startswith(REPO + os.sep):
        raise RuntimeError("foreign encode.py")
    torch.manual_seed(0)


def batches(seed, rank, shape, prec, lo, hi, offgrid):
    """The endless deterministic loader of one rank."""
    top = (1 << prec) - 1
    i = 0
    while True:
        rs = np.random.RandomState((seed * 1009 + rank * 101 + i) % (2**31))
        q = rs.randint(0, top + 1, size=shape)
        x = lo + (q + (rs.rand(*shape) - 0.5) * offgrid) * (hi - lo) / top
        yield torch.from_numpy(np.clip(x, lo, hi).astype(np.float32)), {}
        i += 1


def run(sim):
    root = os.path.realpath(sim.scratch)
    b = 1 + sim.choose("batch", 2)
    world = 1 + sim.choose("world", 3, zero=0.6)
    n = 1 + sim.choose("batches", 7)
    ragged = sim.choose("ragged", b * world, zero=0.8)
    shape = (b, 3, 1 + sim.choose("h", 2), 1 + sim.choose("w", 3))
    prec = sim.pick("prec", (8, 4, 10))
    lo, hi = sim.pick("range", ((-1.0, 1.0), (0.0, 1.0)))
    steps, spacing = sim.pick("steps", ((6, ""), (12, "vlb4"), (2, [2])))
    seed = sim.choose("data", 500)
    offgrid = sim.pick("offgrid", (0.0, 0.9))
    save = sim.pick("save", (1, 2, 3, 5, 100))
    check = not sim.flip("nocheck", 0.15)
    track = sim.flip("track", 0.4)
    wseed = sim.choose("weights", 10)
    num_samples = n * b * world - ragged
    shards = [batches(seed, r, shape, prec, lo, hi, offgrid) for r in range(world)]
    grid = (1 << prec) - 1
    want = []
    for it in shards:
        rows = []
        for _ in range(n + 1):
            x = next(it)[0].numpy()
            rows.append(((x - lo) * grid / (hi - lo)).round().astype(np.int32))
        want.append(rows)

    models = os.path.join(root, "models")
    os.mkdir(models)
    torch.save(Eps(3, wseed).state_dict(), os.path.join(models, "ema_0.9999_000010.pt"))
    if sim.flip("older-model", 0.3):
        torch.save(Eps(3, wseed + 100).state_dict(), os.path.join(models, "ema_0.9999_000009.pt"))
    model_path = models if sim.flip("model-dir", 0.4) else os.path.join(models, "ema_0.9999_000010.pt")
    initial = int(np.prod(shape)) * (steps + 4) * 8

    def config(rank, enc=None):
        return OmegaConf.create(dict(
            check=check, save_interval=save, encode_checkpoint=enc, decode_checkpoint=None,
            evaluator=dict(model_path=model_path, num_samples=num_samples, clip_denoised=True),
            model=dict(_target_=lambda: Eps(3, 77)),
            diffusion=dict(_target_=lambda **k: util.create_gaussian_diffusion(steps=steps, timestep_respacing=spacing, noise_schedule="cosine")),
            data=dict(val=dict(_target_=lambda **k: batches(seed, rank, shape, prec, lo, hi, offgrid), data_dir="data", batch_size=b, image_size=2)),
            codec=dict(_target_="bits_back_diffusion.codec.BitsBackCodec",
                       model=dict(_target_="bits_back_diffusion.codec.DiffusionModel", use_log_variance=False),
                       data_shape=shape, data_prec=prec, data_min=lo, data_max=hi, initial_len=initial, track=track)))

    disk = SimDisk(sim, root)
    where = {"dir": "out0", "k": 0}
    os.mkdir(os.path.join(root, "out0"))

    shared = mmap.mmap(-1, 4)  # calls of encode and decode and the batches on the stack at the last of each, also of a killed process

    def incarnation(rank, cwd, enc, rseed):
        def body():
            os.chdir(cwd)
            seed_everything(rseed)
            shared[:] = bytes(4)
            for i, f in enumerate(("encode", "decode")):
                real = getattr(codec.BitsBackCodec, f)

                def counted(self, *a, i=i, real=real, **k):
                    shared[i] += 1
                    shared[2 + i] = int(self.data_count)
                    return real(self, *a, **k)

                setattr(codec.BitsBackCodec, f, counted)
            given = dict(get_world_size=lambda *a, **k: world, get_rank=lambda *a, **k: rank, barrier=lambda *a, **k: None)
            with contextlib.redirect_stdout(io.StringIO()), disk.installed(), replaced(dist, given):
                job.main(config(rank, enc))
            return shared[0], shared[1]

        return sim.process(body)

    def rank_dir(cwd, rank):
        return os.path.join(cwd, f"logging_rank{rank:03d}")

    def fresh():
        m = codec.DiffusionModel(model=Eps(3, wseed).eval(), diffusion=util.create_gaussian_diffusion(steps=steps, timestep_respacing=spacing, noise_schedule="cosine"),
                                 clip_denoised=True)
        return codec.BitsBackCodec(model=m, data_shape=shape, data_prec=prec, data_min=lo, data_max=hi, initial_len=initial, track=track)

    def verify(rank, cwd, when):
        """The job reported success: its result must be complete, decodable and lossless."""
        d = rank_dir(cwd, rank)
        cks = sorted(f for f in os.listdir(d) if f.startswith("encode-ckpt") and f.endswith(".npz"))
        last, count = None, -1
        for f in cks:
            z = dict(np.load(os.path.join(d, f)))
            if int(z["data_count"]) > count:
                last, count = z, int(z["data_count"])
        if last is None:
            # completed from a checkpoint kept elsewhere
            sim.check(bool(src.get(rank)), "completed-without-a-result", f"{when} {sorted(os.listdir(d))}")
            last = dict(np.load(srcfile[rank]))
            count = int(last["data_count"])
        need = {-(-num_samples // (b * world)), num_samples // (b * world)}
        sim.check(count in need, "completed-with-missing-samples", f"{when}: {count} batches of {need}")
        if check:
            have = sorted(f for f in os.listdir(d) if f.startswith("batch") and f.endswith(".npz"))
            sim.check(len(have) == count, "completed-without-all-decoded-batches", f"{when}: {have} of {count}")
            for i, f in enumerate(have):
                sim.check(np.array_equal(np.load(os.path.join(d, f))["batch"], want[rank][i]), "decoded-batch-differs", f"{when}: {f}")
        c = fresh()
        c.load_state_dict(copy.deepcopy(last))
        for i in reversed(range(count)):
            _, got = c.decode()
            sim.check(np.array_equal(got, want[rank][i]), "encoded-state-does-not-decode", f"{when}: batch {i}")
        sim.check(c.flat_message.nbytes == int(last["initial_bytes"]), "encoded-state-does-not-decode", f"{when}: {c.flat_message.nbytes} bytes left of {last['initial_bytes']}")
        # the same message as encoding without any interruption from the same initial bits
        r = fresh()
        r.message, r.initial_bytes = c.message, int(last["initial_bytes"])
        for i in range(count):
            r.encode(want[rank][i])
        sim.check(np.array_equal(r.flat_message, last["flat_message"]), "result-depends-on-restarts", when)
        p = fresh()
        p.load_state_dict(copy.deepcopy(last))
        a, e = p.statistics(), r.statistics()
        for f in a._fields:
            x, y = getattr(a, f), getattr(e, f)
            sim.check((x is None) == (y is None) and (x is None or np.allclose(x, y)), "statistics-depend-on-restarts", lambda: f"{when}: {f} {x} expected {y}")

    def saved(rank, cwd):
        """Batches covered by the newest checkpoint a restart can continue from."""
        if src.get(rank):
            return int(np.load(srcfile[rank])["data_count"])
        d = rank_dir(cwd, rank)
        have = [os.path.join(d, f) for f in os.listdir(d) if f.startswith("encode-ckpt") and f.endswith(".npz")] if os.path.isdir(d) else []
        return max([int(np.load(f)["data_count"]) for f in have], default=0)

    def undecoded(rank, cwd):
        """Batches still to decode after the newest checkpoint of decoding."""
        d = rank_dir(cwd, rank)
        have = [os.path.join(d, f) for f in os.listdir(d) if f.startswith("decode-ckpt") and f.endswith(".npz")] if os.path.isdir(d) else []
        return min([int(np.load(f)["data_count"]) for f in have], default=None)

    src, srcfile = {}, {}
    done = {r: False for r in range(world)}
    outcomes = []
    horizon = None
    budget = 2 + sim.choose("incarnations", 6)
    cwd = os.path.join(root, where["dir"])
    for k in range(budget):
        rank = sim.choose("rank", world)
        disk.shuffle_listings()
        if horizon is None:
            horizon = 40 + 60 * n
        disk.arm(horizon if sim.flip("wide", 0.7) else 40, KINDS, max_faults=2, zero=0.45, crash=0.7)
        before = sum(sim.faults.values())
        out = incarnation(rank, cwd, src.get(rank), 5 + sim.choose("reseed", 1000))
        # at most one save interval of finished work is not saved
        try:
            have, left = saved(rank, cwd), undecoded(rank, cwd)
        except Exception:
            have = left = None  # a torn checkpoint: judged by the restart itself
        if have is not None and out[0] != "ok" and not src.get(rank):
            if shared[0]:
                sim.check(have * b > shared[2] * b - save, "finished-work-not-saved", lambda: f"{outcomes}: {have} of {shared[2]} encoded batches, interval {save}, batches of {b}")
            if shared[1]:
                sim.check((have if left is None else left) * b <= shared[3] * b + save + b - 1,
                          "finished-work-not-saved", lambda: f"{outcomes}: {left} batches left to decode, {shared[3]} really")
        faulted = sum(sim.faults.values()) > before
        outcomes.append((rank, out[0], out[1] if out[0] != "ok" else ""))
        sim.event("incarnation", rank, out[0], out[1] if out[0] != "ok" else "")
        if out[0] == "exc":
            sim.check(faulted, "job-failed-without-a-fault", lambda: f"{outcomes}\n{out[-1]}")
        if out[0] == "ok":
            done[rank] = True
            verify(rank, cwd, f"{outcomes}")
        if sim.flip("move", 0.15) and world == 1:
            # continue in a new output directory from what was saved
            d = rank_dir(cwd, 0)
            have = sorted(f for f in os.listdir(d) if f.startswith("encode-ckpt") and f.endswith(".npz")) if os.path.isdir(d) else []
            if have:
                where["k"] += 1
                newest = max(have, key=lambda f: int(f[len("encode-ckpt"):-4]))
                try:
                    dict(np.load(os.path.join(d, newest)))
                except Exception:
                    continue  # judged by the fault-free restart below
                src[0] = srcfile[0] = os.path.join(d, newest)
                if sim.flip("as-dir", 0.5):
                    keep = os.path.join(root, f"kept{where['k']}")
                    os.mkdir(keep)
                    for f in have:
                        shutil.copy(os.path.join(d, f), os.path.join(keep, f))
                    src[0], srcfile[0] = keep, os.path.join(keep, newest)
                cwd = os.path.join(root, f"out{where['k']}")
                os.mkdir(cwd)
                sim.fault("moved_to_new_directory")
                outcomes.append(("move",))
    disk.disarm()
    total = -(-num_samples // (b * world))
    for rank in range(world):
        try:
            start, left = saved(rank, cwd), undecoded(rank, cwd)
        except Exception:
            start = left = None  # a torn checkpoint: judged by the restart itself
        out = incarnation(rank, cwd, src.get(rank), 9999 + rank)
        sim.check(out[0] == "ok", "restart-cannot-complete", lambda: f"rank {rank} after {outcomes}: {out[1:3]}\n{out[-1]}")
        verify(rank, cwd, f"rank {rank} restarted after {outcomes}")
        if start is not None:
            sim.check(out[1][0] <= total - start, "saved-work-repeated", lambda: f"rank {rank} after {outcomes}: {out[1][0]} batches encoded, {start} of {total} were saved")
            sim.check(out[1][1] <= (total if left is None else left), "saved-work-repeated",
                      lambda: f"rank {rank} after {outcomes}: {out[1][1]} batches decoded, {left} of {total} were left")
        out = incarnation(rank, cwd, src.get(rank), 77)
        sim.check(out[0] == "ok", "finished-job-cannot-be-restarted", lambda: f"{out[1:]}")
        verify(rank, cwd, f"rank {rank} run again after {outcomes}")
        sim.check(bool(src.get(rank)) or out[1] == (0, 0), "finished-job-works-again", lambda: f"rank {rank}: {out[1]} batches encoded and decoded")
    left = tuple(sorted(os.listdir(rank_dir(cwd, 0))))
    sim.cover(shape, n, save, check, tuple(outcomes), left)
