"""C08: an epoch of CLIC2020Video yields every clip of every video exactly once."""
import copy
import math
import os
import random
from fractions import Fraction

from dst.core import HarnessError, tensor_hash
from dst.disk import SimDisk
from dst.sched import Sched

from .common import REPO, base_setup, png

RUNS = {"quick": 1200, "thorough": 24000}
MEASURE = (
    "distinct task interleavings plus distinct (videos, workers, clip sampler, video sampler, "
    "epoch history, fault) tuples"
)
REAL = ["neuralcompression.data.CLIC2020Video", "pytorchvideo FrameVideo, clip samplers, MultiProcessSampler, threaded frame loading",
        "torch samplers", "OpenCV decoding"]
STUB = ["DataLoader worker processes (forked incarnations with torch's worker-info record set as the loader sets it)",
        "thread scheduling and locks (baton scheduler)", "listing order and read errors of the scratch directory"]
ASSUMPTIONS = ["the consumer starts a new pass (iter) after a read error or an abandoned pass",
               "torch.utils.data loader semantics: worker seed = base seed + worker id, each worker iterates its own copy"]
FPS = 30.0


def setup():
    global torch, Video, mk, W
    base_setup()
    import torch as t
    import torch.utils.data._utils.worker as w
    from pytorchvideo.data.clip_sampling import make_clip_sampler

    from neuralcompression.data import CLIC2020Video

    torch, Video, mk, W = t, CLIC2020Video, make_clip_sampler, w


def expected_clips(sampler, nframes, per_clip):
    """Reference: every clip of one video, from the sampler's own definition."""
    s = copy.deepcopy(sampler)
    dur, t, out = nframes / FPS, 0.0, []
    while True:
        c = s(t, dur, {})
        end = min(c.clip_end_sec, dur)
        idx = list(range(math.ceil(FPS * c.clip_start_sec), min(math.ceil(FPS * end), nframes)))
        out.append((c.clip_index, c.aug_index, idx))
        if c.is_last_clip:
            return out
        t = c.clip_end_sec
        if len(out) > 500:
            raise HarnessError("sampler does not end")


def decode(sample, marks):
    """Which frames does this clip hold?  Frames carry (video, frame) as pixels."""
    v = sample["video"]
    return [marks.get(tensor_hash(v[:, k].contiguous())) for k in range(v.shape[1])]


def run(sim):
    root = os.path.join(sim.scratch, "data")
    os.mkdir(root)
    nv = 1 + sim.choose("videos", 5)
    vids, marks = [], {}
    import cv2
    import numpy as np

    for i in range(nv):
        name = f"{'dbace'[i]}_720P-{i:04x}"
        n = sim.pick("frames", (6, 3, 9, 12, 20))
        os.mkdir(os.path.join(root, name))
        for j in range(n):
            b = png(7000 + 100 * i + j, size=(3, 2))
            with open(os.path.join(root, name, f"{j:05d}_y.png"), "wb") as f:
                f.write(b)
            img = cv2.cvtColor(cv2.imdecode(np.frombuffer(b, np.uint8), cv2.IMREAD_COLOR), cv2.COLOR_BGR2RGB)
            t = torch.as_tensor(img).permute(2, 0, 1).to(torch.float32).contiguous()
            marks[tensor_hash(t)] = (name, j)
        vids.append((name, n))
    vids.sort()
    ck = sim.pick("clip-sampler", ("uniform", "uniform-stride", "constant", "constant-aug", "random"))
    dur = Fraction(sim.pick("clip-frames", (3, 2, 4, 6)), 30)
    if ck == "uniform":
        sampler = mk("uniform", dur)
    elif ck == "uniform-stride":
        sampler = mk("uniform", dur, dur / 2)
    elif ck.startswith("constant"):
        sampler = mk("constant_clips_per_video", dur, 1 + sim.choose("per-video", 4), 2 if ck.endswith("aug") else 1)
    else:
        sampler = mk("random", dur)
    seq = sim.flip("sequential", 0.5)
    per_clip = sim.choose("frames-per-clip", 4, zero=0.6) or None
    mt = sim.flip("multithreaded", 0.3)
    workers = sim.choose("workers", 5, zero=0.35)  # 0: in-process loading
    kw = dict(clip_sampler=sampler, frames_per_clip=per_clip, multithreaded_io=mt)
    if seq:
        kw["video_sampler"] = torch.utils.data.SequentialSampler
    use_tr = sim.flip("transform", 0.3)
    if use_tr:
        kw["transform"] = lambda s: {**s, "T": True}
    base_seed = 1000 + sim.choose("base-seed", 1000)
    epochs = 1 + sim.choose("epochs", 3)
    # per worker and epoch: does this pass end early (abandoned) and do reads fail?
    disk = SimDisk(sim, root)
    plan = [("abandon", sim.choose("abandon-after", 6)) if sim.flip("abandon", 0.25) else ("full", 0)
            for _ in range(epochs - 1)] + [("full", 0)]
    persistent = sim.flip("persistent-workers", 0.5)
    peek = [sim.choose("peek", nv) for _ in range(sim.choose("peeks", 3, zero=0.6))]
    sim.cover(nv, workers, ck, seq, tuple(p[0] for p in plan), persistent, mt)
    prog = [[] for _ in range(epochs)]
    for w in range(max(1, workers)):
        start = sim.choose("listing", 50) if w == 0 else start

        def main():
            # a loader worker: forked from the parent that built the data set
            disk.listing_seed = start
            sched = Sched(sim)
            disk.sched = sched
            torch.manual_seed(base_seed)
            random.seed(base_seed)
            res = [[] for _ in range(epochs)]
            with sched.patched_threading(), disk.installed():
                def body():
                    ds = Video(root, **kw)
                    n = len(ds)
                    for p in peek:
                        s = ds[p]
                        if s["video_name"] != vids[p][0]:
                            sim.check(False, "indexed-access-served-another-video",
                                      f"[{p}] -> {s['video_name']}")
                    for e in range(epochs):
                        mine = ds
                        if workers:
                            if not persistent:
                                mine = copy.deepcopy(ds)
                            es = base_seed + (0 if persistent else 17 * e)
                            W._worker_info = W.WorkerInfo(id=w, num_workers=workers, seed=es + w, dataset=mine)
                            if e == 0 or not persistent:
                                torch.manual_seed(es + w)
                                random.seed(es + w)
                        how, limit = plan[e]
                        disk.ops = 0
                        disk.armed = {}
                        if how == "full" and e < epochs - 1 and sim.flip("read-error", 0.25):
                            disk.armed[sim.choose("read-error.at", 40)] = "eio_read"
                        f0 = sim.faults["disk.eio_read"]
                        it = iter(mine)
                        out, end = [], "end"
                        try:
                            for k, s in enumerate(it):
                                out.append(s)
                                if how == "abandon" and k >= limit:
                                    end = "abandoned"
                                    break
                                sim.check(k < 2000, "endless-epoch")
                        except Exception:
                            if sim.faults["disk.eio_read"] == f0:
                                raise
                            end = "read-error"
                        disk.armed = {}
                        res[e] = (end, [
                            (s["video_name"], s["video_index"], s["clip_index"], s["aug_index"],
                             decode(s, marks), s.get("T", False)) for s in out])
                    return n
                r = sched.run([("worker", body)])["worker"]
            W._worker_info = None
            if r[0] == "exc":
                raise r[1]
            sim.check(r[1] == nv, "wrong-length", f"{r[1]} != {nv}")
            return res

        out = sim.process(main)
        if out[0] != "ok":
            sim.check(False, "iteration-failed", f"{out[1:3]}\n{out[-1]}")
        for e in range(epochs):
            prog[e].append(out[1][e])
            sim.event("worker", w, "epoch", e, out[1][e][0], len(out[1][e][1]))
    ref = {}
    for name, n in vids:
        ref[name] = None if ck == "random" else expected_clips(sampler, n, per_clip)
    idx = {name: i for i, (name, _) in enumerate(vids)}
    nfr = dict(vids)
    for e in range(epochs):
        seen = {}
        complete = all(end == "end" for end, _ in prog[e])
        for w, (end, clips) in enumerate(prog[e]):
            order = []
            for name, vi, ci, ai, frames, tr in clips:
                sim.check(name in idx and vi == idx[name], "wrong-video-identity", f"{name} {vi}")
                sim.check(tr == use_tr, "transform-not-applied")
                if not order or order[-1] != name:
                    order.append(name)
                seen.setdefault(name, []).append((w, ci, ai, frames))
            if seq and workers == 0:
                sim.check(order == sorted(order), "videos-out-of-order", str(order))
            sim.check(len(set(order)) == len(order), "clips-of-a-video-interleaved", str(order))
        for name, got in seen.items():
            sim.check(len({g[0] for g in got}) == 1, "video-duplicated-across-workers",
                      f"epoch {e}: {name} served by workers {sorted({g[0] for g in got})}")
            for w, ci, ai, frames in got:
                sim.check(all(f is not None and f[0] == name for f in frames), "foreign-frames", f"{name}: {frames[:4]}")
                fi = [f[1] for f in frames]
                sim.check(fi == sorted(fi), "frames-out-of-order", f"{name}: {fi}")
                if per_clip:
                    sim.check(len(fi) == per_clip, "wrong-frame-count", f"{len(fi)} != {per_clip}")
            if ref[name] is not None:
                want = ref[name][: len(got)] if not complete else ref[name]
                sim.check([(g[1], g[2]) for g in got] == [(c, a) for c, a, _ in want], "clips-lost-or-repeated",
                          lambda: f"epoch {e}: {name}: clips {[(g[1], g[2]) for g in got]} expected {[(c, a) for c, a, _ in want]}")
                for g, (c, a, fr) in zip(got, want):
                    fi = [f[1] for f in g[3]]
                    if per_clip is None:
                        sim.check(fi == fr, "wrong-frames", f"{name} clip {c}: {fi} expected {fr}")
                    else:
                        # evenly spread over the clip, positions rounded down
                        at = [k * (len(fr) - 1) / max(1, per_clip - 1) for k in range(per_clip)]
                        sim.check(all(f in (fr[math.floor(p + 1e-4)], fr[math.floor(max(0, p - 1e-4))]) for f, p in zip(fi, at)),
                                  "wrong-frames", f"{name} clip {c}: {fi} from {fr}")
            else:
                sim.check(len(got) == 1, "clips-lost-or-repeated", f"{name}: {len(got)} random clips")
                if per_clip is None:
                    fi = [f[1] for f in got[0][3]]
                    sim.check(fi == list(range(fi[0], fi[0] + len(fi))), "wrong-frames", str(fi))
        if complete:
            sim.check(set(seen) == set(idx), "videos-lost",
                      f"epoch {e} of {epochs} ({workers} workers): missing {sorted(set(idx) - set(seen))}")
