"""C07: index -> sample mapping of every data set, for any listing order/history."""
import io
import os

from PIL import Image

from dst.core import HarnessError
from dst.disk import SimDisk
from dst.sched import Sched

from .common import REPO, base_setup, pil_pixels, pixels, png

RUNS = {"quick": 1600, "thorough": 30000}
MEASURE = (
    "distinct task interleavings plus distinct (data set, configuration, listing order, "
    "access outcome, fault) tuples"
)
REAL = ["neuralcompression.data.{Kodak, CLIC2020Image, CLIC2020Video, DIV2KDataset, OpenImagesV6, Vimeo90kSeptuplet}",
        "torchvision default_loader", "PIL and OpenCV decoding", "pytorchvideo FrameVideo and clip samplers"]
STUB = ["thread scheduling and locks (baton scheduler, line-level preemption inside the data package)",
        "directory listing order and read errors of the scratch directory"]
ASSUMPTIONS = ["directory listings themselves succeed (pathlib swallows listing errors)",
               "data on disk does not change while a process has the data set open"]
INVALID = "0a866d6fd1ea9317"  # listed by the data set as corrupt, train split only
INVALID2 = "f0508277b718aa55"


def setup():
    global D, torch, ToTensor, make_clip_sampler
    base_setup()
    import torch as t
    from pytorchvideo.data.clip_sampling import make_clip_sampler as m
    from torchvision.transforms import ToTensor as T

    import neuralcompression.data as d

    D, torch, ToTensor, make_clip_sampler = d, t, T, m


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def ref_tensor(data):
    return ToTensor()(Image.open(io.BytesIO(data)).convert("RGB"))


def names(sim, n):
    base = ["b0", "a1", "Z9", "c-3", "a10", "a2", "_x", "q.q"]
    k = sim.choose("names", len(base))
    return (base[k:] + base[:k])[:n]


def build(sim, root):
    """Write one data set; return (tag, factory, reference list, compare)."""
    kind = sim.pick("dataset", ("clic_image", "div2k", "open_images", "vimeo", "kodak", "clic_video"))
    sd = 100 * sim.choose("content", 50)
    if kind in ("clic_image", "div2k"):
        split = sim.pick("split", ("train", "val", "test")) if kind == "clic_image" else "val"
        sub = f"clic2020/{split}" if kind == "clic_image" else "DIV2K_valid_HR"
        ns = names(sim, 1 + sim.choose("n", 7))
        files = {f"{x}.png": png(sd + i, size=(3 + i, 4)) for i, x in enumerate(ns)}
        for x, b in files.items():
            put(os.path.join(root, sub, x), b)
        if sim.flip("stray", 0.4):
            put(os.path.join(root, sub, "readme.txt"), b"hello")
            put(os.path.join(root, sub, "nested", "deep.png"), png(1))
        ref = [pixels(files[k]) for k in sorted(files)]
        cls = D.CLIC2020Image if kind == "clic_image" else D.DIV2KDataset
        kw = {"split": split} if sim.flip("pass-split", 0.5) or split not in (
            "train" if kind == "clic_image" else "val") else {}
        if kind == "clic_image" and split != "train":
            kw = {"split": split}
        return (kind, split), (lambda tr: cls(root, transform=tr, **kw)), ref, pil_pixels
    if kind == "open_images":
        split = sim.pick("split", ("train", "val", "test"))
        sub = {"train": "train", "val": "validation", "test": "test"}[split]
        ns = [f"{(i * 2654435761 + sd) % (1 << 64):016x}" for i in range(1 + sim.choose("n", 7))]
        ext = sim.pick("ext", (".jpg", "", ".jpeg"))
        if ext and sim.flip("dotted", 0.3):
            ns = [f"{x[:5]}.{x[5:]}" if i % 2 else x for i, x in enumerate(ns)]
        listed = list(ns)
        if sim.flip("invalid", 0.6):
            listed += [INVALID, INVALID2]
        for i, x in enumerate(listed):
            put(os.path.join(root, sub, x + ".jpg"), png(sd + i, size=(8 + i, 8), fmt="JPEG"))
        k = sim.choose("rot", len(listed))
        lines = listed[k:] + listed[:k]
        if sim.flip("rev", 0.5):
            lines.reverse()
        eol = sim.pick("eol", ("\n", "\r\n"), zero=0.7)
        txt = eol.join(x + ext for x in lines) + ("" if sim.flip("no-final-eol", 0.4) else eol)
        kw = {}
        if sim.flip("custom-list", 0.4):
            lf = os.path.join(root, "mylist.txt")
            kw["image_list_file"] = lf
        else:
            lf = os.path.join(root, f"list-{sub}-files.txt")
        put(lf, txt.encode())
        want = sorted(x for x in listed if not (split == "train" and x in (INVALID, INVALID2)))

        def load(x):
            with open(os.path.join(root, sub, x + ".jpg"), "rb") as f:
                return pixels(f.read())

        return (kind, split), (lambda tr: D.OpenImagesV6(root, split, transform=tr, **kw)), [load(x) for x in want], pil_pixels
    if kind == "kodak":
        files = [png(sd + i, size=(3 + i % 4, 3 + i % 5)) for i in range(24)]
        for i, b in enumerate(files):
            put(os.path.join(root, f"kodim{i + 1:02}.png"), b)
        put(os.path.join(root, "kodim99.png"), png(3))
        return (kind,), (lambda tr: D.Kodak(root, check_hash=False, transform=tr)), [pixels(b) for b in files], pil_pixels
    if kind == "vimeo":
        folders = [f"{a:05d}/{b:04d}" for a, b in ((2, 1), (1, 3), (1, 1), (3, 2))][: 1 + sim.choose("n", 4)]
        fr = {f: [png(sd + 10 * i + j, size=(4, 3)) for j in range(7)] for i, f in enumerate(folders)}
        for f, bs in fr.items():
            for j, b in enumerate(bs):
                put(os.path.join(root, "sequences", f, f"im{j + 1}.png"), b)
        as_video = sim.flip("as-video", 0.5)
        g = 7 - sim.choose("frames", 7)
        kw = dict(as_video=as_video, frames_per_group=g)
        if sim.flip("folder-list", 0.4):
            kw["folder_list"] = ["sequences/" + f for f in folders]
        else:
            kw["split"] = sim.pick("split", ("train", "test"))
            eol = sim.pick("eol", ("\n", "\r\n"))
            put(os.path.join(root, f"sep_{kw['split']}list.txt"), (eol.join(folders) + (eol if sim.flip("final-eol", 0.5) else "")).encode())
        if as_video:
            ref = [torch.stack([ref_tensor(b) for b in fr[f][:g]]) for f in folders]
        else:
            ref = [ref_tensor(b) for f in folders for b in fr[f][:g]]
        pil = None if sim.flip("default-transform", 0.5) else ToTensor()
        if pil is None and not as_video:  # no transform in image mode: the images as they are
            ref = [pixels(b) for f in folders for b in fr[f][:g]]
            if sim.flip("tensor-transform", 0.4):
                kw["tensor_transform"] = lambda im: im.transpose(0)
                ref = [pil_pixels(Image.open(io.BytesIO(b)).convert("RGB").transpose(0)) for f in folders for b in fr[f][:g]]
            return (kind, as_video, g), (lambda tr: D.Vimeo90kSeptuplet(root, **kw)), ref, pil_pixels
        if sim.flip("tensor-transform", 0.4):
            kw["tensor_transform"] = lambda t: 1 - t
            ref = [1 - r for r in ref]

        def make(tr):
            return D.Vimeo90kSeptuplet(root, pil_transform=pil, **kw)

        return (kind, as_video, g), make, [r.numpy().tobytes() + str(tuple(r.shape)).encode() for r in ref], (
            lambda t: t.numpy().tobytes() + str(tuple(t.shape)).encode())
    # clic_video: whole-video clips
    vids = [f"{x}_720P-{i:04x}" for i, x in enumerate(names(sim, 1 + sim.choose("n", 4)))]
    ref = []
    for v in sorted(vids):
        i = vids.index(v)
        n = 2 + (i + sd) % 12
        rows = []
        for j in range(n):
            b = png(sd + 50 * i + j, size=(4, 3 + i % 2))
            put(os.path.join(root, v, f"{v}_{j:05d}_y.png"), b)
            put(os.path.join(root, v, f"{v}_{j:05d}_u.png"), png(7, size=(2, 2)))
            rows.append(ref_tensor(b) * 255)
        ref.append((v, torch.stack(rows, 1).round().numpy().tobytes()))
    mt = sim.flip("multithreaded", 0.4)

    def make(tr):
        return D.CLIC2020Video(root, clip_sampler=make_clip_sampler("random", 5), multithreaded_io=mt,
                               video_sampler=torch.utils.data.SequentialSampler)

    return (kind, mt), make, ref, (lambda s: (s["video_name"], s["video"].round().numpy().tobytes()))


def run(sim):
    root = os.path.join(sim.scratch, "data")
    os.mkdir(root)
    tag, make, ref, key = build(sim, root)
    disk = SimDisk(sim, root)
    for inc in range(1 + sim.choose("incarnations", 3)):
        disk.shuffle_listings()
        sim.cover(tag, "listing", disk.listing_seed)
        faulty = sim.flip("faulty", 0.4)
        disk.arm(horizon=60, kinds=("eio_read", "short_read") if faulty else (), max_faults=2, zero=0.3, crash=0.1)
        ntasks = 1 + sim.choose("readers", 3)
        wrap = tag[0] not in ("vimeo", "clic_video") and sim.flip("transform", 0.3)
        plans = [
            [sim.choose("index", 2 * len(ref) + 2) - len(ref) - 1 for _ in range(1 + sim.choose("accesses", 5))]
            for _ in range(ntasks)
        ]

        def main():
            sched = Sched(sim, watch=(os.path.join(REPO, "neuralcompression", "data"),))
            disk.sched = sched
            with sched.patched_threading(), disk.installed():
                made = sched.run([("open", lambda: make((lambda im: ("T", im)) if wrap else None))])["open"]
                if made[0] == "exc":
                    raise made[1]
                ds = made[1]
                # each reader is its own loader worker (a stateful clip reader is
                # not shared between threads)
                import copy

                def reader(plan, mine):
                    out = []
                    for i in plan:
                        try:
                            v = mine[i]
                            if wrap:
                                assert v[0] == "T"
                                v = v[1]
                            out.append((i, "ok", key(v)))
                        except Exception as e:
                            out.append((i, "exc", f"{type(e).__name__}: {e}"))
                    return (len(mine), out)

                share = tag[0] != "clic_video"
                sched.tasks = []
                return sched.run([
                    (f"r{k}", (lambda p=p, d=(ds if share else copy.deepcopy(ds)): reader(p, d)))
                    for k, p in enumerate(plans)
                ])

        f0 = dict(sim.faults)
        out = sim.process(main)
        disk.disarm()
        hit = sorted(k for k in sim.faults if sim.faults[k] != f0.get(k, 0))
        sim.event("incarnation", tag, out[0])
        if out[0] == "crash":
            continue
        if out[0] == "exc":
            sim.check(bool(hit), "open-failed", f"{tag}: {out[1:3]}\n{out[4]}")
            continue
        errors = 0
        for name, (kind, val) in sorted(out[1].items()):
            if name not in {f"r{k}" for k in range(ntasks)}:
                continue  # frame-loading threads
            sim.check(kind == "ok", "reader-failed", f"{tag}: {val!r}")
            n, got = val
            sim.check(n == len(ref), "wrong-length", f"{tag}: {n} != {len(ref)}")
            for i, k, v in got:
                legal = -len(ref) <= i < len(ref)
                sim.cover(tag, "access", legal, k, tuple(hit))
                if not legal:
                    sim.check(k == "exc" and v.startswith("IndexError"), "out-of-range-index-accepted", f"{tag}[{i}] of {len(ref)}: {str(v)[:100]}")
                elif k == "exc":
                    errors += 1
                    sim.check(bool(hit), "read-failed", f"{tag}[{i}]: {v}")
                else:
                    want = ref[i]
                    where = ref.index(v) if v in ref else None
                    sim.check(v == want, "wrong-sample",
                              f"{tag}[{i}] returned {'sample ' + str(where) if where is not None else 'something else'} (listing seed {disk.listing_seed})")
        if errors:
            sim.check("disk.eio_read" in hit, "read-failed", f"{tag}: {errors} failures with {hit}")
