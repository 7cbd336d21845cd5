"""C19: preparing the CIFAR-10 folders: whatever failed before, success means both splits are complete and right."""
import contextlib
import gzip
import hashlib
import importlib.util
import io
import os
import pickle
import random
import sys
import tarfile
import tempfile
import types

from dst.core import seed_everything
from dst.disk import SimDisk
from dst.net import NET_FAULTS, SimNet

from .common import REPO, base_setup

RUNS = {"quick": 700, "thorough": 15000}
MEASURE = "distinct (options, sequence of incarnation outcomes and faults, folder states) tuples"
REAL = ["projects/bits_back_diffusion/datasets/cifar10.py main", "torchvision.datasets.CIFAR10 download, checksum, extraction and decoding",
        "urllib, http.client, tarfile, PIL PNG encoding", "kernel file system below a scratch root"]
STUB = ["the remote server (simulated socket behind urllib's opener seam)",
        "the published archive: a small archive of the same format; its checksums and the expected split sizes are substituted",
        "system-call layer of the scratch directory"]
ASSUMPTIONS = ["folders that an incarnation did not create are complete or are prepared with --overwrite",
               "a killed process loses nothing it had already written (no power loss)"]
KINDS = ("enospc", "eio_write", "short_write", "eio_read", "short_read")
LABELS = ("plane", "car", "bird", "cat", "deer", "dog", "frog", "horse", "ship", "truck")
PER = (2, 1, 2, 1, 1, 4)  # images per batch file; the last one is the test batch


def setup():
    global mod, ARCHIVE, WANT
    base_setup()
    import numpy as np
    from torchvision.datasets import CIFAR10

    rs = np.random.RandomState(11)
    names = [f"data_batch_{i}" for i in range(1, 6)] + ["test_batch"]
    files, WANT = {}, {"train": {}, "valid": {}}
    for name, n in zip(names, PER):
        data = rs.randint(0, 256, size=(n, 3072)).astype(np.uint8)
        labels = [int(x) for x in rs.randint(0, 10, size=n)]
        files[name] = pickle.dumps({"data": data, "labels": labels})
        split = WANT["valid" if name == "test_batch" else "train"]
        for d, l in zip(data, labels):
            split[f"{LABELS[l]}_{len(split):05d}.png"] = d.reshape(3, 32, 32).transpose(1, 2, 0).tobytes()
    files["batches.meta"] = pickle.dumps({"label_names": ["airplane", "automobile"] + list(LABELS[2:])})
    raw = io.BytesIO()
    with tarfile.open(fileobj=raw, mode="w") as t:
        for name, b in files.items():
            info = tarfile.TarInfo("cifar-10-batches-py/" + name)
            info.size = len(b)
            t.addfile(info, io.BytesIO(b))
    ARCHIVE = gzip.compress(raw.getvalue(), mtime=0)
    md5 = lambda b: hashlib.md5(b).hexdigest()
    CIFAR10.tgz_md5 = md5(ARCHIVE)
    CIFAR10.train_list = [[n, md5(files[n])] for n in names[:5]]
    CIFAR10.test_list = [[names[5], md5(files[names[5]])]]
    CIFAR10.meta = {**CIFAR10.meta, "md5": md5(files["batches.meta"])}

    path = os.path.join(REPO, "projects", "bits_back_diffusion", "datasets", "cifar10.py")
    spec = importlib.util.spec_from_file_location("nc_cifar10_dump", path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    small = {50000: sum(PER[:5]), 10000: PER[5]}
    for k, v in list(vars(mod).items()):  # the expected split sizes, wherever they are kept
        if k.startswith("__"):
            continue
        if isinstance(v, dict) and any(x in small for x in v.values() if isinstance(x, int)):
            for kk, vv in v.items():
                v[kk] = small.get(vv, vv) if isinstance(vv, int) else vv
        elif isinstance(v, (list, tuple)) and any(x in small for x in v if isinstance(x, int)):
            setattr(mod, k, type(v)(small.get(x, x) if isinstance(x, int) else x for x in v))
        elif isinstance(v, int) and v in small:
            setattr(mod, k, small[v])
        elif isinstance(v, types.FunctionType) and v.__module__ == mod.__name__:
            v.__code__ = _shrunk(v.__code__, small)


def _shrunk(code, small):
    def new(c):
        if isinstance(c, types.CodeType):
            return _shrunk(c, small)
        if isinstance(c, tuple):
            return tuple(new(x) for x in c)
        return small.get(c, c) if type(c) is int else c

    return code.replace(co_consts=tuple(new(c) for c in code.co_consts))


def pix(path):
    from PIL import Image

    with Image.open(path) as im:
        im.load()
        return im.tobytes() if im.size == (32, 32) and im.mode == "RGB" else None


def problems(d, split, foreign=()):
    if not os.path.isdir(d):
        return "absent"
    have = set(os.listdir(d)) - set(foreign)
    want = WANT[split]
    if have != set(want):
        return f"missing {sorted(set(want) - have)} extra {sorted(have - set(want))}"
    for n, b in want.items():
        try:
            if pix(os.path.join(d, n)) != b:
                return f"{n} has other pixels"
        except Exception as e:
            return f"{n}: {e!r}"
    return ""


def run(sim):
    root = os.path.realpath(sim.scratch)
    out_dir = os.path.join(root, "out" if sim.flip("flat", 0.5) else "deep/out")
    tmp = os.path.join(root, "tmp")
    os.mkdir(tmp)
    url = "://www.cs.toronto.edu/~kriz/cifar-10-python.tar.gz"
    net = SimNet(sim, {"https" + url: ARCHIVE, "http" + url: ARCHIVE})
    disk = SimDisk(sim, root)
    dirs = {s: os.path.join(out_dir, f"{s}_32x32") for s in WANT}

    if sim.flip("leftover", 0.15):
        # something else left a damaged folder: it is prepared with --overwrite
        s = sim.pick("which", ("train", "valid"))
        os.makedirs(dirs[s])
        for n in sorted(WANT[s])[: sim.choose("n", 4)]:
            with open(os.path.join(dirs[s], n), "wb") as f:
                f.write(b"torn")
        must_overwrite = True
    else:
        must_overwrite = False

    def incarnation(overwrite, rseed):
        def body():
            seed_everything(rseed)
            tempfile.tempdir = tmp
            names = tempfile._RandomNameSequence()
            names._rng, names._rng_pid = random.Random(rseed), os.getpid()
            tempfile._name_sequence = names
            sys.argv = ["cifar10.py", "-o", out_dir] + (["-w"] if overwrite else [])
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                with net.installed(), disk.installed():
                    mod.main()
            return len(net.requests)

        return sim.process(body)

    hist = []
    for k in range(1 + sim.choose("incarnations", 5)):
        overwrite = must_overwrite or sim.flip("overwrite", 0.3)
        net.requests = []
        net.arm(4, NET_FAULTS, max_faults=2, zero=0.65)
        disk.shuffle_listings()
        disk.arm(sim.pick("horizon", (120, 40, 260)), KINDS, max_faults=2, zero=0.5, crash=0.6)
        before = sum(sim.faults.values())
        out = incarnation(overwrite, 3 + sim.choose("reseed", 1000))
        faulted = sum(sim.faults.values()) > before
        hist.append((overwrite, out[0], out[1] if out[0] != "ok" else ""))
        sim.event("dump", *hist[-1])
        if out[0] == "exc":
            sim.check(faulted, "dump-failed-without-a-fault", lambda: f"{hist} {out[2]}\n{out[-1]}")
        elif out[0] == "ok":
            must_overwrite = False
            for s in WANT:
                bad = problems(dirs[s], s)
                sim.check(not bad, "successful-dump-is-incomplete", f"{s} after {hist}: {bad}")
        sim.cover(overwrite, tuple(hist), tuple(bool(problems(dirs[s], s)) for s in WANT))
    net.armed = {}
    disk.disarm()
    net.requests = []
    out = incarnation(must_overwrite, 5)
    sim.check(out[0] == "ok", "no-recovery-after-faults", lambda: f"{hist}: {out[1:]}")
    for s in WANT:
        bad = problems(dirs[s], s)
        sim.check(not bad, "successful-dump-is-incomplete", f"{s} after {hist} and a fault-free run: {bad}")
    before = {s: sorted(os.listdir(dirs[s])) for s in WANT}
    net.files = {}
    out = incarnation(False, 6)
    sim.check(out[0] == "ok", "complete-folders-dumped-again", lambda: f"{hist}: {out[1:]}")
    sim.check(before == {s: sorted(os.listdir(dirs[s])) for s in WANT}, "complete-folders-changed", hist)
