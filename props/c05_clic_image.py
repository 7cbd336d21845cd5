"""C05: CLIC 2020 image split download/extract under faults, crashes, restarts."""
import hashlib
import io
import os
import zipfile

from dst.core import HarnessError
from dst.disk import SimDisk, tree
from dst.net import NET_FAULTS, SimNet

from .common import base_setup, pil_pixels, pixels, png

RUNS = {"quick": 1200, "thorough": 24000}
MEASURE = (
    "distinct (split, on-disk state class before, outcome, faults hit, state class after) "
    "tuples over the process incarnations of all runs"
)
REAL = [
    "neuralcompression.data.CLIC2020Image", "torchvision.datasets.utils downloader and extractor",
    "urllib.request, http.client, zipfile, shutil", "PIL decoding",
    "kernel file system below a scratch root",
]
STUB = [
    "remote web servers and TCP (simulated socket behind urllib's opener seam)",
    "system-call layer of the scratch directory (fault-injecting wrappers)",
    "the published MD5 constants: hashlib.md5 reports them for the simulated archives, and the true digest for anything else",
]
ASSUMPTIONS = [
    "small generated archives with the layout of the published ones (train/, valid/, flat test; __MACOSX side folder) stand in for them",
    "MD5 is collision free on generated corruptions",
]
SRC = {
    "train": ("https://data.vision.ee.ethz.ch/cvl/clic/professional_train_2020.zip",
              "a6845cac88c3dd882246575f7a2fc5f9", "train.zip"),
    "val": ("https://data.vision.ee.ethz.ch/cvl/clic/professional_valid_2020.zip",
            "7111ee240435911db04dbc5f40d50272", "val.zip"),
    "test": ("https://storage.googleapis.com/clic2021_public/professional_test_2021.zip",
             "4476b708ea4c492505dd70061bebe202", "test.zip"),
}
DISK = ("enospc", "eio_write", "short_write", "eio_read", "short_read")


def _alias_md5(table):
    real_md5, real_new = hashlib.md5, hashlib.new

    class H:
        name, digest_size, block_size = "md5", 16, 64

        def __init__(self, data=b"", **k):
            self.h = real_md5(data)

        def update(self, d):
            self.h.update(d)

        def hexdigest(self):
            x = self.h.hexdigest()
            return table.get(x, x)

        def digest(self):
            return bytes.fromhex(self.hexdigest())

        def copy(self):
            c = H()
            c.h = self.h.copy()
            return c

    def new(name, data=b"", **k):
        return H(data) if str(name).lower() == "md5" else real_new(name, data, **k)

    hashlib.md5, hashlib.new = H, new


def _zip(entries):
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED) as z:
        for name, data in entries:
            zi = zipfile.ZipInfo(name, (2020, 1, 1, 0, 0, 0))
            z.writestr(zi, data)
    return buf.getvalue()


def setup():
    global IMAGES, SERVER, CLIC
    IMAGES, SERVER, table = {}, {}, {}
    for s, (split, (url, md5, _)) in enumerate(SRC.items()):
        names = [f"{c}-{split}-{i}.png" for i, c in enumerate("dbeac")]
        IMAGES[split] = {n: png(100 * s + i, size=(5 + i, 4 + s)) for i, n in enumerate(names)}
        top = {"train": "train/", "val": "valid/", "test": ""}[split]
        ents = [(top, b"")] if top else []
        for n, b in IMAGES[split].items():
            ents.append((top + n, b))
            ents.append((f"__MACOSX/{top}._{n}", b"\0\5\x16\7junk"))
        data = _zip(ents)
        SERVER[url] = data
        SERVER[url.replace("https:", "http:")] = data
        table[hashlib.md5(data).hexdigest()] = md5
    _alias_md5(table)
    base_setup()
    from neuralcompression.data import CLIC2020Image

    CLIC = CLIC2020Image


def present(root, split):
    d = os.path.join(root, "clic2020", split)
    out = {}
    if os.path.isdir(d):
        for n in os.listdir(d):
            if n.endswith(".png") and not os.path.isdir(os.path.join(d, n)):
                with open(os.path.join(d, n), "rb") as f:
                    out[n] = f.read()
    return out


def state_class(root, split):
    p = present(root, split)
    z = os.path.join(root, "clic2020", SRC[split][2])
    zs = "nozip"
    if os.path.exists(z):
        with open(z, "rb") as f:
            zs = "zip" if f.read() == SERVER[SRC[split][0]] else "badzip"
    if p == IMAGES[split]:
        c = "complete"
    elif not p:
        c = "none"
    else:
        c = "partial" if all(IMAGES[split].get(k) == v for k, v in p.items()) else "damaged"
    return c, zs


def construct(sim, net, disk, root, split, download):
    def main():
        with net.installed(), disk.installed():
            ds = CLIC(root, split=split, download=download)
        items = [pil_pixels(ds[i]) for i in range(len(ds))]
        tr = CLIC(root, split=split, transform=lambda im: ("T", pil_pixels(im)))
        titems = [tr[i] for i in range(len(tr))]
        return (items, titems, net.requests)

    n0 = len(net.requests)
    out = sim.process(main)
    used = None
    if out[0] == "ok":
        items, titems, net.requests = out[1]
        used = net.requests[n0:]
        out = ("ok", items, titems)
    else:
        net.requests = net.requests + ["?"]
    net.armed = {}
    sim.event("construct", split, download, out[0], out[1] if out[0] == "exc" else "")
    return out, used


def verify(sim, out, root, split, what):
    want = IMAGES[split]
    got = present(root, split)
    sim.check(got == want, "incomplete-or-wrong-split-after-download",
              lambda: f"{what}: {split}: missing {sorted(set(want) - set(got))} extra "
              f"{sorted(set(got) - set(want))} differing {sorted(k for k in got if k in want and got[k] != want[k])}")
    ref = [pixels(want[k]) for k in sorted(want)]
    sim.check(out[1] == ref, "items-not-the-published-images", f"{what}: {split}: {len(out[1])} items")
    sim.check(out[2] == [("T", r) for r in ref], "transform-not-applied", what)


def run(sim):
    root = os.path.join(sim.scratch, "data")
    os.mkdir(root)
    net = SimNet(sim, SERVER)
    if sim.flip("no-http-fallback", 0.5):
        net.files = {u: b for u, b in SERVER.items() if u.startswith("https:")}
    disk = SimDisk(sim, root)
    splits = ["train", "val", "test"]
    main_split = sim.pick("split", splits)
    done = set()
    for _ in range(1 + sim.choose("incarnations", 4)):
        split = main_split if sim.flip("same", 0.7) else sim.pick("other", splits)
        download = not sim.flip("open-only", 0.2)
        others = {s: present(root, s) for s in splits if s != split}
        before, before_tree = state_class(root, split), tree(root)
        net.arm(horizon=3, kinds=NET_FAULTS, max_faults=2, zero=0.45)
        disk.arm(horizon=70, kinds=DISK, max_faults=1, zero=0.6, crash=0.4)
        f0 = dict(sim.faults)
        out, used = construct(sim, net, disk, root, split, download)
        disk.disarm()
        hit = sorted(k for k in sim.faults if sim.faults[k] != f0.get(k, 0))
        after = state_class(root, split)
        sim.cover(split, before, download, out[0], out[1] if out[0] == "exc" else "", tuple(hit), after)
        if download:
            if out[0] == "ok":
                verify(sim, out, root, split, f"{before} {hit}")
                if before == ("complete", "zip") or split in done:
                    sim.check(not used, "intact-archive-downloaded-again", str(used))
                done.add(split)
            elif not hit:
                sim.check(False, "healthy-download-failed", f"{split} {before}: {out[1:3]}")
        else:
            sim.check(tree(root) == before_tree, "open-modified-dataset")
            sim.check(not used, "network-used-without-download", str(used))
            if out[0] == "ok" and not hit:
                have = present(root, split)
                try:
                    ref = [pixels(have[k]) for k in sorted(have)]
                except Exception:
                    ref = None
                if ref is not None:
                    sim.check(out[1] == ref, "items-not-the-files-on-disk", split)
        for s, p in others.items():
            sim.check(present(root, s) == p, "other-split-disturbed", f"{split} disturbed {s}")
    # faults stop
    net.armed = {}
    targets = sorted(done | {main_split})
    for split in targets:
        before = state_class(root, split)
        out, used = construct(sim, net, disk, root, split, True)
        sim.cover("final", split, before, out[0])
        sim.check(out[0] == "ok", "no-recovery-after-faults", f"{split} {before}: {out[1:3]}")
        verify(sim, out, root, split, "recovery")
        if before[1] == "zip" or split in done:
            sim.check(not used, "intact-archive-downloaded-again", str(used))
    for split in targets:
        sim.check(present(root, split) == IMAGES[split], "split-lost", split)
        out, used = construct(sim, net, disk, root, split, False)
        sim.check(out[0] == "ok" and not used, "complete-dataset-rejected", str(out[1:3]))
        verify(sim, out, root, split, "reopen")
