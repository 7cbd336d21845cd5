"""C04: Kodak download/verification under network faults, disk faults, crashes."""
import hashlib
import os

from dst.disk import SimDisk, tree
from dst.net import NET_FAULTS, SimNet

from .common import base_setup, pil_pixels, pixels, png

RUNS = {"quick": 1600, "thorough": 30000}
MEASURE = (
    "distinct (on-disk state class, operation, flags, outcome, faults hit) tuples over "
    "the process incarnations of all runs"
)
REAL = [
    "neuralcompression.data.Kodak", "urllib.request", "http.client.HTTPResponse",
    "shutil", "PIL decoding", "torchvision default_loader", "kernel file system below a scratch root",
]
STUB = [
    "remote web server and TCP (simulated socket behind urllib's opener seam)",
    "system-call layer of the scratch directory (fault-injecting wrappers around open/read/write/mkdir/rename/listing)",
    "the published SHA-1 constant: hashlib.sha1 reports it for the simulated server's 24 files, and the true digest for anything else",
]
ASSUMPTIONS = [
    "the simulated 24 images stand in for the real Kodak set",
    "SHA-1 is collision free on generated corruptions",
]
OFFICIAL = "076e2a5fd4515b5fda677f15fe63dd112d266bc5"
URL = "http://r0k.us/graphics/kodak/kodak/"
N = 24
SILENT = ("net.truncated_body", "net.corrupt_body", "net.wrong_body", "net.empty_body")  # nothing but the hash can tell
WRITE = ("enospc", "eio_write", "short_write", "eio_read", "short_read")


def _alias_sha1(true_hex):
    """hashlib.sha1 whose digest of the simulated data set is the published one."""
    real_sha1, real_new = hashlib.sha1, hashlib.new

    class H:
        def __init__(self, data=b"", **k):
            self.h = real_sha1()
            self.update(data)
            self.name, self.digest_size, self.block_size = "sha1", 20, 64

        def update(self, d):
            self.h.update(d)

        def hexdigest(self):
            x = self.h.hexdigest()
            return OFFICIAL if x == true_hex else x

        def digest(self):
            return bytes.fromhex(self.hexdigest())

        def copy(self):
            c = H()
            c.h = self.h.copy()
            return c

    def new(name, data=b"", **k):
        return H(data) if str(name).lower() in ("sha1", "sha-1") else real_new(name, data, **k)

    hashlib.sha1, hashlib.new = H, new


def setup():
    global FILES, PIX, Kodak
    FILES = {
        f"kodim{i:02}.png": png(i, size=((3 + i % 5), (2 + i % 7)) if i % 6 else (60, 50))
        for i in range(1, N + 1)
    }
    PIX = [pixels(FILES[f"kodim{i:02}.png"]) for i in range(1, N + 1)]
    _alias_sha1(hashlib.sha1(b"".join(FILES[k] for k in sorted(FILES))).hexdigest())
    base_setup()
    from neuralcompression.data import Kodak as K

    Kodak = K


def exact(root):
    """Are the 24 published files all there, byte for byte?"""
    for n, b in FILES.items():
        try:
            with open(os.path.join(root, n), "rb") as f:
                if f.read() != b:
                    return False
        except OSError:
            return False
    return True


def state_class(root):
    if not os.path.isdir(root):
        return "absent"
    if exact(root):
        return "exact"
    n = sum(os.path.exists(os.path.join(root, k)) for k in FILES)
    return "empty" if n == 0 else ("partial" if n < N else "damaged")


def damage(sim, root):
    """Durable damage between incarnations (bit rot, lost or swapped files)."""
    have = sorted(n for n in os.listdir(root) if n in FILES)
    if not have:
        return
    kind = sim.pick("rot", ("bitflip", "truncate", "lose", "swap", "extend"))
    n = have[sim.choose("rot.file", len(have))]
    p = os.path.join(root, n)
    with open(p, "rb") as f:
        b = f.read()
    if kind == "bitflip" and b:
        i = sim.choose("rot.at", len(b))
        b = b[:i] + bytes([b[i] ^ (1 << sim.choose("rot.bit", 8))]) + b[i + 1 :]
    elif kind == "truncate" and b:
        b = b[: sim.choose("rot.len", len(b))]
    elif kind == "extend":
        b = b + b"\0"
    elif kind == "lose":
        os.remove(p)
        sim.fault("disk.lost_file")
        return
    elif kind == "swap":
        m = have[sim.choose("rot.file2", len(have))]
        q = os.path.join(root, m)
        os.rename(p, p + ".x")
        os.rename(q, p) if m != n else None
        os.rename(p + ".x", q)
        sim.fault("disk.swapped_files")
        return
    with open(p, "wb") as f:
        f.write(b)
    sim.fault("disk." + kind)


def run(sim):
    base = os.path.join(sim.scratch, "d")
    os.mkdir(base)
    root = os.path.join(base, "kodak")
    custom = sim.flip("custom-url", 0.2)
    url = "http://mirror.example/k/" if custom else URL
    net = SimNet(sim, {url + n: b for n, b in FILES.items()})
    disk = SimDisk(sim, base)
    n_inc = 1 + sim.choose("incarnations", 5)
    for _ in range(n_inc):
        incarnation(sim, net, disk, root, url, custom)
        if os.path.isdir(root) and sim.flip("rot?", 0.25):
            damage(sim, root)
        if os.path.isdir(root) and sim.flip("stray?", 0.1):  # files of the user's own beside the data set
            for x in ("aaa.png", "kodim00.png", "kodim25.png", "kodim1.png", "notes.txt"):
                if sim.flip("stray." + x, 0.4):
                    with open(os.path.join(root, x), "wb") as f:
                        f.write(png(40 + len(x)))
    # faults stop: one healthy forced download must always converge
    net.armed = {}
    disk.disarm()
    existed = os.path.isdir(root)
    force = existed or sim.flip("final.force", 0.5)
    out = construct(
        sim, net, disk, root, dict(download=True, force_download=force, kodak_url=url)
    )
    sim.cover("final", existed, force, out[0])
    sim.check(
        out[0] == "ok",
        "no-recovery-after-faults",
        f"healthy forced download of an {'existing' if existed else 'absent'} root failed: {out[1:3]}",
    )
    sim.check(exact(root), "wrong-files-after-recovery", str(tree(root))[:500])
    verify_items(sim, out[1], "recovery")
    # a later process finds the data set complete, without touching the network
    before, reqs = tree(root), len(net.requests)
    out = construct(sim, net, disk, root, dict(kodak_url=url))
    sim.check(out[0] == "ok", "complete-dataset-rejected", str(out[1:3]))
    sim.check(len(net.requests) == reqs, "network-used-without-download")
    sim.check(tree(root) == before, "open-modified-dataset")


def construct(sim, net, disk, root, kw, armed=False):
    """One process: construct (and read) the data set; returns its outcome."""
    n_before = len(net.requests)

    def main():
        with net.installed(), disk.installed():
            ds = Kodak(root, **kw)
        # reading back happens after the faults of construction
        items = []
        if kw.get("check_hash", True):
            n = len(ds)
            items = [pil_pixels(ds[i]) for i in range(n)]
            items.append(pil_pixels(Kodak(root, **{**kw, "download": False, "check_hash": False,
                                   "transform": lambda im: im.transpose(0)})[0]))
        return (items, net.requests, net.armed, net.served)

    out = sim.process(main)
    if out[0] == "ok":
        items, net.requests, net.armed, net.served = out[1]
        out = ("ok", items)
    else:
        # what the dead process requested is not known to us; keep indices moving
        net.armed = {}
        net.requests = net.requests + ["?"]
    sim.event("construct", kw.get("download"), kw.get("force_download"), out[0],
              out[1] if out[0] == "exc" else "")
    return out


def verify_items(sim, items, what):
    sim.check(len(items) == N + 1, "wrong-length", f"{what}: {len(items) - 1} items")
    for i in range(N):
        sim.check(items[i] == PIX[i], "wrong-item", f"{what}: item {i} is not kodim{i + 1:02}")
    # transform applied (FLIP_LEFT_RIGHT of item 0)
    import io

    from PIL import Image

    ref = Image.open(io.BytesIO(FILES["kodim01.png"])).convert("RGB").transpose(0)
    sim.check(items[N] == pil_pixels(ref), "transform-not-applied", what)


def incarnation(sim, net, disk, root, url, custom):
    op = sim.pick("op", ("download", "force", "open", "open-nocheck", "download-nocheck"))
    kw = dict(kodak_url=url) if custom or sim.flip("pass-url", 0.3) else {}
    if custom and not kw:
        kw = dict(kodak_url=url)
    if op in ("download", "force", "download-nocheck"):
        kw["download"] = True
    if op == "force" or (op == "download-nocheck" and sim.flip("force", 0.5)):
        kw["force_download"] = True
    elif not kw.get("download") and sim.flip("force-without-download", 0.2):
        kw["force_download"] = True
    if op.endswith("nocheck"):
        kw["check_hash"] = False
    net.arm(horizon=N, kinds=NET_FAULTS, max_faults=2, zero=0.4)
    disk.arm(horizon=90, kinds=WRITE, max_faults=1, zero=0.6, crash=0.35)
    before_state = state_class(root)
    before = tree(root) if os.path.isdir(root) else None
    f0 = dict(sim.faults)
    reqs = len(net.requests)
    out = construct(sim, net, disk, root, kw)
    hit = sorted(k for k in sim.faults if sim.faults[k] != f0.get(k, 0))
    disk.disarm()
    after_state = state_class(root)
    sim.cover(before_state, op, bool(kw.get("force_download")), out[0],
              out[1] if out[0] == "exc" else "", tuple(hit), after_state)
    check = kw.get("check_hash", True)
    download, force = kw.get("download", False), kw.get("force_download", False)
    if download and not force and before is not None:
        sim.check(out[0] != "ok", "existing-root-overwritten-without-force", before_state)
        sim.check(tree(root) == before, "refused-download-modified-root", before_state)
    if not download:
        if before is None:
            sim.check(out[0] != "ok", "missing-root-accepted")
            sim.check(not os.path.exists(root), "open-created-root")
        else:
            sim.check(tree(root) == before, "open-modified-dataset", before_state)
            if check and before_state == "exact" and not hit:
                sim.check(out[0] == "ok", "complete-dataset-rejected", str(out[1:3]))
        if out[0] == "ok":
            sim.check(len(net.requests) == reqs, "network-used-without-download")
    if check and out[0] == "ok":
        sim.check(after_state == "exact", "incomplete-or-corrupt-dataset-accepted",
                  f"{before_state}->{after_state} after {op} with {hit}")
        verify_items(sim, out[1], op)
    if download and out[0] == "ok" and not set(hit) & set(SILENT):
        # even unverified: what the network or the disk refused is not reported as downloaded
        sim.check(after_state == "exact", "incomplete-download-reported-complete", f"{before_state}->{after_state} with {hit}")
    if download and (force or before is None) and not hit:
        sim.check(out[0] == "ok", "healthy-download-failed", f"{before_state}: {out[1:3]}")
        sim.check(after_state == "exact", "healthy-download-incomplete", after_state)
