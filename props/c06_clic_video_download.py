"""C06: CLIC 2020 video parallel download under faults, crashes, schedules."""
import io
import os
import tempfile
import zipfile

from dst.core import HarnessError
from dst.disk import SimDisk, tree
from dst.net import SimNet
from dst.sched import Sched

from .common import REPO, base_setup, png

RUNS = {"quick": 1000, "thorough": 20000}
MEASURE = (
    "distinct task interleavings (sequence of (task, step) hand-overs) plus distinct "
    "(videos, workers, state before, outcome, faults hit) tuples"
)
REAL = [
    "neuralcompression.data.CLIC2020Video.download", "concurrent.futures.ThreadPoolExecutor and as_completed",
    "urllib.request.urlopen/urlretrieve, http.client, zipfile, tempfile",
    "kernel file system below a scratch root",
]
STUB = [
    "thread scheduling, locks and time.sleep (baton scheduler; line-level preemption inside the repository's data package)",
    "remote web server and TCP (simulated socket behind urllib's opener seam)",
    "system-call layer of the scratch directory (fault-injecting wrappers)",
]
ASSUMPTIONS = [
    "the archives carry no published checksum, so silent bit corruption in transit that zip's own CRC cannot see is outside the fault model",
    "the list of video urls is served truthfully or not at all (dropped connections, errors, truncation, foreign pages are injected)",
]
ROOT_URL = "https://storage.googleapis.com/clic2021_public/txt_files/video_urls.txt"
KINDS = ("dns_failure", "connect_timeout", "http_503", "http_404", "conn_reset",
         "read_timeout", "truncated_body", "wrong_body", "empty_body")
DISK = ("enospc", "eio_write", "short_write", "eio_read", "short_read")


def setup():
    global VIDEOS, Video, sampler
    base_setup()
    import tqdm  # noqa
    from pytorchvideo.data.clip_sampling import make_clip_sampler

    from neuralcompression.data import CLIC2020Video

    Video = CLIC2020Video
    sampler = make_clip_sampler
    VIDEOS = []
    for v in range(9):
        name = f"Animation_1080P-{v * 4099 % 65521:04x}"
        # names and urls that differ in one place only: after a dot, in case, in the folder
        name = {3: "Sports_720P.v1", 4: "Sports_720P.v2", 6: "sports_720P.v2"}.get(v, name)
        url = f"https://storage.googleapis.com/clic2021_public/videos/{name}.zip"
        if v in (5, 7):
            url = f"https://storage.googleapis.com/clic2021_public/videos/{name}/video.zip"
        frames = {f"{name}/{name}_{i:05d}_{c}.png": png(1000 * v + 10 * i + j, size=(4 + v % 3, 4) if v != 5 or j else (190, 120), mode="L")
                  for i in range(1 + v % 3) for j, c in enumerate("yuv")}
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED) as z:
            for n, b in frames.items():
                z.writestr(zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)), b)
        VIDEOS.append((name, url, buf.getvalue(), frames))


def missing(root, vids):
    bad = []
    for name, _, _, frames in vids:
        for n, b in frames.items():
            try:
                with open(os.path.join(root, n), "rb") as f:
                    if f.read() != b:
                        bad.append(n + " differs")
            except OSError:
                bad.append(n + " missing")
    return bad


def go(sim, net, disk, root, cpus):
    def main():
        sched = Sched(sim, watch=(os.path.join(REPO, "neuralcompression", "data"),))
        net.sched = disk.sched = sched
        real_cpu = os.cpu_count
        os.cpu_count = lambda: cpus
        try:
            with sched.patched_threading(), net.installed(), disk.installed():
                res = sched.run([("main", lambda: Video(
                    root, clip_sampler=sampler("random", 1), download=True))])
        finally:
            os.cpu_count = real_cpu
        kind, val = res["main"]
        if kind == "exc":
            raise val
        for t in sched.tasks:
            if t.state != "done":
                raise HarnessError("task left running")
        return (len(val), net.requests)

    out = sim.process(main)
    if out[0] == "ok":
        net.requests = out[1][1]
    else:
        net.requests = net.requests + ["?"]
    net.armed = {}
    sim.event("download", out[0], out[1] if out[0] == "exc" else "")
    return out


def run(sim):
    base = os.path.join(sim.scratch, "d")
    os.mkdir(base)
    root = os.path.join(base, "deep", "root") if sim.flip("nested", 0.3) else os.path.join(base, "root")
    n = 1 + sim.choose("nvideos", len(VIDEOS))
    first = sim.choose("first", len(VIDEOS))
    vids = (VIDEOS[first:] + VIDEOS[:first])[:n]
    # the server's listing order and its line-ending style vary
    order = list(vids)
    for i in range(len(order) - 1, 0, -1):
        j = sim.choose("order", i + 1)
        order[i], order[j] = order[j], order[i]
    eol = sim.pick("eol", ("\n", "\r\n"))
    listing = eol.join(v[1] for v in order) + (eol if sim.flip("trailing", 0.7) else "")
    net = SimNet(sim, {v[1]: v[2] for v in vids})
    net.files[ROOT_URL] = listing.encode()
    net.allow = lambda url, kind: not (kind in ("empty_body",) and url == ROOT_URL)
    disk = SimDisk(sim, sim.scratch)
    tempfile.tempdir = os.path.join(sim.scratch, "tmp")  # downloads land here first
    os.mkdir(tempfile.tempdir)
    cpus = sim.pick("cpus", (1, 2, 4, 8, 32))
    seen_complete = False
    for _ in range(1 + sim.choose("incarnations", 3)):
        before = len(missing(root, vids))
        net.arm(horizon=n + 1, kinds=KINDS, max_faults=3, zero=0.4)
        disk.arm(horizon=12 + 16 * n, kinds=DISK, max_faults=1, zero=0.6, crash=0.35)
        f0 = dict(sim.faults)
        out = go(sim, net, disk, root, cpus)
        disk.disarm()
        hit = sorted(k for k in sim.faults if sim.faults[k] != f0.get(k, 0))
        bad = missing(root, vids)
        sim.cover(n, cpus, before == 0, out[0], out[1] if out[0] == "exc" else "", tuple(hit), bool(bad))
        if out[0] == "ok":
            sim.check(not bad, "download-succeeded-incomplete", f"{hit}: {bad[:5]}")
            sim.check(out[1][0] == n, "wrong-number-of-videos", f"{out[1][0]} != {n}")
            seen_complete = True
        elif out[0] == "exc" and not hit:
            sim.check(False, "healthy-download-failed", f"{out[1:3]}\n{out[4]}")
        # files outside the root are never touched
        extra = [p for p in tree(base) if not p.startswith(os.path.relpath(root, base))
                 and p not in ("deep/",)]
        sim.check(not extra, "files-outside-root", str(extra[:5]))
    out = go(sim, net, disk, root, cpus)
    sim.check(out[0] == "ok", "no-recovery-after-faults", f"{out[1:3]}")
    bad = missing(root, vids)
    sim.check(not bad, "incomplete-after-recovery", str(bad[:5]))
    sim.check(out[1][0] == n, "wrong-number-of-videos", f"{out[1][0]} != {n}")
