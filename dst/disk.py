"""Simulated disk: a scratch directory behind a fault-injecting system-call seam.

While installed, every Python-level file operation on a path below the scratch
root (open/read/write/rename/mkdir/unlink/rmdir/listing) is an operation of the
simulator: it is counted, may fail (ENOSPC, EIO, short write, short read), may
be where the process is killed (with any prefix of the data written so far on
disk, and user-space buffers lost), and directory listings come back in a
seeded order.
"""
import builtins
import contextlib
import errno
import hashlib
import io
import os

WRITE_FAULTS = ("enospc", "eio_write", "short_write")
READ_FAULTS = ("eio_read", "short_read")


class _File(io.FileIO):
    _disk = None

    def write(self, b):
        d = self._disk
        if d is None:
            return super().write(b)
        b = memoryview(b).cast("B")
        act = d.point("write", self.name)
        if act == "crash":
            k = d.sim.choose("disk.torn", len(b) + 1)
            super().write(b[:k])
            d.sim.fault("disk.torn_write")
            d.sim.crash("write")
        if act == "enospc":
            k = d.sim.choose("disk.torn", len(b) + 1)
            if k:
                super().write(b[:k])
            raise OSError(errno.ENOSPC, "No space left on device")
        if act == "eio_write":
            raise OSError(errno.EIO, "Input/output error")
        if act == "short_write" and len(b) > 1:
            return super().write(b[: 1 + d.sim.choose("disk.short", len(b) - 1)])
        return super().write(b)

    def _rd(self, n):
        d = self._disk
        if d is None:
            return n
        act = d.point("read", self.name)
        if act == "crash":
            d.sim.crash("read")
        if act == "eio_read":
            raise OSError(errno.EIO, "Input/output error")
        if act == "short_read" and n > 1:
            return 1 + d.sim.choose("disk.short", n - 1)
        return n

    def readinto(self, b):
        m = memoryview(b).cast("B")
        n = self._rd(len(m))
        return super().readinto(m[:n])

    def readall(self):
        self._rd(1)
        return super().readall()

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        return super().read(self._rd(n))


class SimDisk:
    def __init__(self, sim, root, sched=None):
        self.sim = sim
        self.root = os.path.realpath(root)
        self.sched = sched
        self.ops = 0
        self.armed = {}
        self.listing_seed = 0
        self.kinds = ()
        self.trace = False
        self.rename_faults = True

    # ---- plan ------------------------------------------------------------
    def arm(self, horizon, kinds, max_faults=2, zero=0.4, crash=0.5):
        """Draw this incarnation's plan: faults and (maybe) the crash point."""
        self.armed = {}
        self.ops = 0
        if kinds:
            for _ in range(self.sim.choose("disk.nfaults", max_faults + 1, zero=zero)):
                at = self.sim.choose("disk.at", horizon)
                self.armed[at] = kinds[self.sim.choose("disk.kind", len(kinds))]
        if crash and self.sim.flip("crash?", crash):
            self.armed[self.sim.choose("crash.at", horizon)] = "crash"

    def disarm(self):
        self.armed = {}

    def shuffle_listings(self):
        self.listing_seed = self.sim.choose("disk.listing", 1000)

    # ---- seam ------------------------------------------------------------
    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p:
            return False
        p = os.path.abspath(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def rel(self, path):
        try:
            p = os.fspath(path)
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            return os.path.relpath(os.path.abspath(p), self.root)
        except Exception:
            return "?"

    def point(self, op, path):
        """One system call.  Returns None or the armed action that applies."""
        if self.sched is not None and self.sched.me() is not None:
            self.sched.step()
        i = self.ops
        self.ops += 1
        self.sim.advance(0.00005)
        act = self.armed.get(i)
        if act is None:
            return None
        if act != "crash":
            if op == "write":
                ok = act in WRITE_FAULTS
            elif op == "read":
                ok = act in READ_FAULTS
            elif op in ("open_w", "mkdir"):
                ok = act in ("enospc",)
            elif op == "open_r":
                ok = act in ("eio_read",)
            elif op == "rename":
                ok = act in ("eio_write",) and self.rename_faults
            else:
                ok = False
            if not ok:
                # slide to the next operation this fault can hit
                j = i + 1
                while j in self.armed:
                    j += 1
                del self.armed[i]
                if j < i + 4000:
                    self.armed[j] = act
                return None
        del self.armed[i]
        if act != "crash":
            self.sim.fault("disk." + act)
        return act

    def _meta(self, op, path):
        act = self.point(op, path)
        if act == "crash":
            self.sim.crash(op)
        if act == "enospc":
            raise OSError(errno.ENOSPC, "No space left on device")
        if act in ("eio_write", "eio_read"):
            raise OSError(errno.EIO, "Input/output error")

    def order(self, directory, names, key=lambda x: x):
        if not self.listing_seed:
            return sorted(names, key=key)
        d = self.rel(directory)

        def k(n):
            s = f"{self.listing_seed}/{d}/{key(n)}".encode()
            return hashlib.sha1(s).digest()

        return sorted(names, key=k)

    @contextlib.contextmanager
    def installed(self):
        disk = self
        real_open = builtins.open
        real = {
            n: getattr(os, n)
            for n in (
                "rename", "replace", "mkdir", "unlink", "remove", "rmdir",
                "scandir", "listdir", "link", "symlink",
            )
        }

        def sim_open(
            file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
            closefd=True, opener=None,
        ):
            if isinstance(file, int) or not disk.inside(file):
                return real_open(
                    file, mode, buffering, encoding, errors, newline, closefd, opener
                )
            writing = any(c in mode for c in "wax+")
            disk._meta("open_w" if writing else "open_r", file)
            raw_mode = "".join(c for c in mode if c in "rwax+") or "r"
            raw = _File(file, raw_mode, closefd=closefd, opener=opener)
            raw._disk = disk
            binary = "b" in mode
            if buffering == 0:
                if not binary:
                    raise ValueError("can't have unbuffered text I/O")
                return raw
            size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
            if "+" in mode:
                buf = io.BufferedRandom(raw, size)
            elif writing:
                buf = io.BufferedWriter(raw, size)
            else:
                buf = io.BufferedReader(raw, size)
            if binary:
                return buf
            txt = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
            txt.mode = mode
            return txt

        def wrap2(name):
            f = real[name]

            def g(src, dst, *a, **k):
                if disk.inside(src) or disk.inside(dst):
                    disk._meta("rename", dst)
                return f(src, dst, *a, **k)

            return g

        def wrap1(name, op):
            f = real[name]

            def g(path, *a, **k):
                if k.get("dir_fd") is not None or disk.inside(path):
                    disk._meta(op, path)
                return f(path, *a, **k)

            return g

        class _Scan:
            def __init__(self, entries):
                self._it = iter(entries)

            def __iter__(self):
                return self

            def __next__(self):
                return next(self._it)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def close(self):
                pass

        def sim_scandir(path="."):
            if isinstance(path, int):
                with real["scandir"](path) as it:
                    return _Scan(disk.order(".", list(it), key=lambda e: e.name))
            if not disk.inside(path):
                return real["scandir"](path)
            disk._meta("list", path)
            with real["scandir"](path) as it:
                ents = list(it)
            return _Scan(disk.order(path, ents, key=lambda e: os.fsdecode(e.name)))

        def sim_listdir(path="."):
            if isinstance(path, int) or not disk.inside(path):
                return real["listdir"](path)
            disk._meta("list", path)
            return disk.order(path, real["listdir"](path), key=os.fsdecode)

        new = {
            "rename": wrap2("rename"),
            "replace": wrap2("replace"),
            "link": wrap2("link"),
            "symlink": wrap2("symlink"),
            "mkdir": wrap1("mkdir", "mkdir"),
            "unlink": wrap1("unlink", "unlink"),
            "remove": wrap1("remove", "unlink"),
            "rmdir": wrap1("rmdir", "rmdir"),
            "scandir": sim_scandir,
            "listdir": sim_listdir,
        }
        import shutil

        # shutil.copyfile's sendfile fast path would bypass the seam
        saved_copy = (shutil._USE_CP_SENDFILE,)
        shutil._USE_CP_SENDFILE = False
        builtins.open = sim_open
        io.open = sim_open
        for n, f in new.items():
            setattr(os, n, f)
        # shutil decides at import time whether the fd-based rmtree is usable by
        # membership of the os functions in os.supports_*; keep its decision.
        try:
            yield self
        finally:
            builtins.open = real_open
            io.open = real_open
            for n, f in real.items():
                setattr(os, n, f)
            (shutil._USE_CP_SENDFILE,) = saved_copy


def tree(root):
    """{relative path: sha1 of content} for everything below root."""
    out = {}
    for d, ds, fs in os.walk(root):
        ds.sort()
        for n in ds:
            out[os.path.relpath(os.path.join(d, n), root) + "/"] = "dir"
        for n in sorted(fs):
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, root)] = hashlib.sha1(f.read()).hexdigest()
    return out
