"""The simulator core: one seed -> one decision stream -> one execution.

Every nondeterministic decision of a simulated run (which task runs next, which
fault hits which operation, which input is generated, where a process dies) is
drawn from ``Sim.choose``.  The values drawn are recorded; feeding the recorded
list back (``replay=``) repeats the run exactly, and shrinking the list (zeroing
or deleting entries: 0 is always the benign alternative) minimises it.
"""
import hashlib
import os
import pickle
import random
import struct
import sys
import traceback
from collections import Counter


class Violation(Exception):
    """A property was observed broken.  ``kind`` is the stable signature."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = str(detail)

    def __reduce__(self):
        return (Violation, (self.kind, self.detail))


class HarnessError(Exception):
    """The harness itself cannot run (never reported as a violation)."""


class Sim:
    def __init__(self, seed=None, replay=None):
        self.seed = seed
        self.rng = random.Random(seed)
        self.replay = list(replay) if replay is not None else None
        self.cursor = 0
        self.log = []  # [label, value]
        self.events = []
        self.faults = Counter()
        self.covered = set()
        self.now = 0.0
        self.evaluations = 0
        self.steps = 0
        self.in_incarnation = None  # write end of the parent pipe
        self.incarnations = 0
        self.crashes = 0
        self.scratch = None
        self.notes = Counter()

    # ---- decisions -------------------------------------------------------
    def choose(self, label, n, zero=None):
        """An int in [0, n).  0 is the benign choice; ``zero`` is its chance."""
        if n <= 0:
            raise HarnessError(f"choose({label}, {n})")
        if self.replay is not None:
            v = self.replay[self.cursor] % n if self.cursor < len(self.replay) else 0
            self.cursor += 1
        elif zero is not None and n > 1:
            v = 0 if self.rng.random() < zero else self.rng.randrange(1, n)
        else:
            v = self.rng.randrange(n)
        self.log.append([label, v])
        return v

    def flip(self, label, p):
        return self.choose(label, 2, zero=1.0 - p) == 1

    def pick(self, label, seq, zero=None):
        return seq[self.choose(label, len(seq), zero=zero)]

    def between(self, label, lo, hi):
        return lo + self.choose(label, hi - lo + 1)

    # ---- observation -----------------------------------------------------
    def event(self, *parts):
        self.events.append(" ".join(str(p) for p in parts))

    def fault(self, kind):
        self.faults[kind] += 1
        self.event("FAULT", kind)

    def cover(self, *key):
        """Record a reached state; the measure is the set of distinct keys."""
        self.covered.add(hashlib.sha1(repr(key).encode()).digest()[:8])

    def check(self, cond, kind, detail=""):
        self.evaluations += 1
        if not cond:
            d = detail() if callable(detail) else detail
            self.event("VIOLATION", kind)
            raise Violation(kind, d)

    def digest(self):
        h = hashlib.sha256()
        for e in self.events:
            h.update(e.encode("utf-8", "replace") + b"\n")
        h.update(repr(round(self.now, 9)).encode())
        return h.hexdigest()

    def advance(self, dt):
        self.now += dt

    # ---- processes -------------------------------------------------------
    _STATE = (
        "log", "cursor", "events", "faults", "covered", "now", "evaluations",
        "steps", "crashes", "notes",
    )

    def _export(self):
        st = {k: getattr(self, k) for k in self._STATE}
        st["rng"] = self.rng.getstate()
        return st

    def _import(self, st):
        for k in self._STATE:
            setattr(self, k, st[k])
        self.rng.setstate(st["rng"])

    def _send(self, outcome):
        try:
            data = pickle.dumps((self._export(), outcome))
        except Exception as e:  # outcome not picklable
            data = pickle.dumps(
                (self._export(), ("harness", f"unpicklable outcome: {e!r}"))
            )
        fd = self.in_incarnation
        view = memoryview(struct.pack("<Q", len(data)) + data)
        while view:
            n = _real_write(fd, view[:65536])
            view = view[n:]

    def crash(self, where):
        """Kill the current simulated process right here (kill -9 semantics)."""
        if self.in_incarnation is None:
            raise HarnessError("crash outside a simulated process")
        self.crashes += 1
        self.faults["process_crash"] += 1
        self.event("CRASH", where)
        self._send(("crash", where))
        os._exit(137)

    def process(self, fn, *args):
        """Run fn as one simulated process incarnation (a fork of the image).

        Only what it wrote to the simulated disk survives it.  Returns
        ("ok", value), ("exc", type_name, message) or ("crash", where).
        """
        self.incarnations += 1
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                self.in_incarnation = w
                try:
                    val = fn(*args)
                    out = ("ok", val)
                except Violation as v:
                    out = ("violation", v.kind, v.detail)
                except HarnessError as e:
                    out = ("harness", f"{e}\n{traceback.format_exc()}")
                except BaseException as e:
                    out = (
                        "exc",
                        type(e).__name__,
                        str(e)[:500],
                        [c.__name__ for c in type(e).__mro__],
                        traceback.format_exc()[-1500:],
                    )
                self._send(out)
            finally:
                os._exit(0)
        os.close(w)
        buf = bytearray()
        while True:
            b = _real_read(r, 65536)
            if not b:
                break
            buf += b
        os.close(r)
        os.waitpid(pid, 0)
        if len(buf) < 8:
            raise HarnessError("simulated process died without reporting")
        n = struct.unpack("<Q", buf[:8])[0]
        st, out = pickle.loads(bytes(buf[8 : 8 + n]))
        self._import(st)
        if out[0] == "violation":
            raise Violation(out[1], out[2])
        if out[0] == "harness":
            raise HarnessError(out[1])
        return out


_real_write = os.write
_real_read = os.read


def tensor_hash(*ts):
    import torch

    h = hashlib.sha1()
    for t in ts:
        if isinstance(t, torch.Tensor):
            t = t.detach().contiguous().cpu()
            h.update(str(t.dtype).encode() + str(tuple(t.shape)).encode())
            h.update(t.numpy().tobytes())
        else:
            h.update(repr(t).encode())
    return h.hexdigest()[:16]


def seed_everything(n):
    import numpy as np
    import torch

    random.seed(n)
    np.random.seed(n % (2**32))
    torch.manual_seed(n)


def expect_ok(sim, out, what):
    """The simulated process must have completed normally."""
    if out[0] == "exc":
        sim.check(False, f"{what}-raised-{out[1]}", f"{out[2]}\n{out[4]}")
    if out[0] == "crash":
        raise HarnessError(f"{what}: crashed without a planned crash")
    sim.evaluations += 1
    return out[1]
