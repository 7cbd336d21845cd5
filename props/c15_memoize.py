"""C15: the memoiser behaves like the function itself, whatever memory addresses tensors get."""
import gc
import os
import weakref
from typing import NamedTuple

import torch

from dst.core import seed_everything
from dst.sched import Sched

from .common import REPO, base_setup

RUNS = {"quick": 3000, "thorough": 90000}
MEASURE = "distinct caller interleavings plus distinct (call history, address reuse) tuples"
REAL = ["projects/torch_vct/utils/memoize.py (all of it)"]
STUB = ["tensor addresses: Tensor.__hash__ and the module's id() return simulated addresses; the address of a freed tensor is "
        "given to a later tensor when the simulator says so (what the allocator does under memory pressure)",
        "callers are tasks of the baton scheduler with line-level preemption in memoize.py; memoised functions fail on demand"]
ASSUMPTIONS = ["arguments are not modified in place between calls", "arguments that compare equal (1, 1.0, True) are the same argument"]


class Pair(NamedTuple):
    a: object
    b: object


class Memory:
    """Simulated addresses of tensors, reused after free."""

    def __init__(self, sim):
        self.sim = sim
        self.live = {}  # real id -> (weakref, address)
        self.free = []
        self.next = 0x1000
        self.reused = 0
        self.on = True

    def addr(self, t):
        k = id(t)
        e = self.live.get(k)
        if e is not None and e[0]() is t:
            return e[1]
        if self.free and self.sim.flip("mem.reuse", 0.7):
            a = self.free.pop(self.sim.choose("mem.which", len(self.free)) if len(self.free) > 1 else 0)
            self.reused += 1
            self.sim.fault("address_reuse")
        else:
            a = self.next
            self.next += 64
        self.live[k] = (weakref.ref(t, lambda r, k=k, a=a: self.dead(k, r, a)), a)
        return a

    def dead(self, k, r, a):
        e = self.live.get(k)
        if e is not None and e[0] is r:
            del self.live[k]
        self.free.append(a)


def setup():
    global memo
    base_setup(project="torch_vct")
    import utils.memoize as m

    if not os.path.realpath(m.__file__).startswith(REPO + os.sep):
        raise RuntimeError("foreign memoize")
    memo = m


class Boom(Exception):
    pass


def run(sim):
    mem = Memory(sim)
    seed_everything(11)
    real_hash = torch.Tensor.__hash__
    torch.Tensor.__hash__ = lambda t: mem.addr(t)
    real_id = id
    memo.id = lambda o: mem.addr(o) if isinstance(o, torch.Tensor) else real_id(o)
    gc.disable()
    try:
        body(sim, mem)
    finally:
        torch.Tensor.__hash__ = real_hash
        del memo.id
        gc.enable()


def total(x):
    if isinstance(x, torch.Tensor):
        return x * 1.5
    if isinstance(x, (list, tuple)):
        s = torch.zeros(2)
        for k, y in enumerate(x):
            s = s + (k + 1) * total(y)
        return s
    if isinstance(x, dict):
        return total([v for _, v in sorted(x.items())])
    if isinstance(x, str):
        return torch.full((2,), float(len(x)))
    if x is None:
        return torch.ones(2)
    return torch.full((2,), float(x))


def body(sim, mem):
    fail = {"left": None}
    log = []  # function names really executed

    def enter(name):
        if fail["left"] is not None:
            fail["left"] -= 1
            if fail["left"] < 0:
                fail["left"] = None
                sim.fault("function_failure")
                raise Boom()
        log.append(name)

    def raw_f(x, y=2, *rest, **kw):
        return total(x) + 10 * total(y) + 100 * total(rest) + 1000 * total(kw)

    def raw_g(p):
        return Pair(total(p), None)

    def raw_h(x, cache=None, scale=3):
        # nested: binds the inner function with the cache it was handed
        return memo.bind(F, cache)(x) * scale

    def traced(name, raw):
        def fn(*a, **k):
            enter(name)
            return raw(*a, **k)
        fn.__name__ = name
        return fn

    F, G, H = (memo.memoize(traced(n, r)) for n, r in (("f", raw_f), ("g", raw_g), ("h", raw_h)))
    fns = {"f": (F, raw_f), "g": (G, raw_g), "h": (H, lambda x, cache=None, scale=3: raw_f(x) * scale)}
    ncache = 1 + sim.choose("caches", 3)
    caches = [memo.create_cache() for _ in range(ncache)]
    held = []
    serial = [0]
    views = {}
    hist = []

    def fresh():
        serial[0] += 1
        t = (torch.arange(17.0) / 32 + serial[0])[:2]
        views[serial[0]] = {1}
        return t

    def view(t):
        """A new tensor on the storage of t (same first element), if one is left."""
        used = views[int(t[0])]
        k = next((k for k in (0, 2, 3, 5, 8, 13) if k not in used), None)
        if k is None:
            return t
        used.add(k)
        return t.as_strided((2,), (k,))

    def flat(r):
        return [x for y in r for x in flat(y)] if isinstance(r, (list, tuple)) else [r]

    def equal(a, b):
        a, b = flat(a), flat(b)
        return len(a) == len(b) and all((x is None and y is None) or (x is not None and y is not None and torch.equal(x, y)) for x, y in zip(a, b))

    def tensor():
        """A tensor the user holds, or a temporary."""
        if held and sim.flip("held", 0.5):
            t = held[sim.choose("which", len(held))]
            if sim.flip("view", 0.25):
                t = view(t)
                if sim.flip("keep", 0.5):
                    held.append(t)
            return t
        t = fresh()
        if sim.flip("keep", 0.5):
            held.append(t)
        return t

    def arg():
        k = sim.choose("arg", 7)
        if k <= 2:
            return tensor()
        if k == 3:
            return sim.choose("int", 4)
        if k == 4:
            return [tensor(), sim.choose("int", 3)]
        if k == 5:
            return Pair(tensor(), sim.pick("opt", ("none", "tensor")) == "tensor" and tensor() or None) if False else Pair(tensor(), None)
        return {"u": tensor(), "v": sim.choose("int", 2)}

    def make_call():
        n = sim.pick("fn", ("f", "g", "h"))
        if n == "f":
            a = [arg()]
            k = {}
            if sim.flip("second", 0.4):
                a.append(arg())
            if len(a) == 2 and sim.flip("third", 0.3):
                a.append(sim.pick("name", ("p", "qq")))
            if sim.flip("kw", 0.3):
                k["z"] = arg()
            if sim.flip("kw2", 0.2):
                k["w"] = sim.choose("int", 3)
            return n, a, k
        if n == "g":
            return n, [[arg(), arg()]], {}
        return n, [tensor()], ({"scale": sim.choose("int", 3)} if sim.flip("kw", 0.4) else {})

    def ident(x):
        if isinstance(x, torch.Tensor):
            return ("t", float(x[0]), float(x[1]))  # serial number: every tensor has its own
        if isinstance(x, (list, tuple)):
            return tuple(ident(y) for y in x)
        if isinstance(x, dict):
            return tuple((k, ident(v)) for k, v in x.items())
        return x

    def key_of(n, a, k):
        return (n, ident(a), ident(dict(sorted(k.items()))))

    def invoke(n, a, k, cache, how):
        fn = fns[n][0]
        kw = dict(k)
        if n == "h":
            kw["cache"] = cache
        if how == "bound":
            return memo.bind(fn, cache)(*a, **kw)
        if how == "bound-none":
            return memo.bind(fn, None)(*a, **kw)
        return fn(*a, **kw)

    seen = [dict() for _ in range(ncache)]  # keys evaluated successfully, per cache
    hits = [dict(f=0, g=0, h=0) for _ in range(ncache)]

    def account(ci, n, a, k):
        """Model: (functions that must run, hits) of one successful bound call."""
        key = key_of(n, a, k)
        if key in seen[ci]:
            hits[ci][n] += 1
            return []
        ran = [n]
        if n == "h":
            ran += account(ci, "f", [a[0]], {})
        seen[ci][key] = True
        return ran

    def verify_hits(what):
        for ci, c in enumerate(caches):
            for n in ("f", "g", "h"):
                got = fns[n][0].get_total_cache_hits(c)
                sim.check(got == hits[ci][n], "cache-hits-wrong", f"{what}: cache {ci} {n}: {got} expected {hits[ci][n]} {hist}")

    for step in range(4 + sim.choose("ops", 26)):
        op = sim.pick("op", ("call", "call", "call", "drop", "fail", "new-cache", "unbound", "expect", "concurrent"))
        hist.append(op)
        ci = sim.choose("cache", ncache)
        if op in ("call", "unbound", "expect"):
            n, a, k = make_call()
            how = "bound" if op != "unbound" else sim.pick("how", ("plain", "bound-none"))
            want = fns[n][1](*a, **k)
            log.clear()
            if op == "expect":
                known = key_of(n, a, k) in seen[ci]
                say = sim.flip("say", 0.5)
                kw = dict(k)
                if n == "h":
                    kw["cache"] = caches[ci]
                try:
                    got = memo.bind(fns[n][0], caches[ci], expect_cache_hit=say)(*a, **kw)
                    sim.check(known == say, "expectation-not-checked", f"{n} {hist}")
                except AssertionError:
                    sim.check(known != say, "expectation-misjudged", f"{n} known={known} {hist}")
                    sim.check(not log, "function-ran-despite-failed-expectation", f"{log}")
                    continue
            else:
                got = invoke(n, a, k, caches[ci] if how == "bound" else None, how)
            sim.check(equal(got, want), "memoised-result-differs",
                      lambda: f"{n} {how} {ident(a)} {ident(k)}: {flat(got)} expected {flat(want)} reused={mem.reused} {hist}")
            if how == "bound":
                want_ran = account(ci, n, a, k)
                sim.check(sorted(log) == sorted(want_ran), "wrong-evaluations", f"{n}: ran {log}, expected {want_ran} {hist}")
            else:
                sim.check(sorted(log) == (["f", "h"] if n == "h" else [n]), "unbound-call-cached", f"{n} {log} {hist}")
            got = want = a = k = None
        elif op == "drop" and held:
            held.pop(sim.choose("which", len(held)))
        elif op == "fail":
            n, a, k = make_call()
            key = key_of(n, a, k)
            fail["left"] = sim.choose("fail.at", 2)
            log.clear()
            try:
                got = invoke(n, a, k, caches[ci], "bound")
                ok = True
            except Boom:
                ok = False
            fail["left"] = None
            if ok:
                sim.check(equal(got, fns[n][1](*a, **k)), "memoised-result-differs", f"{n} {hist}")
                account(ci, n, a, k)
            elif n == "h" and log == ["h"]:
                pass  # outer ran, inner failed: nothing may be remembered
            got = a = k = None
        elif op == "new-cache":
            caches[ci] = memo.create_cache()
            seen[ci] = {}
            hits[ci] = dict(f=0, g=0, h=0)
        elif op == "concurrent":
            sched = Sched(sim, watch=(memo.__file__,))
            plans = [[(sim.choose("cache", ncache), *make_call()) for _ in range(1 + sim.choose("calls", 3))] for _ in range(2 + sim.choose("callers", 2))]
            bad = []
            n_ok = [0]
            log.clear()
            h0 = [{n: fns[n][0].get_total_cache_hits(c) for n in fns} for c in caches]

            def caller(p):
                def go():
                    for cj, n, a, k in p:
                        want = fns[n][1](*a, **k)
                        got = invoke(n, a, k, caches[cj], "bound")
                        if not equal(got, want):
                            bad.append((n, ident(a), ident(k)))
                        sched.yield_()
                return go

            res = sched.run([(f"caller{i}", caller(p)) for i, p in enumerate(plans)])
            for _, (kind, v) in sorted(res.items()):
                if kind == "exc":
                    raise v
            sim.check(not bad, "memoised-result-differs", f"concurrent: {bad} {hist}")
            # racing callers may both evaluate: account what must now be known
            for p in plans:
                for cj, n, a, k in p:
                    account(cj, n, a, k)
            for cj, c in enumerate(caches):
                for n in fns:
                    got = fns[n][0].get_total_cache_hits(c)
                    sim.check(h0[cj][n] <= got <= hits[cj][n] or n == "f", "cache-hits-wrong", f"concurrent {n} {got} {hits[cj][n]}")
                    hits[cj][n] = got
            plans = res = None
        verify_hits(op)
        sim.event("op", op, len(held))
    sim.cover(tuple(hist), mem.reused)
