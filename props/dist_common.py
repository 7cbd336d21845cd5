"""A simulated torch.distributed process group: ranks are tasks of the baton scheduler."""
import contextlib
import copy
import os
import sys

from .common import REPO


def replaced(module, new):
    """Replace functions of a module, also where the code under test imported them by name."""
    old = {n: getattr(module, n) for n in new}
    places = [(module, n, n) for n in new]
    names = {id(f): n for n, f in old.items()}
    for m in list(sys.modules.values()):
        f = getattr(m, "__file__", None)
        if isinstance(f, str) and os.path.realpath(f).startswith(REPO + os.sep):
            places += [(m, k, names[id(v)]) for k, v in list(vars(m).items()) if id(v) in names]

    @contextlib.contextmanager
    def cm():
        try:
            for m, k, n in places:
                setattr(m, k, new[n])
            yield
        finally:
            for m, k, n in places:
                setattr(m, k, old[n])

    return cm()


class Aborted(Exception):
    """Another rank failed; the launcher ends the whole job."""


class Group:
    """The k-th collective of every rank meets in slot k; they must agree."""

    def __init__(self, sim, sched, world):
        self.sim, self.sched, self.world = sim, sched, world
        self.slots, self.count = {}, [0] * world
        self.failed = None

    def rank(self):
        t = self.sched.me()
        return int(t.name[4:]) if t is not None else 0

    def meet(self, kind, payload):
        r = self.rank()
        k = self.count[r]
        self.count[r] += 1
        slot = self.slots.setdefault(k, {})
        slot[r] = (kind, payload)
        self.sim.event("collective", k, kind[0], "rank", r)
        if len(slot) == self.world:
            kinds = {s[0] for s in slot.values()}
            self.sim.check(len(kinds) == 1, "collectives-do-not-match", lambda: f"collective {k}: {sorted(map(str, kinds))}")
            self.sched.wake(("coll", k))
        while len(slot) < self.world:
            if self.failed:
                raise Aborted()
            self.sched.block(("coll", k))
        self.sched.yield_()
        return [slot[i][1] for i in range(self.world)]

    def abort(self):
        self.failed = True
        for k in list(self.slots):
            self.sched.wake(("coll", k))

    @contextlib.contextmanager
    def installed(self):
        import torch
        import torch.distributed as dist

        def sig(t):
            return tuple(t.shape), str(t.dtype)

        def barrier(*a, **k):
            self.meet(("barrier",), None)

        def all_gather(out, t, *a, **k):
            got = self.meet(("all_gather",) + sig(t), t.detach().clone())
            self.sim.check(len(out) == self.world, "all-gather-output-size", f"{len(out)} for {self.world} ranks")
            for o, g in zip(out, got):
                with torch.no_grad():
                    o.copy_(g)

        def all_reduce(t, op=dist.ReduceOp.SUM, *a, **k):
            got = self.meet(("all_reduce", str(op)) + sig(t), t.detach().clone())
            s = torch.stack(got)
            s = {dist.ReduceOp.MAX: lambda: s.amax(0), dist.ReduceOp.MIN: lambda: s.amin(0)}.get(op, lambda: s.sum(0))()
            if op == getattr(dist.ReduceOp, "AVG", None):
                s = s / self.world
            with torch.no_grad():
                t.copy_(s)

        def broadcast(t, src=0, *a, **k):
            got = self.meet(("broadcast", src) + sig(t), t.detach().clone())
            with torch.no_grad():
                t.copy_(got[src])

        def all_gather_into_tensor(out, t, *a, **k):
            got = self.meet(("all_gather",) + sig(t), t.detach().clone())
            with torch.no_grad():
                out.copy_((torch.stack if out.ndim > t.ndim else torch.cat)(got).reshape(out.shape))

        def gather(t, gather_list=None, dst=0, *a, **k):
            got = self.meet(("gather", dst) + sig(t), t.detach().clone())
            if self.rank() == dst:
                for o, g in zip(gather_list, got):
                    with torch.no_grad():
                        o.copy_(g)

        def reduce(t, dst=0, op=dist.ReduceOp.SUM, *a, **k):
            got = self.meet(("reduce", dst, str(op)) + sig(t), t.detach().clone())
            if self.rank() == dst:
                with torch.no_grad():
                    t.copy_(torch.stack(got).sum(0))

        def all_gather_object(out, obj, *a, **k):
            out[:] = copy.deepcopy(self.meet(("all_gather_object",), copy.deepcopy(obj)))

        def broadcast_object_list(objs, src=0, *a, **k):
            objs[:] = copy.deepcopy(self.meet(("broadcast_object_list", src, len(objs)), copy.deepcopy(objs))[src])

        new = dict(barrier=barrier, all_gather=all_gather, all_reduce=all_reduce, broadcast=broadcast,
                   all_gather_into_tensor=all_gather_into_tensor, gather=gather, reduce=reduce,
                   all_gather_object=all_gather_object, broadcast_object_list=broadcast_object_list,
                   get_rank=lambda *a, **k: self.rank(), get_world_size=lambda *a, **k: self.world,
                   is_initialized=lambda: True, is_available=lambda: True)
        with replaced(dist, new):
            yield self


def launch(sim, sched, group, main):
    """Run main(rank) on every rank; the first failure ends the job and is raised."""
    failure = []

    def body(r):
        try:
            return main(r)
        except Aborted:
            raise
        except Exception as e:
            failure.append(e)
            group.abort()
            raise

    res = sched.run([(f"rank{r}", lambda r=r: body(r)) for r in range(group.world)])
    if failure:
        raise failure[0]
    return [res[f"rank{r}"][1] for r in range(group.world)]
