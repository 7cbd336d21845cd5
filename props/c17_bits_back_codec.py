"""C17: the bits-back codec is an exact stack, whatever the history of calls, failures and restarts."""
import copy
import io

from dst.core import seed_everything
from dst.ops import FailAt

from . import bitsback_common as bb

RUNS = {"quick": 700, "thorough": 20000}
MEASURE = "distinct (configuration, operation history) tuples"
REAL = ["projects/bits_back_diffusion: BitsBackCodec, DiffusionModel, diag_gaussian_unif_bins, create_gaussian_diffusion, space_timesteps"]
STUB = bb.STUBS + ["process restart: the codec is rebuilt in a fresh random state and loads the saved npz state",
                   "allocation failures at the n-th tensor operation of the model inside encode or decode"]
ASSUMPTIONS = ["sender and receiver run the same numeric libraries on one CPU platform",
               "per-step statistics after a failed call are not claimed; data_count is never driven below zero",
               "the initial message is large enough for the posterior samples (initial_len is given)"]


def setup():
    global codec, util, np, torch, Eps
    codec, util, np, torch, Eps = bb.setup()
    global bb_ans
    import craystack.bb_ans as bb_ans


def run(sim):
    b = 1 + sim.choose("batch", 2)
    shape = (b, sim.pick("ch", (3, 1)), 1 + sim.choose("h", 4), 1 + sim.choose("w", 4))
    t, spacing = sim.pick("steps", ((12, "vlb4"), (20, "vlb5"), (6, ""), (2, [2]), (30, "3,2")))
    lo, hi = sim.pick("range", ((-1.0, 1.0), (0.0, 1.0), (-2.0, 3.0)))
    track = sim.flip("track", 0.5)
    args = dict(data_shape=shape, latent_prec=sim.pick("latent", (18, 16)), prior_prec=sim.pick("prior", (10, 8, 6)),
                obs_prec=sim.pick("obs", (24, 20)), data_prec=sim.pick("prec", (8, 3, 5)), data_min=lo, data_max=hi, track=track,
                clip_stdd=sim.pick("clip", (1e-6, 0.05, 0.5)))
    dmodel = dict(use_log_variance=sim.flip("logvar", 0.4), clip_denoised=not sim.flip("noclip", 0.3))
    diff = dict(steps=t, timestep_respacing=spacing, noise_schedule=sim.pick("schedule", ("cosine", "linear")), sigma_small=sim.flip("small", 0.3))
    wseed = sim.choose("weights", 20)
    top = (1 << args["data_prec"]) - 1
    # enough random bits for the largest number of posterior samples any history here can draw
    args["initial_len"] = int(np.prod(shape)) * (t + 4) * 8 + sim.choose("initial", 64)

    def build(seed, more=0):
        seed_everything(seed)
        net = Eps(shape[1], wseed).eval()
        m = codec.DiffusionModel(model=net, diffusion=util.create_gaussian_diffusion(**diff), **dmodel)
        return codec.BitsBackCodec(model=m, **{**args, "initial_len": args["initial_len"] + more})

    def flat(c):
        return c.flat_message.copy()

    class Side:
        """A codec under test, its never-disturbed twin and the reference stack."""

        def __init__(self, k):
            self.c, self.twin = build(40 + k), build(40 + k)
            sim.check(np.array_equal(flat(self.c), flat(self.twin)), "construction-not-repeatable", "")
            self.stack = []  # (data, message before)
            self.empty, self.extra = flat(self.c).nbytes, 0
            self.hist = []

        def same(self, what):
            sim.check(np.array_equal(flat(self.c), flat(self.twin)), "message-depends-on-history", f"{what} {self.hist}")
            sim.check(int(self.c.data_count) == len(self.stack), "wrong-data-count", f"{what} {self.hist}: {self.c.data_count} != {len(self.stack)}")
            if not self.stack:
                return
            s, r = self.c.statistics(), self.twin.statistics()
            sim.check(int(s.samples) == b * len(self.stack), "wrong-sample-count", f"{s.samples} {self.hist}")
            n = flat(self.c).nbytes
            sim.check(abs(float(s.rate_total) - 8 * n / (len(self.stack) * float(np.prod(shape)))) < 1e-9, "rate-is-not-the-message-size", f"{s}")
            grown = n - self.empty
            for f, v in (("rate_effective", grown), ("rate_used", grown + self.extra)):
                sim.check(abs(float(getattr(s, f)) - 8 * v / (len(self.stack) * float(np.prod(shape)))) < 1e-9, "rate-is-not-the-message-growth",
                          lambda: f"{f}: {getattr(s, f)} for {v} bytes {self.hist}")
            for f in ("rate_total", "rate_used", "rate_effective"):
                sim.check(abs(float(getattr(s, f)) - float(getattr(r, f))) < 1e-9, "statistics-depend-on-history",
                          lambda: f"{f}: {getattr(s, f)} expected {getattr(r, f)} {self.hist}")
            if track and not self.failed:
                sim.check(np.allclose(np.asarray(s.rate_effective_push, float), np.asarray(r.rate_effective_push, float))
                          and np.allclose(np.asarray(s.rate_effective_pop, float), np.asarray(r.rate_effective_pop, float)),
                          "statistics-depend-on-history", f"per-step rates {self.hist}")
                if not self.decoded:
                    sim.check(abs(float(np.sum(s.rate_effective_push) - np.sum(s.rate_effective_pop) - s.rate_effective)) < 1e-6,
                              "per-step-rates-do-not-add-up", f"{self.hist}")

        failed = decoded = False

    sides = [Side(k) for k in range(1 + sim.choose("codecs", 2))]

    def data():
        kind = sim.choose("data", 4)
        rs = np.random.RandomState(sim.choose("content", 1000))
        if kind == 1:
            return np.full(shape, sim.pick("const", (0, top)), np.int32)
        if kind == 2:
            return (rs.randint(0, 2, size=shape) * top).astype(np.int32)
        return rs.randint(0, top + 1, size=shape).astype(sim.pick("dtype", (np.int32, np.int64)))

    OPS = ("encode", "encode", "encode", "decode", "decode", "restart", "fail-encode", "fail-decode", "bad", "quantize", "random", "copy", "reload-older")
    saved = {}
    for _ in range(3 + sim.choose("ops", 10)):
        k = sim.choose("which", len(sides))
        s = sides[k]
        op = sim.pick("op", OPS)
        s.hist.append(op)
        if op == "encode" and len(s.stack) < 6:
            d = data()
            before = flat(s.c)
            keep = d.copy()
            bb_ans.AFTER_POP.clear()
            msg = s.c.encode(d)
            if not s.stack:
                s.extra = before.nbytes - bb_ans.AFTER_POP[0]
            sim.check(np.array_equal(d, keep), "encode-changed-its-input", s.hist)
            import craystack as cs

            sim.check(np.array_equal(cs.flatten(msg), flat(s.c)), "returned-message-differs", s.hist)
            s.twin.encode(keep.copy())
            s.stack.append((keep, before))
        elif op == "decode" and s.stack:
            want, before = s.stack.pop()
            _, got = s.c.decode()
            s.twin.decode()
            s.decoded = True
            sim.check(got.shape == want.shape and np.array_equal(got.astype(np.int64), want.astype(np.int64)), "decoded-data-differs",
                      lambda: f"{s.hist} {shape} {args} {int((got.astype(np.int64) != want.astype(np.int64)).sum())} values")
            sim.check(np.array_equal(flat(s.c), before), "decoding-does-not-restore-the-message", f"{s.hist}")
        elif op == "restart":
            buf = io.BytesIO()
            np.savez(buf, **s.c.state_dict())
            sim.fault("codec_restart")
            # what a new codec starts from does not matter: the state says what the original started from
            s.c = build(1000 + sim.choose("reseed", 50), sim.choose("more", 9) * 16)
            s.c.load_state_dict(np.load(io.BytesIO(buf.getvalue())))
        elif op in ("fail-encode", "fail-decode"):
            if op == "fail-decode" and not s.stack:
                continue
            d = data()
            mode = FailAt(sim.choose("fail.at", 60))
            bb_ans.AFTER_POP.clear()
            before, n = flat(s.c), int(s.c.data_count)
            trial = s.c
            try:
                with mode:
                    trial.encode(d) if op == "fail-encode" else trial.decode()
                ok = True
            except Exception:
                if not mode.hit:
                    raise
                ok = False
            if mode.hit:
                sim.fault("allocation_failure")
                sim.check(not ok, "failure-swallowed", s.hist)
                s.failed = True
                sim.check(np.array_equal(flat(s.c), before) and int(s.c.data_count) == n, "failed-call-changed-the-codec", f"{s.hist}")
            elif op == "fail-encode":
                if not s.stack:
                    s.extra = before.nbytes - bb_ans.AFTER_POP[0]
                s.twin.encode(d)
                s.stack.append((d.copy(), before))
            else:
                s.twin.decode()
                s.decoded = True
                s.stack.pop()
        elif op == "bad":
            d = data().astype(np.int64)
            how = sim.pick("how", ("high", "low", "shape"))
            if how == "high":
                d.flat[sim.choose("at", d.size)] = top + 1 + sim.choose("over", 3)
            elif how == "low":
                d.flat[sim.choose("at", d.size)] = -1
            else:
                d = np.concatenate([d, d], axis=sim.choose("axis", 4))
            before = flat(s.c)
            sim.fault("bad_input")
            try:
                s.c.encode(d)
                ok = True
            except ValueError:
                ok = False
            sim.check(not ok, "invalid-data-accepted", how)
            sim.check(np.array_equal(flat(s.c), before), "failed-call-changed-the-codec", how)
        elif op == "quantize":
            d = data()
            x = lo + d.astype(np.float64) * (hi - lo) / top
            noise = (np.random.RandomState(3).rand(*shape) - 0.5) * 0.8 * (hi - lo) / top
            y = np.clip(x + noise, lo, hi)
            q = s.c.quantize(y if sim.flip("f64", 0.5) else y.astype(np.float32))
            sim.check(np.array_equal(q.astype(np.int64), d.astype(np.int64)), "quantisation-is-not-nearest", f"{args}")
        elif op == "random":
            seed_everything(sim.choose("perturb", 100))
        elif op == "copy":
            s.c = copy.deepcopy(s.c)
        elif op == "reload-older":
            # rolling back to an older saved state resumes from there
            if k in saved and sim.flip("roll-back", 0.5):
                state, stack, twin, flags, s.extra = saved[k]
                sim.fault("rollback")
                s.c = build(2000)
                s.c.load_state_dict(np.load(io.BytesIO(state)))
                s.stack, s.twin = list(stack), copy.deepcopy(twin)
                s.failed, s.decoded = flags
            else:
                buf = io.BytesIO()
                np.savez(buf, **s.c.state_dict())
                saved[k] = (buf.getvalue(), list(s.stack), copy.deepcopy(s.twin), (s.failed, s.decoded), s.extra)
        for o in sides:
            o.same(op)
        sim.event("op", k, op, len(s.stack))
    for s in sides:
        while s.stack:
            want, before = s.stack.pop()
            _, got = s.c.decode()
            sim.check(np.array_equal(got.astype(np.int64), want.astype(np.int64)), "decoded-data-differs", f"{s.hist} final")
            sim.check(np.array_equal(flat(s.c), before), "decoding-does-not-restore-the-message", f"{s.hist} final")
    sim.cover(shape, t, args["data_prec"], track, tuple(tuple(s.hist) for s in sides))
