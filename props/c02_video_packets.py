"""C02: P-frame chains over a faulty network stay in step with the sender."""
import torch

from dst.core import seed_everything, tensor_hash

from .codec_common import Frozen, Wire, dump, load
from .common import base_setup

RUNS = {"quick": 700, "thorough": 14000}
MEASURE = "distinct (model configuration, frame size, chain length, node history, delivery order) tuples"
REAL = ["neuralcompression.models.DVC and all its sub-networks (narrow channels)", "neuralcompression.functional.dense_image_warp",
        "compressai EntropyBottleneck and range coder"]
STUB = ["the network between sender and receiver (loss, duplication, reordering, delay, partition) with a re-sequencing, re-requesting receiver",
        "node crashes: the model object and decoded frames are discarded; the receiver restarts from the key frame and the packets it stored"]
ASSUMPTIONS = ["sender and receiver run the same numeric libraries on the same kind of device (CPU)",
               "frames are large enough for the flow pyramid; checkpoints are training checkpoints (taken before update())"]


def setup():
    global DVC, V
    base_setup()
    import neuralcompression.models.deep_video_compression as v

    DVC, V = v.DVC, v


def build(cfg, salt):
    from compressai.entropy_models import EntropyBottleneck

    seed_everything(1000 + salt)
    if cfg["default"]:
        return DVC(coder_channels=cfg["ch"])
    ch, n, gdn = cfg["ch"], cfg["layers"], cfg["gdn"]
    return DVC(
        coder_channels=ch,
        motion_estimator=V.DVCPyramidFlowEstimator(filter_counts=[6, 2], kernel_size=3, levels=cfg["levels"]),
        motion_encoder=V.DVCCompressionEncoder(2, ch, ch, num_conv_layers=n, use_gdn=gdn),
        motion_decoder=V.DVCCompressionDecoder(ch, 2, ch, num_conv_layers=n, use_gdn=gdn),
        motion_entropy_bottleneck=EntropyBottleneck(ch),
        motion_compensation=V.DVCMotionCompensationModel(model_channels=6, num_levels=2),
        residual_encoder=V.DVCCompressionEncoder(3, ch, ch, kernel_size=cfg["kernel"], num_conv_layers=n, use_gdn=gdn),
        residual_decoder=V.DVCCompressionDecoder(ch, 3, ch, kernel_size=cfg["kernel"], num_conv_layers=n, use_gdn=gdn),
    )


def shape_weights(m, sim, seed):
    g = torch.Generator().manual_seed(seed)
    amp = sim.pick("w.amp", (10.0, 100.0, 1.0, 1000.0))
    with torch.no_grad():
        m.motion_encoder.layers[-1].weight.mul_(amp)
        m.residual_encoder.layers[-1].weight.mul_(amp)
        for n, p in m.named_parameters():
            if n.endswith(".quantiles"):
                mid = torch.randn(p.shape[0], generator=g) * 2
                width = 2 + torch.rand(p.shape[0], generator=g) * 12
                p[:, 0, 1] = mid
                p[:, 0, 0] = mid - width
                p[:, 0, 2] = mid + width
        for n, b in m.named_buffers():
            if n.endswith("running_var"):
                b.add_(torch.rand(b.shape, generator=g))
            if n.endswith("running_mean"):
                b.add_(torch.rand(b.shape, generator=g) * 0.1)


def run(sim):
    cfg = dict(default=sim.flip("default-model", 0.15), ch=sim.pick("ch", (6, 4)), layers=sim.pick("layers", (4, 3, 2)),
               gdn=not sim.flip("batchnorm", 0.3), levels=sim.pick("levels", (3, 4)), kernel=sim.pick("kernel", (5, 3)))
    lo = 16
    size = (lo + sim.choose("height", 49), lo + sim.choose("width", 49))
    if sim.flip("even-size", 0.3):
        size = (size[0] // 16 * 16, size[1] // 16 * 16)
    batch = 1 + sim.choose("batch", 3)
    seed = sim.choose("weights", 40)
    origin = build(cfg, seed)
    shape_weights(origin, sim, seed)
    ckpt = dump(origin)
    salt = [50]

    def node():
        salt[0] += 1
        m = load(build(cfg, salt[0]), ckpt).eval()
        m.update()
        return m, Frozen(m)

    truth = load(build(cfg, 7), ckpt).eval()
    nframes = 1 + sim.choose("frames", 5)
    g = torch.Generator().manual_seed(500 + seed)
    base = torch.rand(batch, 3, *size, generator=g)
    frames = [base]
    for k in range(nframes):
        nxt = torch.roll(frames[-1], (1, k), (2, 3)) * 0.9 + 0.1 * torch.rand(batch, 3, *size, generator=g)
        frames.append(nxt.clamp(0, 1))
    key = frames[0]

    wire = Wire(sim)
    S = {"node": node(), "recon": [key.clone()], "packets": []}
    R = {"node": node(), "recon": [key.clone()], "stored": {}}
    hist = []

    def check_state(which, what):
        m, fr = which["node"]
        sim.check(fr.same(m), f"{what}-changed-the-model", "")

    def other_stream(m):
        """Another stream, of another frame size, on the same node."""
        h, w = (16 + sim.choose("other.h", 33), 16 + sim.choose("other.w", 33))
        a = torch.rand(1, 3, h, w, generator=torch.Generator().manual_seed(h * 100 + w))
        b = torch.roll(a, 1, 3)
        with torch.no_grad():
            p = m.compress(a, b)
            y = m.decompress(a, p)
            want = truth(a.clone(), b.clone()).image2_est.clamp(0, 1)
        sim.check(y.shape == b.shape and float((y - want).abs().max()) <= 1e-4, "decoded-frame-differs-from-model-output",
                  f"second stream {(h, w)} next to {size} {cfg}")

    def encode_next():
        k = len(S["packets"])
        if k == nframes:
            return
        m = S["node"][0]
        a, b = S["recon"][k].clone(), frames[k + 1].clone()
        with torch.set_grad_enabled(sim.flip("grad", 0.2)):
            p = m.compress(a, b)
        with torch.no_grad():
            keep = repr(p)
            if sim.flip("other-size", 0.3):
                other_stream(m)
                sim.check(repr(p) == keep, "later-call-changed-the-packet", k)
            sim.check(torch.equal(a, S["recon"][k]) and torch.equal(b, frames[k + 1]), "compress-changed-its-input", k)
            y = m.decompress(a, p)
            sim.check(torch.equal(a, S["recon"][k]), "decompress-changed-its-input", k)
            sim.check(repr(p) == keep, "decompress-changed-the-packet", k)
            want = truth(a.clone(), b.clone()).image2_est.clamp(0, 1)
        check_state(S, "compress")
        sim.check(y.shape == b.shape, "wrong-size", f"{tuple(y.shape)} expected {tuple(b.shape)}")
        err = float((y - want).abs().max())
        sim.check(err <= 1e-4, "decoded-frame-differs-from-model-output", f"frame {k + 1} size {size} {cfg} max error {err}")
        S["packets"].append(p)
        S["recon"].append(y.clone())
        sim.event("encode", k, [len(s) for s in p.compressed_flow], [len(s) for s in p.compressed_residual])

    def transmit(k):
        wire.send("R", (k, S["packets"][k]))

    def drain():
        d = wire.deliver()
        if d is None:
            return False
        _, (k, p) = d
        sim.event("recv", k)
        hist.append(("r", k))
        R["stored"][k] = p  # durable at the receiver
        decode()
        return True

    def decode():
        while len(R["recon"]) - 1 in R["stored"]:
            k = len(R["recon"]) - 1
            p = R["stored"][k]
            keep = repr(p)
            ref = R["recon"][k].clone()
            with torch.set_grad_enabled(sim.flip("grad", 0.2)):
                y = R["node"][0].decompress(ref, p).detach()
            sim.check(torch.equal(ref, R["recon"][k]), "decompress-changed-its-input", k)
            sim.check(repr(p) == keep, "decompress-changed-the-packet", k)
            check_state(R, "decompress")
            sim.check(y.shape == S["recon"][k + 1].shape, "wrong-size", k)
            err = float((y - S["recon"][k + 1]).abs().max())
            sim.check(err <= 1e-5, "receiver-drifted-from-sender", f"frame {k + 1} size {size} max error {err}")
            R["recon"].append(y.clone())
            sim.event("decoded", k, tensor_hash((y * 1000).round()))

    for _ in range(3 + sim.choose("ops", 10)):
        op = sim.pick("op", ("encode", "send", "recv", "crash-R", "crash-S", "forward", "train", "partition", "other-stream"))
        hist.append(op)
        if op == "encode":
            encode_next()
            if S["packets"]:
                transmit(len(S["packets"]) - 1)
        elif op == "send" and S["packets"]:
            transmit(sim.choose("which", len(S["packets"])))
        elif op == "recv":
            drain()
        elif op == "crash-R":
            sim.fault("node_crash")
            R["node"], R["recon"] = node(), [key.clone()]
            decode()
        elif op == "crash-S":
            # restarts from the key frame: re-encoding must give the same packets
            sim.fault("node_crash")
            old = S["packets"]
            S.update(node=node(), recon=[key.clone()], packets=[])
            for k, p in enumerate(old):
                encode_next()
                sim.check(repr(S["packets"][k]) == repr(p), "re-encoding-differs", k)
        elif op == "forward":
            m = sim.pick("node", (S, R))["node"][0]
            with torch.no_grad():
                m(frames[0].clone(), frames[1].clone())
        elif op == "other-stream":
            keep = [repr(p) for p in S["packets"]]
            other_stream(sim.pick("node", (S, R))["node"][0])
            sim.check([repr(p) for p in S["packets"]] == keep, "later-call-changed-the-packet", "")
        elif op == "train":
            m = sim.pick("node", (S, R))["node"][0]
            m.train()
            m.eval()
        elif op == "partition":
            wire.partitioned = not wire.partitioned
            sim.fault("partition" if wire.partitioned else "heal")
    wire.heal()
    while len(S["packets"]) < nframes:
        encode_next()
    for k in range(nframes):
        if k not in R["stored"]:
            transmit(k)
    while drain():
        pass
    sim.check(len(R["recon"]) == nframes + 1, "frames-never-decoded", len(R["recon"]))
    sim.cover(tuple(sorted(cfg.items())), size, nframes, tuple(hist))
