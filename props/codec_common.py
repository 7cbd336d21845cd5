"""A lossy datagram network between codec nodes, and checkpoint helpers."""
import io
import pickle


class Wire:
    """In-flight packets; loss, duplication, reordering, delay, partition."""

    def __init__(self, sim, loss=0.2, dup=0.2, reorder=0.5):
        self.sim = sim
        self.p = (loss, dup, reorder)
        self.flight = []  # (deliver_at, serial, dest, bytes)
        self.serial = 0
        self.partitioned = False
        self.healthy = False

    def send(self, dest, obj):
        data = pickle.dumps(obj)
        n = 1
        if not self.healthy:
            if self.partitioned:
                self.sim.fault("partition_drop")
                return
            if self.sim.flip("net.loss", self.p[0]):
                self.sim.fault("packet_loss")
                return
            if self.sim.flip("net.dup", self.p[1]):
                self.sim.fault("packet_duplicate")
                n = 2
        for _ in range(n):
            self.serial += 1
            delay = 0.0
            if not self.healthy and self.sim.flip("net.delay", self.p[2]):
                delay = 0.01 * (1 + self.sim.choose("net.delay.t", 50))
            self.flight.append((self.sim.now + 0.001 + delay, self.serial, dest, data))

    def heal(self):
        self.partitioned = False
        self.healthy = True

    def deliver(self):
        """The next packet to arrive, or None."""
        if not self.flight:
            return None
        nxt = min(self.flight)
        self.flight.remove(nxt)
        if any(s < nxt[1] for _, s, _, _ in self.flight):
            self.sim.fault("packet_reorder")
        self.sim.now = max(self.sim.now, nxt[0])
        return nxt[2], pickle.loads(nxt[3])


def dump(model):
    import torch

    buf = io.BytesIO()
    torch.save(model.state_dict(), buf)
    return buf.getvalue()


def load(model, data):
    import torch

    model.load_state_dict(torch.load(io.BytesIO(data), map_location="cpu"))
    return model


class Frozen:
    """A copy of a model's state to compare against later (cheaper than hashing)."""

    def __init__(self, model):
        self.sd = {k: v.clone() for k, v in model.state_dict().items()}

    def same(self, model):
        import torch

        sd = model.state_dict()
        return sd.keys() == self.sd.keys() and all(
            v.shape == self.sd[k].shape and torch.equal(v, self.sd[k]) for k, v in sd.items())
