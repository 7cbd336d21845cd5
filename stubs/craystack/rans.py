"""rANS: a message is (head array of uint64 in [2**31, 2**63), tail linked list of uint32 arrays)."""
import numpy as np

rans_l = 1 << 31
_L = np.uint64(rans_l)
_32 = np.uint64(32)


def base_message(shape, randomize=False):
    head = np.full(shape, rans_l, np.uint64)
    if randomize:
        head += np.random.randint(0, rans_l, size=shape).astype(np.uint64)
    return head, ()


def _slice(stack, n):
    out = []
    while n > 0:
        arr, stack = stack  # ValueError when the message is exhausted
        if n >= len(arr):
            out.append(arr)
            n -= len(arr)
        else:
            out.append(arr[:n])
            stack = arr[n:], stack
            break
    return stack, np.concatenate(out)


def push(x, starts, freqs, precision):
    head, tail = x
    starts, freqs = np.asarray(starts).astype(np.uint64), np.asarray(freqs).astype(np.uint64)
    starts, freqs = np.broadcast_to(starts, head.shape), np.broadcast_to(freqs, head.shape)
    if not (freqs > 0).all():
        raise FloatingPointError("symbol with zero frequency")
    p = np.uint64(precision)
    idxs = head >= ((_L >> p) << _32) * freqs
    if np.any(idxs):
        tail = (head[idxs] & np.uint64(0xFFFFFFFF)).astype(np.uint32), tail
        head = np.copy(head)
        head[idxs] >>= _32
    div, mod = np.divmod(head, freqs)
    return (div << p) + mod + starts, tail


def pop(x, precision):
    head_, tail_ = x
    p = np.uint64(precision)
    cfs = head_ & np.uint64((1 << precision) - 1)

    def fun(starts, freqs):
        starts, freqs = np.asarray(starts).astype(np.uint64), np.asarray(freqs).astype(np.uint64)
        head = freqs * (head_ >> p) + cfs - starts
        tail = tail_
        idxs = head < _L
        n = int(np.sum(idxs))
        if n:
            tail, new = _slice(tail, n)
            head[idxs] = (head[idxs] << _32) | new.astype(np.uint64)
        return head, tail

    return cfs, fun


def flatten(x):
    head, tail = x
    head = np.ravel(head)
    out = [(head >> _32).astype(np.uint32), (head & np.uint64(0xFFFFFFFF)).astype(np.uint32)]
    while tail:
        arr, tail = tail
        out.append(arr)
    return np.concatenate(out)


def unflatten(arr, shape):
    size = int(np.prod(shape))
    hi, lo = arr[:size].astype(np.uint64), arr[size : 2 * size].astype(np.uint64)
    rest = np.asarray(arr[2 * size :], np.uint32)
    return ((hi << _32) | lo).reshape(shape), ((rest, ()) if len(rest) else ())


def random_message(flat_len, shape, rng=np.random):
    size = int(np.prod(shape))
    hi = np.ones(size, np.uint32)
    arr = rng.randint(0, 1 << 32, size=max(flat_len, size), dtype=np.uint64).astype(np.uint32)
    return unflatten(np.concatenate([hi, arr]), shape)


def message_equal(a, b):
    return np.array_equal(flatten(a), flatten(b))
