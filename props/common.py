"""Helpers shared by the property harnesses."""
import io
import os
import sys

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


def base_setup(project=None):
    import torch
    import tqdm

    torch.set_num_threads(1)
    tqdm.tqdm.monitor_interval = 0
    if project:
        p = os.path.join(REPO, "projects", project)
        if p not in sys.path:
            sys.path.insert(1, p)
    import neuralcompression

    here = os.path.realpath(os.path.dirname(neuralcompression.__file__))
    if not here.startswith(REPO + os.sep):
        raise RuntimeError(f"neuralcompression imported from {here}, not {REPO}")


def png(seed, size=(6, 5), mode="RGB", fmt="PNG"):
    """Deterministic little image; returns its encoded bytes."""
    import numpy as np
    from PIL import Image

    rs = np.random.RandomState(seed)
    w, h = size
    shape = (h, w, 3) if mode == "RGB" else (h, w)
    arr = rs.randint(0, 256, size=shape, dtype=np.uint8)
    buf = io.BytesIO()
    Image.fromarray(arr, mode).save(buf, fmt)
    return buf.getvalue()


def pixels(data):
    """Decoded RGB pixels (bytes, size) of an encoded image."""
    from PIL import Image

    im = Image.open(io.BytesIO(data)).convert("RGB")
    return im.size, im.tobytes()


def pil_pixels(im):
    return im.size, im.tobytes()


def attempt(fn, *a, **k):
    try:
        return ("ok", fn(*a, **k))
    except Exception as e:
        return ("exc", type(e).__name__, str(e)[:300])
