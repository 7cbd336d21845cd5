"""Fault seam for tensor code: the n-th torch operation of a call fails.

Stands for an allocation failure (out of memory) inside a model or layer.  The
mode is thread-local, so it only hits the calling task.
"""
from torch.overrides import TorchFunctionMode


class AllocationFailure(MemoryError):
    pass


# attribute reads and mode switches do not allocate
_NEVER = ("__get__", "__set__", "_set_grad_enabled", "set_grad_enabled", "requires_grad_", "detach", "size", "dim")


class FailAt(TorchFunctionMode):
    def __init__(self, n):
        super().__init__()
        self.left = n
        self.hit = False

    def __torch_function__(self, func, types, args=(), kwargs=None):
        if self.left is not None and getattr(func, "__name__", "") not in _NEVER:
            self.left -= 1
            if self.left < 0:
                self.left = None
                self.hit = True
                raise AllocationFailure("simulated: cannot allocate memory")
        return func(*args, **(kwargs or {}))
