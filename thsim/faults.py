"""Failing tensor operations."""

import torch
from torch.utils._python_dispatch import TorchDispatchMode


class InjectedOOM(torch.OutOfMemoryError):
    pass


class FailingOps(TorchDispatchMode):
    """Counts the tensor operations of a thread and fails the n-th one (before or right after it ran)."""

    def __init__(self, at, after=False):
        super().__init__()
        self.at, self.after, self.n, self.fired = at, after, 0, None

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        n = self.n
        self.n = n + 1
        if n == self.at:
            self.fired = str(func)
            if not self.after:
                raise InjectedOOM(f"injected: allocation failed in {func}")
        out = func(*args, **(kwargs or {}))
        if n == self.at and self.after:
            raise InjectedOOM(f"injected: failure right after {func}")
        return out
