"""Observe events inside the code under test by wrapping public methods (no change to the repository)."""
import contextlib
import functools


@contextlib.contextmanager
def calls(cls, method, sink):
    """sink(self, args, kwargs, result) after every call of cls.method."""
    orig = getattr(cls, method)

    @functools.wraps(orig)
    def wrapped(self, *a, **k):
        r = orig(self, *a, **k)
        sink(self, a, k, r)
        return r
    setattr(cls, method, wrapped)
    try:
        yield
    finally:
        setattr(cls, method, orig)


@contextlib.contextmanager
def rng_sequences():
    """List of the random sequences handed out while the block runs."""
    from UnarySim.stream import RNG
    got = []
    with calls(RNG, "forward", lambda s, a, k, r: got.append(r.detach().clone())):
        yield got


@contextlib.contextmanager
def float_shifts():
    """Supply << and >> on floating-point tensors (scaling by a power of two), as the PyTorch versions the repository
    documents (1.10 and later) did; current PyTorch dropped them.  Integer tensors keep their own operators."""
    import torch
    T = torch.Tensor
    ol, orr = T.__lshift__, T.__rshift__
    T.__lshift__ = lambda s, n: s * 2.0 ** n if s.is_floating_point() else ol(s, n)
    T.__rshift__ = lambda s, n: s / 2.0 ** n if s.is_floating_point() else orr(s, n)
    try:
        yield
    finally:
        del T.__lshift__, T.__rshift__
