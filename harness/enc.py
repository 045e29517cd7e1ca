"""Encoding of real values for the trace specifications (TLC: 32-bit ints)."""
import math

NAN, NONINT, INF, BIG = 2000000001, 2000000002, 2000000003, 2000000004
QCLIP = 1000000000
QNAN = 1000000007


def exact(t, scale=1):
    """Tensor -> (shape, flat ints); x*scale must be an exact integer,
    otherwise a sentinel no specification value equals."""
    import torch

    t = torch.as_tensor(t).detach().cpu()
    sh = list(t.shape)
    f = t.reshape(-1).to(torch.float64) * scale
    return sh, [_ex(v) for v in f.tolist()]


def _ex(v):
    if v != v:
        return NAN
    if v in (math.inf, -math.inf):
        return INF
    if v != round(v):
        return NONINT
    if abs(v) > QCLIP:
        return BIG
    return int(v)


def quant(t, scale):
    """Tensor -> (shape, flat ints round(x*scale)), clipped; NaN -> QNAN."""
    import torch

    t = torch.as_tensor(t).detach().cpu()
    sh = list(t.shape)
    f = t.reshape(-1).to(torch.float64) * scale
    return sh, [q1(v) for v in f.tolist()]


def q1(v):
    if v != v:
        return QNAN
    return int(round(max(-QCLIP, min(QCLIP, v))))


def tens(key, t, scale=1):
    """Fields <key>_sh, <key>_d of an event."""
    sh, d = exact(t, scale)
    return {key + "_sh": sh, key + "_d": d}


def qtens(key, t, scale):
    sh, d = quant(t, scale)
    return {key + "_sh": sh, key + "_d": d}


def attempt(fn, *args, **kwargs):
    """(value, errname): the class of the exception raised, or ''."""
    try:
        return fn(*args, **kwargs), ""
    except Exception as exc:  # noqa: BLE001
        from .runner import CaseTimeout

        if isinstance(exc, CaseTimeout):
            raise
        return None, type(exc).__name__


def many(x, copies):
    """A batch that consists of copies of x one after the other."""
    return x.repeat(copies, *[1] * (x.dim() - 1)) if copies > 1 else x


def pick(y, n, rng, dim=0, hold=0):
    """One representative of each of n elements along an axis on which they
    were repeated: as a whole one after the other, or held one by one."""
    import torch

    copies = y.shape[dim] // n
    if copies * n != y.shape[dim]:
        return y  # wrong as it is
    at = [rng.choice([0, copies - 1, rng.randrange(copies)]) for _ in range(n)]
    idx = [i * copies + a if hold else a * n + i for i, a in enumerate(at)]
    return y.index_select(dim, torch.tensor(idx))


def stray(fn, *args, kw=None):
    """Requests in other precisions, whose answers (or refusals) do not matter:
    they must leave nothing behind for the requests that follow."""
    import numpy as np
    import torch

    rng, nprng = torch.get_rng_state(), np.random.get_state()
    for dtype in (torch.bfloat16, torch.float16, torch.float64, torch.float32, torch.int64):
        def cast(v):
            if isinstance(v, torch.Tensor) and not v.is_complex() and v.dtype != torch.bool:
                return v.detach().clone().to(dtype)  # noqa: B023
            return v

        attempt(fn, *(cast(a) for a in args), **{k: cast(v) for k, v in (kw or {}).items()})
    torch.set_rng_state(rng)
    np.random.set_state(nprng)


def crowd(case, fn, *args, n=None, cap=4500, out=0, every=6, kw=None):
    """fn of a batch of n elements, for one case in four after stray requests; for one case in `every` the batch is part
    of a far larger one (made of copies), of which representatives of each
    element are returned: no element's result may depend on how many there are."""
    import json
    import random
    import zlib

    import torch

    kw = kw or {}
    n = len(args[0]) if n is None else n
    rng = random.Random(zlib.crc32(("crowd" + json.dumps(case, sort_keys=True, default=str)).encode()))
    if not rng.randrange(4):
        stray(fn, *args, kw=kw)
    sizes = [s for s in (40, 70, 150, 300, 600, 1100, 2100, 4200, 17000, 66000) if s <= cap]
    if rng.randrange(every) or n < 1 or not sizes:
        return fn(*args, **kw)
    copies = rng.choice(sizes) // n + rng.choice([1, 2])
    res = fn(*(many(a, copies) for a in args), **{k: many(v, copies) for k, v in kw.items()})

    def take(y):
        if isinstance(y, torch.Tensor):
            return pick(y, n, rng, out) if y.dim() > out and y.shape[out] == n * copies else y
        return type(y)(take(v) for v in y) if isinstance(y, (tuple, list)) else y

    return take(res)
