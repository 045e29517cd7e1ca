"""M03: group normalisation."""
from .enc import attempt, many, pick, qtens, stray, tens

MC = ["Norm_MC"]
TRACE = "Norm_Trace"
NEEDS_STIM = True
ASSUMPTIONS = ["means of a group at most about a thousand times its standard deviation in single precision (the precision of the data themselves)"]


def cases(ctx):
    rng = ctx.rng
    st = ctx.stim["Norm_MC"]
    for s in rng.sample(st, min(len(st), ctx.n(400, 2000))):
        yield dict(C=s["C"], g=s["g"], h=s["h"], via=rng.choice(["direct", "direct", "get1", "get2"]), eps=rng.choice([0, 0, 1000, 2000, 5000]),
                   affine=rng.random() < 0.6, f64=rng.random() < 0.3, seed=rng.randrange(1 << 20))


def execute(case):
    import random

    import torch
    from ml4gw.nn.norm import GroupNorm1D, GroupNorm1DGetter, GroupNorm2DGetter

    rng = random.Random(case["seed"])
    C, g, via = case["C"], case["g"], case["via"]
    eps = case["eps"] if via == "direct" else 0
    if via == "direct":
        kw = dict(eps=eps / 1000) if eps else {}
        if not (g == 0 and rng.random() < 0.5):
            kw["num_groups"] = g or None
        m, err = attempt(GroupNorm1D, C, **kw)
    else:
        get = (GroupNorm1DGetter if via == "get1" else GroupNorm2DGetter)(g or None)
        m, err = attempt(get, C)
    yield dict(op="new", C=C, g=g, via=via, eps=eps, err=err)
    if err:
        return
    dt = torch.float64 if case["f64"] else torch.float32
    m = m.to(dt)
    w, b = [1] * C, [0] * C
    if case["affine"]:
        w, b = [rng.randint(-3, 3) for _ in range(C)], [rng.randint(-3, 3) for _ in range(C)]
        with torch.no_grad():
            m.weight.copy_(torch.tensor(w).reshape(m.weight.shape))
            m.bias.copy_(torch.tensor(b).reshape(m.bias.shape))
    for kind in case["h"]:
        B = rng.choice([1, 2, 3]) if kind != "batch" else 5
        T = rng.choice([2, 4, 6] if via == "get2" else [1, 2, 3, 5, 8])
        x = torch.tensor([rng.randint(-9, 9) for _ in range(B * C * T)], dtype=dt).reshape(B, C, T)
        if kind == "flat":
            x[:, : max(1, C // 2)] = rng.randint(-4, 4)
        if kind == "offset":
            x = x + torch.tensor([rng.randint(-20, 20) for _ in range(B)], dtype=dt)[:, None, None]
        if kind == "batch":
            x = x.transpose(0, 1).contiguous().transpose(0, 1)
        # an element alone in its group is constant: its variance is nought
        arg = x
        rank = 3
        if via == "get2":
            rank = 4
            arg = x.reshape(B, C, T, 1) if rng.random() < 0.5 or T % 2 else x.reshape(B, C, 2, T // 2)
        elif kind == "rank":
            arg, rank = (x[0], 2) if rng.random() < 0.5 else (x[..., None], 4)
        # a common offset is taken away by the normalisation, up to the
        # rounding of numbers of its size in single precision
        far = rng.choice([0, 0, 100, -1000, 4096] + [10**7] * case["f64"])
        arg = arg + far
        # as many batch elements, or as long a series, as one likes: copies
        # of the elements and held samples have the same statistics
        rows, hold = rng.choice([(1, 1)] * 4 + [(101, 1), (1, 9001)])
        if kind == "rank":
            rows = hold = 1
        arg = many(arg, rows).repeat_interleave(hold, -1)
        x0 = arg.clone()
        if not rng.randrange(6):
            stray(m, arg)
        y, err = attempt(m, arg)
        ev = dict(op="call", rank=rank, w=w, b=b, err=err, mutated=not torch.equal(arg, x0), far=0 if case["f64"] else abs(far), **tens("x", x))
        if not err:
            y = pick(pick(y.detach().reshape(rows * B, C, -1), B, rng), T, rng, -1, hold) if rows * hold > 1 else y.detach().reshape(B, C, -1)
            ev.update(qtens("y", y, 1000))
        yield ev
