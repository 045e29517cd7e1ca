"""T12: spline interpolation."""
from .enc import attempt, crowd, qtens, quant

MC = ["Spline_MC"]
TRACE = "Spline_Trace"
NEEDS_STIM = True


def grid(rng, n, lo=-8, hi=16):
    while True:
        p = rng.randint(lo, 0)
        g = [p]
        for _ in range(n - 1):
            p += rng.choice([1, 2, 2, 3]) if n < 8 else rng.choice([1, 1, 2])
            g.append(p)
        if p <= hi:
            return g


def outs(rng, g):
    r = rng.random()
    inside = list(range(g[0], g[-1] + 1))
    if r < 0.25:
        return list(g)
    o = rng.sample(inside, rng.randint(1, min(len(inside), 7)))
    if r < 0.6:
        o.sort()
    if rng.random() < 0.3:
        o += rng.sample(g, 2)
    if rng.random() < 0.15:
        o += [g[0] - 3, g[-1] + 1]
    return o


def cases(ctx):
    for c in base_cases(ctx):
        # data on any scale, strain's included; powers of two are exact
        c["ex"] = ctx.rng.choice([0, 0, -70, 30])
        yield c


def base_cases(ctx):
    rng = ctx.rng
    st = ctx.stim["Spline_MC"]
    for s in rng.sample(st, min(len(st), ctx.n(130, 1300))):
        D = len(s["out"])
        axes, sets = [], []
        for a in range(D):
            k = rng.choice([1, 2, 3, 3, 4, 5] if D == 1 else [1, 2, 3, 3])
            n = k + 2 + rng.choice([0, 1, 2, 4])
            if rng.random() < 0.03:
                n = k + 1
            g = grid(rng, n) if D == 1 else grid(rng, n, -4, 12)
            two = [outs(rng, g), outs(rng, g)]
            sets.append(two)
            axes.append(dict(k=k, grid=g, out=two[s["out"][a][0] - 1] if s["out"][a] else []))
        calls = []
        for h in s["h"]:
            given = [sets[a][h[a][0] - 1] if h[a] else [] for a in range(D)]
            sizes = [len(a["grid"]) for a in axes[::-1]]
            lead = rng.choice([[], [], [1], [2], [3], [1, 1], [2, 2], [1, 3], [2, 1]] + ([[2, 1, 2], [1, 2, 3]] if D == 1 else []))
            z_sh = lead + sizes
            flaw = rng.random()
            if flaw < 0.04:
                z_sh[-1] += rng.choice([-1, 1])
            elif flaw < 0.07:
                z_sh = [1] * (5 - len(z_sh)) + z_sh
            elif flaw < 0.1 and D == 2:
                z_sh = rng.choice([[sizes[1]], [sizes[0] + 1, sizes[1]], lead + sizes[::-1]])
            calls.append(dict(given=given, z_sh=z_sh, kinds=rng.randrange(4)))
        yield dict(axes=axes, calls=calls, seed=rng.randrange(1 << 20), style=rng.randrange(3))


def execute(case):
    import random

    import torch
    from ml4gw.transforms import SplineInterpolate1D, SplineInterpolate2D

    rng = random.Random(case["seed"])
    axes = case["axes"]
    D = len(axes)

    def coords(v, style):
        return torch.tensor(v) / 4 if style else (torch.tensor(v, dtype=torch.float64) / 4)

    def build(with_out):
        kw = {}
        for a, name in zip(axes, "xy"):
            kw[name + "_in"] = coords(a["grid"], case["style"])
            kw["k" + name] = a["k"]
            if with_out and a["out"]:
                kw[name + "_out"] = coords(a["out"], case["style"] % 2)
        return (SplineInterpolate1D if D == 1 else SplineInterpolate2D)(**kw)

    m, err = attempt(build, True)
    yield dict(op="new", axes=axes, err=err)
    if err:
        return
    for c in case["calls"]:
        z_sh = c["z_sh"]
        z = torch.tensor([rng.randint(-9, 9) for _ in range(torch.Size(z_sh).numel())]).reshape(z_sh).float()
        given = {n + "_out": coords(g, 1) for n, g in zip("xy", c["given"]) if g}
        good = 4 >= len(z_sh) >= D and z_sh[-1] == len(axes[0]["grid"]) and (D == 1 or z_sh[-2] == len(axes[1]["grid"]))
        ev = dict(op="call", given=c["given"], z_sh=z_sh, lin=[])
        if good:
            tail = z_sh[-D:]
            s = z.reshape(-1, *tail).double()
            poly = [[] for _ in s]
            X = torch.tensor(axes[0]["grid"], dtype=torch.float64) / 4
            Y = torch.tensor(axes[1]["grid"], dtype=torch.float64) / 4 if D == 2 else None
            for i in range(len(s)):
                if c["kinds"] == 0 or (c["kinds"] == 1 and i % 2):
                    co = [[rng.randint(-2, 2) for _ in range(axes[1]["k"] + 1 if D == 2 else 1)] for _ in range(axes[0]["k"] + 1)]
                    poly[i] = co
                    if D == 1:
                        s[i] = sum(co[p][0] * X**p for p in range(len(co)))
                    else:
                        s[i] = sum(co[p][q] * X[None] ** p * Y[:, None] ** q for p in range(len(co)) for q in range(len(co[0])))
            if c["kinds"] == 2 and len(s) >= 3:
                s[2] = s[0] + 2 * s[1]
                ev["lin"] = [1, 2, 3]
            z = s.float().reshape(z_sh)
            ev["z_d"] = [int(v) if v == int(v) else 0 for v in s.reshape(-1).tolist()]
            ev["poly"] = poly
            ev["peak"] = [int(v.abs().max() * 1000) for v in s]
        if case["style"] == 1 and len(z_sh) > 1:
            z = z.transpose(0, -1).contiguous().transpose(0, -1)
        unit = 2.0 ** case["ex"]
        z = z * unit
        z0 = z.clone()
        y, ev["err"] = attempt(crowd, dict(c, s=case["seed"]), lambda v: m(v, **given), z, cap=1200 if good and len(z_sh) == 4 else 0)
        if not ev["err"] and good:
            ev["mutated"] = not torch.equal(z, z0)
            ev.update(qtens("y", y.double() / unit, 1000))
            ev["alone"] = []
            for v in z.reshape(-1, *z_sh[-D:]):
                o = {n + "_out": coords(g or a["out"], 1) for n, g, a in zip("xy", c["given"], axes)}
                ev["alone"].append(quant(build(False)(v, **o).double() / unit, 1000)[1])
        yield ev
