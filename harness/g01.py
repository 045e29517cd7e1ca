"""G01: antenna responses and detector geometry."""
from .enc import attempt, crowd, qtens, quant

MC = ["Antenna_MC"]
TRACE = "Antenna_Trace"
NEEDS_STIM = True
MODES = ["plus", "cross", "breathing"]
NAMES = ["H1", "L1", "V1", "K1"]


def angle(rng):
    d = rng.choice([1, 2, 3, 5, 8, 12, 24, 60, 100, 360])
    return [rng.randint(-2 * d, 2 * d), d]


def tensor(rng):
    r = rng.random()
    if r < 0.2:
        k = rng.randrange(9)
        return [int(i == k) for i in range(9)]
    t = [rng.randint(-3, 3) for _ in range(9)]
    if r < 0.6:  # symmetric
        t[3], t[6], t[7] = t[1], t[2], t[5]
    return t


def cases(ctx):
    rng = ctx.rng
    st = ctx.stim["Antenna_MC"]
    for s in rng.sample(st, min(len(st), ctx.n(350, 4000))):
        B = rng.choice([1, 1, 2, 3, 5])
        th = [[s["th"], s["g"]]] + [angle(rng) for _ in range(B - 1)]
        ps = [[s["ps"], s["g"]]] + [angle(rng) for _ in range(B - 1)]
        ph = [[s["ph"], s["g"]]] + [angle(rng) for _ in range(B - 1)]
        if rng.random() < 0.5:
            k = rng.randrange(B)
            th[0], th[k], ps[0], ps[k], ph[0], ph[k] = th[k], th[0], ps[k], ps[0], ph[k], ph[0]
        modes = list(s["m"])
        if rng.random() < 0.04:
            modes.insert(rng.randint(0, len(modes)), rng.choice(["x", "Plus", "", "scalar", "longitudinal"]))
        yield dict(kind="responses", th=th, ps=ps, ph=ph, modes=modes, tensors=[tensor(rng) for _ in range(rng.choice([1, 1, 2, 3, 4]))],
                   f64=rng.random() < 0.5, t64=rng.random() < 0.5, strided=rng.random() < 0.3)
    for _ in range(ctx.n(60, 400)):
        names = [rng.choice(NAMES) for _ in range(rng.randint(1, 6))]
        if rng.random() < 0.1:
            names[rng.randrange(len(names))] = rng.choice(["G1", "h1", "", "H", "E1"])
        yield dict(kind="geometry", names=names)


def execute(case):
    import math

    import torch
    from ml4gw.gw import compute_antenna_responses, get_ifo_geometry
    from ml4gw.utils.interferometer import InterferometerGeometry

    if case["kind"] == "geometry":
        y, err = attempt(get_ifo_geometry, *case["names"])
        ev = dict(op="geometry", names=case["names"], err=err)
        if not err:
            ev.update(**qtens("t", y[0], 10000), **qtens("v", y[1], 1))
        yield ev
        name = case["names"][0]
        g, err = attempt(InterferometerGeometry, name)
        ev = dict(op="arms", name=name, err=err)
        if not err:
            ev.update(x_d=quant(g.x_arm, 1e5)[1], y_d=quant(g.y_arm, 1e5)[1], v_d=quant(g.vertex, 1)[1])
        yield ev
        return
    dt = torch.float64 if case["f64"] else torch.float32

    def ang(v):
        t = torch.tensor([2 * math.pi * n / d for n, d in v], dtype=dt)
        return torch.stack([t, t], -1)[:, 0] if case["strided"] else t

    a = [ang(case[k]) for k in ("th", "ps", "ph")]
    D = torch.tensor(case["tensors"], dtype=torch.float64 if case["t64"] else torch.float32).reshape(-1, 3, 3)
    keep = [v.clone() for v in (*a, D)]
    y, err = attempt(crowd, case, lambda *a: compute_antenna_responses(*a, D, list(case["modes"])), *a, cap=17000)
    ev = dict(op="responses", th=case["th"], ps=case["ps"], ph=case["ph"], modes=case["modes"], tensors=case["tensors"], err=err,
              mutated=any(not torch.equal(x, k) for x, k in zip((*a, D), keep)))
    if not err:
        ev.update(qtens("y", y, 10000))
    yield ev
