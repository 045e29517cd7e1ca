"""T07: running mean and leaky integrator."""
from .enc import attempt, crowd, qtens, tens

MC = ["Integrator_MC"]
TRACE = "Integrator_Trace"
NEEDS_STIM = True
SHAPES = [[], [1], [3], [1, 1], [2, 3], [2, 1, 2]]


def leaky(x_sh, x, unit, threshold, decay, floor, count, style):
    return dict(kind="leaky", x_sh=x_sh, x=x, unit=unit, threshold=threshold, decay=decay, floor=floor, count=count, style=style)


def cases(ctx):
    for c in base_cases(ctx):
        # data on any scale, strain's included; powers of two are exact
        c["ex"] = ctx.rng.choice([0, 0, -70, -20, 30])
        yield c


def base_cases(ctx):
    rng = ctx.rng
    st = ctx.stim["Integrator_MC"]
    for s in rng.sample(st, min(len(st), ctx.n(400, 5000))):
        p = s["p"]
        yield leaky([len(s["x"])], s["x"], 2, p["threshold"], p["decay"], p["floor"], p["count"], rng.randrange(4))
    for i in range(ctx.n(250, 3000)):
        lead = rng.choice(SHAPES)
        n = rng.choice([1, 2, 3, 8, 17, 40, 120])
        num = n
        for v in lead:
            num *= v
        unit = rng.choice([1, 2, 4])
        lo, hi = rng.choice([(-6, 6), (-12, 4), (0, 9), (-3, 12)])
        x = [rng.randint(lo, hi) for _ in range(num)]
        yield leaky(lead + [n], x, unit, rng.randint(-3, 5), rng.choice([0, 1, 1, 2, 3, 7]), rng.choice([0, 0, -8, -3, 2, 11]), rng.random() < 0.5, rng.randrange(4))
    for i in range(ctx.n(200, 2000)):
        lead = rng.choice(SHAPES)
        n = rng.choice([1, 2, 3, 5, 8, 16, 33, 64])
        num = n
        for v in lead:
            num *= v
        rate, length = rng.choice([(1, 1), (1, 3), (4, 1), (8, 2), (4, 0.5), (16, 0.25), (2, 0), (32, 2), (5, 1), (16, 1)])
        yield dict(kind="hat", x_sh=lead + [n], x=[rng.randint(-50, 50) for _ in range(num)], rate=rate, length=length, style=rng.randrange(4), loud=rng.choice([0, 0, 1, 2, 7]))
    for m in ["count", "score", "", "Count", "sum", "counts", "cou"]:
        yield dict(kind="mode", mode=m)


def execute(case):
    import torch
    from ml4gw.transforms.integrator import LeakyIntegrator, TophatIntegrator

    if case["kind"] == "mode":
        _, err = attempt(LeakyIntegrator, 1.0, 1.0, 0.0, case["mode"])
        yield dict(op="mode", good=case["mode"] in ("count", "score"), err=err)
        return
    style = case["style"]
    dt = torch.float64 if style == 3 else torch.float32
    x = torch.tensor(case["x"], dtype=dt).reshape(case["x_sh"])
    ev = dict(op=case["kind"], x_sh=case["x_sh"], x_d=case["x"])
    if case["kind"] == "leaky":
        u = case["unit"]
        x = x / u
        if style == 1 and x.ndim > 1:
            x = x.transpose(0, -1).contiguous().transpose(0, -1)
        num = (lambda v: v // u if v % u == 0 and style == 2 else v / u)
        m = LeakyIntegrator(num(case["threshold"]), num(case["decay"]), num(case["floor"]), "count" if case["count"] else "score")
        ev.update({k: case[k] for k in ("unit", "threshold", "decay", "floor", "count")})
    else:
        if style == 1 and x.ndim > 1:
            x = x.transpose(0, -1).contiguous().transpose(0, -1)
        m = TophatIntegrator(case["rate"], case["length"]).to(dt)
        ev["rl"] = int(case["rate"] * case["length"])
        # a stretch far louder than the rest, which has left the windows of
        # the samples after it
        loud = case.get("loud", 0)
        x = x.clone()
        x[..., :loud] = (x[..., :loud] + 60) * 2.0**20
        ev["skip"] = 0 if loud == 0 else loud + ev["rl"]
    unit = 2.0 ** case["ex"] if case["kind"] == "hat" else 1
    x = x * unit
    x0 = x.clone()
    attempt(m, x.flip(-1) * 3)  # another series first: no memory is kept
    y, ev["err"] = attempt(crowd, case, m, x, cap=17000 if x.ndim > 1 else 0)
    if not ev["err"]:
        ev["mutated"] = not torch.equal(x, x0)
        if case["kind"] == "hat" and list(y.shape) == case["x_sh"]:
            y = y.clone()
            y[..., : ev["skip"]] = 0
        ev.update(tens("y", y, case["unit"]) if case["kind"] == "leaky" else qtens("y", y / unit, 1000))
    yield ev
