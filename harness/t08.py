"""T08: shifted Pearson correlation."""
from .enc import attempt, crowd, qtens

MC = ["Pearson_MC"]
TRACE = "Pearson_Trace"
NEEDS_STIM = True


def cases(ctx):
    rng = ctx.rng
    st = ctx.stim["Pearson_MC"]
    for s in rng.sample(st, min(len(st), ctx.n(300, 4000))):
        yield dict(x_sh=[len(s["x"])], x=s["x"], y_sh=[len(s["y"])], y=s["y"], m=s["m"], style=rng.randrange(4))
    for i in range(ctx.n(250, 3000)):
        lead = rng.choice([[], [1], [2], [3], [1, 1], [1, 2], [2, 1], [2, 3], [3, 3], [4, 2], [2, 2]])
        n = rng.choice([2, 3, 4, 6, 7, 12])
        x_sh = lead + [n]
        y_sh = x_sh[rng.randint(0, len(lead)):]
        flaw = rng.random()
        if flaw < 0.04:
            y_sh = [2] + x_sh
        elif flaw < 0.1:
            y_sh = list(y_sh)
            y_sh[rng.randrange(len(y_sh))] += rng.choice([1, 2])
        elif flaw < 0.13:
            x_sh, y_sh = [1, 2] + [2, n], [n]
        nx = ny = 1
        for v in x_sh:
            nx *= v
        for v in y_sh:
            ny *= v
        yield dict(
            x_sh=x_sh, x=[rng.randint(-6, 6) for _ in range(nx)], y_sh=y_sh, y=[rng.randint(-6, 6) for _ in range(ny)],
            m=rng.choice([0, 1, 1, 2, 3, 5, n, n + 2]), style=rng.randrange(4),
            ex=rng.choice([0, 0, -100, -70, -30, -8, 25, 100]), ey=rng.choice([0, 0, -100, -70, -15, 20, 60]), off=rng.choice([0, 0, 0, -100, 512]),
        )


def execute(case):
    import torch
    from ml4gw.transforms.pearson import ShiftedPearsonCorrelation

    style = case["style"]
    dt = torch.float64 if style == 3 else torch.float32
    x = torch.tensor(case["x"], dtype=dt).reshape(case["x_sh"])
    y = torch.tensor(case["y"], dtype=dt).reshape(case["y_sh"])
    # neither an offset of y nor the scales of the series play a role; powers
    # of two so that the data are exact
    wide = 2 if style == 3 else 1
    x = x * 2.0 ** (wide * case.get("ex", 0))
    y = (y + case.get("off", 0)) * 2.0 ** (wide * case.get("ey", 0))
    if style == 1 and x.ndim > 1:
        x = x.transpose(0, -1).contiguous().transpose(0, -1)
    x0, y0 = x.clone(), y.clone()
    m = ShiftedPearsonCorrelation(case["m"])
    if style == 2:
        attempt(m, x.flip(-1), y)
    if x.ndim == y.ndim and len(x) == len(y):
        r, err = attempt(crowd, case, m, x, y, out=1, cap=4500 if x.ndim > 1 else 0)
    else:
        r, err = attempt(m, x, y)
    ev = dict(op="run", err=err, x_sh=case["x_sh"], x_d=case["x"], y_sh=case["y_sh"], y_d=case["y"], m=case["m"])
    if not err:
        ev.update(qtens("r", r, 1000))
        ev["mutated"] = not (torch.equal(x, x0) and torch.equal(y, y0))
    yield ev
