"""T02: channel-wise scaling."""
from .enc import attempt, crowd, qtens, tens

MC = ["Scaler_MC"]
TRACE = "Scaler_Trace"
NEEDS_STIM = True


def cases(ctx):
    rng = ctx.rng
    for s in rng.sample(ctx.stim["Scaler_MC"], min(len(ctx.stim["Scaler_MC"]), ctx.n(60, 300))):
        yield dict(nch=2, steps=[dict(op="fit", x=s["x"], reg=0), step(rng, 2, "apply"), step(rng, 2, "reverse")], f64=False, off=0, ex=0)
    for i in range(ctx.n(150, 2500)):
        nch = [0, 1, 2, 3, 5][i % 5]
        steps = []
        for _ in range(rng.randint(1, 3)):
            steps.append(step(rng, nch, "fit"))
            for _ in range(rng.randint(1, 3)):
                steps.append(step(rng, nch, rng.choice(["apply", "reverse"])))
        f64 = rng.random() < 0.3
        yield dict(nch=nch, steps=steps, f64=f64, off=rng.choice([0, 0, 1000, -3000, 4096] + [10**6] * f64), ex=rng.choice([0, 0, -12, 20, -30, -70, 60]))


def step(rng, nch, op):
    c = nch or 1
    t = rng.choice([1, 2, 3, 5, 8, 13, 21, rng.randint(2, 40)] + [rng.randint(60, 120)] * (op == "fit"))
    if op == "fit":
        t = max(t, 2)
        x = []
        for _ in range(c):
            lo, w = rng.randint(-30, 30), rng.choice([1, 3, 10, 20])
            row = [lo + rng.randint(0, w) for _ in range(t)]
            if rng.random() < 0.1:
                row = [lo] * t  # no variance
            x += row
        const = any(len(set(x[k * t : (k + 1) * t])) == 1 for k in range(c))
        return dict(op=op, x=x, reg=rng.choice([1, 2, 5]) if const else rng.choice([0, 0, 0, 1, 3]))
    lead = rng.choice([[], [1], [3], [2, 2]])
    n = c * t
    for v in lead:
        n *= v
    return dict(op=op, lead=lead, t=t, x=[rng.randint(-40, 40) for _ in range(n)], style=rng.randrange(4))


def execute(case):
    import torch
    from ml4gw.transforms import ChannelWiseScaler

    nch = case["nch"]
    c = nch or 1
    # the data are those of the case, shifted and scaled exactly
    off, unit = case["off"], 2.0 ** case["ex"]
    m = ChannelWiseScaler(nch or None)
    dt = torch.float64 if case["f64"] else torch.float32
    if case["f64"]:
        m = m.double()
    yield dict(op="start")
    for s in case["steps"]:
        x = torch.tensor(s["x"], dtype=dt)
        if s["op"] == "fit":
            x = (x + off) * unit
            x = x.reshape(c, -1) if nch else x
            x0 = x.clone()
            _, err = attempt(m.fit, x, s["reg"] * unit) if s["reg"] else attempt(m.fit, x)
            ev = dict(op="fit", x_d=s["x"], chans=c, n=x.shape[-1], reg=1000 * s["reg"], err=err)
            if not err:
                ev.update(qtens("mean", m.mean.double() / unit - off, 1000))
                ev.update(qtens("std", m.std.double() / unit, 1000))
                ev["mutated"] = not torch.equal(x, x0)
            yield ev
            continue
        sh = s["lead"] + ([c] if nch else []) + [s["t"]]
        rev = s["op"] == "reverse"
        x = x.reshape(sh) if rev else ((x + off) * unit).reshape(sh)
        if s["style"] == 1:
            x = x.transpose(-1, 0).contiguous().transpose(-1, 0)
        x0 = x.clone()
        kw = dict(reverse=rev) if rev or s["style"] == 2 else {}
        y, err = attempt(crowd, s, lambda v: m(v, **kw), x, cap=4500 if len(sh) > 1 + bool(nch) else 0)
        ev = dict(op=s["op"], chans=c, n=s["t"], err=err)
        if not err:
            y0 = y.clone()
            back = m(y, reverse=not rev)
            plain = lambda v: v.double() / unit - off  # noqa: E731
            ev.update(tens("x", x0 if rev else plain(x0)), **qtens("y", plain(y) if rev else y, 1000), **qtens("back", back if rev else plain(back), 1000))
            ev["mutated"] = not (torch.equal(x, x0) and torch.equal(torch.nan_to_num(y), torch.nan_to_num(y0)))
        yield ev
