"""T09: heterodyning."""
from .enc import attempt, crowd, qtens, quant

MC = ["Heterodyne_MC"]
TRACE = "Heterodyne_Trace"
NEEDS_STIM = True
MASSES = [0.5, 1, 1.2, 2, 5, 8, 10, 27, 30.5, 64, 100]


def cases(ctx):
    rng = ctx.rng
    st = ctx.stim["Heterodyne_MC"]

    def one(x_sh, x):
        n = x_sh[2]
        rate = rng.choice([n, 2 * n, 16, 64, 4 * n, n / 2])
        if int((n / rate) * rate) != n:
            rate = n
        return dict(kind="het", x_sh=x_sh, x=x, rate=rate, masses=[rng.choice(MASSES) for _ in range(rng.choice([1, 1, 2, 3, 4]))],
                    ret=rng.choice(["both", "both", "time", "freq"]), style=rng.randrange(4), ex=rng.choice([0, 0, -20, -70, 30]))

    for s in rng.sample(st, min(len(st), ctx.n(30, 300))):
        yield one([1, 1, 4], s["x"])
    for i in range(ctx.n(120, 1500)):
        n = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13])
        B, C = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)])
        yield one([B, C, n], [rng.randint(-10, 10) for _ in range(B * C * n)])
    for i in range(ctx.n(40, 300)):
        a = [rng.choice([1, 2, 3, 4]) for _ in range(rng.choice([1, 2, 3]))]
        rate, n = rng.choice([(1024, 1024), (2048, 1024), (2048, 512), (1024, 2048), (2048, 2048), (4096, 4096), (1000, 1000), (1025, 1025), (1000, 125), (1026, 513), (999, 333), (2050, 1025)])
        yield dict(kind="phase", a=a, rate=rate, n=n, B=rng.choice([1, 2]), style=rng.randrange(4))
    for m in ["time", "freq", "both", "Time", "", "frequency", "timeseries", "all"]:
        yield dict(kind="mode", mode=m)


def execute(case):
    import torch
    from ml4gw.transforms.heterodyne import Heterodyne

    kind = case["kind"]
    if kind == "mode":
        _, err = attempt(Heterodyne, 16, 1, torch.tensor([1.0]), case["mode"])
        yield dict(op="mode", mode=case["mode"], err=err)
        return
    style = case["style"]
    dt = torch.float64 if style == 3 else torch.float32
    rate = case["rate"]

    def length(n):
        v = n / rate
        return int(v) if v == int(v) and style == 2 else v

    if kind == "phase":
        n, a = case["n"], case["a"]
        df = rate / n
        if n % 2:  # a length that does not divide
            v = n / rate
            if int(v * rate) != n:
                return
        m = Heterodyne(rate, length(n), torch.tensor([float(v**3) for v in a], dtype=dt), "freq")
        x = torch.zeros(case["B"], 1, n, dtype=dt)
        x[..., 0] = rate
        y, err = attempt(m, x)
        ev = dict(op="phase", err=err, c=[], pr=[], pi=[], tol=60)
        if not err:
            for i, v in enumerate(a):
                for b in range(1, 17):
                    f = b**3
                    if v * b >= 8 and f <= rate / 2 and f % df == 0:
                        k = int(f / df)
                        z = y[-1, 0, i, k]
                        ev["c"].append(v * b)
                        ev["pr"] += quant(z.real, 10000)[1]
                        ev["pi"] += quant(z.imag, 10000)[1]
        if ev["c"] or err:
            yield ev
        return
    n = case["x_sh"][2]
    x = torch.tensor(case["x"], dtype=dt).reshape(case["x_sh"])
    if style == 1:
        x = x.transpose(0, 2).contiguous().transpose(0, 2)
    unit = 2.0 ** case.get("ex", 0)
    x = x * unit
    x0 = x.clone()
    masses = torch.tensor(case["masses"], dtype=dt)
    m = Heterodyne(rate, length(n), masses, case["ret"])
    ev = dict(op="het", x_sh=case["x_sh"], x_d=case["x"], M=len(masses))
    ev["return"] = case["ret"]
    attempt(m, x.flip(-1) * 2)
    if style != 3:
        out, ev["err"] = attempt(crowd, case, m, x)
    else:  # a large bank (in single precision phases depend on how masses are grouped)
        out, ev["err"] = attempt(crowd, case, lambda v: Heterodyne(rate, length(n), v, case["ret"])(x), masses, out=2, cap=2200, every=2)
    if not ev["err"]:
        ev["mutated"] = not torch.equal(x, x0)
        if case["ret"] != "both":
            out = (out,)
        f = [o for o in out if o.is_complex()]
        t = [o for o in out if not o.is_complex()]
        ev["has_f"], ev["has_t"] = len(f) == 1, len(t) == 1
        if f:
            ev["f_sh"], ev["re"] = quant(f[0].real.double() / unit, rate * 100)
            _, ev["im"] = quant(f[0].imag.double() / unit, rate * 100)
        if t:
            ev.update(qtens("t", t[0].double() / unit, 100))
        ev["pr"], ev["pi"] = [], []
        imp = torch.zeros(1, 1, n, dtype=dt)
        imp[..., 0] = rate
        for q in case["masses"]:
            z = Heterodyne(rate, length(n), torch.tensor([q], dtype=dt), "freq")(imp)
            ev["pr"] += quant(z.real, 10000)[1]
            ev["pi"] += quant(z.imag, 10000)[1]
    yield ev
