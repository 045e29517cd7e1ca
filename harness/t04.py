"""T04: Welch spectral and cross spectral densities."""
from .enc import attempt, crowd, qtens, quant, tens

MC = ["Welch_MC"]
TRACE = "Welch_Trace"
NEEDS_STIM = True

NS = [3, 4, 4, 5, 6, 7, 8, 8, 9, 12, 16]


def ints(rng, n, a=9):
    return [rng.randint(-a, a) for _ in range(n)]


def size(sh):
    p = 1
    for v in sh:
        p *= v
    return p


def cases(ctx):
    for c in base_cases(ctx):
        # data on any scale, strain's included; powers of two are exact
        c["ex"] = ctx.rng.choice([0, 0, -70, -20, 20])
        yield c


def base_cases(ctx):
    rng = ctx.rng
    st = ctx.stim["Welch_MC"]
    for i, s in enumerate(rng.sample(st, min(len(st), ctx.n(60, 400)))):
        yield dict(kind="fn", x_sh=[len(s["x"])], x=s["x"], n=4, s=s["s"], w=[[1, 1, 1, 1], [1, 2, 3, 1], []][i % 3], fast=bool(i % 2), median=s["med"], style=0)
    for i in range(ctx.n(200, 2500)):
        n = rng.choice(NS)
        t = n + rng.choice([0, 1, rng.randint(0, 2 * n), rng.randint(0, 3 * n)])
        sh = rng.choice([[], [1], [2], [3], [1, 1], [2, 1], [1, 3], [2, 2], [3, 2]]) + [t]
        if rng.random() < 0.04:
            sh = rng.choice([[n - 1], [2, n - 1], [1, 1, 1, t], [1, 2, n - 1]])
        w = [] if rng.random() < 0.5 else [rng.randint(1, 3) for _ in range(n)]
        c = dict(
            kind=rng.choice(["fn", "cls", "cls"]), x_sh=sh, x=ints(rng, size(sh)), n=n, s=rng.randint(1, n + 2),
            w=w, fast=rng.random() < 0.5, median=rng.random() < 0.5, style=rng.randrange(6),
        )
        if c["kind"] == "cls":
            c["rate"] = rng.choice([1, 2, 4, 8, 16])
            c["ov"] = rng.choice([[], [], [0, 1], [rng.randint(0, n - 1), c["rate"]], [2 * rng.randint(0, n - 1) + 1, 2 * c["rate"]]])
        r = rng.random()
        if r < 0.4:
            c["y_sh"] = partner(rng, sh)
            c["y"] = ints(rng, size(c["y_sh"]))
            if rng.random() < 0.9:
                c["fast"] = True
            elif c["kind"] == "fn":
                c["kind"], c["rate"], c["ov"] = "cls", 4, []
        yield c
    for i in range(ctx.n(60, 300)):
        n, rate = rng.choice(NS), rng.choice([1, 2, 4, 8])
        yield dict(
            kind="make", n=n, rate=rate, ov=rng.choice([[], [rng.randint(0, n + 2), rate], [2 * n - 1, 2 * rate]]),
            w=rng.choice([[], [1] * n, [1] * (n + rng.choice([-1, 1, 0]))]), avg=rng.choice(["mean", "median", "median", "mode", "max"]),
        )
    for i in range(ctx.n(40, 400)):
        yield dict(kind=["agree", "alone"][i % 2], n=rng.choice([8, 15, 16, 33, 64]), seed=rng.randrange(1 << 20), median=rng.random() < 0.5, cross=rng.random() < 0.5, fast=rng.random() < 0.5)
    # any number of segments: many
    for i in range(ctx.n(24, 200)):
        n = rng.choice([4, 5, 8, 12])
        yield dict(
            kind="periodic", n=n, s=rng.randint(2, n), segs=rng.choice([1, 2, 3, rng.randint(4, 60), rng.randint(60, 140), rng.randint(140, 700), rng.randint(900, 1100)]),
            fast=i % 3 > 0, cross=i % 3 == 2, seed=rng.randrange(1 << 20), sh=rng.choice([[], [2], [2, 2]]),
        )
    for xs, ys in [([3, 2, 8], [2, 8]), ([2, 1, 8], [1, 8]), ([2, 3, 8], [3, 8]), ([1, 2, 8], [2, 8]), ([2, 8], [1, 8]), ([3, 8], [3, 1, 8]), ([8], [1, 8]), ([1, 2, 8], [1, 8])]:
        for cls in ("fn", "cls"):
            yield dict(kind=cls, x_sh=xs, x=ints(rng, size(xs)), y_sh=ys, y=ints(rng, size(ys)), n=4, s=2, w=[], fast=True, median=cls == "fn", style=0, rate=4, ov=[])
    # transforms fitted on timeseries
    for i in range(ctx.n(40, 300)):
        n, rate = rng.choice([4, 6, 8, 12, 16]), rng.choice([2, 4, 8])
        t = n + rng.randint(0, 3 * n)
        C = rng.randint(1, 3)
        yield dict(
            kind="fit", n=n, rate=rate, x_sh=[C, t], x=ints(rng, C * t), which=i % 2,
            ov=rng.choice([[], [], [rng.randint(0, n - 1), rate], [0, 1]]),
        )


def partner(rng, sh):
    if rng.random() < 0.12:
        return rng.choice([sh[:-1] + [sh[-1] + 1], [5] + sh, [2, 2, sh[-1]], [4, sh[-1]], [sh[-1]]])
    if len(sh) == 2 and rng.random() < 0.5:
        return sh[1:]
    if len(sh) == 3 and rng.random() < 0.5:
        return [sh[0], sh[2]]
    return list(sh)


def execute(case):
    import torch
    from ml4gw.spectral import fast_spectral_density, spectral_density
    from ml4gw.transforms import FixedWhiten, SnrRescaler, SpectralDensity

    k = case["kind"]
    n = case["n"]
    ev = dict(op="psd", n=n)
    if k == "make":
        kw = {}
        if case["ov"]:
            kw["overlap"] = case["ov"][0] / case["ov"][1]
        if case["w"]:
            kw["window"] = torch.tensor(case["w"]).float()
        _, err = attempt(SpectralDensity, case["rate"], n / case["rate"], average=case["avg"], **kw)
        yield dict(op="make", n=n, rate=case["rate"], ov=case["ov"], w=case["w"], badavg=case["avg"] not in ("mean", "median"), err=err)
        return
    if k == "periodic":
        torch.manual_seed(case["seed"])
        s = case["s"]
        t = n + (case["segs"] - 1) * s
        ev = dict(op=k, n=n, s=s, len=t)

        def series():
            return torch.randint(-9, 10, case["sh"] + [s]).double().repeat([1] * len(case["sh"]) + [t // s + 1])[..., :t]

        x, y = series(), series()
        if case["cross"]:
            y = x * 3
        w = torch.rand(n, dtype=torch.float64) + 0.5
        fn = fast_spectral_density if case["fast"] else spectral_density
        kw = dict(y=y) if case["cross"] else {}
        out = [attempt(fn, x, n, s, w, 1.0, average=a, **kw) for a in ("mean", "median")]
        ev["err"] = out[0][1] or out[1][1]
        if not ev["err"]:
            a, b = (v[0].real.reshape(-1) for v in out)
            keep = a > 1e-3 * a.max()
            ev["ratio"] = quant((a / b)[keep], 1e6)[1]
        yield ev
        return
    if k in ("agree", "alone"):
        torch.manual_seed(case["seed"])
        x = torch.randn(3, 2, n * 4 + 3) * 100 + 500
        y = torch.randn_like(x) * 30
        kw = dict(average="median" if case["median"] else "mean")
        if k == "agree":
            a, e1 = attempt(SpectralDensity(16, n / 16, fast=True, **kw), x)
            b, e2 = attempt(SpectralDensity(16, n / 16, fast=False, **kw), x)
            a, b = (a[..., 2:], b[..., 2:]) if not (e1 or e2) else (a, b)
        else:
            m = SpectralDensity(16, n / 16, fast=case["fast"] or case["cross"], **kw)
            args = (x, y) if case["cross"] else (x,)
            a, e1 = attempt(m, *args)
            b, e2 = attempt(lambda: torch.stack([torch.stack([m(*(v[i, j] for v in args)) for j in range(2)]) for i in range(3)]))
            if not (e1 or e2) and case["cross"]:
                a, b = torch.view_as_real(a), torch.view_as_real(b)
        ev = dict(op=k, err=e1 or e2)
        if not ev["err"]:
            ev["a"], ev["b"] = quant(a, 100)[1], quant(b, 100)[1]
        yield ev
        return
    if k == "fit":
        rate, (C, t) = case["rate"], case["x_sh"]
        kw = dict(fftlength=n / rate)
        if case["ov"]:
            kw["overlap"] = case["ov"][0] / case["ov"][1]
        x = torch.tensor(case["x"]).float().reshape(case["x_sh"])
        x0 = x.clone()
        if case["which"]:
            m = SnrRescaler(C, rate, n / rate)
            _, err = attempt(m.fit, *x, **kw)
            out = m.background
        else:
            # the whitener's buffer is the truncated spectrum: compare with a
            # whitener fitted on the reference rescaler's spectrum instead
            m = SnrRescaler(C, rate, n / rate, dtype=torch.float64)
            _, err = attempt(m.fit, *x.double(), **kw)
            out = m.background
            w1, w2 = FixedWhiten(C, n / rate, rate), FixedWhiten(C, n / rate, rate)
            fd = 2 / rate
            _, e1 = attempt(w1.fit, fd, *x, **kw)
            _, e2 = attempt(w2.fit, fd, *out)
            r = dict(op="alone", err=e1 or e2)
            if not r["err"]:
                big = torch.isfinite(w2.psd) & (w2.psd < 1e6)
                r["a"], r["b"] = quant(torch.where(big, w1.psd, 0), 50)[1], quant(torch.where(big, w2.psd, 0), 50)[1]
                r["a"], r["b"] = [min(v, 10**8) // 1 for v in r["a"]], [min(v, 10**8) for v in r["b"]]
            if bool((out > 1e-6).all()):
                yield r
        ev.update(s=0, rate=rate, ov=case["ov"], w=[], fast=False, median=True, scaled=True, x_sh=case["x_sh"], x_d=case["x"], err=err)
        if not err:
            ev.update(qtens("out", out, 1000 * rate))
            ev["mutated"] = not torch.equal(x, x0)
        yield ev
        return
    style = case["style"]
    dt = torch.float64 if style in (1, 2) else torch.float32
    x = torch.tensor(case["x"], dtype=dt).reshape(case["x_sh"])
    if style == 3 and x.ndim > 1:
        x = x.transpose(-1, 0).contiguous().transpose(-1, 0)
    y = None
    if "y" in case:
        y = torch.tensor(case["y"], dtype=dt).reshape(case["y_sh"])
        ev.update(op="csd", y_sh=case["y_sh"], y_d=case["y"])
    unit = 2.0 ** case["ex"]
    x, y = x * unit, None if y is None else y * unit
    x0, y0 = x.clone(), None if y is None else y.clone()
    w = torch.tensor(case["w"], dtype=torch.float64 if style == 4 else torch.float32) if case["w"] else None
    avg = "median" if case["median"] else "mean"
    ev.update(w=case["w"], fast=case["fast"], median=case["median"], x_sh=case["x_sh"], x_d=case["x"])
    if k == "fn":
        win = w if w is not None else torch.hann_window(n, dtype=torch.float64)
        kw = dict(nperseg=n, nstride=case["s"], window=win, scale=1.0, average=avg)
        if case["fast"]:
            out, err = attempt(fast_spectral_density, x, y=y, **kw) if y is not None else attempt(fast_spectral_density, x, **kw)
        else:
            out, err = attempt(spectral_density, x, **kw)
        ev.update(s=case["s"], rate=1, ov=[], scaled=False)
        K = 100
    else:
        rate = case["rate"]
        kw = dict(overlap=case["ov"][0] / case["ov"][1]) if case["ov"] else {}
        m = SpectralDensity(rate, n / rate, window=w, average=avg, fast=case["fast"], **kw)
        if style == 5:
            m(torch.randn(2, n + 3))  # earlier use leaves no trace
        if y is None:
            out, err = attempt(crowd, case, m, x, cap=4500 if x.ndim > 1 else 0)
        elif y.shape == x.shape or x.ndim == 3 and y.ndim == 2 and len(x) == len(y):
            out, err = attempt(crowd, case, m, x, y, cap=4500 if x.ndim > 1 else 0)
        else:
            out, err = attempt(m, x, y)
        ev.update(s=0, rate=rate, ov=case["ov"], scaled=True)
        K = 1000 * rate
    ev["err"] = err
    if not err:
        out = out / unit**2
        if y is not None:
            ev.update(qtens("out", out.real, K))
            ev["outi_d"] = quant(out.imag, K)[1]
        else:
            ev.update(qtens("out", out, K))
        ev["mutated"] = not (torch.equal(x, x0) and (y is None or torch.equal(y, y0)))
    yield ev
