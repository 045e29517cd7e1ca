"""T11: Q-transforms."""
import math

from .enc import attempt, crowd, qtens, quant

MC = ["QTransform_MC"]
TRACE = "QTransform_Trace"
NEEDS_STIM = True
LEADS = [[], [1], [2], [1, 1], [2, 1], [1, 2], [2, 2], [3, 2], [2, 3]]


def cases(ctx):
    rng = ctx.rng
    st = ctx.stim["QTransform_MC"]
    after = [s for s in st if any([g["op"] for g in s["h"][k + 1 : k + 3]] == ["refused", "interp"] and s["h"][k]["op"] in ("compute", "forward") for k in range(len(s["h"]) - 2))]
    for i, s in enumerate(rng.sample(st, min(len(st), ctx.n(60, 600))) + rng.sample(after, ctx.n(24, 150))):
        method = ["bilinear", "bicubic", "spline"][i % 3]
        cfg = dict(duration=1, rate=256, q=4) if method != "spline" else dict(duration=1, rate=512, q=rng.choice([5, 8]))
        if method != "spline" and rng.random() < 0.3:
            cfg = rng.choice([dict(duration=2, rate=256, q=8), dict(duration=0.5, rate=512, q=5), dict(duration=1.5, rate=256, q=6.5)])
        yield dict(
            kind="life", h=s["h"], method=method, **cfg,
            F=rng.choice([1, 3, 4, 7]) if method != "spline" else rng.choice([3, 6]), T=rng.choice([1, 4, 5, 6]),
            leads=rng.sample(LEADS, 3), norms=[rng.choice(["median", "mean", None, "MEDIAN"]) for _ in range(3)],
            seed=rng.randrange(1 << 20),
        )
    for i in range(ctx.n(50, 400)):
        yield dict(
            kind="scan", duration=1, rate=rng.choice([512, 512, 1024]), qrange=rng.choice([[4, 16], [4, 30], [8, 32], [4, 64], [10, 11], [4, 20]]),
            F=rng.choice([3, 4]), T=rng.choice([4, 5]), lead=rng.choice(LEADS), norm=rng.choice(["median", "mean"]),
            method=rng.choice(["bilinear", "bicubic"]), search=rng.choice([0, 1, 1]), seed=rng.randrange(1 << 20), tone=rng.random(),
            mismatch=rng.choice([0.2, 0.2, 0.1, 0.35]), frange=rng.choice([None, None, [0, 0], [45, 0], [45, 160], [0, 170]]),
        )
    for i in range(ctx.n(10, 60)):  # many planes, the loudest of which may be any of them
        yield dict(
            kind="scan", duration=1, rate=1024, qrange=rng.choice([[4, 50], [3.5, 56], [5, 40]]), F=3, T=4, lead=rng.choice([[], [1, 1], [2, 1]]), norm=rng.choice(["median", "mean"]),
            method=rng.choice(["bilinear", "bicubic", "spline"]), search=rng.choice([0, 1]), seed=rng.randrange(1 << 20), tone=i % 5 / 5, mismatch=rng.choice([0.04, 0.06]), frange=None,
        )
    for i in range(ctx.n(60, 600)):
        r = rng.choice([1, 1, 2, 3])
        b = rng.randint(3, 30)
        yield dict(kind="tile", r=r, b=b, d=rng.choice([1, 2, 0.5]), last=rng.choice([b // 2 + 1, b, b + 3, 2 * b + 4, 4 * b]), seed=rng.randrange(1 << 20), lead=rng.choice([[], [2], [1, 2]]))
    for i in range(ctx.n(25, 200)):
        yield dict(kind="image", F=rng.choice([1, 2, 5, 8, 20]), T=rng.choice([1, 3, 8, 11]), q=rng.choice([4, 5]), seed=rng.randrange(1 << 20), f32=rng.randrange(2))
    for i in range(ctx.n(18, 120)):
        yield dict(kind="tone", method=["bilinear", "bicubic", "spline"][i % 3], F=rng.choice([17, 24, 40]), T=rng.choice([16, 25, 40]), q=rng.choice([8, 12, 16]),
                   f=rng.random(), at=rng.randint(250, 750), duration=rng.choice([1, 1, 2]), seed=rng.randrange(1 << 20))
    for i, T in enumerate([49, 98] if not ctx.thorough else [47, 49, 98, 103, 107]):
        h = [dict(op="forward", k=1, dim=""), dict(op="interp", k=0, dim="")]
        yield dict(kind="life", h=h, method="spline", duration=rng.choice([1, 2]), rate=512, q=5, F=3, T=T, leads=[[]] * 3, norms=["median"] * 3, seed=i)
    for i in range(ctx.n(40, 300)):
        c = dict(kind="freqs", duration=rng.choice([1, 2, 4, 0.5]), rate=rng.choice([1024, 2048]), q=rng.choice([4, 5.7, 8, 12, 20.5]), mismatch=rng.choice([0.05, 0.2, 0.35]),
                 frange=rng.choice([None, [0, 0], [40, 0], [0, 300], [60, 200]]))
        if c["frange"] != [0, 300] or 50 * c["q"] / (2 * math.pi * c["duration"]) < 200:
            yield c
    for i in range(8):
        yield dict(kind="refuse", what=i)


def data(lead, n, g, torch):
    x = torch.randn(*lead, n, generator=g)
    t = torch.arange(n) / n
    f = 20 + 80 * torch.rand(*lead, 1, generator=g)
    c = torch.rand(*lead, 1, generator=g)
    return x + 6 * torch.sin(2 * math.pi * f * t) * torch.exp(-((t - c) ** 2) / 0.02)


def alone(m, x, norm):
    """What each series of x gets on its own (images and maxima per row)."""
    outs, emax = [], []
    for s in x.reshape(-1, x.shape[-1]):
        m.compute_qtiles(s, norm)
        emax.append([quant(q.max(), 1000)[1][0] for q in m.qtiles])
        outs.append(quant(m.interpolate(), 1000)[1])
    return outs, emax


def execute(case):
    import warnings

    import torch
    from ml4gw.transforms import QScan, SingleQTransform
    from ml4gw.transforms.qtransform import QTile

    warnings.simplefilter("ignore")
    torch.set_grad_enabled(False)
    kind = case["kind"]
    if kind == "refuse":
        x = torch.randn(2, 256)
        one = SingleQTransform(1, 256, (4, 4), 4)
        big = (math.pi * 256 / 50) - math.sqrt(11)
        calls = [
            lambda: QTile(4, 40, 1, 256, 0.2)(torch.randn(1, 1, 2, 129, dtype=torch.complex64), "median"),
            lambda: QTile(4, 40, 1, 256, 0.2)(torch.randn(2, 129, dtype=torch.complex64), "mode"),
            lambda: SingleQTransform(1, 256, (4, 4), big + 0.01),
            lambda: SingleQTransform(1, 256, (4, 4), 4 * big),
            lambda: SingleQTransform(1, 256, (4, 4), 4, interpolation_method="nearest"),
            lambda: (one.compute_qtiles(x), one.get_max_energy(dimension="all")),
            lambda: one(x, "max"),
            lambda: one(torch.randn(1, 2, 2, 256)),
        ]
        _, err = attempt(calls[case["what"]])
        yield dict(op="refuse", err=err)
        return
    if kind == "freqs":
        fr = case["frange"]
        if fr is not None:
            fr = [fr[0], fr[1] or torch.inf]
        d, q, rate = case["duration"], case["q"], case["rate"]
        m, err = attempt(SingleQTransform, d, rate, (4, 4), q, fr and list(fr), case["mismatch"])
        ev = dict(op="freqs", err=err)
        if not err:
            lo = fr[0] if fr and fr[0] else 50 * q / (2 * math.pi * d)
            hi = fr[1] if fr and fr[1] != torch.inf else rate / 2 / (1 + math.sqrt(11) / q)
            ev.update(f=quant(m.freqs * d, 1000)[1], lo=int(lo * d * 1000), hi=int(hi * d * 1000) + 1)
            yield ev
        return
    g = torch.Generator().manual_seed(case["seed"])
    if kind == "tile":
        r, b, d, last = case["r"], case["b"], case["d"], case["last"]
        rate = 2 * last / d
        f = b / d
        q, err = attempt(QTile, r * math.sqrt(11), f, d, rate, 0.12)
        ev = dict(op="tile", r=r, b=b, f=0, err=err)
        if not err:
            lead = case["lead"]
            re = torch.randint(-9, 10, (*lead, last + 1), generator=g)
            im = torch.randint(-9, 10, (*lead, last + 1), generator=g)
            z = torch.complex(re.double(), im.double())
            out = {}
            for name, norm in (("e", None), ("mean", "mean"), ("median", "median")):
                # normalised energies do not depend on the scale of the data
                out[name], err = attempt(q, z * 2.0 ** (norm and [0, -70, 40][case["seed"] % 3] or 0), norm)
                ev["err"] = ev["err"] or err
            if not ev["err"]:
                k = (-1, -1)
                ev.update(re=re.reshape(-1, last + 1)[-1].tolist(), im=im.reshape(-1, last + 1)[-1].tolist())
                # units: frequency in 1 / d, energies 900 (d rate)^2 / d
                ev["f"] = b
                ev["e"] = quant(out["e"][k], 900 * (d * rate) ** 2 / d)[1]
                ev["mean"] = quant(out["mean"][k], 1000)[1]
                ev["median"] = quant(out["median"][k], 1000)[1]
        yield ev
        return
    if kind == "image":
        m = SingleQTransform(1, 256, (case["F"], case["T"]), case["q"], interpolation_method="bilinear")
        x = data([2], 256, g, torch)
        m.compute_qtiles(x, "mean")
        y, err = attempt(m.interpolate)
        ev = dict(op="image", F=case["F"], T=case["T"], err=err)
        if not err:
            ev["rows"] = [quant(t[0, 1], 1000)[1] for t in m.qtiles]
            ev["y_d"] = quant(y[1], 1000)[1]
        yield ev
        return
    if kind == "tone":
        d = case["duration"]
        m = SingleQTransform(d, 1024, (case["F"], case["T"]), case["q"], interpolation_method=case["method"])
        t = torch.arange(1024 * d) / 1024
        k = int(1 + case["f"] * (len(m.freqs) - 2))
        f = float(m.freqs[k])
        wide = max(6 / f, d / case["T"])  # bins sample the tiles: long enough to be seen
        x = torch.sin(2 * math.pi * f * t) * torch.exp(-(((t - case["at"] * d / 1000) / wide) ** 2))
        x = torch.stack([x, torch.zeros_like(t)]) + 0.01 * torch.randn(2, len(t), generator=g)
        y, err = attempt(m, x, None)
        ev = dict(op="tone", err=err)
        if not err:
            y = y[0] / y[0].max()
            ev["rows"] = quant(y.max(-1)[0], 10000)[1]
            ev["cols"] = quant(y.max(-2)[0], 10000)[1]
            top = max(float(q[0, 0].max()) for q in m.qtiles)
            ev["tiles"] = [quant(q[0, 0].max() / top, 10000)[1][0] for q in m.qtiles]
            ev["at"] = case["at"]
        yield ev
        return
    if kind == "scan":
        F, T = case["F"], case["T"]
        fr = case.get("frange")
        fr = fr and [fr[0], fr[1] or torch.inf]
        fr0 = fr and list(fr)
        m = QScan(case["duration"], case["rate"], (F, T), list(case["qrange"]), fr, case["method"], case["mismatch"])
        n = int(case["duration"] * case["rate"])
        max_q = math.pi * case["duration"] * case["rate"] / 50 - math.sqrt(11)
        yield dict(op="planes", err="", qs=quant(torch.tensor(m.qs), 1000)[1], lo=case["qrange"][0] * 1000, hi=case["qrange"][1] * 1000, argmod=fr != fr0, used=len(m.q_transforms), maxq=int(max_q * 1000))
        x = data(case["lead"], n, g, torch) * 0.5
        t = torch.arange(n) / n
        x = x + 8 * torch.sin(2 * math.pi * (40 + case["rate"] * 0.25 * case["tone"]) * t) * torch.exp(-((t - 0.5) ** 2) / (10 ** (-1 - 3 * case["tone"])))
        planes = []
        for q in m.qs:
            if q < max_q:
                p = SingleQTransform(case["duration"], case["rate"], (F, T), q, fr0 and list(fr0), case["mismatch"], case["method"])
                outs, emax = alone(p, x, case["norm"])
                planes.append(dict(freqs=quant(p.freqs, 1000)[1], outs=outs, emax=emax))
        lo, hi = -1, 10**6
        search = None
        if case["search"]:
            lo = (60 + case["seed"] % 50) * 1000 + 500
            hi = lo + (20 + case["seed"] % 90) * 1000
            search = [lo / 1000, hi / 1000]
        x0 = x.clone()
        attempt(m, x.flip(-1) * 2)
        y, err = attempt(crowd, case, lambda v: m(v, search, case["norm"]), x, cap=160 if case["lead"] else 0)
        ev = dict(op="scan", err=err, planes=planes, lead=case["lead"], F=F, T=T, lo=lo, hi=hi)
        if not err:
            ev["mutated"] = not torch.equal(x, x0)
            ev.update(qtens("y", y, 1000))
        yield ev
        return

    fr = [0, torch.inf]
    args = (case["duration"], case["rate"], (case["F"], case["T"]), case["q"], fr, 0.2, case["method"])
    m, err = attempt(SingleQTransform, *args)
    ev = dict(op="new", err=err, F=case["F"], T=case["T"], argmod=fr != [0, torch.inf])
    if err:
        yield ev
        return
    n = int(case["duration"] * case["rate"])
    ev["freqs"] = quant(m.freqs, 1000)[1]
    ref = SingleQTransform(*args[:4], None, 0.2, case["method"])
    xs, ev["sets"] = [], []
    for lead, norm in zip(case["leads"], case["norms"]):
        x = data(lead, n, g, torch)
        if norm is None:
            x = x * 30
        xs.append(x)
        outs, emax = alone(ref, x, norm)
        ev["sets"].append(dict(lead=lead, outs=outs, emax=emax))
    yield ev
    fs = m.freqs.tolist()
    for i, h in enumerate(case["h"]):
        op = h["op"]
        ev = dict(op=op)
        if op in ("compute", "forward"):
            x, norm = xs[h["k"] - 1], case["norms"][h["k"] - 1]
            x0 = x.clone()
            if op == "compute":
                y, ev["err"] = attempt(m.compute_qtiles, x, norm)
            else:
                y, ev["err"] = attempt(crowd, dict(h, s=case["seed"]), lambda v: m(v, norm), x, cap=160 if x.ndim > 1 and i == len(case["h"]) - 1 else 0, every=3)
            ev["k"], ev["mutated"] = h["k"], not torch.equal(x, x0)
            if op == "forward" and not ev["err"]:
                ev.update(qtens("y", y, 1000))
            yield ev
        elif op == "refused":
            k = (case["seed"] + i) % 4
            x = torch.randn(*[(1, 2, 2, n), (n,), (2, 3, n), (2, n // 3)][k], generator=g)
            x0 = x.clone()
            _, ev["err"] = attempt(m.compute_qtiles if case["seed"] % 2 else m, x, "max" if k in (1, 2) else "median")
            ev["mutated"] = not torch.equal(x, x0)
            yield ev
        elif op == "interp":
            y, ev["err"] = attempt(m.interpolate)
            if not ev["err"]:
                ev.update(qtens("y", y, 1000))
            yield ev
        else:
            edges = [fs[0] - 1, fs[0], (fs[0] + fs[-1]) / 2, fs[len(fs) // 2], fs[-1] - 0.5, fs[-1], fs[-1] + 50]
            k = (case["seed"] + i) % 7
            pick = sorted([edges[k], edges[(k + 1 + case["seed"] // 7 % 6) % 7]])
            for search in (None, pick):
                v = dict(op="energy", dim=h["dim"] if case["seed"] % 29 else "time", lo=-1, hi=10**8)
                if search:
                    v["lo"], v["hi"] = round(search[0] * 1000), round(search[1] * 1000)
                y, v["err"] = attempt(m.get_max_energy, search, v["dim"])
                if not v["err"]:
                    v.update(qtens("y", y, 1000))
                yield v
