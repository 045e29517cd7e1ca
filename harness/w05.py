"""W05: mass and spin conversions."""
import math

from .enc import attempt, crowd, q1, qtens

MC = ["Conversion_MC"]
TRACE = "Conversion_Trace"
NEEDS_STIM = True
U = 10000
ASSUMPTIONS = ["single precision inclinations are accurate to about 1e-3 near 0 and pi (arccosine)"]


def cases(ctx):
    rng = ctx.rng
    st = ctx.stim["Conversion_MC"]
    by_f = {f: [s for s in st if s["f"] == f] for f in (20, 40)}
    for i in range(ctx.n(60, 600)):
        f = rng.choice([20, 40])
        yield dict(rows=rng.sample(by_f[f], [1, 12, 5, 2, 30][i % 5]), dbl=i % 3 != 0, strided=rng.random() < 0.3)
    for i in range(ctx.n(40, 400)):
        f = rng.choice([10, 15, 20, 37, 50])
        n = rng.choice([1, 2, 3, 8, 16])
        rows = []
        for _ in range(n):
            d = rng.choice([360, 100, 24, 7, 500])
            hi = 137000 // f
            m1 = rng.randint(max(3, min(100, 140 // f)), 100)
            m2 = rng.randint(max(3, m1 // 10), min(100, m1 * 8, hi - m1))
            while (m1 + m2) * f < 130:
                m2 += 1
            rows.append(dict(d=d, tj=rng.randint(0, d // 2), pj=rng.randrange(d), t1=rng.choice([0, rng.randint(0, d // 2)]) if rng.random() < .3 else rng.randint(0, d // 2),
                             t2=rng.randint(0, d // 2), pp=rng.randrange(d), pr=rng.randrange(d),
                             a1=rng.choice([0, 9900, rng.randint(0, 9900)]), a2=rng.randint(0, 9900), m1=m1, m2=m2, f=f))
        yield dict(rows=rows, dbl=i % 2 == 0, strided=rng.random() < 0.3)
    for f in (0, -20):
        yield dict(rows=[dict(by_f[20][0], f=f)], dbl=True, strided=False)
    for i in range(ctx.n(24, 100)):
        n = rng.choice([1, 2, 5, 20])
        ms = []
        for _ in range(n):
            m = rng.randint(1, 150)
            k = rng.randint(max(1, -(-m // 7)), m)
            ms.append([m, k] if rng.random() < 0.5 else [k, m])
        yield dict(masses=ms, dbl=i % 2 == 0, strided=i % 4 == 3)
    for kind in ("aligned", "faceon"):
        for dbl in (True, False):
            yield dict(kind=kind, dbl=dbl, n=2500, seed=rng.randrange(1 << 20), reps=16 if kind == "aligned" else 2)


def _t(vals, dt, strided):
    import torch

    t = torch.tensor(vals, dtype=torch.float64).to(dt)
    if strided:
        t = torch.stack([t, -t], 1)[:, 0]
    return t


def _call(rows, dt, strided):
    import torch
    from ml4gw.waveforms.conversion import bilby_spins_to_lalsim

    def ang(k):
        return _t([2 * math.pi * r[k] / r["d"] for r in rows], dt, strided)

    args = [ang("tj"), ang("pj"), ang("t1"), ang("t2"), ang("pp")]
    args += [_t([r[k] / U for r in rows], dt, strided) for k in ("a1", "a2")]
    args += [_t([float(r[k]) for r in rows], dt, strided) for k in ("m1", "m2")]
    pr = ang("pr")
    before = [a.clone() for a in args + [pr]]
    f = rows[0]["f"]
    fr = f if f % 20 == 0 else float(f)
    out, err = attempt(crowd, rows, lambda *a: bilby_spins_to_lalsim(*a[:-1], fr, a[-1]), *args, pr, cap=17000 if len(rows) > 1 else 0)
    return out, err, any(not torch.equal(a, b) for a, b in zip(before, args + [pr]))


def _rows(out):
    import torch

    o = torch.stack([x.double() for x in out])
    o = torch.cat([o[:1], torch.cos(o[:1]), o[1:]]).nan_to_num(99.0, 99.0, -99.0)
    return [[q1(v * U) for v in col] for col in o.T.tolist()]


def execute(case):
    import torch

    dt = torch.float64 if case["dbl"] else torch.float32
    if "masses" in case:
        from ml4gw.waveforms.conversion import chirp_mass_and_mass_ratio_to_components as conv

        ms = case["masses"]
        mc = [(a * b) ** 0.6 / (a + b) ** 0.2 for a, b in ms]
        q = [min(a, b) / max(a, b) for a, b in ms]
        args = [_t(mc, dt, case["strided"]), _t(q, dt, case["strided"])]
        before = [a.clone() for a in args]
        out, err = attempt(crowd, case, conv, *args, cap=70000)
        ev = dict(op="masses", m=ms, mc=[q1(v * U) for v in mc], err=err, tol=2 if case["dbl"] else 30,
                  mutated=any(not torch.equal(a, b) for a, b in zip(before, args)), finite=True)
        if not err:
            ones = [conv(args[0][i:i + 1], args[1][i:i + 1]) for i in range(len(ms))]
            ev["finite"] = bool(all(torch.isfinite(x).all() for x in out))
            ev.update(qtens("m1", out[0], U), **qtens("m2", out[1], U))
            ev.update(qtens("one1", torch.cat([o[0].reshape(-1) for o in ones]), U))
            ev.update(qtens("one2", torch.cat([o[1].reshape(-1) for o in ones]), U))
        yield ev
        return
    if "rows" in case:
        rows = case["rows"]
        out, err, mut = _call(rows, dt, case["strided"])
        ev = dict(op="spins", rows=rows, err=err, mutated=mut, finite=True)
        if not err:
            ev["shapes"] = [list(torch.as_tensor(x).shape) for x in out]
            ev["finite"] = bool(all(torch.isfinite(x).all() for x in out))
            if all(s == [len(rows)] for s in ev["shapes"]):
                ev["y"] = _rows(out)
                ev["one"] = [_rows(_call([r], dt, False)[0])[0] for r in rows]
        yield ev
        return
    from ml4gw.waveforms.conversion import bilby_spins_to_lalsim

    g = torch.Generator().manual_seed(case["seed"])
    for _ in range(case["reps"]):
        n = case["n"]

        def uni(a, b):
            return (torch.rand(n, generator=g, dtype=torch.float64) * (b - a) + a).to(dt)

        m1, m2, pr, pp = uni(3, 100), uni(3, 100), uni(0, 6.28), uni(0, 6.28)
        a = [(torch.round(uni(0, 0.99) * U) / U).to(dt) for _ in range(2)]
        zero = torch.zeros(n, dtype=dt)
        if case["kind"] == "aligned":
            tj = (torch.round(uni(0, 3.14) * U) / U).to(dt)
            out, err = attempt(bilby_spins_to_lalsim, tj, uni(0, 6.28), zero, zero, pp, a[0], a[1], m1, m2, 40.0, pr)
            ev = dict(op="aligned", err=err, tj=[q1(v * U) for v in tj.tolist()], a1=[q1(v * U) for v in a[0].tolist()],
                      a2=[q1(v * U) for v in a[1].tolist()], finite=True)
            if not err:
                ev["finite"] = bool(all(torch.isfinite(x).all() for x in out))
                o = [x.double().nan_to_num(99.0, 99.0, -99.0) for x in out]
                xy = torch.stack([o[1], o[2], o[4], o[5]]).abs().amax(0)
                ev.update({k: [q1(v * U) for v in x.tolist()] for k, x in (("inc", o[0]), ("z1", o[3]), ("z2", o[6]), ("xy", xy))})
        else:
            t = [uni(0, 3.1), uni(0, 3.1)]
            base, err = attempt(bilby_spins_to_lalsim, zero, zero, t[0], t[1], pp, a[0], a[1], m1, m2, 40.0, pr)
            if not err:
                out, err = attempt(bilby_spins_to_lalsim, base[0], zero + math.pi / 2, t[0], t[1], pp, a[0], a[1], m1, m2, 40.0, pr)
            ev = dict(op="faceon", err=err, tj=[0] * n, finite=True)
            if not err:
                ev["finite"] = bool(all(torch.isfinite(x).all() for x in out))
                ev["inc"] = [q1(v * U) for v in out[0].double().nan_to_num(99.0).tolist()]
        yield ev
