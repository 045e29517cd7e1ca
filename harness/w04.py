"""W04: ad-hoc waveforms."""
import math

from .enc import attempt, crowd, qtens

MC = ["Adhoc_MC"]
TRACE = "Adhoc_Trace"
NEEDS_STIM = True
ASSUMPTIONS = ["durations whose product with the sample rate is a whole number are multiples of a power of two of a second, so that the product is exact"]


def _row(rng, fs, base=None):
    fmax = fs // 2
    while True:
        f = rng.randint(1, min(fmax, 600))
        if 16 * fs // math.gcd(f, 2 * fs) <= 2000:
            break
    qd = rng.choice([1, 2, 4])
    qn = rng.choice([2 * qd, 3 * qd, rng.randint(2 * qd, 30 * qd), rng.randint(2 * qd, 120 * qd)])
    ed = rng.choice([1, 2, 5, 10])
    dist = rng.choice([1, 10, rng.randint(1, 60)])
    ne = rng.randint(1, 10)
    w = max(1, (f * dist * 1000) // ne)
    return dict(f=f, qn=qn, qd=qd, p=rng.randrange(8), en=rng.randint(0, ed), ed=ed, hn=rng.randint(1, 40), i=rng.randint(0, 15), ne=ne, dist=dist, w=w)


def cases(ctx):
    rng = ctx.rng
    st = ctx.stim["Adhoc_MC"]
    grids = {}
    for s in st:
        grids.setdefault(str(sorted(s["g"].items())), []).append(s)
    for i in range(ctx.n(60, 500)):
        group = grids[rng.choice(sorted(grids))]
        kind = ["sg", "rd"][i % 2]
        if kind == "rd":
            group = [s for s in group if s["r"]["qn"] >= 2 * s["r"]["qd"]]
        batches = [[s["r"] for s in rng.sample(group, min(len(group), n))] for n in rng.sample([1, 2, 3, 6], 2)]
        yield dict(kind=kind, g=group[0]["g"], batches=batches, dbl=i % 3 == 0, tiny=rng.random() < 0.5, strided=rng.random() < 0.3, intarg=rng.random() < 0.5)
    for i in range(ctx.n(40, 400)):
        kind = ["sg", "rd"][i % 2]
        while True:
            fs = rng.choice([64, 100, 125, 256, 512, 1024, 2048, 4096, 90, 37])
            dd = rng.choice([1, 2, 4, 16, 64])
            dn = rng.randint(1, 2 * dd)
            if (dn * fs) % dd == 0 and dn * fs // dd <= (1100 if ctx.thorough else 500):
                break
        batches = [[_row(rng, fs) for _ in range(n)] for n in rng.choice([[1], [4], [2, 1], [3, 3]])]
        yield dict(kind=kind, g=dict(fs=fs, dn=dn, dd=dd), batches=batches, dbl=i % 3 == 0, tiny=rng.random() < 0.7, strided=rng.random() < 0.3, intarg=rng.random() < 0.5)
    for i in range(ctx.n(16, 60)):
        while True:
            fs = rng.choice([2048, 1024, 333, 100, 50])
            dn, dd = rng.randint(1, 40), rng.choice([10, 7, 3])
            if 1 <= 10 * (dn * fs % dd) / dd <= 9 and dn * fs >= dd:
                break
        yield dict(length=["sg", "rd"][i % 2], g=dict(fs=fs, dn=dn, dd=dd), b=rng.choice([1, 3]), rows=[_row(rng, 64) for _ in range(3)])


def _make(kind, g, intarg):
    from ml4gw.waveforms import Ringdown, SineGaussian

    cls = {"sg": SineGaussian, "rd": Ringdown}[kind]
    dur = g["dn"] / g["dd"]
    if intarg and g["dn"] % g["dd"] == 0:
        dur = g["dn"] // g["dd"]
    return cls(g["fs"] if intarg else float(g["fs"]), dur)


def _args(kind, rows, dt, tiny, strided):
    import torch

    def t(vals):
        x = torch.tensor(vals, dtype=torch.float64).to(dt)
        return torch.stack([x, -x], 1)[:, 0] if strided else x

    f = t([float(r["f"]) for r in rows])
    q = t([r["qn"] / r["qd"] for r in rows])
    p = t([r["p"] * math.pi / 4 for r in rows])
    if kind == "sg":
        unit = 1e-21 if tiny else 1.0
        return [q, f, t([r["hn"] * unit for r in rows]), p, t([r["en"] / r["ed"] for r in rows])], [2000 / unit] * len(rows)
    return ([f, q, t([r["ne"] / 100 for r in rows]), p, t([r["i"] * math.pi / 8 for r in rows]), t([float(r["dist"]) for r in rows])],
            [1e18 * r["w"] for r in rows])


def execute(case):
    import torch

    if "length" in case:
        g, b = case["g"], case["b"]
        gen, err = attempt(_make, case["length"], g, False)
        ev = dict(op="length", kind=case["length"], b=b, **g)
        if not err:
            args, _ = _args(case["length"], case["rows"][:b], torch.float32, False, False)
            out, err = attempt(gen, *args)
        if not err:
            ev.update(c_sh=list(out[0].shape), p_sh=list(out[1].shape), finite=bool(all(torch.isfinite(x).all() for x in out)))
        yield dict(ev, err=err)
        return
    kind, g = case["kind"], case["g"]
    dt = torch.float64 if case["dbl"] else torch.float32
    # ints do not hold w times 10^18 in single precision: scaling is in double
    gen, err = attempt(_make, kind, g, case["intarg"])
    if err:
        yield dict(op=kind, rows=case["batches"][0], err=err, **g)
        return
    for rows in case["batches"]:
        args, scale = _args(kind, rows, dt, case["tiny"], case["strided"])
        before = [a.clone() for a in args]
        out, err = attempt(crowd, case, gen, *args, cap=2200)
        ev = dict(op=kind, rows=rows, err=err, tol=30, mutated=any(not torch.equal(a, b) for a, b in zip(before, args)), **g)
        if not err:
            s = torch.tensor(scale, dtype=torch.float64)[:, None]

            def enc(key, x):
                x = x.detach().double()
                return qtens(key, x * s if x.dim() == 2 and len(x) == len(s) else x, 1)

            ev.update(enc("c", out[0]))
            ev.update(enc("p", out[1]))
            one = [gen(*[a[i:i + 1] for a in args]) for i in range(len(rows))]
            ev.update(enc("c1", torch.cat([o[0] for o in one])))
            ev.update(enc("p1", torch.cat([o[1] for o in one])))
        yield ev
