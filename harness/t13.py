"""T13: recursive filters."""
from .enc import attempt, crowd, q1, qtens, quant

MC = ["Iir_MC"]
TRACE = "Iir_Trace"
NEEDS_STIM = True
EPS = {"cheby1": [[1, 4], [1, 2], [1, 1], [1, 10]], "cheby2": [[1, 9], [1, 3], [1, 99]]}


def cases(ctx):
    for c in base_cases(ctx):
        # data on any scale, strain's included; powers of two are exact
        c["ex"] = ctx.rng.choice([0, 0, -70, 30])
        yield c


def base_cases(ctx):
    rng = ctx.rng
    st = ctx.stim["Iir_MC"]
    for s in rng.sample(st, min(len(st), ctx.n(150, 1500))):
        d = s["d"]
        band = d["kind"] in ("band", "stop")
        if band:
            d["N"] = min(d["N"], 2)
        q = rng.choice([8, 10, 12, 16, 20])
        p = rng.randint(2, q - 2)
        w = [p, q]
        if band:
            lo = rng.randint(1, q // 2)
            w = [lo, q, rng.randint(lo + max(2, q // 4), q - 1), q]
        calls = []
        for h in s["h"]:
            sh = rng.choice([[], [1], [2], [3], [1, 1], [2, 2], [2, 1, 2]])
            calls.append(dict(kind=h, sh=sh, n=rng.choice([1, 2, 3, 5, 12, 25, 40]), same=rng.random() < 0.4))
        yield dict(d=d, w=w, eps=rng.choice(EPS.get(d["ft"], [[1, 4]])), fs=rng.choice([0, 0, 2, 64, 2048, 100.0]),
                   form=rng.randrange(3), calls=calls, seed=rng.randrange(1 << 20), single=rng.random() < 0.2 and d["N"] <= 2)
    for i in range(ctx.n(24, 200)):
        d = dict(ft=["butter", "cheby1", "cheby2"][i % 3], N=rng.choice([1, 2, 4, 6, 7, 8, 10]) if i % 2 else rng.choice([6, 8, 10]), kind=rng.choice(["low", "high"]))
        q = rng.choice([20, 100, 250, 500])
        yield dict(d=d, w=[rng.randint(1, 4), q], eps=rng.choice(EPS.get(d["ft"], [[1, 4]])), fs=rng.choice([0, 2048, 8192]), form=rng.randrange(2), calls=[], seed=i, single=False,
                   steady=[rng.randrange(2) for _ in range(2)])
    for i in range(ctx.n(8, 60)):
        # slow filters on long series
        d = dict(ft="butter", N=rng.randint(1, 3), kind=rng.choice(["low", "low", "high"]))
        yield dict(d=d, w=[1, rng.choice([500, 1500, 3000])], eps=[1, 4], fs=0, form=i % 2, calls=[], seed=i, single=False, far=rng.choice([50000, 70001, 100000]))


def split(c):
    """Thousandths, millionths and billionths of each coefficient."""
    out = []
    for v in c:
        m, g = int(round(abs(v) * 1e9)), 1 if v >= 0 else -1
        out.append([g * (m // 10**6), g * (m // 1000 % 1000), g * (m % 1000)])
    return out


def execute(case):
    """Everything done to a filter, between two answers to one probe."""
    import torch
    from ml4gw.transforms import IIRFilter

    made = []

    def make(*args, **kw):
        m = IIRFilter(*args, **kw)
        probe = torch.zeros(2, 400, dtype=torch.float64)
        probe[0, 200:] = 1
        probe[1] = torch.arange(400) % 7 - 3.0
        made[:] = [m, probe, attempt(m, probe)]
        return m

    for ev in drive(case, make):
        yield ev
        if made and ev["op"] != "new" and not case["single"]:
            # requests of another kind may be refused, but leave nothing behind
            m, probe, (first, e1) = made
            for stray in (probe.float(), probe.float()[0], probe[0, :0], probe.long(), probe * 1j):
                attempt(m, stray)
            y, e2 = attempt(m, probe)
            diff = 0.0 if e1 or e2 else float((y - first).abs().max() / first.abs().max())
            yield dict(op="again", err=e1 or e2, change=q1(diff * 1e9))


def drive(case, make):
    import math
    import random

    import numpy as np
    import torch
    from scipy.signal import iirfilter

    rng = random.Random(case["seed"])
    d, w, eps = case["d"], case["w"], case["eps"]
    e = eps[0] / eps[1]
    rp = 10 * math.log10(1 + e) if d["ft"] in ("cheby1", "ellip") else None
    rs = 10 * math.log10(1 + 1 / e) if d["ft"] == "cheby2" else 30 if d["ft"] == "ellip" else None
    half = case["fs"] / 2 if case["fs"] else 1
    Wn = [half * w[i] / w[i + 1] for i in range(0, len(w), 2)]
    Wn = Wn if len(Wn) > 1 else Wn[0]
    btype = {"low": "low", "high": "high", "band": "band", "stop": "bandstop"}[d["kind"]]
    kw = dict(ftype=d["ft"], fs=case["fs"] or None)
    b, a = iirfilter(d["N"], Wn, rp=rp, rs=rs, btype=btype, output="ba", **kw)
    slow = max([0.0] + [abs(p) for p in np.roots(a)])  # has the answer to an impulse decayed within 100 samples?
    t = lambda v: torch.tensor(v, dtype=torch.float64)  # noqa: E731
    if case["form"]:
        Wn = t(Wn)
        if case["form"] == 2:
            rp, rs = (None if v is None else t(v) for v in (rp, rs))
    if not (btype == "band" and case["form"] == 1):
        kw["btype"] = btype
    m, err = attempt(lambda: make(d["N"], Wn, rs=rs, rp=rp, **kw))
    if case.get("steady"):
        yield dict(op="new", ft=d["ft"], N=d["N"], kind=d["kind"], band=w, eps=eps, b=[], a=[], acc=200, err=err)
        for k in case["steady"] if not err else []:
            n = 60 * w[1] // w[0]
            x = torch.ones(2, n, dtype=torch.float64)
            x[:, 1::2] = 1 - 2 * k
            y, err = attempt(m, x)
            at = sorted(rng.randrange(n // 2 - 40, n // 2 + 40) for _ in range(8))
            y = torch.zeros(2, n) if err else y
            yield dict(op="steady", k=k, at=at, y=[q1(float(y[1, i]) * 1000) for i in at], finite=bool(torch.isfinite(y).all() and y.abs().max() < 100), err=err)
        return
    if case.get("far"):
        yield dict(op="new", ft=d["ft"], N=d["N"], kind=d["kind"], band=w, eps=eps, b=[], a=[], acc=200, err=err)
        if err:
            return
        n, rows = case["far"], 8
        at = [int(n * (0.38 + 0.24 * (r + rng.random()) / rows)) for r in range(rows)]
        x = torch.zeros(rows, n, dtype=torch.float64)
        for r, p in enumerate(at):
            x[r, p] = 1
        y, err = attempt(m, x)
        for r, p in enumerate(at):
            ks = [1] + [rng.randint(1, 3 * w[1]) for _ in range(9)]
            pair = lambda i: [] if err else [q1(float(y[r, p + i * k]) * w[1] * 100000) for k in ks]  # noqa: E731, B023
            yield dict(op="far", err=err, left=pair(-1), right=pair(1), sum=0 if err else q1(float(y[r].sum()) * 1000))
        return
    yield dict(op="new", ft=d["ft"], N=d["N"], kind=d["kind"], band=w, eps=eps, b=split(b), a=split(a), acc=200, err=err)
    if err:
        return
    dtype = torch.float64
    if case["single"]:
        m, dtype = m.float(), torch.float32
    last = None
    for c in case["calls"]:
        kind = c["kind"]
        s = 1000000
        ev = {}
        if kind == "impulse" and d["ft"] not in ("ellip", "bessel") and slow < 0.9:
            n, K, s = 201, 40, 10000
            x = torch.zeros(c["sh"] + [n], dtype=dtype)
            x[..., n // 2] = 1
            ev.update(K=K, ks=sorted(rng.sample(range(K + 1), 9)))
        elif kind == "linear":
            x = t([rng.randint(-20, 20) for _ in range(3 * c["n"])]).reshape(3, c["n"]).to(dtype)
            x[2] = x[0] + 2 * x[1]
        else:
            kind = "rows"
            size = math.prod(c["sh"] + [c["n"]])
            x = t([rng.randint(-20, 20) for _ in range(size)]).reshape(c["sh"] + [c["n"]]).to(dtype)
            if c["kind"] == "big":
                s = 10000
                x = x * 100
            if c["same"] and last is not None:
                x, s = last
        if rng.random() < 0.3 and x.dim() > 1:
            x = x.transpose(0, -1).contiguous().transpose(0, -1)
        x0 = x.clone()
        unit = 2.0 ** case["ex"]
        x = x * unit
        xc = x.clone()
        y, err = attempt(crowd, dict(c, s=case["seed"]), m, x, cap=1200 if x.dim() > 1 else 0)
        ev.update(op=kind, s=s, err=err, mutated=not torch.equal(x, xc), **qtens("x", x0, s))
        if not err:
            y = y / unit
            if kind == "impulse":
                y = y.reshape(-1, 201)[0 if y.dim() == 1 else rng.randrange(y.numel() // 201)]
                ev.update(**qtens("x", x0.reshape(-1, 201)[0], s))
            ev.update(qtens("y", y, s))
            if kind == "linear":
                ev["alone"] = [v for r in x0 for v in quant(m(r * unit) / unit, s)[1]]
        if kind == "rows":
            last = (x0, s)
        yield ev
