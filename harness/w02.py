"""W02: time domain generator."""
import math
import random

from .enc import attempt, q1

MC = ["Generator_MC"]
TRACE = "Generator_Trace"
NEEDS_STIM = True
ASSUMPTIONS = [
    "the part after the coalescence fits into right_pad (a margin of 100 M or more for real approximants)",
    "durations and margins whose product with the sample rate is a whole number are multiples of a power of two of a second",
]
# total mass for an inspiral of about so many units
MASSES = {0: (250, 400), 1: (120, 240), 2: (90, 120), 3: (60, 90), 4: (55, 65), 5: (50, 60), 6: (36, 60), 7: (30, 40)}


def _dyadic(x, sr):
    """Multiple of 1/64 s near x whose product with sr is whole or clearly not."""
    n = max(1, round(x * 64))
    return n, 64


def cases(ctx):
    rng = ctx.rng
    st = [s for s in ctx.stim["Generator_MC"]]
    for s in rng.sample(st, min(len(st), ctx.n(120, 900))):
        sr = rng.choice([256, 300, 333, 500, 512, 777, 1000, 1024, 1700, 2048])
        fn, fd = rng.choice([(sr // 24, 1), (sr // 17, 1), (sr // 30, 1), (2 * (sr // 40) + 1, 2)])
        unit = 3 * fd / fn / s["e"]
        pn, pd = _dyadic(s["rp"] * unit, sr)
        while abs(2 * pn * sr % (2 * pd) - pd) < 2 and sr * pn % pd:  # no ties
            pn += 1
        dn, dd = _dyadic(s["S"] * unit, sr)
        if dn * sr // dd < 80:
            dn = 80 * dd // sr + 1
        batches = []
        for k in range(rng.choice([1, 1, 2])):
            rows = []
            for a in s["a"] + ([rng.choice(s["a"])] if rng.random() < 0.4 else []):
                lo, hi = MASSES[a]
                M = rng.randint(lo * 1000, hi * 1000) * sr // (24 * 20)  # the scale of fmin = 20
                M = max(4000, M * 20 * fd * 24 // (fn * 24))
                q = rng.choice([500, 500, rng.randint(100, 500)])
                rows.append(dict(m1=M - M * q // 1000, m2=M * q // 1000, s1=rng.choice([0, 0, rng.randint(-99, 99)]), s2=rng.choice([0, rng.randint(-99, 99)])))
            batches.append(dict(rows=rows, what=["packet", "packet", "tone"][rng.randrange(3)], seed=rng.randrange(1 << 20)))
        yield dict(kind="known", sr=sr, fn=fn, fd=fd, pn=pn, pd=pd, dn=dn, dd=dd, fref=rng.choice([20, 40, 55]), batches=batches,
                   dbl=rng.random() < 0.5, cdbl=rng.random() < 0.5, intarg=rng.random() < 0.5)
    for i in range(ctx.n(12, 60)):
        sr = rng.choice([1024, 2048, 1000, 1025] + ([4096, 8192, 16384] if ctx.thorough else [4096]))
        f = rng.choice([20, 25, 30, 15])
        if i % 6 < 2:  # low cutoffs compared with the rate
            sr, f = [(4096, 15), (8192, 20)][i % 6]
        pn, pd = rng.choice([(1, 4), (1, 2), (5, 8), (1, 1), (2, 1), (3, 8), (3, 1)])
        dn, dd = rng.choice([(4, 1), (8, 1), (2, 1), (5, 2), (33, 8)])
        if 2 * pn * dd > dn * pd:
            dn, dd = 8, 1
        rows = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            M = rng.randint(80000000 // sr, max(81000000 // sr, min(220000, 500000 * pn // pd)))
            q = rng.choice([500, rng.randint(200, 500)])
            rows.append(dict(m1=M - M * q // 1000, m2=M * q // 1000, s1=rng.randint(-85, 85), s2=rng.randint(-85, 85), d=rng.randint(100, 900),
                             inc=rng.randint(0, 60), ph=rng.randint(0, 628)))
        yield dict(kind="real", model=["IMRPhenomD", "IMRPhenomPv2"][i % 2], sr=sr, fn=f, fd=1, pn=pn, pd=pd, dn=dn, dd=dd, fref=20, rows=rows,
                   seed=rng.randrange(1 << 20), dbl=i % 3 > 0, intarg=rng.random() < 0.5)


def _generator(case, approximant):
    from ml4gw.waveforms.generator import TimeDomainCBCWaveformGenerator

    c = case
    num = lambda n, d: n // d if c["intarg"] and n % d == 0 else n / d  # noqa: E731
    return TimeDomainCBCWaveformGenerator(approximant, num(c["sr"], 1), num(c["dn"], c["dd"]), num(c["fn"], c["fd"]), num(c["fref"], 1), num(c["pn"], c["pd"]))


def _begin(case, approximant):
    g, err = attempt(_generator, case, approximant)
    c = case
    size, e2 = attempt(lambda: int(g.size)) if not err else (0, err)
    return g, dict(op="begin", sr=c["sr"], fn=c["fn"], fd=c["fd"], pn=c["pn"], pd=c["pd"], dn=c["dn"], dd=c["dd"], fref=c["fref"], size=size, err=err or e2)


def _enc(params):
    return [[k, [q1(float(x) * 1000) for x in v]] for k, v in sorted(params.items())]


def _known(case):
    import torch

    f = {}  # of the batch under way

    def approximant(freqs, f_ref=None, **params):
        f["times"] = f.get("times", 0) + 1
        f["f"], f["f_ref"], f["seen"] = freqs.detach().clone(), f_ref, _enc(params)
        rng = random.Random(f["seed"])
        B = len(params["mass_1"])
        nf = len(freqs)
        W = 1 << math.ceil(math.log2(2 * (nf - 1)))
        sr = case["sr"]
        S, rp = sr * case["dn"] // case["dd"], (2 * sr * case["pn"] + case["pd"]) // (2 * case["pd"])
        k0 = W // 2 + 1 - nf
        out = []
        f["rows"] = []
        ctype = torch.complex128 if case["cdbl"] else torch.complex64
        x = freqs.double()
        for pol in range(2):
            h = torch.zeros(B, nf, dtype=torch.complex128)
            for b in range(B):
                A = rng.choice([1, 2, 3, -1, 5])
                if f["what"] == "packet":
                    M = f["M"][b]
                    ne = max(4, round(sr * M / 2393500))
                    lo, hi = -(W - rp), rp - 1
                    if W > S:  # not where the answer is cut off
                        lo = max(lo, -(S - rp)) + 60
                    if ne < 16:
                        hi -= 16
                    tau = rng.choice([rng.randint(lo, hi) if lo <= hi else 0, 0, hi - rng.randint(0, min(2 * ne, rp)), lo + rng.randint(0, 40), rng.randint(-30, 30)])
                    tau = max(lo, min(hi, tau)) if lo <= hi else 0
                    ph = rng.randrange(4)
                    bell = torch.where((x > sr / 8) & (x < 3 * sr / 8), torch.cos(math.pi * (x - sr / 4) / (sr / 4)) ** 2, torch.zeros_like(x))
                    h[b] = A * 4 / sr * bell * torch.exp(-2j * math.pi * x * (tau / sr)) * 1j**ph
                    f["rows"].append(dict(pol=pol, b=b, A=A, tau=tau, ph=ph, M=M, lo=lo <= hi))
                else:
                    fmin = case["fn"] / case["fd"]
                    tau = (max(0, S - W) + S) // 2 - (S - rp)
                    want = rng.choice([0.15, 0.3, 0.5, 0.7, 1.0, 1.3, 1.6, 2.0, 4.0, 6.0]) * fmin
                    k = int(torch.argmin((x - want).abs()))
                    k = min(max(k, 3), nf - 4)
                    if want < x[0]:
                        h[b, :] = 0
                        f["rows"].append(dict(pol=pol, b=b, A=A, f=float(want), scale=1.0, tau=tau))
                    else:
                        df = sr / W
                        w = torch.tensor([0.25, 0.75, 1.0, 0.75, 0.25], dtype=torch.float64)
                        h[b, k - 2 : k + 3] = A * w / (2 * df * w.sum()) * torch.exp(-2j * math.pi * x[k - 2 : k + 3] * (tau / sr))
                        edge = (2 if want <= 0.5 * fmin else -2) * df
                        f["rows"].append(dict(pol=pol, b=b, A=A, f=float(x[k]) + edge, scale=float(A), tau=tau))
            out.append(h.to(ctype))
        f["spec"] = [o.clone() for o in out]
        return tuple(out)

    g, ev = _begin(case, approximant)
    yield ev
    if ev["err"]:
        return
    dt = torch.float64 if case["dbl"] else torch.float32
    sr = case["sr"]
    S, rp = sr * case["dn"] // case["dd"], (2 * sr * case["pn"] + case["pd"]) // (2 * case["pd"])
    for batch in case["batches"]:
        rows = batch["rows"]
        f.clear()
        f.update(seed=batch["seed"], what=batch["what"], M=[r["m1"] + r["m2"] for r in rows])
        t = lambda key, s: torch.tensor([r[key] / s for r in rows], dtype=dt)  # noqa: E731
        p = dict(mass_1=t("m1", 1000), mass_2=t("m2", 1000), s1z=t("s1", 100), s2z=t("s2", 100), tag=torch.arange(len(rows)).to(dt))
        p0 = {k: v.clone() for k, v in p.items()}
        out, err = attempt(g, **p)
        fr = f.get("f", torch.zeros(2))
        ks = sorted({0, 1, len(fr) - 1} | {random.Random(batch["seed"] + 1).randrange(len(fr)) for _ in range(12)})
        yield dict(op="request", err=err, m=[[r["m1"], r["m2"]] for r in rows], times=f.get("times", 0), nf=len(fr), ks=ks, fs=[q1(float(fr[k]) * 1e4) for k in ks],
                   fref=q1(float(f.get("f_ref") or 0)), seen=f.get("seen", []), given=_enc(p0))
        if err:
            return
        c, h = out
        yield dict(op="answer", b=len(rows), c_sh=list(c.shape), p_sh=list(h.shape), finite=bool(torch.isfinite(c).all() and torch.isfinite(h).all()),
                   mutated=any(not torch.equal(p[k], p0[k]) for k in p0))
        if list(c.shape) != [len(rows), S] or list(h.shape) != [len(rows), S]:
            continue
        rng = random.Random(batch["seed"] + 2)
        W = 1 << math.ceil(math.log2(2 * (len(fr) - 1)))
        for r in f["rows"]:
            y = (c, h)[r["pol"]][r["b"]]
            if batch["what"] == "packet":
                if not r["lo"]:
                    continue
                at = S - rp + r["tau"]
                idx = {at + k for k in range(-9, 10)} | {S - 1 - k for k in range(4)} | {rng.randrange(S) for _ in range(15)} | {S - W + k for k in range(4)} | {0}
                idx = sorted(i for i in idx if 0 <= i < S)
                yield dict(op="packet", A=r["A"], tau=r["tau"], ph=r["ph"], M=r["M"], idx=idx, d=[q1(float(y[i]) * 1e4) for i in idx], err="")
            else:
                at = S - rp + r["tau"]
                cyc = sr * case["fd"] / case["fn"]
                if S - at > 4 * cyc + round(sr * f["M"][r["b"]] / 2393500):
                    yield dict(op="tone", f=q1(r["f"] * 1e4), amp=q1(float(y[at]) / r["scale"] * 1000), err="")


def _real(case):
    import torch
    from ml4gw.waveforms import IMRPhenomD, IMRPhenomPv2

    g, ev = _begin(case, {"IMRPhenomD": IMRPhenomD, "IMRPhenomPv2": IMRPhenomPv2}[case["model"]]())
    yield ev
    if ev["err"]:
        return
    rows, sr = case["rows"], case["sr"]
    S, rp = sr * case["dn"] // case["dd"], (2 * sr * case["pn"] + case["pd"]) // (2 * case["pd"])
    dt = torch.float64 if case["dbl"] else torch.float32
    t = lambda key, s: torch.tensor([r[key] / s for r in rows], dtype=torch.float64)  # noqa: E731
    m1, m2 = t("m1", 1000), t("m2", 1000)
    z = torch.zeros(len(rows), dtype=torch.float64)
    p = dict(mass_1=m1, mass_2=m2, chirp_mass=(m1 * m2) ** 0.6 / (m1 + m2) ** 0.2, mass_ratio=m2 / m1, s1x=z, s1y=z, s2x=z, s2y=z, s1z=t("s1", 100),
             s2z=t("s2", 100), chi1=t("s1", 100), chi2=t("s2", 100), distance=t("d", 1), inclination=t("inc", 100), phic=t("ph", 100))
    p = {k: v.to(dt) for k, v in p.items()}
    p0 = {k: v.clone() for k, v in p.items()}
    rng = random.Random(case["seed"])

    def ask(q):
        out, err = attempt(g, **q)
        B = len(q["distance"])
        if err:
            return None, dict(op="answer", b=B, c_sh=[], p_sh=[], finite=False, mutated=False, err=err)
        c, h = out
        ev = dict(op="answer", b=B, c_sh=list(c.shape), p_sh=list(h.shape), finite=bool(torch.isfinite(c).all() and torch.isfinite(h).all()),
                  mutated=any(not torch.equal(p[k], p0[k]) for k in p0), err="")
        ok = list(c.shape) == [B, S] and list(h.shape) == [B, S] and ev["finite"]
        return ((c, h) if ok else None), ev

    first, ev = ask(p)
    yield ev
    if first is None:
        return
    env = (first[0] ** 2 + first[1] ** 2).sqrt()
    top = env.max(1)[0]
    for b, r in enumerate(rows):
        M = r["m1"] + r["m2"]
        a = sr * (M // 100)
        unit = a // 100000 * 493 + a % 100000 * 493 // 100000
        step = max(1, 20 * unit // 10000)
        nc = S - rp
        blocks = [q1(float(env[b, i : i + step].max() / top[b]) * 1e4) for i in range(nc, S, step)]
        before = q1(float(env[b, max(0, nc - 15 * step) : nc - 5 * step].max() / top[b]) * 1e4)
        yield dict(op="wave", M=M, peak=int(env[b].argmax()), step=step, blocks=blocks, before=before, err="")

    def same(kind, other, take, scale=1.0):
        for pol in range(2):
            for b, ob in take:
                idx = [rng.randrange(S) for _ in range(15)] + [min(S - 1, max(0, S - rp + rng.randint(-100, 60))) for _ in range(25)]
                s = 1e4 / float(top[b])
                yield dict(op="same", kind=kind, x=[q1(float(first[pol][b, i]) * s) for i in idx], y=[q1(float(other[pol][ob, i]) * s * scale) for i in idx], err="")

    B = len(rows)
    todo = [("again", p, [(b, b) for b in range(B)], 1.0)]
    perm = list(range(B))
    rng.shuffle(perm)
    todo.append(("order", {k: v[perm] for k, v in p.items()}, [(perm[j], j) for j in range(B)], 1.0))
    todo.append(("far", {k: v * 2 if k == "distance" else v for k, v in p.items()}, [(b, b) for b in range(B)], 2.0))
    if sr <= 2048 and S <= 8192 and case["seed"] % 2:  # as part of a large batch
        copies = 120 // B + 1
        todo.append(("again", {k: v.repeat(copies) for k, v in p.items()}, [(b, b + B * rng.choice([0, copies - 1, rng.randrange(copies)])) for b in range(B)], 1.0))
    i = rng.randrange(B)
    todo.append(("alone", {k: v[i : i + 1] for k, v in p.items()}, [(i, 0)], 1.0))
    for kind, q, take, scale in todo:
        out, ev = ask(q)
        yield ev
        if out is not None:
            yield from same(kind, out, take, scale)
    out, ev = ask(p)
    yield ev
    if out is not None:
        yield from same("again", out, [(0, 0)])


def execute(case):
    yield from (_known(case) if case["kind"] == "known" else _real(case))
