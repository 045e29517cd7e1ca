"""W03: frequency domain approximants."""
import math
import random

from .enc import attempt, many, pick, q1, stray

MC = ["Approximant_MC"]
MC_THOROUGH = []
TRACE = "Approximant_Trace"
NEEDS_STIM = True
UNIT = 20000
NAMES = ["TaylorF2", "IMRPhenomD", "IMRPhenomPv2"]
MSUN = 4.925490947641267e-06
ASSUMPTIONS = [
    "spins within +-0.999, mass ratios from 0.05",
    "the aligned limit of the precessing model is compared for sources whose total angular momentum points along the orbital one",
]


def _source(rng, kind, mc=(4, 40)):
    q = rng.choice([1.0, 1 - 1e-7, 1 - 1e-4, rng.uniform(0.12, 1), rng.uniform(0.3, 1), 0.5, rng.uniform(0.05, 0.12)])
    s = dict(chirp_mass=rng.uniform(*mc), mass_ratio=q, distance=rng.uniform(50, 900))
    z = [rng.choice([0.0, rng.uniform(-0.9, 0.9), rng.uniform(-0.9, 0.9), rng.choice([-1, 1, 1]) * rng.uniform(0.9, 0.999)]) for _ in range(2)]
    s["chi1"], s["chi2"] = z
    s["s1z"], s["s2z"] = z
    s["inclination"] = 0.0
    for k in "12":
        s[f"s{k}x"] = s[f"s{k}y"] = 0.0
        if kind == "prec":
            a, c, p = rng.uniform(0.05, rng.choice([0.8, 0.8, 0.995])), rng.uniform(-1, 1), rng.uniform(0, 2 * math.pi)
            w = math.sqrt(1 - c * c)
            s.update({f"s{k}x": a * w * math.cos(p), f"s{k}y": a * w * math.sin(p), f"s{k}z": a * c})
    if kind == "prec":
        s["inclination"] = rng.choice([rng.uniform(0, math.pi), rng.uniform(0, math.pi), 0.0])
        s["psi"] = rng.choice([0.0, rng.uniform(0, math.pi)])
    return s


def _upright(s, kind, name):
    """Keep the total angular momentum of aligned precessing-model sources along the orbital one."""
    if name == "IMRPhenomPv2" and kind == "aligned":
        s.update(chirp_mass=min(s["chirp_mass"], 30), mass_ratio=max(s["mass_ratio"], 0.25), s1z=max(s["s1z"], -0.5), s2z=max(s["s2z"], -0.5))
    return s


def _total(s):
    q = s["mass_ratio"]
    return s["chirp_mass"] * (1 + q) ** 1.2 / q**0.6


def cases(ctx):
    rng = ctx.rng
    stim = ctx.stim["Approximant_MC"]
    for i in range(ctx.n(90, 900)):
        name = NAMES[i % 3]
        dbl = i % 6 < 4
        F = rng.choice([1, 4, 4, 5, 8])
        kinds = [rng.choice(["aligned", "prec"]) if name == "IMRPhenomPv2" else "aligned" for _ in range(3)]
        pool = [_upright(_source(rng, k), k, name) for k in kinds]
        top = (0.2 if dbl else 0.12) / (max(map(_total, pool)) * MSUN)
        if name == "TaylorF2":
            top = 900.0
        freqs = sorted(rng.sample(range(14, int(top)), F)) if rng.random() < 0.5 else sorted(rng.uniform(12, top) for _ in range(F))
        calls = []
        for st in rng.sample(stim, 5 if F >= 4 else 0):
            calls.append(st)
        for _ in range(3):
            B = rng.choice([1, 2, 5, F, 9])
            rows = [dict(s=rng.randint(1, 3), kn=rng.choice([1, 2, 3, 10]), kd=rng.choice([1, 1, 2, 5]), p=rng.randrange(8), i=rng.randrange(9)) for _ in range(B)]
            calls.append(dict(rows=rows, bins=sorted(rng.sample(range(1, F + 1), rng.randint(1, F)))))
        rng.shuffle(calls)
        yield dict(kind="run", name=name, dbl=dbl, pool=pool, kinds=kinds, freqs=freqs, fref=rng.choice([20.0, 40.0, rng.uniform(15, 100), 50]), calls=calls)
    for i in range(ctx.n(24, 200)):
        name = NAMES[i % 3]
        kind = "prec" if name == "IMRPhenomPv2" and rng.random() < 0.6 else "aligned"
        srcs = [_source(rng, kind, (5, 20)) for _ in range(rng.choice([1, 3, 6]))]
        what = ["masses and times scaled together", "equal masses swapped"][i // 3 % 2]
        if what == "equal masses swapped":
            srcs = [dict(_source(rng, "aligned", (5, 20)), mass_ratio=1.0) for _ in srcs]
        yield dict(kind="twin", name=name, what=what, srcs=srcs, F=rng.choice([1, 6, 20]), lam=rng.choice([2, 3, 0.5, 1.37]), fref=rng.uniform(20, 60))
    for i in range(ctx.n(60, 500)):
        # settings at which something degenerates, and settings right next to them
        name = NAMES[min(i % 5, 2)]
        srcs = []
        for _ in range(5):
            s = _upright(_source(rng, "aligned", (5, 20)), "aligned", name)
            s.update(mass_ratio=rng.choice([1.0, s["mass_ratio"]]), chi1=rng.choice([0.0, s["chi1"]]), phi=rng.uniform(0, 2 * math.pi), eps=rng.choice([1e-4, 1e-6, 1e-9, 1e-12]))
            s["incl"] = rng.choice([0, 4, 8, rng.randrange(9)])
            srcs.append(s)
        yield dict(kind="twin", name=name, what="a small change of all parameters", srcs=srcs, F=rng.choice([1, 6, 20]), fref=rng.uniform(20, 60), dbl=i % 4 != 3)
    for i in range(ctx.n(24, 200)):
        name = NAMES[(1, 1, 2, 0)[i % 4]]
        srcs = [_upright(_source(rng, "aligned", (15, 40)), "aligned", name) for _ in range(4)]
        for s in srcs[:3]:
            s["mass_ratio"] = rng.choice([1.0, 1.0, 1 - 1e-7, 1 - 1e-4, 1 - 1e-3])
            s["chi1"], s["chi2"] = rng.choice([1, -1]) * rng.uniform(0.5, 0.95), rng.uniform(-0.95, 0.95)
        yield dict(kind="twin", name=name, what="the number of rows", srcs=srcs, F=rng.choice([1, 6, 20]), fref=rng.uniform(20, 60), dbl=i % 6 == 5)
    for i in range(ctx.n(8, 60)):
        yield dict(kind="delay", srcs=[_source(rng, rng.choice(["prec", "aligned"]), (5, 20)) for _ in range(3)], tc=[rng.uniform(-300, 300) for _ in range(3)], f0=rng.uniform(15, 30), n=6)
    for name in NAMES[:2]:
        for key in ("chirp_mass", "mass_ratio", "chi1", "chi2", "distance", "phic", "inclination"):
            yield dict(kind="mismatch", name=name, key=key, longer=rng.random() < 0.5, src=_source(rng, "aligned"))
    for i in range(ctx.n(8, 60)):
        rows = [dict(k=rng.randint(2, 4), j=rng.randint(2, 4), d=rng.choice([1, 2, 5, 10])) for _ in range(9)]
        yield dict(kind="leading", name="TaylorF2", rows=rows, srcs=[_source(rng, "aligned") for _ in rows], promille=0)
        rows = [dict(k=2, j=2, d=rng.choice([1, 2, 5, 10])) for _ in range(5)]
        yield dict(kind="leading", name=["IMRPhenomD", "IMRPhenomPv2"][i % 2], rows=rows, srcs=[dict(_source(rng, "aligned"), mass_ratio=rng.uniform(0.6, 1)) for _ in rows], promille=30)
    for i in range(ctx.n(10, 80)):
        src = _source(rng, "aligned")
        yield dict(kind="smooth", name="IMRPhenomD", src=dict(src, mass_ratio=max(src["mass_ratio"], 0.12)), n=1500)
    for i in range(ctx.n(10, 80)):
        srcs = []
        for _ in range(4):
            s = _source(rng, "aligned", (8, 30))
            s["mass_ratio"] = max(s["mass_ratio"], 0.25)
            s["chi1"] = s["s1z"] = max(s["s1z"], -0.5)
            srcs.append(s)
        yield dict(kind="agree", srcs=srcs, fref=rng.uniform(20, 60))


def _params(rows, dt):
    import torch

    keys = [k for k in rows[0] if k != "psi"]
    return {k: torch.tensor([r[k] for r in rows], dtype=torch.float64).to(dt) for k in keys}


def _row(src, kind, kn=1, kd=1, p=0, i=0):
    """The parameters of a source under the settings of one row."""
    s = dict(src)
    s["distance"] = src["distance"] * kn / kd
    s["phic"] = src.get("psi", 0.0) + 2 * math.pi * p / 8
    if kind == "aligned":
        s["inclination"] = 2 * math.pi * i / 16
    else:
        c, w = math.cos(2 * math.pi * p / 8), math.sin(2 * math.pi * p / 8)
        for k in "12":
            x, y = src[f"s{k}x"], src[f"s{k}y"]
            s[f"s{k}x"], s[f"s{k}y"] = x * c + y * w, y * c - x * w
    return s


def _flat(t, scale):
    """Complex matrix and per-element scale -> shape and re/im integers."""
    t = t.detach()
    z = t.to("cpu").to(dtype=__import__("torch").complex128)
    if tuple(z.shape) != tuple(scale.shape):
        return list(z.shape), []
    z = z * scale
    return list(z.shape), [q1(v) for pair in zip(z.real.reshape(-1).tolist(), z.imag.reshape(-1).tolist()) for v in pair]


def _finite(*ts):
    import torch

    return all(bool(torch.isfinite(torch.view_as_real(t) if t.is_complex() else t).all()) for t in ts)


def execute(case):
    import torch
    from ml4gw import waveforms

    def make(name):
        return getattr(waveforms, name)()

    if case["kind"] == "run":
        yield from _run(case, make)
        return
    d = torch.float64
    if case["kind"] == "mismatch":
        par = _params([_row(case["src"], "aligned", i=i) for i in range(4)], d)
        par[case["key"]] = torch.cat([par[case["key"]]] * 2) if case["longer"] else par[case["key"]][:2]
        _, err = attempt(make(case["name"]), torch.linspace(20, 100, 9, dtype=d), **par, f_ref=40.0)
        yield dict(op="mismatch", err=err)
        return
    if case["kind"] == "leading":
        ev = dict(op="leading", rows=case["rows"], promille=case["promille"], amp=[], err="")
        for r, s in zip(case["rows"], case["srcs"]):
            s = dict(s, chirp_mass=1.2 * (r["j"] / 2) ** 6, distance=100.0 * r["d"], phic=1.0)
            f = torch.tensor([16 * (r["k"] / 2) ** 6], dtype=d)
            if case["promille"]:
                f = torch.cat([f, f * 2])
            out, ev["err"] = attempt(make(case["name"]), f, **_params([s], d), f_ref=20.0)
            if ev["err"]:
                break
            ev["amp"].append(q1(out[1].abs().reshape(-1)[0].item() * 1e29))
        yield ev
        return
    if case["kind"] == "delay":
        par = _params([_row(s, "prec") for s in case["srcs"]], d)
        f = case["f0"] * torch.arange(1, case["n"] + 1, dtype=d)
        a, err = attempt(make("IMRPhenomPv2"), f, **par, f_ref=25.0)
        b, err2 = attempt(make("IMRPhenomPv2"), f, **par, f_ref=25.0, tc=torch.tensor(case["tc"], dtype=d))
        ev = dict(op="delay", err=err or err2)
        if not ev["err"]:
            r = torch.stack([y / x for x, y in zip(a, b)], 1)
            ev.update(ratio=[[[q1(v * 10000) for v in z.tolist()] for z in row] for row in r.abs()], turn=[[[q1(v * 10000) for v in z.tolist()] for z in row] for row in r.angle()])
        yield ev
        return
    if case["kind"] == "smooth":
        s = _row(case["src"], "aligned")
        m = _total(s) * MSUN
        f = torch.linspace(0.012 / m, 0.16 / m, case["n"], dtype=d)
        out, err = attempt(make(case["name"]), f, **_params([s], d), f_ref=20.0)
        ev = dict(op="smooth", err=err, atol=5, ttol=200)
        if not err:
            h = out[1].reshape(-1)
            a = h.abs() * f ** (7 / 6)
            ev.update(finite=_finite(h) and len(h) == case["n"], amp=[q1(v) for v in (a / a[0] * 10000).tolist()], turn=[q1(v * 10000) for v in h.angle().tolist()])
        yield ev
        return
    if case["kind"] == "agree":
        rows = [_row(s, "aligned", i=0) for s in case["srcs"]]
        top = 0.14 / (max(map(_total, rows)) * MSUN)
        f = torch.linspace(20, top, 12, dtype=d)
        a, err = attempt(make("IMRPhenomPv2"), f, **_params(rows, d), f_ref=case["fref"])
        b, err2 = attempt(make("IMRPhenomD"), f, **_params(rows, d), f_ref=case["fref"])
        ev = dict(op="agree", err=err or err2)
        if not ev["err"]:
            sc = UNIT / b[1].abs()
            ev["a"], ev["b"] = ([q1(v) for x in (o[0], o[1]) for v in (x.abs() * sc).reshape(-1).tolist()] for o in (a, b))
        yield ev
        return
    # two descriptions of the same systems
    rows = [_row(s, "prec" if s["s1x"] else "aligned", i=s.pop("incl", 0)) for s in map(dict, case["srcs"])]
    nearby = case["what"].startswith("a small")
    shifts = [(r.pop("eps", 0), r.pop("phi", 0)) for r in rows]
    alone = case["what"] == "the number of rows"
    if (nearby or alone) and not case["dbl"]:
        d = torch.float32
    top = 0.15 / (max(map(_total, rows)) * MSUN)
    f = torch.linspace(20, top, case["F"] + 1, dtype=d)[: case["F"]]
    fref = case["fref"]
    if case["what"].startswith("masses"):
        lam = case["lam"]
        twins = [dict(r, chirp_mass=r["chirp_mass"] * lam, distance=r["distance"] * lam * lam) for r in rows]
        f2, fref2 = f / lam, fref / lam
    elif alone:
        twins, f2, fref2 = rows, f, fref
    elif nearby:
        twins = []
        for n, (r, (eps, phi)) in enumerate(zip(rows, shifts)):
            t = {k: v * (1 - 1e-10) for k, v in r.items()}
            for k, a in (("s1x", math.cos(phi)), ("s1y", math.sin(phi)), ("s2x", math.sin(2 * phi))):
                t[k] += eps * a
            t["inclination"] += 1e-9 * (-1) ** n
            for k in ("chi1", "chi2", "s1z", "s2z"):
                t[k] += 1e-10
            twins.append(t)
        f2, fref2 = f, fref
    else:
        twins = [dict(r, chi1=r["chi2"], chi2=r["chi1"], s1z=r["s2z"], s2z=r["s1z"]) for r in rows]
        f2, fref2 = f, fref
    a, err = attempt(make(case["name"]), f, **_params(rows, d), f_ref=fref)
    if alone:
        a, err = attempt(_each, make(case["name"]), f, _params(rows, d), fref)
        par = {k: many(v, 19) for k, v in _params(rows, d).items()}
        b, err2 = attempt(make(case["name"]), f2, **par, f_ref=fref2)
        b = b and tuple(pick(y, len(rows), random.Random(case["F"])) for y in b)
    else:
        b, err2 = attempt(make(case["name"]), f2, **_params(twins, d), f_ref=fref2)
    ev = dict(op="twin", err=err or err2, what="changed: " + case["what"], tol=8)
    if alone and not case["dbl"]:
        ev["tol"] = 600
    if nearby:
        ev["tol"] = (8 if case["dbl"] else 600) + int(max(e for e, _ in shifts) * 2e6)
    if not ev["err"]:
        sc = UNIT / torch.maximum(a[0].abs(), a[1].abs())
        (ev["p_sh"], ev["p"]), (ev["q_sh"], ev["q"]) = ((list(o[0].shape), _flat(o[0], sc)[1] + _flat(o[1], sc)[1]) for o in (a, b))
    yield ev


def _each(model, f, par, fref):
    """The answers for the rows on their own."""
    import torch

    n = len(par["distance"])
    outs = [model(f, **{k: v[i : i + 1] for k, v in par.items()}, f_ref=fref) for i in range(n)]
    return tuple(torch.cat([o[k] for o in outs]) for k in (0, 1))


def _between(model, how, f, par, fref):
    """Use the model for something else; returns the tensors to go on with."""
    if how == 0:  # another reference frequency
        attempt(model, f, **par, f_ref=fref * 1.7)
    elif how == 1:  # another grid of the same length that starts at the same frequency
        attempt(model, f[0] + (f - f[0]) * 0.8, **par, f_ref=fref)
    elif how == 2:  # other sources, as many
        attempt(model, f, **dict(par, distance=par["distance"] * 3, phic=par["phic"] + 1, inclination=par["inclination"] + 0.4), f_ref=fref)
    elif how == 3:  # heavier sources, as many
        attempt(model, f * 0.7, **dict(par, chirp_mass=par["chirp_mass"] * 1.3), f_ref=fref)
    elif how == 4:  # other precisions
        stray(model, f, kw=dict(par, f_ref=fref))
    else:  # tensors that held other values before
        keep, g = {k: v.clone() for k, v in par.items()}, f.clone()
        par["chirp_mass"] *= 1.1
        par["distance"] += 7
        f *= 0.9
        attempt(model, f, **par, f_ref=fref)
        f.copy_(g)
        for k, v in keep.items():
            par[k].copy_(v)
    return f, par


def _run(case, make):
    import torch

    dt = torch.float64 if case["dbl"] else torch.float32
    model, err = attempt(make, case["name"])
    yield dict(op="begin", err=err)
    if err:
        return
    rng = random.Random(repr(case["calls"]) + str(case["fref"]))
    tol = 8 if case["dbl"] else 600
    freqs = torch.tensor(case["freqs"], dtype=torch.float64).to(dt)
    F = len(freqs)
    scales = []
    for src, kind in zip(case["pool"], case["kinds"]):
        out, err = attempt(model, freqs, **_params([_row(src, kind)], dt), f_ref=case["fref"])
        ev = dict(op="learn", err=err, al=kind == "aligned", F=F, tol=tol, p=[], c=[])
        if err:
            yield ev
            return
        hc, hp = out
        ev["p_sh"], ev["c_sh"] = list(hp.shape), list(hc.shape)
        if ev["p_sh"] != [1, F] or ev["c_sh"] != [1, F]:
            yield ev
            return
        size = torch.maximum(hp.abs(), hc.abs()).double()
        scale = torch.where(size > 0, UNIT / size, torch.zeros_like(size)).nan_to_num(0)
        scales.append(scale[0])
        _, ev["p"] = _flat(hp, scale)
        _, ev["c"] = _flat(hc, scale)
        ev.update(complex=hp.is_complex() and hc.is_complex(), finite=_finite(hp, hc))
        yield ev
    for call in case["calls"]:
        rows, bins = call["rows"], call["bins"]
        par = _params([_row(case["pool"][r["s"] - 1], case["kinds"][r["s"] - 1], r["kn"], r["kd"], r["p"], r["i"]) for r in rows], dt)
        f = freqs[[b - 1 for b in bins]]
        how = rng.randrange(10)
        if how < 6:  # other calls, whose results are not looked at, come in between
            f, par = _between(model, how, f, par, case["fref"])
        copies, hold = {8: (41, 1), 9: (1, 1501)}.get(how, (1, 1))
        par, f = {k: many(v, copies) for k, v in par.items()}, f.repeat_interleave(hold)
        before = {k: v.clone() for k, v in par.items()}, f.clone()
        out, err = attempt(model, f, **par, f_ref=case["fref"])
        ev = dict(op="call", rows=rows, bins=bins, F=F, tol=tol, err=err, mutated=not torch.equal(f, before[1]) or any(not torch.equal(par[k], v) for k, v in before[0].items()))
        if not err:
            hc, hp = (pick(y, len(rows), rng) if copies > 1 else pick(y, len(bins), rng, -1, hold) if hold > 1 else y for y in out)
            scale = torch.stack([scales[r["s"] - 1][[b - 1 for b in bins]] for r in rows])
            ev["p_sh"], ev["p"] = _flat(hp, scale)
            ev["c_sh"], ev["c"] = _flat(hc, scale)
            ev["finite"] = _finite(hp, hc)
        yield ev
