"""W01: parameter distributions."""
import math

from .enc import attempt, quant

MC = ["Distribution_MC"]
TRACE = "Distribution_Trace"
NEEDS_STIM = True
ASSUMPTIONS = [
    "200000 samples per law, compared at up to seven points within six standard deviations and the model's error (0.2 %, cosmology 0.5 %)",
    "ranges starting at distance zero span several cells of the interpolation grid; powers and rates from the lists in Distribution_MC",
]
N = 200000


def cases(ctx):
    rng = ctx.rng
    groups = {}
    for w in ctx.stim["Distribution_MC"]:
        key = (w["fam"],) + ((w["type"], w["rate"] != 0) if w["fam"] == "vol" else (w["ra"] == 0, w["rb"] == 0, w["sq"]) if w["fam"] == "pow" else ())
        groups.setdefault(key, []).append(w)
    for key in sorted(groups, key=str):
        g = groups[key]
        if key[0] == "vol":
            # within the first cells of the model's own table only the closed form is exact
            g = [w for w in g if w["lo"] == 0 or w["type"] == "redshift" or w["lo"] >= 500 or (w["type"] == "comoving_distance" and w["rate"] == 0)]
        for w in rng.sample(g, min(len(g), ctx.n(9, 60))):
            yield dict(kind="law", fam=w["fam"], w=w, as_tensor=rng.random() < 0.25, seed=rng.randrange(1 << 20))
    yield dict(kind="refuse", seed=1)


def make(w, as_tensor, **kw):
    import torch
    from ml4gw import distributions as D

    f = (lambda v: torch.tensor(float(v))) if as_tensor else (lambda v: v)
    fam = w["fam"]
    if fam in ("cos", "sin"):
        lo, hi = 2 * math.pi * w["lo"] / 96, 2 * math.pi * w["hi"] / 96
        cls = D.Cosine if fam == "cos" else D.Sine
        if (fam, w["lo"], w["hi"]) in (("cos", -24, 24), ("sin", 0, 48)) and not as_tensor:
            return cls(**kw), lo, hi
        return cls(f(lo), f(hi), **kw), lo, hi
    if fam == "pow":
        sq = (lambda r: r * r) if w["sq"] else (lambda r: r)
        lo, hi = sq(w["ra"]), sq(w["rb"]) if w["rb"] else math.inf
        i = w["i2"] // 2 if w["i2"] % 2 == 0 else w["i2"] / 2
        return D.PowerLaw(lo if w["ra"] % 3 else float(lo), hi, i, **kw), lo, hi
    if fam == "root":
        lo, hi = 1, (w["rb"] / 100) ** w["k"]
        return D.PowerLaw(lo if w["k"] % 4 else 1.0, hi, w["s"] / w["k"] - 1, **kw), lo, hi
    if fam in ("logu", "logp"):
        lo, hi = w["a"], w["a"] * w["g"] ** w["kk"]
        return (D.LogUniform(f(lo), f(hi), **kw) if fam == "logu" else D.PowerLaw(f(lo), f(hi), -1, **kw)), lo, hi
    if fam == "norm":
        return D.LogNormal(w["j"] * math.log(2), w["k"] * math.log(2), **kw), 0, 1
    if fam == "delta":
        return D.DeltaFunction(f(w["peak"]), **kw), 0, 1
    s = 1000 if w["type"] == "redshift" else 1
    lo, hi = w["lo"] / s, w["hi"] / s
    if w["h0"] != 6766:
        kw["h0"] = w["h0"] / 100
    if w["om"] != 310:
        kw["omega_m"] = w["om"] / 1000
    a = (f(lo), f(hi)) + (() if w["type"] == "redshift" and w["om"] else (w["type"],))
    if w["rate"]:
        return D.RateEvolution(lambda z: (1 + z) ** w["rate"], *a, **kw), lo, hi
    return (D.UniformComovingVolume if w["lo"] % 20 or w["hi"] % 3 else lambda *p, **k: D.RateEvolution(torch.ones_like, *p, **k))(*a, **kw), lo, hi


def points(w, rng):
    fam = w["fam"]
    if fam in ("cos", "sin"):
        c = list(range(w["lo"] + 1, w["hi"]))
    elif fam == "pow":
        c = list(range(w["ra"] + 2, w["rb"] or 3 * w["ra"]))
    elif fam == "root":
        c = list(range(102, w["rb"]))
    elif fam in ("logu", "logp"):
        c = list(range(0, w["kk"] + 1))
    elif fam == "norm":
        return [-2, -1, 0, 1, 2]
    elif fam == "delta":
        return [w["peak"] - 1, w["peak"], w["peak"] + 1]
    else:
        c = sorted({w["lo"] + (w["hi"] - w["lo"]) * k // 40 for k in range(2, 40)})
    return sorted(rng.sample(c, min(len(c), 7)))


def value(w, p):
    fam = w["fam"]
    if fam in ("cos", "sin"):
        return 2 * math.pi * p / 96
    if fam == "pow":
        return float(p * p if w["sq"] else p)
    if fam == "root":
        return (p / 100) ** w["k"]
    if fam in ("logu", "logp"):
        return float(w["a"] * w["g"] ** p)
    if fam == "norm":
        return 2.0 ** (w["j"] + w["k"] * p)
    if fam == "delta":
        return float(p)
    return p / 1000 if w["type"] == "redshift" else float(p)


def execute(case):
    import random

    import torch
    from ml4gw import distributions as D

    rng = random.Random(case["seed"])
    torch.manual_seed(case["seed"])
    if case["kind"] == "refuse":
        for what, fn in [
            ("index 0", lambda: D.PowerLaw(1.0, 2.0, 0)),
            ("distance type", lambda: D.UniformComovingVolume(0, 1, "angular_diameter_distance")),
            ("beyond the grid", lambda: D.UniformComovingVolume(0, 5.1)),
            ("beyond the grid", lambda: D.UniformComovingVolume(0, 50000, "luminosity_distance")),
            ("beyond the grid", lambda: D.UniformComovingVolume(0, 8100, "comoving_distance")),
            ("beyond the grid", lambda: D.UniformComovingVolume(0, 2.0, z_grid_max=1)),
            ("beyond the grid", lambda: D.RateEvolution(lambda z: 1 + z, 0, 2.0, z_grid_max=1)),
        ]:
            _, err = attempt(fn)
            yield dict(op="refuse", what=what, err=err)
        return
    w = case["w"]
    got, err = attempt(make, w, case["as_tensor"])
    if err:
        yield dict(op="sample", w=w, err=err)
        return
    d, lo, hi = got
    pts = points(w, rng)
    xs = [value(w, p) for p in pts]
    s, err = attempt(d.sample, (N,))
    ev = dict(op="sample", w=w, err=err, n=N, pts=pts)
    if not err:
        s = s.double()
        span = (hi - lo) if hi != math.inf else max(lo, 1)
        # thresholds between the samples: points of a law are single precision numbers
        eps = 1e-6 * max(1.0, abs(xs[-1])) if w["fam"] == "delta" else 0.0
        ev.update(bad=int((~torch.isfinite(s)).sum()), counts=[int((s <= x + eps).sum()) for x in xs])
        for k, v in (("min", s.min().item()), ("max", s.max().item())):
            ev[k] = max(-(10**9), min(10**9, round((v - lo) / span * 1e6))) if math.isfinite(v) else 10**9
        ev["fresh"] = w["fam"] == "delta" or not torch.equal(s[:100], d.sample((100,)).double())
    yield ev
    want = rng.choice([[], [1], [5], [3, 2], [2, 1, 4], [0]])
    y, err = attempt(d.sample, torch.Size(want) if rng.random() < 0.5 else tuple(want))
    yield dict(op="shape", err=err, want=want, y_sh=list(y.shape) if not err else [])
    if w["fam"] == "delta":
        return
    inner = [p for p in pts if lo < value(w, p) < hi] if w["fam"] != "norm" else pts
    if inner:
        x = torch.tensor([value(w, p) for p in inner])
        if rng.random() < 0.5 and len(inner) % 2 == 0:
            x = x.reshape(2, -1)
        if w["fam"] == "vol":
            span = hi - lo
            x = x.to(torch.float32)
        x0 = x.clone()
        v, err = attempt(d.log_prob, x)
        yield density(w, inner, v, err, x, x0, lo, hi) | dict(op="validated" if w["fam"] == "norm" else "density")
        if w["fam"] == "norm":
            d2, _, _ = make(w, case["as_tensor"], validate_args=False)
            v, err = attempt(d2.log_prob, x)
            yield density(w, inner, v, err, x, x0, lo, hi)
    for side in ("lo", "hi"):
        if w["fam"] == "norm" or (side == "hi" and hi == math.inf) or (w["fam"] == "pow" and lo == 0):
            continue
        span = hi - lo if hi != math.inf else lo
        nudge = 1e-4 * (span if w["fam"] not in ("pow", "root", "logu", "logp") else min(span, lo if side == "lo" else hi))
        x = lo + nudge if side == "lo" else hi - nudge
        if w["fam"] == "vol" and lo == 0 and side == "lo":
            x = lo + rng.choice([1e-5, 1e-4, 1e-3]) * span
        v, err = attempt(d.log_prob, torch.tensor([x], dtype=torch.float32))
        yield dict(op="edge", w=w, side=side, err=err, v=0 if err else quant(v.double().exp() * span * 1000, 1)[1][0])
    if w["fam"] != "norm":
        span = (hi - lo) if hi != math.inf else lo
        outs = [lo - 0.01 * span, lo - 0.5 * span] + ([] if hi == math.inf else [hi + 0.01 * span, hi + 0.5 * span, hi + 3 * span])
        if w["fam"] in ("pow", "root", "logu", "logp", "vol"):
            outs = [o for o in outs if o > 0] + ([0.0] if lo > 0 else [])
        elif w["fam"] in ("cos", "sin"):
            outs = [o for o in outs if abs(o - (lo + hi) / 2) < math.pi]
        fate = []
        for o in outs:
            v, err = attempt(d.log_prob, torch.tensor([o], dtype=torch.float32))
            fate.append(("refused" if err == "ValueError" else "raised") if err else "zero" if v.item() == -math.inf else "density")
        if w["fam"] == "vol":
            v, err = attempt(d.log_prob, torch.tensor(outs + [(lo + hi) / 2], dtype=torch.float32))
            fate += ["raised"] if err else ["zero" if u == -math.inf else "density" for u in v.tolist()[:-1]]
        yield dict(op="outside", err="", fate=fate)


def density(w, inner, v, err, x, x0, lo, hi):
    import torch

    ev = dict(op="density", w=w, err=err, pts=inner, x_sh=list(x.shape), mutated=not torch.equal(x, x0))
    if not err:
        span = (hi - lo) if hi != math.inf else lo
        if w["fam"] == "norm":
            dens = v.double().exp() * x0.double() * 1000
        else:
            dens = v.double().exp() * span * 1000
        sh, dd = quant(dens, 1)
        ev.update(v_sh=sh, v_d=dd)
    return ev
