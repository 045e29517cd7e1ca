"""G02: observed strain."""
from .enc import attempt, crowd, qtens
from .g01 import NAMES, angle, tensor

MC = ["Antenna_MC"]
TRACE = "Strain_Trace"
NEEDS_STIM = True
C = 299792458


def vertex(rng, sr):
    r = rng.random()
    if r < 0.15:
        return [0, 0, 0]
    if r < 0.5:  # about a given number of samples along one axis
        v = [0, 0, 0]
        far = min(9_000_000, int(C / sr * rng.choice([0.3, 0.6, 0.9, 1.4, 2.5, 7.3])))
        v[rng.randrange(3)] = rng.choice([-1, 1]) * far
        return v
    m = min(6_400_000, int(8 * C / sr))
    return [rng.randint(-m, m) for _ in range(3)]


def cases(ctx):
    for c in base_cases(ctx):
        # data on any scale, strain's included; powers of two are exact
        c["ex"] = ctx.rng.choice([0, 0, -70, 30])
        yield c


def base_cases(ctx):
    rng = ctx.rng
    st = ctx.stim["Antenna_MC"]
    for s in rng.sample(st, min(len(st), ctx.n(300, 3000))):
        B = rng.choice([1, 1, 2, 3, 4])
        dec = [[s["g"] - 4 * s["th"], 4 * s["g"]]] + [angle(rng) for _ in range(B - 1)]
        ps = [[s["ps"], s["g"]]] + [angle(rng) for _ in range(B - 1)]
        ph = [[s["ph"], s["g"]]] + [angle(rng) for _ in range(B - 1)]
        modes = list(dict.fromkeys(s["m"]))
        n = rng.choice([1, 2, 3, 8, 13, 32])
        sr = rng.choice([1, 16, 100, 512, 2048, 4096])
        c = dict(dec=dec, ps=ps, ph=ph, modes=modes, n=n, sr=sr, fsr=rng.random() < 0.5,
                 h=[[rng.randint(-30, 30) for _ in range(B * n)] for _ in modes],
                 f64=rng.random() < 0.5, h64=rng.random() < 0.5, strided=rng.random() < 0.3)
        if rng.random() < 0.35:
            names = [rng.choice(NAMES) for _ in range(rng.randint(1, 4))]
            yield dict(c, kind="project", names=names, reload=rng.random() < 0.3)
        else:
            I = rng.choice([1, 2, 3])
            # a rate of sr / q for vertices q times as far: delays are those of sr
            yield dict(c, kind="strain", q=rng.choice([1, 1, 4, 5]), tensors=[tensor(rng) for _ in range(I)], vertices=[vertex(rng, sr) for _ in range(I)])


def execute(case):
    import copy
    import math

    import torch
    from ml4gw.gw import compute_observed_strain, get_ifo_geometry
    from ml4gw.transforms import WaveformProjector

    dt = torch.float64 if case["f64"] else torch.float32
    ht = torch.float64 if case["h64"] else torch.float32
    a = [torch.tensor([2 * math.pi * n / d for n, d in case[k]], dtype=dt) for k in ("dec", "ps", "ph")]
    B, n = len(case["dec"]), case["n"]
    unit = 2.0 ** case["ex"]
    pol = {m: torch.tensor(h, dtype=ht).reshape(B, n) * unit for m, h in zip(case["modes"], case["h"])}
    if case["strided"]:
        pol = {m: h.t().contiguous().t() for m, h in pol.items()}
    keep = [v.clone() for v in (*a, *pol.values())]
    sr = float(case["sr"]) if case["fsr"] else case["sr"]
    ev = {k: case[k] for k in ("dec", "ps", "ph", "modes", "n", "sr", "h")}
    if case["kind"] == "project":
        proj = WaveformProjector(list(case["names"]), sr)
        if case["reload"]:
            proj = copy.deepcopy(proj)
        y, err = attempt(crowd, case, proj, *a, kw=pol)
        D, V = get_ifo_geometry(*case["names"])
        other, err2 = attempt(compute_observed_strain, *a, D, V, sr, **pol)
        same = not err and not err2 and torch.allclose(y / unit, other / unit, atol=1e-3)
        part = case["sr"] + 0.375  # a rate that is no whole number
        z, err3 = attempt(WaveformProjector(list(case["names"]), part), *a, **pol)
        other, err4 = attempt(compute_observed_strain, *a, D, V, part, **pol)
        ev.update(op="project", names=case["names"], same=bool(same and not err3 and not err4 and torch.allclose(z / unit, other / unit, atol=1e-3)))
    else:
        D = torch.tensor(case["tensors"], dtype=dt).reshape(-1, 3, 3)
        V = torch.tensor(case["vertices"], dtype=dt) * case["q"]
        sr = sr if case["q"] == 1 else sr / case["q"]
        y, err = attempt(crowd, case, lambda *a, **k: compute_observed_strain(*a, D, V, sr, **k), *a, kw=pol)
        ev.update(op="strain", tensors=case["tensors"], vertices=case["vertices"])
    ev.update(err=err, mutated=any(not torch.equal(x, k) for x, k in zip((*a, *pol.values()), keep)))
    if not err:
        ev.update(qtens("y", y / unit, 1000))
    yield ev
