"""T03: SNR sums and rescaling."""
from .enc import attempt, crowd, qtens, tens

MC = ["Snr_MC"]
TRACE = "Snr_Trace"
NEEDS_STIM = True


def cut(rng, n, rate, exact):
    r = rng.random()
    if r < 0.35:
        return []
    k = rng.randint(0, n // 2 + 1)
    if exact and r < 0.75:
        return [k * rate, n]  # exactly on a bin
    return [(2 * k + 1) * rate, 2 * n]


def cases(ctx):
    for c in base_cases(ctx):
        # data on any scale, strain's included; powers of two are exact
        c["ex"] = ctx.rng.choice([0, 0, -70, -30, 30])
        yield c


def base_cases(ctx):
    rng = ctx.rng
    st = ctx.stim["Snr_MC"]
    for s in rng.sample(st, min(len(st), ctx.n(60, 500))):
        yield dict(kind="ifo", h_sh=[1, 1, 4], h=s["x"], rate=4, w_sh=[3], w=s["w"], hp=s["hp"], lp=s["lp"], hmask=[], lmask=[], style=0)
    for i in range(ctx.n(200, 2500)):
        pow2 = rng.random() < 0.6
        n = rng.choice([4, 8, 16]) if pow2 else rng.choice([5, 6, 7, 9, 10, 12, 15])
        rate = rng.choice([1, 2, 4, 8, 16, 32])
        B, C = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (3, 3), (2, 4)])
        f = n // 2 + 1
        w_sh = rng.choice([[f], [C, f], [C, f], [B, C, f]])
        nw = 1
        for v in w_sh:
            nw *= v
        c = dict(
            h_sh=[B, C, n], h=[rng.randint(-10, 10) for _ in range(B * C * n)], rate=rate, w_sh=w_sh,
            w=[rng.choice([1, 2, 3, 5, 8]) for _ in range(nw)], hp=[], lp=[], hmask=[], lmask=[], style=rng.randrange(4),
        )
        kind = ["ifo", "ifo", "reweight", "rescaler"][i % 4]
        if kind != "rescaler" and rng.random() < 0.3:
            m = f + (rng.choice([-1, 1]) if kind == "ifo" and rng.random() < 0.2 else 0)
            c[rng.choice(["hmask", "lmask"])] = [1] + [rng.randint(0, 1) for _ in range(m - 1)]
        else:
            c["hp"], c["lp"] = cut(rng, n, rate, pow2), cut(rng, n, rate, pow2)
        c["kind"] = kind
        if kind != "ifo":
            c["given"] = rng.random() < 0.6
            c["targets"] = [rng.choice([100, 250, 400, 1200]) for _ in range(B)]
            if kind == "reweight" and rng.random() < 0.3:
                c["targets"] = [c["targets"][0]] * B
                c["scalar"] = True
            if kind == "rescaler":
                c["w_sh"] = [C, f]
                c["w"] = [rng.choice([1, 2, 3, 5, 8]) for _ in range(C * f)]
        yield c
    for i in range(ctx.n(6, 30)):
        yield dict(kind="perm", B=rng.choice([2, 3, 4, 5]), seed=rng.randrange(1 << 20))
    for i in range(ctx.n(20, 100)):
        yield dict(kind="flat", n=rng.randint(6, 40), m=rng.randint(2, 40), rank=i % 3 + 1, seed=rng.randrange(1 << 20))


def execute(case):
    import torch
    from ml4gw.gw import compute_ifo_snr, compute_network_snr, reweight_snrs
    from ml4gw.transforms import SnrRescaler

    kind = case["kind"]
    if kind == "perm":
        torch.manual_seed(case["seed"])
        B = case["B"]
        m = SnrRescaler(1, 16, 1)
        m.fit(torch.ones(9))
        x = torch.randn(B, 1, 16) * torch.arange(1.0, B + 1)[:, None, None]
        own = compute_network_snr(x, m.background, 16)
        counts = torch.zeros(B, B, dtype=torch.long)
        ok, err = True, ""
        for _ in range(60 * B):
            r, err = attempt(m, x)
            if err:
                break
            t = r[1]
            ok = ok and torch.equal(t.sort()[0], own.sort()[0])
            src = (t[:, None] - own[None]).abs().argmin(1)
            counts[torch.arange(B), src] += 1
        yield dict(op="perm", err=err, isperm=bool(ok), counts=counts.reshape(-1).tolist())
        return
    if kind == "flat":
        torch.manual_seed(case["seed"])
        x = torch.randn(2, 2, case["n"])
        lead = [[], [2], [2, 2]][case["rank"] - 1]
        level = torch.tensor([[1.0, 2.0], [4.0, 8.0]])
        level = {1: level[0, 0], 2: level[0], 3: level}[case["rank"]]
        a, e1 = attempt(compute_ifo_snr, x, level[..., None].expand(*lead, case["m"]).clone(), 16)
        b, e2 = attempt(compute_ifo_snr, x, level[..., None].expand(*lead, case["n"] // 2 + 1).clone(), 16)
        ev = dict(op="flat", err=e1 or e2)
        if not ev["err"]:
            ev["a"], ev["b"] = qtens("v", a, 1000)["v_d"], qtens("v", b, 1000)["v_d"]
        yield ev
        return
    style = case["style"]
    dt = torch.float64 if style == 3 else torch.float32
    h = torch.tensor(case["h"], dtype=dt).reshape(case["h_sh"])
    if style == 1:
        h = h.transpose(0, 2).contiguous().transpose(0, 2)
    psd = 1 / torch.tensor(case["w"], dtype=dt).reshape(case["w_sh"])
    rate, n = case["rate"], case["h_sh"][2]
    kw = {}
    for key, name in (("hp", "highpass"), ("lp", "lowpass")):
        if case[key]:
            kw[name] = case[key][0] / case[key][1]
            if style == 2 and kw[name] == int(kw[name]):
                kw[name] = int(kw[name])
        mask = case[key[0] + "mask"]
        if mask:
            kw[name] = torch.tensor(mask, dtype=torch.bool if style % 2 else dt)
    unit = 2.0 ** case["ex"]
    h = h * unit
    psd = (psd.double() if case["ex"] < -60 else psd) * unit**2
    h0, p0 = h.clone(), psd.clone()
    ev = dict(op=kind, h_sh=case["h_sh"], h_d=case["h"], rate=rate, w_sh=case["w_sh"], w=case["w"], hp=case["hp"], lp=case["lp"], hmask=case["hmask"], lmask=case["lmask"])
    if kind == "ifo":
        snr = lambda h, p: (compute_ifo_snr(h, p, rate, **kw), compute_network_snr(h, p, rate, **kw))  # noqa: E731
        y, ev["err"] = attempt(crowd, case, snr, h, psd) if psd.ndim == 3 else attempt(crowd, case, lambda v: snr(v, psd), h)
        if not ev["err"]:
            ev.update(qtens("snr", y[0], 100), **qtens("net", y[1], 100))
    elif kind == "reweight":
        t = torch.tensor(case["targets"], dtype=dt) / 100
        if case.get("scalar"):
            y, ev["err"] = attempt(reweight_snrs, h, case["targets"][0] / 100, psd, rate, **kw)
        elif psd.ndim == 3:
            y, ev["err"] = attempt(crowd, case, lambda h, t, p: reweight_snrs(h, t, p, rate, **kw), h, t, psd)
        else:
            y, ev["err"] = attempt(crowd, case, lambda h, t: reweight_snrs(h, t, psd, rate, **kw), h, t)
        ev["targets"] = case["targets"]
        if not ev["err"]:
            ev.update(qtens("y", y.double() / unit, 1000))
            ev["ok"] = [bool(v) for v in compute_network_snr(h, psd, rate, **kw) > 0.1]
            ev.update(qtens("again", compute_network_snr(y, psd, rate, **kw), 100))
    else:
        C = case["h_sh"][1]
        m = SnrRescaler(C, rate, n / rate, dtype=psd.dtype, **kw)
        if style in (0, 3):  # used with another background before
            m.fit(*(psd[i].flip(-1) * (9 + i) for i in range(C)))
            attempt(m, h.flip(0) * 3)
        m.fit(*(psd[i] for i in range(C)))
        if style == 3:
            m, state = SnrRescaler(C, rate, n / rate, dtype=psd.dtype, **kw), m.state_dict()
            m.fit(*(psd[i] * 4 for i in range(C)))
            attempt(m, h)
            m.load_state_dict(state)
        t = torch.tensor(case["targets"], dtype=dt) / 100 if case["given"] else None
        torch.manual_seed(len(case["h"]) * 31 + sum(case["h"]) % 1000)
        res, ev["err"] = attempt(crowd, case, m, h, t) if case["given"] else attempt(m, h, t) if style % 2 else attempt(m, h)
        ev["given"], ev["targets"] = case["given"], case["targets"]
        if not ev["err"]:
            y, rep = res
            own = compute_network_snr(h, psd, rate, **kw)
            ev.update(qtens("y", y.double() / unit, 1000), **qtens("rep", rep, 100))
            ev["isperm"] = torch.allclose(rep.sort()[0].double(), own.sort()[0].double(), rtol=1e-4)
    if not ev["err"]:
        ev["mutated"] = not (torch.equal(h, h0) and torch.equal(psd, p0))
    yield ev
