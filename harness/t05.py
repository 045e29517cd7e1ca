"""T05: whitening."""
from fractions import Fraction as F

from .enc import attempt, crowd, qtens, tens

MC = ["Whiten_MC"]
TRACE = "Whiten_Trace"
NEEDS_STIM = True


def duration(rng, n, rate, even):
    """A filter duration whose double-precision arithmetic is exact enough."""
    while True:
        m = rng.randint(2, max(2, min(n, 16)))
        if even:
            m -= m % 2
        if rng.random() < 0.03:
            m = n + n % 2
        fd = F(m, rate)
        if rng.random() < 0.2:
            fd += F(1, 3 * rate)
        v = float(fd)
        if m < 2 or int(v * rate / 2) != int(fd * rate / 2) or int(v * rate) != int(fd * rate):
            continue
        return [fd.numerator, fd.denominator]


def band(rng, n, rate):
    if rng.random() < 0.45:
        return []
    m = 2 * (n // 2)
    while True:
        k = rng.randint(0, n // 2)
        f = F(2 * k + 1, 2) * F(rate, m) if rng.random() < 0.5 else k * F(rate, m)
        v = float(f)
        if int(v / (rate / m)) == int(f / F(rate, m)):
            return [f.numerator, f.denominator]


def cases(ctx):
    for c in base_cases(ctx):
        # data on any scale, strain's included; powers of two are exact
        c["ex"] = ctx.rng.choice([0, 0, -70, -30, 30])
        yield c


def base_cases(ctx):
    rng = ctx.rng
    st = ctx.stim["Whiten_MC"]
    for i, s in enumerate(rng.sample(st, min(len(st), ctx.n(40, 400)))):
        n = s["n"]
        yield dict(
            kind=["fn", "mod", "fixed"][i % 3], x_sh=[1, 1, n], x=[rng.randint(-9, 9) for _ in range(n)], rate=8, a_sh=[n // 2 + 1],
            a=s["a"], fd=[2 * s["pad"], 8], hp=s["hp"], lp=s["lp"], crop=bool(i % 2), win=[], style=i % 4,
        )
    for i in range(ctx.n(200, 2200)):
        kind = ["fn", "mod", "fixed", "fn"][i % 4]
        n = rng.choice([6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16])
        rate = rng.choice([2, 8, 32, 10, 20, 20, 16, 5])
        B, C = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (1, 5), (2, 6)])
        f = n // 2 + 1
        a_sh = [C, f] if kind == "fixed" else rng.choice([[f], [C, f], [C, f], [B, C, f]])
        if kind == "fixed" and n % 2:
            n -= 1
            f = n // 2 + 1
            a_sh = [C, f]
        na = 1
        for v in a_sh:
            na *= v
        a = [rng.randint(1, 3) for _ in range(na)]
        if rng.random() < 0.15:  # flat PSD of another length
            g = rng.randint(2, 2 * f)
            rows = na // f
            a = [v for r in range(rows) for v in [rng.randint(1, 3)] * g]
            a_sh = a_sh[:-1] + [g]
        win = []
        if kind == "fn" and rng.random() < 0.2:
            win = [rng.randint(1, 10) for _ in range(rng.randint(2, n - 1))]
        yield dict(
            kind=kind, x_sh=[B, C, n], x=[rng.randint(-9, 9) for _ in range(B * C * n)], rate=rate, a_sh=a_sh, a=a,
            fd=duration(rng, n, rate, kind != "mod"), hp=band(rng, n, rate), lp=band(rng, n, rate),
            crop=rng.random() < 0.6, win=win, style=rng.randrange(6), wronglen=kind == "fixed" and rng.random() < 0.06,
        )
    for i in range(ctx.n(60, 400)):
        yield dict(kind="rel", which=i % 7, seed=rng.randrange(1 << 20), n=rng.choice([64, 100, 127, 256]), rank=rng.randint(1, 3))


def execute(case):
    import torch
    from ml4gw.spectral import whiten
    from ml4gw.transforms import FixedWhiten, Whiten

    if case["kind"] == "rel":
        yield from relations(case)
        return
    kind, rate, style = case["kind"], case["rate"], case["style"]
    B, C, n = case["x_sh"]
    x = torch.tensor(case["x"], dtype=torch.float64 if style == 1 else torch.float32).reshape(case["x_sh"])
    if style == 2:
        x = x.transpose(0, 2).contiguous().transpose(0, 2)
    psd = 1 / torch.tensor(case["a"], dtype=torch.float32 if style == 3 else torch.float64).reshape(case["a_sh"]) ** 2
    unit = 2.0 ** case["ex"]
    x = x * unit
    psd = (psd.double() if case["ex"] < -60 else psd) * unit**2
    x0, p0 = x.clone(), psd.clone()
    fd = case["fd"][0] / case["fd"][1]
    kw = {}
    for key, name in (("hp", "highpass"), ("lp", "lowpass")):
        if case[key]:
            kw[name] = case[key][0] / case[key][1]
    ckw = {} if case["crop"] and style % 2 else dict(crop=case["crop"])
    ev = dict(op="whiten", wronglen=False)
    for k in ("x_sh", "rate", "a_sh", "a", "fd", "hp", "lp", "crop", "win"):
        ev[k] = case[k]
    ev["x_d"] = case["x"]
    ev["odd"] = kind == "mod"
    if kind == "fn":
        w = torch.tensor(case["win"], dtype=torch.float64) / 10 if case["win"] else fd
        f = lambda x, p: whiten(x, p, w, rate, **kw, **ckw)  # noqa: E731
        y, ev["err"] = attempt(crowd, case, f, x, psd) if psd.ndim == 3 and len(psd) == B else attempt(crowd, case, lambda v: f(v, psd), x)
    elif kind == "mod":
        m = Whiten(fd, rate, **kw)
        if style == 4:
            m(torch.randn(1, C, 64), psd.reshape(-1)[:1].expand(33).double())
        if style in (0, 5):  # the PSD changes in place between two calls
            psd *= 4 if style else 0.25
            attempt(m, x, psd)
            psd.copy_(p0)
        call = lambda v, p=psd: m(v, p, **ckw)  # noqa: E731
        y, ev["err"] = attempt(crowd, case, call, x, psd) if psd.ndim == 3 and len(psd) == B else attempt(crowd, case, call, x)
    else:
        m = FixedWhiten(C, n / rate, rate, dtype=psd.dtype)
        if style in (4, 5):  # used before it is fitted anew
            m.fit(*[2 / rate, 4 / rate][style - 4 : style - 3], *(torch.ones(n // 2 + 1) * 2 for _ in range(C)), highpass=rate / 8)
            attempt(m, x.flip(-1), crop=True)
        m.fit(fd, *psd.reshape(C, -1), **kw)
        if style == 3:  # or takes over the state of another one
            m, state = FixedWhiten(C, n / rate, rate, dtype=psd.dtype), m.state_dict()
            m.fit(2 / rate, *(torch.ones(n // 2 + 1) * 2 for _ in range(C)))
            attempt(m, x.flip(-1))
            m.load_state_dict(state)
        if case.get("wronglen"):
            ev["wronglen"] = True
            x = x[..., :-1] if style % 2 else torch.cat([x, x], -1)
        y, ev["err"] = attempt(crowd, case, lambda v: m(v, **ckw), x)
        if not ev["wronglen"] and n <= 2 * int(fd * rate / 2):
            return  # settle-in longer than the data: only whiten() promises an error
    if not ev["err"]:
        ev.update(qtens("out", y, 1000))
        ev["single"] = y.dtype == torch.float32
        ev["mutated"] = not (torch.equal(psd, p0) and (ev["wronglen"] or torch.equal(x, x0)))
    yield ev


def relations(case):
    import torch
    from ml4gw.spectral import whiten
    from ml4gw.transforms import FixedWhiten, Whiten

    torch.manual_seed(case["seed"])
    n, rate = case["n"], 64
    f = n // 2 + 1
    sh = {1: [f], 2: [2, f], 3: [3, 2, f]}[case["rank"]]
    psd = (torch.rand(sh) * 3 + 0.2).double()
    x, z = torch.randn(3, 2, n), torch.randn(3, 2, n)
    fd = 0.25
    kw = dict(highpass=4.0) if case["seed"] % 2 else {}
    if case["seed"] % 3 == 0:
        kw["lowpass"] = 24.0

    def same(what, fa, fb):
        a, e1 = attempt(fa)
        b, e2 = attempt(fb)
        ev = dict(op="same", what=what, err=e1 or e2)
        if not ev["err"]:
            ev.update(qtens("a", a, 20000), **qtens("b", b, 20000))
        return ev

    W = lambda x, p=psd, **k: whiten(x, p, fd, rate, **kw, **k)  # noqa: E731
    w = case["which"]
    if w == 0:
        yield same("not linear", lambda: W(0.5 * x - 0.25 * z), lambda: 0.5 * W(x) - 0.25 * W(z))
    elif w == 1:
        off = torch.randn(3, 2, 1) * 20
        yield same("depends on a constant offset", lambda: W(x + off), lambda: W(x))
    elif w == 2:
        pad = int(fd * rate / 2)
        yield same("cropped result is not the interior", lambda: W(x), lambda: W(x, crop=False)[..., pad:-pad])
    elif w == 3:
        full = psd.expand(3, 2, f)
        yield same(
            "series influence each other", lambda: W(x),
            lambda: torch.stack([torch.stack([W(x[i : i + 1, j : j + 1], full[i, j])[0, 0] for j in range(2)]) for i in range(3)]),
        )
    elif w == 4:
        yield same("transform differs from the function", lambda: Whiten(fd, rate, **kw)(x, psd), lambda: W(x))
    elif w == 5:
        p = psd.expand(3, 2, f)[0].contiguous()
        m = FixedWhiten(2, n / rate, rate)
        fd2 = [0.25, 0.125, 0.7, 0.3, 0.6][case["seed"] % 5]
        m.fit(fd2, *p, **kw)
        yield same("fitted transform differs from whitening with its PSD", lambda: m(x), lambda: whiten(x, p, fd2, rate, **kw))
        m = FixedWhiten(2, n / 20, 20)
        m.fit(0.7, *p)
        yield same("fitted transform differs from whitening with its PSD", lambda: m(x), lambda: whiten(x, p, 0.7, 20))
        yield dict(op="refused", err=attempt(m.fit, 0.5, p[0])[1])
        yield dict(op="refused", err=attempt(m.fit, 0.5, *p, p[0])[1])
        yield dict(op="refused", err=attempt(m, torch.randn(1, 2, n + 1))[1])
    else:
        perm = torch.randperm(3)
        pp = psd[perm] if case["rank"] == 3 else psd
        yield same("batch order matters", lambda: W(x[perm], pp), lambda: W(x)[perm])
        yield dict(op="refused", err=attempt(whiten, x[..., :16], torch.ones(9).double(), 0.25, rate)[1])
