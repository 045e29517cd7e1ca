"""T10: multi-resolution spectrogram."""
from .enc import attempt, crowd, qtens, quant

MC = ["MultiRes_MC"]
TRACE = "MultiRes_Trace"


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(130, 1200)):
        n = rng.choice([12, 16, 20, 24, 31, 32, 40, 48])
        rate = rng.choice([1, 2, 4, 8, n, n / 2, 16, 10, 30, 49, 1000, 0.3])
        more = rng.choice([0, 0, 0, 0, 0.25, 0.5, 0.9])  # lengths that hold a fraction of a sample more
        if int((n + more) / rate * rate) != n:
            rate = n
        k = rng.choice([1, 2, 2, 3, 3, 4])
        win = rng.random() < 0.3
        flaw = rng.choice(["lists", "norm", "length"]) if rng.random() < 0.2 else ""
        nl = {key: rng.choice([k, k, 1]) for key in ("n_fft", "hop_length", "power")}
        nl["n_fft"] = k
        opts = dict(
            n_fft=[rng.choice([4, 5, 6, 8, 9, 10, 12, 16]) for _ in range(nl["n_fft"])],
            hop_length=[rng.choice([1, 2, 3, 4, 5, 7]) for _ in range(nl["hop_length"])],
            power=[rng.choice([1, 2]) for _ in range(nl["power"])],
        )
        if win:
            opts["win_length"] = [rng.choice([2, 3, 4]) for _ in range(rng.choice([k, 1]))]
        if flaw == "lists":
            key = rng.choice(["hop_length", "power"])
            opts["n_fft"] = (opts["n_fft"] * 3)[: max(k, 2)]
            opts[key] = (opts[key] * 4)[: max(k, 2) + 1]
        opts = dict(rng.sample(sorted(opts.items()), len(opts)))
        B, C = rng.choice([(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)])
        yield dict(n=n, rate=rate, more=more, opts=opts, B=B, C=C, norm=rng.choice(["", "one", "all"]) if flaw != "norm" else "bad", extra=rng.choice([-1, 1, n]) if flaw == "length" else 0,
                   seed=rng.randrange(1 << 20), loud=rng.randrange(3), style=rng.randrange(3))


    # grids whose sizes make the proportional index sensitive to rounding, and large grids in general
    pairs = _delicate(132)
    for i in range(ctx.n(36, 300)):
        a, b = rng.choice(pairs) if i % 3 else (rng.randint(2, 90), rng.randint(91, 132))
        if i % 2:  # along frequency
            n_fft = [2 * a - 2 + rng.randrange(2), 2 * b - 2]
            n = n_fft[1] * rng.randint(1, 2)
            hops = [n // rng.randint(1, 2)]
        else:  # along time
            n, hops = next(((b - 1, [1, h]) for h in range(2, b) if (b - 1) // h + 1 == a), (b, [1, max(2, b // a)]))
            n_fft = [rng.choice([4, 6]), 4]
        if rng.random() < 0.5 and len(hops) == 2:
            n_fft, hops = n_fft[::-1], hops[::-1]
        yield dict(n=n, rate=n, more=0, opts=dict(n_fft=n_fft, hop_length=hops, power=[rng.choice([1, 2])]), B=1, C=1, norm="", extra=0, seed=rng.randrange(1 << 20), loud=0, style=0)


def _delicate(n):
    """Sizes for which a rounded ratio sends some bin to a neighbour."""
    import torch

    out = []
    for m in range(3, n + 1):
        i = torch.arange(m)
        for s in range(2, m):
            exact = i * s // m
            if any(not torch.equal(exact, (i * r).long()) for r in (torch.tensor(s) / m, s / m, 1 / torch.tensor(m / s))):
                out.append((s, m))
    return out


def execute(case):
    import itertools
    import warnings

    import torch
    from ml4gw.transforms import MultiResolutionSpectrogram
    from torchaudio.transforms import Spectrogram

    warnings.simplefilter("ignore")
    n, opts, B, C = case["n"], case["opts"], case["B"], case["C"]
    kw = {k: list(v) for k, v in opts.items()}
    size = max(len(v) for v in kw.values())
    norm = case["norm"]
    if norm:
        kw["normalized"] = [True] if norm == "one" else [True] * size
        if norm == "bad":
            kw["normalized"][-1] = False
    length = (n + case["more"]) / case["rate"]
    if case["style"] == 2 and length == int(length):
        length = int(length)
    ev = dict(op="run", opts=opts, n=n, given=n + case["extra"], lead=[B, C], flawed=norm == "bad")
    m, ev["err"] = attempt(MultiResolutionSpectrogram, length, case["rate"], **kw)
    ev["built"] = not ev["err"]
    if ev["built"]:
        g = torch.Generator().manual_seed(case["seed"])
        x = torch.randint(-9, 10, (B, C, n + case["extra"]), generator=g).float()
        if case["loud"]:  # bursts and tones, so that the parts win in turn
            x[..., (case["seed"] % n) - 1 :] *= 5
            x += 8 * torch.cos(torch.arange(x.shape[-1]) * (case["seed"] % 7))
        x /= 8
        if case["style"] == 1:
            x = x.transpose(0, 2).contiguous().transpose(0, 2)
        unit = [1, 2.0**-20, 2.0**15][case["seed"] % 3]  # powers go with its square
        x = x * unit
        x0 = x.clone()
        attempt(m, x * 3)
        y, ev["err"] = attempt(crowd, case, m, x, cap=700)
        if not ev["err"]:
            ev["mutated"] = not torch.equal(x, x0)
            ev.update(qtens("y", y / unit**2, 1000))
            ev["parts"] = []
            keys = sorted(opts)
            for combo in itertools.product(*(sorted(set(opts[k])) for k in keys)):
                o = dict(zip(keys, combo))
                t = Spectrogram(normalized=True, **o)
                ev["parts"].append(dict(o, v=[quant(t(x[b, c]) / unit**2, 1000)[1] for b in range(B) for c in range(C)]))
    yield ev
