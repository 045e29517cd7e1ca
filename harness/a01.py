"""A01: random inversion and reversal."""
from .enc import attempt, tens

MC = ["Augment_MC"]
TRACE = "Augment_Trace"
NEEDS_STIM = True
SHAPES = [[5], [1], [1, 4], [3, 3], [2, 6], [7, 2], [2, 3, 4], [1, 1, 5], [3, 1, 2], [2, 2, 2, 3], [4, 1], [0, 3], [2, 0]]
PROBS = [[1, 2], [1, 4], [3, 4], [1, 10], [9, 10], [1, 3]]


def cases(ctx):
    rng = ctx.rng
    st = ctx.stim["Augment_MC"]
    seen = sorted({str(s["h"]): s["h"] for s in st}.items())
    for _, h in rng.sample(seen, min(len(seen), ctx.n(200, 2000))):
        yield dict(h=h, sh=rng.choice(SHAPES), dt=rng.randrange(3), strided=rng.random() < 0.3, seed=rng.randrange(1 << 20))
    for sh in ([600, 2, 3], [1, 1100, 2], [4200, 2], [3, 2, 700, 2], [2, 5000], [70, 2, 40]):  # large batches, long series
        yield dict(h=[[["inv", "rev"][i % 2], rng.choice(PROBS)] for i in range(2)], sh=sh, dt=rng.randrange(3), strided=rng.random() < 0.3, seed=rng.randrange(1 << 20))
    for i in range(ctx.n(24, 120)):
        yield dict(stat=True, kind=["inv", "rev"][i % 2], p=rng.choice(PROBS if i > 2 else PROBS[:1]), lead=rng.choice([[5], [2, 2], [6], [1, 3], [3, 2], [1, 1]]),
                   one=rng.random() < 0.5, t=400, seed=rng.randrange(1 << 20))


def execute(case):
    import torch
    from ml4gw.augmentations import SignalInverter, SignalReverser

    make = {"inv": SignalInverter, "rev": SignalReverser}
    torch.manual_seed(case["seed"])
    dt = [torch.float32, torch.float64, torch.int64][case.get("dt", 0)]

    def data(sh):
        return torch.arange(1, torch.Size(sh).numel() + 1, dtype=dt).reshape(sh)

    if case.get("stat"):
        n = 3
        x = data(case["lead"] + [n])
        m = make[case["kind"]](case["p"][0] / case["p"][1])
        T = case["t"]
        if case["one"]:
            y, err = attempt(m, x.expand(T, *x.shape).clone())
        else:
            y, err = attempt(lambda: torch.stack([m(x.clone()) for _ in range(T)]))
        ev = dict(op="stat", kind=case["kind"], p=case["p"], n=n, s=x.numel() // n, t=T, err=err, **tens("x", x))
        if not err:
            ev.update(tens("y", y))
        yield ev
        return
    x = data(case["sh"])
    if case["strided"] and x.dim() > 1:
        x = x.transpose(0, -1).contiguous().transpose(0, -1)
    for kind, p in case["h"]:
        m = make[kind]() if p == [1, 2] else make[kind](p[0] / p[1])
        x0 = x.clone()
        y, err = attempt(m, x)
        ev = dict(op="aug", kind=kind, p=p, err=err, **tens("x", x0))
        if not err:
            ev.update(tens("y", y))
        yield ev
        if err:
            return
        x = y
