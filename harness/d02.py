"""D02: kernels and targets of the in-memory dataset are faithful windows."""
from .enc import attempt, exact
from .inmem import big, big_cases, build, near, run

MC = ["InMemory_MC"]
TRACE = "InMemory_Trace"


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(260, 3000)):
        k = rng.randint(1, 9)
        s = rng.choice([1, 1, 2, 3, 4, 7])
        nk = rng.randint(1, 12)
        t = (nk - 1) * s + k + rng.randint(0, s - 1)
        coin = rng.random() < 0.5
        b = rng.randint(1, 5)
        bpe = 0 if coin and rng.random() < 0.5 else rng.randint(1, max(1, nk // b))
        if bpe:
            b = min(b, nk)
        cfg = dict(
            t=t, c=rng.randint(1, 5), k=k, s=s, b=b, bpe=bpe, coin=coin, shuf=rng.random() < 0.7,
            y=coin and rng.random() < 0.6,
        )
        nb = bpe or -(-nk // b)
        sched = [["open", 1]] + [["next", 1]] * nb + [["open", 2], ["open", 3], ["next", 3], ["next", 2]]
        yield dict(kind="run", cfg=cfg, sched=sched[:12], seed=rng.randrange(1 << 20), style=i % 4)
    for i in range(ctx.n(16, 60)):
        s, k = rng.choice([1, 2, 3]), rng.randint(1, 4)
        nk = rng.choice([2, 3, 5, 6])
        coin = i % 2 == 0
        cfg = dict(
            t=(nk - 1) * s + k + rng.randint(0, s - 1), c=3, k=k, s=s, b=1 if coin else nk, bpe=1, coin=coin,
            shuf=True, y=False,
        )
        yield dict(kind="hist", cfg=cfg, sched=[], seed=rng.randrange(1 << 20), style=0)
    yield from big_cases(ctx)


def execute(case):
    if case.get("big"):
        yield from big(case, "D02")
        return
    if case["kind"] == "run":
        yield from run(case, "D02")
        return
    yield from histogram(case, "D02")


def histogram(case, pid):
    """How often each window is drawn over many epochs."""
    c = case["cfg"]
    ds, err, X, y, shift = build(case)
    yield dict(op="new", cfg=c, x=exact(X)[1], y=near(y, shift)[1], err=err, pid=pid)
    if err:
        return
    nk = (c["t"] - c["k"]) // c["s"] + 1
    lut = [{v: t for t, v in enumerate(row)} for row in X.tolist()]
    counts = [[0] * nk for _ in range(c["c"])]
    same = 0
    for _ in range(case.get("draws", 1500) // c["b"]):
        batch = next(iter(ds))
        for el in batch[:, :, 0].tolist():
            w = [lut[i].get(v, 10**6) // c["s"] for i, v in enumerate(el)]
            for i, x in enumerate(w):
                if x >= len(counts[i]):
                    counts[i] += [0]
                    x = len(counts[i]) - 1
                counts[i][x] += 1
            same += w[0] == w[-1]
    for ch in range(c["c"]):
        yield dict(op="hist", counts=counts[ch], same=same if ch == 0 else 0, pid=pid)
