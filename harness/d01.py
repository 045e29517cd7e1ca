"""D01: which windows an in-memory epoch delivers, how many, in what order."""
from .d02 import histogram
from .inmem import big, big_cases, run

MC = ["InMemory_MC", "InMemory_Gen"]
TRACE = "InMemory_Trace"
NEEDS_STIM = True


def cases(ctx):
    rng = ctx.rng
    stim = ctx.stim["InMemory_Gen"]
    for i, s in enumerate(rng.sample(stim, min(len(stim), ctx.n(500, 6000)))):
        yield dict(cfg=s["cfg"], sched=s["sched"], seed=rng.randrange(1 << 20), style=i % 4)
    for i in range(ctx.n(160, 1500)):
        k = rng.randint(1, 6)
        s = rng.choice([1, 1, 2, 3, 5])
        nk = rng.randint(1, 14)
        t = (nk - 1) * s + k + rng.randint(0, s - 1)
        coin = rng.random() < 0.6
        ch = rng.randint(1, 4)
        b = rng.choice([1, 2, 3, 4, nk, nk + 1, rng.randint(1, 8)])
        bpe = 0 if coin and rng.random() < 0.5 else rng.choice([1, 1, 2, 3, max(1, nk // b), nk // b + 1])
        if rng.random() < 0.07:  # refusals
            coin, bpe = False, rng.choice([0, bpe])
        cfg = dict(t=t, c=ch, k=k, s=s, b=b, bpe=bpe, coin=coin, shuf=rng.random() < 0.5, y=rng.random() < 0.3)
        nb = bpe or -(-nk // b)
        sched = []
        opened = []
        for e in (1, 2, 3)[: rng.randint(1, 3)]:
            sched.append(["open", e])
            opened.append(e)
        left = {e: nb + 1 for e in opened}  # the extra one must end the epoch
        while left and len(sched) < 40:
            e = rng.choice(list(left))
            if rng.random() < 0.06:
                sched += [["abandon", e], ["open", e]]
                left[e] = nb + 1
                continue
            sched.append(["next", e])
            left[e] -= 1
            if left[e] == 0:
                del left[e]
        yield dict(cfg=cfg, sched=sched, seed=rng.randrange(1 << 20), style=i % 4)
    for i in range(ctx.n(8, 40)):
        s, k = rng.choice([1, 2, 3]), rng.randint(1, 4)
        nk = rng.choice([2, 3, 5, 6])
        cfg = dict(t=(nk - 1) * s + k + rng.randint(0, s - 1), c=rng.randint(1, 2), k=k, s=s, b=rng.randint(1, max(1, nk // 2)), bpe=1, coin=True, shuf=True, y=False)
        yield dict(cfg=cfg, sched=[], hist=True, seed=rng.randrange(1 << 20), style=0)
    for nk, b in rng.sample([(300, 250), (600, 500), (1100, 900), (2100, 1900)], ctx.n(2, 4)):
        cfg = dict(t=nk + 1, c=1, k=2, s=1, b=b, bpe=1, coin=True, shuf=True, y=False)
        yield dict(cfg=cfg, sched=[], hist=True, draws=20 * b, seed=rng.randrange(1 << 20), style=0)
    yield from big_cases(ctx)
    for i in range(4):
        yield dict(kind="refuse", dt=[-1, 1, 5, -5][i], coin=i != 2, bpe=i % 2)


def execute(case):
    if case.get("kind") == "refuse":  # a target of another length than the data
        import torch
        from ml4gw.dataloading import InMemoryDataset

        from .enc import attempt

        y = torch.arange(10.0 + case["dt"])
        _, err = attempt(InMemoryDataset, torch.randn(2, 10), 3, y=y, batch_size=2, coincident=case["coin"], batches_per_epoch=case["bpe"] or None)
        yield dict(op="refuse", err=err)
        return
    if case.get("big"):
        yield from big(case, "D01")
        return
    if case.get("hist"):
        yield from histogram(case, "D01")
    else:
        yield from run(case, "D01")
