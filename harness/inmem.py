"""Driver shared by D01 and D02: one InMemoryDataset, several epochs."""
from .enc import attempt, exact


def near(y, shift):
    """Targets without their common offset (beyond what single precision holds)."""
    return exact(y.double() - shift)


def build(case):
    import torch
    from ml4gw.dataloading import InMemoryDataset

    c = case["cfg"]
    n = c["c"] * c["t"]
    style = case.get("style", 0)
    g = torch.Generator().manual_seed(case["seed"])
    # every sample has a value of its own
    base = torch.randperm(4 * (n + c["t"]), generator=g)[: n + c["t"]] - n
    if style == 1:  # beyond single precision
        base = base.double() + 300_000_000
    else:
        base = base.to([torch.float32, torch.float64, torch.float32, torch.float64][style % 4])
    X = base[:n].reshape(c["c"], c["t"]).clone()
    if style == 2:
        X = X.t().contiguous().t()
    y = base[n:].clone()
    shift = 0
    if style in (0, 2):  # targets have a type of their own
        kind, shift = [(torch.float32, 0), (torch.float64, 2**40), (torch.int64, 2**40), (torch.int32, 0)][case["seed"] % 4]
        y = y.to(kind) + shift
    torch.manual_seed(case["seed"])
    kw = {}
    if c["s"] != 1 or style % 2:
        kw["stride"] = c["s"]
    if c["bpe"]:
        kw["batches_per_epoch"] = c["bpe"]
    if not c["coin"] or style % 2:
        kw["coincident"] = c["coin"]
    if not c["shuf"] or style % 2:
        kw["shuffle"] = c["shuf"]
    ds, err = attempt(
        InMemoryDataset, X, c["k"], y=y if c["y"] else None, batch_size=c["b"], **kw
    )
    return ds, err, X.clone(), y.clone(), shift


def big_cases(ctx):
    """Datasets with more windows than small integers can count."""
    rng = ctx.rng
    for i in range(ctx.n(8, 40)):
        s, k = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 4])
        nk = rng.choice([257, 300, 33000, 40000, 66000, 70001])
        coin, shuf = i % 2 == 0, i % 4 > 1
        b = rng.choice([512, 1000, 4096])
        cfg = dict(t=(nk - 1) * s + k + rng.randint(0, s - 1), c=rng.choice([1, 2, 3]) if coin or shuf else 1 + i % 2 * rng.choice([0, 1]),
                   k=k, s=s, b=min(b, nk), bpe=0, coin=coin, shuf=shuf, y=coin and i % 3 == 0)
        if not coin:
            cfg["bpe"] = nk // cfg["b"]
        elif i % 3 == 1:
            cfg["bpe"] = max(1, nk // cfg["b"] // rng.choice([1, 2]))
        yield dict(kind="big", big=True, cfg=cfg, seed=rng.randrange(1 << 20))


def big(case, pid):
    import torch
    from ml4gw.dataloading import InMemoryDataset

    c = case["cfg"]
    X = (torch.arange(1, c["c"] + 1)[:, None] * 2**21 + torch.arange(c["t"])).float()
    y = -torch.arange(c["t"]).float() - 1
    torch.manual_seed(case["seed"])
    ev = dict(op="big", cfg=c, pid=pid, sizes=[], rows=[], wins=0, last=0)

    def go():
        ds = InMemoryDataset(X, c["k"], y=y if c["y"] else None, batch_size=c["b"], stride=c["s"], batches_per_epoch=c["bpe"] or None,
                             coincident=c["coin"], shuffle=c["shuf"])
        return list(ds)

    out, ev["err"] = attempt(go)
    if not ev["err"]:
        xs = [o[0] if c["y"] else o for o in out]
        ev["sizes"] = [len(x) for x in xs]
        n = sum(ev["sizes"])
        first = torch.cat([x[:, 0, 0] for x in xs]).long() - 2**21
        ev["wins"], ev["last"] = len(torch.unique(first)), int(first.max()) // c["s"]
        rows = torch.cat(xs)
        ys = torch.cat([o[1] for o in out]) if c["y"] else None
        g = torch.Generator().manual_seed(case["seed"])
        pick = sorted(set([0, 1, n - 1, n - 2] + torch.randint(n, (40,), generator=g).tolist()) & set(range(n)))
        for m in pick:
            ev["rows"].append(dict(m=m, x=exact(rows[m])[1], y=exact(ys[m])[1] if c["y"] else []))
    yield ev


def run(case, pid):
    c = case["cfg"]
    ds, err, X, y, shift = build(case)
    yield dict(op="new", cfg=c, x=exact(X)[1], y=near(y, shift)[1], err=err, pid=pid)
    if err:
        return
    n, err = attempt(len, ds)
    yield dict(op="len", val=n if err == "" else -1, err=err, pid=pid)
    its = {}
    for op, e in case["sched"]:
        if op == "open":
            its[e] = iter(ds)
            yield dict(op="open", e=e)
        elif op == "abandon":
            its.pop(e)
            yield dict(op="abandon", e=e)
        else:
            yield from step(its[e], e, c, X, pid, shift)
    yield dict(op="stored", x=exact(getattr(ds, "X", X))[1], y=near(getattr(ds, "y", y) if c["y"] else y, shift)[1], pid=pid)


def step(it, e, c, X, pid, shift=0):
    val, err = attempt(next, it, None)
    ev = dict(op="next", e=e, err=err, pid=pid, stop=err == "" and val is None)
    if err or ev["stop"]:
        yield ev
        return
    if c["y"]:
        x, yy = val
        ev["ysh"], ev["yd"] = near(yy, shift)
    else:
        x = val
    ev["sh"], ev["d"] = exact(x)
    ev["dtype_changed"] = x.dtype != X.dtype
    yield ev
