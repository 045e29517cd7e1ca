"""N01: streaming snapshots equal the offline windows of the stream."""
from .enc import attempt, exact, stray, tens

MC = ["Snapshotter_MC"]
TRACE = "Snapshotter_Trace"
NEEDS_STIM = True


def cases(ctx):
    stim = ctx.stim["Snapshotter_MC"]
    rng = ctx.rng
    pick = rng.sample(stim, min(len(stim), ctx.n(350, 6000)))
    for i, s in enumerate(pick):
        yield dict(cfg=s["cfg"], sched=s["sched"], style=i % 6, seed=rng.randrange(1 << 20))
    # larger configurations, longer histories than TLC enumerates
    for i in range(ctx.n(60, 500)):
        size = rng.randint(2, 40)
        stride = rng.choice([1, 2, size - 1, rng.randint(1, size - 1)])
        stride = max(1, min(stride, size - 1))
        chans = rng.randint(1, 5)
        split = []
        if rng.random() < 0.5:
            left = chans
            while left:
                k = rng.randint(1, left)
                split.append(k)
                left -= k
        cfg = dict(chans=chans, size=size, stride=stride, batch=rng.choice([1, 2, 3, 5, 8, 17]), split=split)
        sched = [
            [rng.choice(["push"] * 6 + ["restart"]), rng.choice([1, 1, 2])]
            for _ in range(rng.randint(2, 9))
        ]
        yield dict(cfg=cfg, sched=sched, style=i % 6, seed=rng.randrange(1 << 20))
    # configurations the constructor must refuse
    for cfg in [
        dict(chans=2, size=4, stride=4, batch=2, split=[]),
        dict(chans=2, size=4, stride=5, batch=1, split=[]),
        dict(chans=3, size=4, stride=1, batch=2, split=[1, 1]),
        dict(chans=2, size=4, stride=1, batch=2, split=[2, 1]),
        dict(chans=2, size=1, stride=1, batch=2, split=[]),
    ]:
        yield dict(cfg=cfg, sched=[], style=0, seed=0)
    for i in range(8):
        yield dict(refuse=True, split=[[1, 1], [2, 1], [3], [1, 2]][i % 4], off=[1, -1][i // 4], batch=1 + i % 3)


def execute(case):
    import torch
    from ml4gw.nn.streaming import Snapshotter

    if case.get("refuse"):  # updates and states of another number of channels
        n = sum(case["split"])
        mod = Snapshotter(n, 4, 2, case["batch"], case["split"])
        _, err = attempt(mod, torch.randn(n + case["off"], 2 * case["batch"]), torch.zeros(n + case["off"], 2))
        yield dict(op="refuse", err=err)
        return
    c, style = case["cfg"], case["style"]
    mod, err = attempt(
        Snapshotter, c["chans"], c["size"], c["stride"], c["batch"],
        c["split"] if c["split"] else None,
    )
    yield dict(op="new", cfg=c, err=err)
    if err:
        return
    dtype = torch.float64 if style % 2 else torch.float32
    state = {1: None, 2: None}
    t = {1: 0, 2: 0}
    g = torch.Generator().manual_seed(case["seed"])
    for op, s in case["sched"]:
        if op == "restart":
            if style < 3:
                state[s] = None
            else:
                state[s], e = attempt(mod.get_initial_state)
            t[s] = 0
            yield dict(op="restart", stream=s)
            continue
        n = c["batch"] * c["stride"]
        # integers that only the given precision can hold
        top = 2**30 if style % 2 else 2**23
        u = torch.randint(-top, top, (c["chans"], n), generator=g).to(dtype)
        if style == 2:  # a non-contiguous view
            u = u.t().contiguous().t()
        if style == 5:
            u = torch.stack([u, u + 1], -1)[..., 0]
        u0 = u.clone()
        s0 = None if state[s] is None else state[s].clone()
        if style == 3:
            stray(mod, u, state[s])
        res, err = attempt(mod, u) if state[s] is None and style == 1 else attempt(mod, u, state[s])
        ev = dict(op="push", stream=s, u=exact(u0)[1], err=err)
        if err:
            yield ev
            return
        *outs, new = res
        ev["n_out"] = len(outs)
        ev["outs"] = [dict(zip(("sh", "d"), exact(o))) for o in outs]
        ev.update(tens("state", new))
        ev["mutated"] = not bool(torch.equal(u, u0)) or (s0 is not None and not torch.equal(s0, state[s]))
        state[s] = new
        yield ev
