"""N02: online averaging equals the average of all overlapping predictions."""
from .enc import attempt, exact, qtens, stray

MC = ["OnlineAverager_MC"]
TRACE = "OnlineAverager_Trace"
NEEDS_STIM = True
Q = 256


def cases(ctx):
    rng = ctx.rng
    stim = [s for s in ctx.stim["OnlineAverager_MC"] if any(x[0] == "push" for x in s["sched"])]
    for i, s in enumerate(rng.sample(stim, min(len(stim), ctx.n(260, 4000)))):
        yield dict(cfg=s["cfg"], sched=s["sched"], style=i % 6, extra=i % 3, seed=rng.randrange(1 << 20))
    for i in range(ctx.n(60, 500)):
        cfg = dict(
            u=rng.randint(1, 9), n=rng.choice([1, 2, 3, 4, 5, 7, 8]), chans=rng.randint(1, 4),
            offset=rng.choice([0, 0, 1, 2, 5]),
        )
        sched = [
            [rng.choice(["push"] * 7 + ["restart"]), rng.choice([1, 1, 2]), rng.choice([1, 2, 3, 4, 6, 9])]
            for _ in range(rng.randint(2, 7))
        ]
        yield dict(cfg=cfg, sched=sched, style=i % 6, extra=rng.randint(0, 4), seed=rng.randrange(1 << 20))


def execute(case):
    import torch
    from ml4gw.nn.streaming import OnlineAverager

    c, style = case["cfg"], case["style"]
    mods = {}

    def mod(b):
        # offset 0 is passed as 0 and as None alternately: same meaning
        off = c["offset"] if c["offset"] or style % 2 else None
        if b not in mods:
            mods[b] = OnlineAverager(c["u"], b, c["n"], c["chans"], off)
            if style == 4:  # restored object
                other = OnlineAverager(c["u"], b, c["n"], c["chans"], off)
                other.load_state_dict(mods[b].state_dict())
                mods[b] = other
        return mods[b]

    m, err = attempt(mod, case["sched"][0][2] or 1)
    yield dict(op="new", cfg=c, err=err)
    if err:
        return
    state = {1: None, 2: None}
    g = torch.Generator().manual_seed(case["seed"])
    span = c["u"] * c["n"]
    for op, s, b in case["sched"]:
        if op == "restart":
            state[s] = mod(1).get_initial_state() if style == 3 else None
            yield dict(op="restart", stream=s)
            continue
        ln = span + c["offset"] + case["extra"]
        u = torch.randint(-2000, 2000, (b, c["chans"], ln), generator=g).to(
            torch.float64 if style == 5 else torch.float32
        )
        if style == 2:
            u = u.permute(2, 0, 1).contiguous().permute(1, 2, 0)
        u0 = u.clone()
        s0 = None if state[s] is None else state[s].clone()
        if style == 3:
            stray(mod(b), u, state[s])
        res, err = attempt(mod(b), u, state[s])
        ev = dict(op="push", stream=s, b=b, len=ln, u=exact(u0)[1], q=Q, err=err)
        if err:
            yield ev
            return
        out, new = res
        ev.update(qtens("out", out, Q))
        ev.update(qtens("state", new, Q))
        ev["mutated"] = not bool(torch.equal(u, u0)) or (s0 is not None and not torch.equal(s0, state[s]))
        state[s] = new
        yield ev
