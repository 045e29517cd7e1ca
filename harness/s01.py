"""S01: unfolding returns all windows in order and the exact remainder."""
from .enc import attempt, tens

MC = ["Slicing_MC"]
TRACE = "Slicing_Trace"
NEEDS_STIM = True


def cases(ctx):
    rng = ctx.rng
    stim = ctx.stim["Slicing_MC"]
    leads = [[], [1], [2], [3], [1, 1], [2, 1], [1, 3], [3, 2], [4, 3]]
    for i, s in enumerate(stim if ctx.thorough else rng.sample(stim, min(len(stim), 170))):
        yield dict(lead=leads[rng.randrange(len(leads))], t=s["t"], k=s["k"], s=s["s"], drop=bool(i % 2), style=i % 6)
    for i in range(ctx.n(70, 600)):
        t = rng.randint(1, 70)
        k = rng.choice([1, t, rng.randint(1, t), max(1, t - 1)])
        yield dict(
            lead=leads[i % len(leads)], t=t, k=k, s=rng.choice([1, 2, 3, k, k + 1, rng.randint(1, 20)]),
            drop=bool(rng.random() < 0.4), style=i % 6,
        )
    for i in range(ctx.n(8, 40)):  # larger than can be written down
        t, k, s = rng.choice([(70001, 3, 1), (66000, 128, 64), (140003, 7, 2), (5000, 2500, 1), (300007, 1000, 900)])
        yield dict(big=True, lead=[[], [2], [2, 1], [1]][i % 4], t=t, k=k, s=s, seed=rng.randrange(1 << 20))
    for lead in ([300, 2], [1, 700], [1100, 1]):
        yield dict(big=True, lead=lead, t=rng.randint(40, 60), k=7, s=3, seed=rng.randrange(1 << 20))


def big(case):
    import random

    import torch
    from ml4gw.utils.slicing import unfold_windows

    rng = random.Random(case["seed"])
    sh, k, s = [*case["lead"], case["t"]], case["k"], case["s"]
    x = make(sh, 1)
    res, err = attempt(unfold_windows, x, k, s, drop_last=False)
    ev = dict(op="bigunfold", x_sh=sh, k=k, s=s, err=err)
    if not err:
        out, rem = res
        ev.update(out_sh=list(out.shape), rem_sh=list(rem.shape), spots=[], rem=[])
        n, rows = out.shape[0], torch.Size(case["lead"]).numel()
        if out.shape[1:] == (*case["lead"], k):
            o, m = out.reshape(n, rows, k), rem.reshape(rows, -1)
            for _ in range(60):
                p = [rng.choice([0, n - 1, rng.randrange(n)]), rng.choice([rows - 1, rng.randrange(rows)]), rng.choice([0, k - 1, rng.randrange(k)])]
                ev["spots"].append([*p, int(o[tuple(p)])])
                if m.shape[1]:
                    p = [rng.randrange(rows), rng.choice([0, m.shape[1] - 1])]
                    ev["rem"].append([*p, int(m[tuple(p)])])
    yield ev


def make(sh, style):
    import math

    import torch

    n = math.prod(sh)
    x = torch.arange(n, dtype=torch.float64 if style in (1, 4) else torch.float32).reshape(sh)
    if style == 2 and len(sh) > 1:  # same values, permuted memory layout
        x = x.transpose(0, -1).contiguous().transpose(0, -1)
    if style == 3:  # view into a larger buffer
        big = torch.full([*sh[:-1], sh[-1] + 3], -7.0)
        big[..., 1:-2] = x
        x = big[..., 1:-2]
    if style == 5:  # every other element of a larger buffer
        x = x.repeat_interleave(2, -1)
        x[..., 1::2] += 0.5
        x = x[..., ::2]
    return x


def execute(case):
    if case.get("big"):
        yield from big(case)
        return
    from ml4gw.utils.slicing import unfold_windows

    sh = [*case["lead"], case["t"]]
    x = make(sh, case["style"])
    x0 = x.clone()
    if case["style"] == 4 and case["drop"]:
        res, err = attempt(unfold_windows, x, case["k"], case["s"])
    else:
        res, err = attempt(unfold_windows, x, case["k"], case["s"], drop_last=case["drop"])
    ev = dict(op="unfold", x_sh=sh, k=case["k"], s=case["s"], drop=case["drop"], err=err)
    if not err:
        out, rem = (res, None) if case["drop"] else res
        ev.update(tens("out", out))
        if rem is not None:
            ev.update(tens("rem", rem))
        ev["dtype_changed"] = out.dtype != x.dtype or (rem is not None and rem.dtype != x.dtype)
        ev["mutated"] = not bool((x == x0).all())
    yield ev
