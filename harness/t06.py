"""T06: decimation."""
from .enc import attempt, crowd, tens

MC = ["Decimator_MC"]
TRACE = "Decimator_Trace"
NEEDS_STIM = True


def span(s):
    return max(e[1] for e in s) - min(e[0] for e in s)


def cases(ctx):
    rng = ctx.rng
    st = ctx.stim["Decimator_MC"]
    fair = [s for s in st if all(e[0] < e[1] for e in s["s"])]
    for s in rng.sample(st, min(len(st), ctx.n(250, 3000))) + rng.sample(fair, min(len(fair), ctx.n(350, 4000))):
        s = s["s"]
        yield dict(s=s, R=4, U=4, split=rng.random() < 0.5, extra=0, lead=[[], [1], [2], [2, 3]][rng.randrange(4)], style=rng.randrange(3))
    for i in range(ctx.n(300, 4000)):
        R = rng.choice([2, 4, 6, 8, 12, 16, 30])
        U = rng.choice([1, 1, 2, 2, 4])
        if R % U:
            U = 1
        split = rng.random() < 0.5
        t = rng.choice([0, 0, 0, 1, 2, 5]) if rng.random() < 0.5 else 0
        s, first = [], t
        for _ in range(rng.choice([1, 1, 2, 3, 4, 5, 6])):
            d = rng.choice([1, 1, 2, 3, 4, 7])
            s.append([t, t + d, rng.choice([r for r in range(1, R + 1) if R % r == 0])])
            t += d + (rng.choice([0, 0, 0, 1, 3]) if rng.random() < 0.4 else 0)
            if split and rng.random() < 0.3:
                t = max(first, rng.choice([s[-1][0], 0]), t - rng.randint(1, 5))
        flaw = rng.random()
        extra = 0
        if flaw < 0.05:
            s[rng.randrange(len(s))][2] = R + rng.randint(1, 3)
        elif flaw < 0.1:
            e = s[rng.randrange(len(s))]
            e[1] = e[0] - rng.choice([0, 1])
        elif flaw < 0.15 and len(s) > 1:
            k = rng.randrange(len(s) - 1)
            s[k][1] = s[k + 1][0] + 1
        elif flaw < 0.25:
            extra = rng.choice([-1, 1, R])
        if split and rng.random() < 0.5:
            rng.shuffle(s)
        if span(s) * R // U > 990:
            continue
        yield dict(s=s, R=R, U=U, split=split, extra=extra, lead=rng.choice([[], [1], [3], [1, 1], [2, 3], [4, 1]]), style=rng.randrange(3))
    for i in range(ctx.n(30, 200)):
        R = rng.choice([256, 512, 2048, 4096])
        t, s = 0, []
        for _ in range(rng.randint(1, 4)):
            d = rng.choice([1, 2, 3, 8])
            s.append([t, t + d, rng.choice([4, 8, 16, 32])])
            t += d + rng.choice([0, 0, 1])
        yield dict(s=s, R=R, U=1, split=i % 2 == 0, extra=0, lead=[], style=1 + i % 2)
    for shape in ([2], [4], [3], [1, 2], [2, 4], [1, 3, 1]):
        yield dict(shape=shape)


def execute(case):
    import torch
    from ml4gw.transforms.decimator import Decimator

    if "shape" in case:
        d, err = attempt(Decimator, 4, torch.arange(1.0, 1 + torch.Size(case["shape"]).numel()).reshape(case["shape"]))
        yield dict(op="run", s=[], cols=0, err=err)
        return
    s, U = case["s"], case["U"]
    sched = torch.tensor(s, dtype=torch.float64)
    sched[:, :2] /= U
    if U == 1 and case["style"] < 2:
        sched = sched.to(torch.int if case["style"] else torch.long)
    elif case["style"]:
        sched = sched.float()
    ev = dict(op="run", s=s, cols=3, R=case["R"], U=U, split=case["split"], lead=case["lead"], n=0)
    m, ev["err"] = attempt(Decimator, case["R"], sched, case["split"])
    ev["built"] = not ev["err"]
    if ev["built"]:
        n = max(span(s) * case["R"] // U + case["extra"], 0)
        lead = torch.Size(case["lead"])
        rows = lead.numel()
        x = (torch.arange(rows)[:, None] * 1000 + torch.arange(n)).reshape(*lead, n)
        x = x.to([torch.float32, torch.float64, torch.long][case["style"]])
        if rows > 1 and case["style"] == 1:
            x = x.transpose(0, -1).contiguous().transpose(0, -1)
        x0 = x.clone()
        ev["n"] = n
        for _ in range(2):
            y, ev["err"] = attempt(crowd, case, m, x, cap=17000 if case["lead"] else 0)
        if not ev["err"]:
            ev["out"] = [tens("y", v) for v in (y if case["split"] else [y])]
            ev["mutated"] = not torch.equal(x, x0)
    yield ev
