"""A02: drawing from a bank of waveforms."""
from .enc import attempt, exact

MC = ["Sampler_MC"]
TRACE = "Sampler_Trace"
NEEDS_STIM = True


def cases(ctx):
    rng = ctx.rng
    st = [dict(t) for t in sorted({(("n", s["n"]), ("h", tuple(s["h"]))) for s in ctx.stim["Sampler_MC"]})]
    for s in rng.sample(st, min(len(st), ctx.n(220, 1500))):
        names = rng.sample(["plus", "cross", "breathing", "hx"], rng.choice([1, 1, 2, 2, 3, 4]))
        params = rng.random() < 0.6
        n = s["n"]
        h = list(s["h"])
        if rng.random() < 0.3:  # the same history on a larger bank
            k = rng.choice([7, 40])
            h = [v if v < 0 else k + 1 if v > n else min(k, v * (k // n)) for v in h]
            n = k
        names += ["parameters"] if params else []
        rows = [n] * len(names)
        if len(rows) > 1 and rng.random() < 0.1:
            rows[rng.randrange(len(rows))] += rng.choice([-1, 1])
        yield dict(names=names, rows=rows, cols=[rng.randint(1, 4) for _ in names], h=h, poke=rng.random() < 0.4,
                   f64=rng.random() < 0.3, seed=rng.randrange(1 << 20), stat=rng.random() < 0.12)
    for n in (300, 900, 500):  # large banks
        yield dict(names=["plus", "cross", "parameters"][: rng.choice([2, 3])], rows=[n] * 3, cols=[2, 1, 2], h=[-1, n, n - 1, 7, n + 1], poke=False, f64=False, seed=rng.randrange(1 << 20), stat=False)


def execute(case):
    import torch
    from ml4gw.transforms import WaveformSampler

    torch.manual_seed(case["seed"])
    dt = torch.float64 if case["f64"] else torch.float32
    bank = {}
    for k, (name, r, w) in enumerate(zip(case["names"], case["rows"], case["cols"]), 1):
        bank[name] = (100000 * k + 100 * torch.arange(1, r + 1)[:, None] + torch.arange(1, w + 1)[None]).to(dt)
    shift = {}
    if "parameters" in bank and case["seed"] % 3:
        # parameters have a type of their own, and values single precision cannot hold
        shift["parameters"] = 2**40
        bank["parameters"] = bank["parameters"].to([torch.int64, torch.float64][case["seed"] % 2]) + 2**40
    keep = {k: v.clone() for k, v in bank.items()}
    only = {k: v for k, v in bank.items() if k != "parameters"}
    if "parameters" in bank:
        m, err = attempt(lambda: WaveformSampler(parameters=bank["parameters"], **only))
    else:
        m, err = attempt(lambda: WaveformSampler(**only))
    yield dict(op="new", names=case["names"], rows=case["rows"], cols=case["cols"], err=err)
    if err:
        return

    def draw(n):
        y, err = attempt(m, n)
        if err:
            return None, err
        pol, par = y if "parameters" in bank else (y, None)
        got = dict(pol)
        if par is not None:
            got["parameters"] = par
        return got, ""

    for n in case["h"]:
        got, err = draw(n)
        ev = dict(op="draw", n=n, err=err, changed=any(not torch.equal(bank[k], keep[k]) for k in bank))
        if not err:
            enc = [exact(v.double() - shift.get(k, 0)) for k, v in got.items()]
            ev.update(names=list(got), sh=[s for s, _ in enc], d=[d for _, d in enc])
            if case["poke"]:  # what the caller does with a draw is its own affair
                for v in got.values():
                    v.zero_()
        yield ev
    got, err = draw(-1)
    ev = dict(op="draw", n=-1, err=err, changed=any(not torch.equal(bank[k], keep[k]) for k in bank))
    if not err:
        enc = [exact(v.double() - shift.get(k, 0)) for k, v in got.items()]
        ev.update(names=list(got), sh=[s for s, _ in enc], d=[d for _, d in enc])
    yield ev
    if case["stat"]:
        n, T = min(3, case["rows"][0]), 300
        first = case["names"][0]
        y, err = attempt(lambda: torch.cat([draw(n)[0][first][:, 0] for _ in range(T)]))
        yield dict(op="stat", n=n, t=T, err=err, rows=[] if err else [int(v % 100000) // 100 for v in y])
