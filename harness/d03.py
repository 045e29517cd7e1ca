"""D03: chunked dataset serves windows of the current chunk."""
from .enc import attempt, exact

MC = ["Chunked_MC"]
TRACE = "Chunked_Trace"
NEEDS_STIM = True


def cases(ctx):
    rng = ctx.rng
    stim = ctx.stim["Chunked_MC"]
    for i, s in enumerate(rng.sample(stim, min(len(stim), ctx.n(260, 3000)))):
        yield dict(kind="run", cfg=s["cfg"], shapes=s["shapes"], seed=rng.randrange(1 << 20), style=i % 4)
    for i in range(ctx.n(80, 700)):
        k = rng.randint(1, 9)
        shapes = [
            [rng.randint(1, 6), rng.randint(1, 5), k + rng.choice([0, 0, 1, 2, 5, 17]) - (rng.random() < 0.03)]
            for _ in range(rng.randint(1, 5))
        ]
        if rng.random() < 0.3:
            shapes = [shapes[0]] * len(shapes)
        shapes = [s if s[2] > 0 else [s[0], s[1], 1] for s in shapes]
        cfg = dict(k=k, b=rng.choice([1, 2, 3, 7]), bpc=rng.randint(1, 4), coin=rng.random() < 0.5)
        yield dict(kind="run", cfg=cfg, shapes=shapes, seed=rng.randrange(1 << 20), style=i % 4)
    for i in range(8):  # chunks shorter than a kernel, the first or a later one
        shapes = [[2, 2, 6], [3, 1, 5], [2, 2, 7]]
        shapes[i % 3][2] = [4, 2][i // 4]
        yield dict(kind="run", cfg=dict(k=5, b=2, bpc=2, coin=i % 2 == 0), shapes=shapes, seed=i, style=i % 4)
    for i in range(ctx.n(12, 40)):
        k = rng.randint(1, 4)
        sh = [rng.choice([1, 2, 3, 4, 8, 13]), 3, k + rng.choice([1, 2, 3, 4, 9])]
        # a leading chunk of another shape: draws must follow the current one
        yield dict(
            kind="hist", cfg=dict(k=k, b=10, bpc=max(150, 4 * sh[0] * (sh[2] - k + 1)), coin=i % 2 == 0), lead=[2, 2, k + 1], sh=sh,
            seed=rng.randrange(1 << 20),
        )


def chunk(q, sh, style):
    import torch

    n = sh[0] * sh[1] * sh[2]
    x = torch.arange(n, dtype=torch.float64 if style == 1 else torch.float32) + q * 100000
    x = x.reshape(sh)
    if style == 2:
        x = x.permute(2, 0, 1).contiguous().permute(1, 2, 0)
    return x


def execute(case):
    import torch
    from ml4gw.dataloading import ChunkedTimeSeriesDataset

    torch.manual_seed(case["seed"])
    c = case["cfg"]
    if case["kind"] == "hist":
        yield from histogram(case)
        return
    shapes, style = case["shapes"], case["style"]
    events = []
    pulled = [0]

    def source():
        for q, sh in enumerate(shapes, 1):
            pulled[0] = q
            events.append(dict(op="pull", shape=sh))
            yield chunk(q, sh, style)

    class Source(list):
        def __iter__(self):
            return source()

    src = source() if style == 3 else Source(shapes)
    ds, err = attempt(ChunkedTimeSeriesDataset, src, c["k"], c["b"], c["bpc"], coincident=c["coin"])
    n = -1
    if not err and style != 3:
        n, err = attempt(len, ds)
    yield dict(op="new", cfg=c, err=err, len=n if n is not None else -1, nchunks=len(shapes))
    if err:
        return
    for _ in range(1 if style == 3 else 2):  # iterating again starts over
        it = iter(ds)
        for _ in range(c["bpc"] * len(shapes) + 2):
            val, err = attempt(next, it, None)
            yield from events
            events.clear()
            if err:
                yield dict(op="fail", err=err)
                return
            if val is None:
                yield dict(op="end", pulled=pulled[0], nchunks=len(shapes))
                break
            sh, d = exact(val)
            yield dict(op="batch", sh=sh, d=d)
        if style == 3:
            break
        yield dict(op="new", cfg=c, len=-1, nchunks=len(shapes))


def histogram(case):
    from ml4gw.dataloading import ChunkedTimeSeriesDataset

    c = case["cfg"]
    chunks = [chunk(1, case["lead"], 0), chunk(0, case["sh"], 0)]
    ds = ChunkedTimeSeriesDataset(chunks, c["k"], c["b"], c["bpc"], coincident=c["coin"])
    N, C, T = case["sh"]
    starts = T - c["k"] + 1
    hist = {0: [0] * (N * starts), C - 1: [0] * (N * starts)}
    bch = [0, 0]  # first two batch elements agree in element, time
    cch = [0, 0]  # first and last channel agree
    for i, x in enumerate(ds):
        if i < c["bpc"]:
            continue
        p = x[:, :, 0].long()
        el, t = p // (C * T), p % T
        for ch in hist:
            for e, s in zip(el[:, ch].tolist(), t[:, ch].tolist()):
                ok = 0 <= e < N and s < starts
                hist[ch] += [] if ok else [0]
                hist[ch][e * starts + s if ok else -1] += 1
        for b in range(0, len(x) - 1):
            bch[0] += int(el[b, 0] == el[b + 1, 0])
            bch[1] += int(t[b, 0] == t[b + 1, 0])
        cch[0] += int((el[:, 0] == el[:, -1]).sum())
        cch[1] += int((t[:, 0] == t[:, -1]).sum())
    yield dict(op="hist", n=N, starts=starts, counts=hist[0], same_el=bch[0], same_t=bch[1])
    if not c["coin"]:
        yield dict(op="hist", n=N, starts=starts, counts=hist[C - 1], same_el=cch[0], same_t=cch[1])
