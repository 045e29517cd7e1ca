"""S02: sliced and sampled kernels respect bounds, offsets and coincidence."""
from .enc import attempt, exact, tens
from .s01 import make

MC = ["Slicing_MC"]
TRACE = "Slicing_Trace"


def cases(ctx):
    rng = ctx.rng
    shapes = [[17], [5], [1, 9], [2, 12], [3, 7], [4, 20], [1, 1, 8], [3, 1, 9], [2, 3, 10], [5, 2, 6]]
    # every documented and undocumented combination of ranks
    for sh in shapes + [[2, 2, 2, 6]]:
        for ish in [[3], [1], [2, 2], [3, 3], [4, 1], [5, 2], [2, 2, 2]] + [[sh[0]], [3, sh[0]]]:
            k = rng.randint(1, sh[-1])
            yield dict(kind="slice", sh=sh, ish=ish, k=k, style=rng.randrange(4), seed=rng.randrange(1 << 20))
    for i in range(ctx.n(60, 600)):
        nd = rng.choice([1, 2, 2, 3])
        sh = [rng.randint(1, 5) for _ in range(nd - 1)] + [rng.randint(1, 40)]
        if nd == 1:
            ish = [rng.randint(1, 6)]
        elif nd == 2:
            ish = rng.choice([[rng.randint(1, 6)], [rng.randint(1, 6), sh[0]]])
        else:
            ish = [sh[0]]
        k = rng.choice([1, sh[-1], rng.randint(1, sh[-1])])
        yield dict(kind="slice", sh=sh, ish=ish, k=k, style=i % 4, seed=rng.randrange(1 << 20))
    # sampling: random configurations, refused ones included
    for i in range(ctx.n(220, 2500)):
        nd = rng.choice([1, 2, 2, 2, 3, 3, 4])
        T = rng.randint(2, 60)
        sh = [rng.randint(1, 4) for _ in range(nd - 1)] + [T]
        k = rng.choice([rng.randint(1, T), rng.randint(1, max(1, T // 2)), T + 1 if rng.random() < 0.1 else 1, T])
        off = []
        if rng.random() < 0.65:
            off = [rng.choice([0, rng.randint(-6, 8), -(k // 2), 1, T // 4])]
        n = rng.choice([1, 2, 5, 9])
        if nd == 3:
            n = rng.choice([0, 0, sh[0], sh[0], sh[0] + 1])
        elif rng.random() < 0.06:
            n = 0
        yield dict(
            kind="sample", sh=sh, k=k, n=n, off=off, coincident=bool(rng.random() < 0.5),
            ridx=bool(rng.random() < 0.5), style=i % 4, seed=rng.randrange(1 << 20),
        )
    # distribution of start positions
    for sh, k, off in [
        ([12], 4, []), ([2, 13], 5, []), ([2, 24], 6, [0]), ([3, 24], 5, [3]), ([2, 25], 9, [-2]),
        ([2, 24], 10, [-5]), ([1, 30], 3, [9]), ([9], 8, []),
    ]:
        for co in [True, False]:
            yield dict(kind="hist", sh=sh, k=k, off=off, coincident=co, seed=rng.randrange(1 << 20))
    yield dict(kind="hist", sh=[1500, 2, 16], k=4, off=[], coincident=True, seed=rng.randrange(1 << 20))
    yield dict(kind="hist", sh=[1500, 1, 16], k=4, off=[2], coincident=True, seed=rng.randrange(1 << 20))
    for i in range(ctx.n(16, 80)):  # larger than can be written down
        nd, k = 1 + i % 3, rng.choice([1, 5, 200])
        sh, B = [[rng.choice([70001, 300007])], [2, 70001], [rng.choice([300, 1200]), 2, 400]][nd - 1], rng.choice([300, 1100, 4200])
        ish = [B, 2] if nd == 2 and rng.random() < 0.5 else [sh[0] if nd == 3 else B]
        yield dict(kind="big", sh=sh, ish=ish, k=k, sample=i % 2, seed=rng.randrange(1 << 20))


def big(case):
    import random

    import torch
    from ml4gw.utils.slicing import sample_kernels, slice_kernels

    rng = random.Random(case["seed"])
    sh, k, ish = case["sh"], case["k"], case["ish"]
    x = make(sh, 1)
    if case["sample"]:
        res, err = attempt(sample_kernels, x, k, N=ish[0], coincident=len(ish) == 1, return_idx=True)
        out, idx = (None, None) if err else res
    else:
        idx = torch.randint(0, sh[-1] - k + 1, ish)
        out, err = attempt(slice_kernels, x, idx, k)
    ev = dict(op="bigslice", x_sh=sh, idx_sh=ish, k=k, sampled=bool(case["sample"]), err=err)
    if not err:
        ev.update(out_sh=list(out.shape), spots=[])
        C = sh[-2] if len(sh) > 1 else 1
        if out.numel() == ish[0] * C * k and idx.shape[:1] == (ish[0],):
            o = out.reshape(ish[0], C, k)
            for _ in range(80):
                b, c, j = rng.choice([0, ish[0] - 1, rng.randrange(ish[0])]), rng.randrange(C), rng.choice([0, k - 1, rng.randrange(k)])
                ev["spots"].append([b, c, int(idx[b, c] if idx.ndim == 2 else idx[b]), j, int(o[b, c, j])])
    yield ev


def execute(case):
    import torch
    from ml4gw.utils.slicing import sample_kernels, slice_kernels

    torch.manual_seed(case["seed"])
    sh, k = case["sh"], case["k"]
    if case["kind"] == "big":
        yield from big(case)
        return
    if case["kind"] == "slice":
        x = make(sh, case["style"])
        x0 = x.clone()
        idx = torch.randint(0, sh[-1] - k + 1, case["ish"])
        i0 = idx.clone()
        out, err = attempt(slice_kernels, x, idx, k)
        ev = dict(op="slice", x_sh=sh, idx_sh=case["ish"], idx_d=exact(i0)[1], k=k, err=err)
        if not err:
            ev.update(tens("out", out))
            ev["dtype_changed"] = out.dtype != x.dtype
            ev["mutated"] = not (torch.equal(x, x0) and torch.equal(idx, i0))
        yield ev
        return
    x = make(sh, case.get("style", 0))
    kw = {}
    if case["off"]:
        kw["max_center_offset"] = case["off"][0]
    if case["kind"] == "sample":
        x0 = x.clone()
        res, err = attempt(
            sample_kernels, x, k, N=case["n"] or None, coincident=case["coincident"], return_idx=case["ridx"], **kw
        )
        ev = dict(
            op="sample", x_sh=sh, k=k, n=case["n"], off=case["off"], coincident=case["coincident"],
            ridx=case["ridx"], err=err,
        )
        if not err:
            out = res[0] if case["ridx"] else res
            ev.update(tens("out", out))
            if case["ridx"]:
                ev.update(tens("idx", res[1]))
            ev["mutated"] = not torch.equal(x, x0)
        yield ev
        return
    N = None if len(sh) == 3 else 1500
    out, err = attempt(sample_kernels, x, k, N=N, coincident=case["coincident"], **kw)
    ev = dict(op="hist", x_sh=sh, k=k, off=case["off"], coincident=case["coincident"], err=err)
    if not err:
        st = (out[..., 0] % sh[-1]).long()
        st = st.reshape(len(st), -1)
        first = st[:, 0]
        # coincident: one start per element; independent: judge the last channel
        use = first if case["coincident"] or len(sh) != 2 else st[:, -1]
        ev["counts"] = torch.bincount(use, minlength=sh[-1]).tolist()
        ev["draws"] = len(st)
        ev["same"] = int((st[:, -1] == first).sum()) if st.shape[1] > 1 else 0
    yield ev
    if not case["off"] and not err:
        yield dict(op="hist_last", x_sh=sh, k=k, last=int((use == sh[-1] - k).sum()))
