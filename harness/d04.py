"""D04: contents of HDF5 batches."""
from .enc import attempt, exact
from .h5 import CSTEP, STEP, Files

MC = ["Hdf5_MC"]
TRACE = "Hdf5_Trace"
MODES = {"all": True, "files": "files", "none": False}


def cases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(150, 1200)):
        k = rng.randint(1, 7)
        n = rng.randint(1, 5)
        lens = [k + rng.choice([0, 1, 2, 5, 30, 60]) for _ in range(n)]
        yield dict(
            kind="run", cfg=dict(
                lens=lens, chans=rng.randint(1, 5), k=k, b=rng.choice([1, 2, 3, 5, 8]),
                nf=rng.choice([n, n, rng.randint(1, n), n + 1 if rng.random() < 0.1 else 1]),
                mode=rng.choice(["all", "files", "none"]) if rng.random() < 0.97 else "bogus", bpe=rng.randint(1, 4),
            ), layout=i % 4, seed=rng.randrange(1 << 20), style=i % 3,
        )
    for i in range(ctx.n(9, 40)):
        k = rng.randint(1, 3)
        n = [1, 3, 2][i // 3 % 3]
        lens = [k + rng.choice([2, 4, 7, 12]) for _ in range(n)]
        nf = [n, 1, n][i % 3]
        yield dict(
            kind="hist", cfg=dict(lens=lens, chans=3, k=k, b=24 if nf == n else 4, nf=nf,
                                  mode=["all", "files", "none"][(i + i // 3) % 3], bpe=1),
            layout=0, seed=rng.randrange(1 << 20), reps=60 if nf == n else 360,
        )


def execute(case):
    import pathlib

    import numpy as np
    import torch
    from ml4gw.dataloading import Hdf5TimeSeriesDataset

    c = case["cfg"]
    np.random.seed(case["seed"])
    torch.manual_seed(case["seed"])
    with Files(c["lens"], c["chans"], case["layout"]) as fs:
        names = fs.names
        if case.get("style") == 1:
            names = [pathlib.Path(n) for n in names]
        kw = {}
        if c["nf"] != len(c["lens"]) or case.get("style") == 2:
            kw["num_files_per_batch"] = c["nf"]
        ds, err = attempt(
            Hdf5TimeSeriesDataset, names, fs.channels, c["k"], c["b"], c["bpe"], MODES.get(c["mode"], "bogus"), **kw
        )
        n = -1
        if not err:
            n, err = attempt(len, ds)
        yield dict(op="new", cfg=c, nw=0, len=n if n is not None else -1, err=err)
        if err:
            return
        if case["kind"] == "hist":
            yield from histogram(ds, c, case["reps"])
            return
        for _ in range(2):
            it = iter(ds)
            for _ in range(c["bpe"]):
                x, err = attempt(next, it)
                if err:
                    yield dict(op="batch", err=err)
                    return
                sh, d = exact(x)
                yield dict(op="batch", sh=sh, d=d)


def histogram(ds, c, reps):
    nfiles = len(c["lens"])
    files = [[0] * nfiles for _ in range(c["chans"])]
    starts = [[[0] * (ln - c["k"] + 1) for ln in c["lens"]] for _ in range(c["chans"])]
    # agreement in time of two draws from the same file, per file
    el_same, el_n = [0] * nfiles, [0] * nfiles  # neighbouring batch elements
    ch_same, ch_n = [0] * nfiles, [0] * nfiles  # first and last channel
    crossed = 0
    firsts = []
    for _ in range(reps):
        x = next(iter(ds))
        p = x[:, :, 0].long()
        f, t = p // STEP - 1, p % CSTEP
        for ch in range(c["chans"]):
            for a, b in zip(f[:, ch].tolist(), t[:, ch].tolist()):
                if 0 <= a < nfiles:
                    files[ch][a] += 1
                    h = starts[ch][a]
                    if b >= len(h):
                        h.append(0)
                        b = len(h) - 1
                    h[b] += 1
        for i in range(len(x) - 1):
            if f[i, 0] == f[i + 1, 0]:
                el_n[f[i, 0]] += 1
                el_same[f[i, 0]] += int(t[i, 0] == t[i + 1, 0])
        for i in range(len(x)):
            if f[i, 0] == f[i, -1]:
                ch_n[f[i, 0]] += 1
                ch_same[f[i, 0]] += int(t[i, 0] == t[i, -1])
            else:
                crossed += 1
        firsts.append(int(f[0, 0]))
    # with one file per batch only the batches are independent draws
    if c["nf"] == 1 and nfiles > 1:
        yield dict(op="files", counts=[firsts.count(i) for i in range(nfiles)], exact=True)
    else:
        for ch in range(c["chans"]):
            yield dict(op="files", counts=files[ch], exact=c["nf"] == nfiles)
    for ch in range(c["chans"]):
        for a in range(nfiles):
            yield dict(op="starts", file=a + 1, counts=starts[ch][a])
    for a in range(nfiles):
        m = c["lens"][a] - c["k"] + 1
        yield dict(op="same", n=el_n[a], same=el_same[a], starts=m, distinct_files=0, need_files=False)
        if c["mode"] != "all":
            yield dict(
                op="same", n=ch_n[a], same=ch_same[a], starts=m, distinct_files=crossed,
                need_files=c["mode"] == "none" and c["nf"] > 1,
            )
