"""D05: the batches of an HDF5 epoch are shared among workers exactly."""
from .enc import attempt
from .h5 import Files

MC = ["Hdf5_MC"]
TRACE = "Hdf5_Trace"
NEEDS_STIM = True


def cases(ctx):
    rng = ctx.rng
    stim = ctx.stim["Hdf5_MC"]
    for s in rng.sample(stim, min(len(stim), ctx.n(400, 3000))):
        yield dict(kind="sim", bpe=s["bpe"], nw=s["nw"], sched=s["sched"])
    for _ in range(ctx.n(60, 400)):
        bpe, nw = rng.randint(0, 40), rng.randint(1, 12)
        yield dict(kind="sim", bpe=bpe, nw=nw, sched=[rng.randrange(nw) for _ in range(bpe + nw)])
    for bpe, nw in [(5, 2), (2, 3), (4, 4), (7, 3), (1, 4), (6, 1), (3, 0)][: ctx.n(5, 7)]:
        yield dict(kind="loader", bpe=bpe, nw=nw, sched=[])


def execute(case):
    import numpy as np
    import torch
    from ml4gw.dataloading import Hdf5TimeSeriesDataset

    np.random.seed(3)
    cfg = dict(lens=[9, 12], chans=1, k=3, b=2, nf=2, mode="all", bpe=case["bpe"])
    with Files(cfg["lens"], 1, 1) as fs:
        ds = Hdf5TimeSeriesDataset(fs.names, fs.channels, 3, 2, case["bpe"], True)
        n, err = attempt(len, ds)
        yield dict(op="new", cfg=cfg, nw=case["nw"], len=n if n is not None else -1, err=err)
        if case["kind"] == "loader":
            counts = []

            def load():
                dl = torch.utils.data.DataLoader(
                    ds, batch_size=None, num_workers=case["nw"], persistent_workers=case["nw"] > 0 and case["bpe"] % 2 == 1
                )
                for _ in range(2):
                    counts.append(sum(1 for _ in dl))

            _, err = attempt(load)
            yield dict(op="loader", counts=counts, err=err)
            return
        from torch.utils.data._utils import worker

        W = max(case["nw"], 1)
        try:
            for epoch in range(2):
                its = [iter(ds) for _ in range(W)]
                live = set(range(W))
                sched = list(case["sched"])
                # after the schedule every worker runs to its end
                sched += [w for w in range(W) for _ in range(case["bpe"] + 2)]
                for w in sched:
                    if w not in live:
                        continue
                    worker._worker_info = (
                        None if case["nw"] == 0
                        else worker.WorkerInfo(id=w, num_workers=W, seed=w, dataset=ds)
                    )
                    x, err = attempt(next, its[w], None)
                    if err == "" and x is None:
                        live.discard(w)
                        yield dict(op="stop", w=w)
                        continue
                    yield dict(op="work", w=w, err=err)
                    if err:
                        return
                n, err = attempt(len, ds)
                yield dict(op="loader", counts=[n if n is not None else -1], err=err)
                if epoch == 0:
                    yield dict(op="epoch")
        finally:
            worker._worker_info = None
