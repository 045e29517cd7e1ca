"""M01: autoencoders."""
from .enc import attempt, crowd, exact, qtens, quant, tens

MC = ["Autoencoder_MC"]
TRACE = "Autoencoder_Trace"
NEEDS_STIM = True


def cases(ctx):
    rng = ctx.rng
    st = ctx.stim["Autoencoder_MC"]
    uniq = sorted({(s["skip"], tuple(s["h"])) for s in st})
    for skip, h in rng.sample(uniq, min(len(uniq), ctx.n(220, 1700))):
        n = rng.choice([1, 2, 2, 3, 3, 4])
        c = dict(skip=skip, h=list(h), seed=rng.randrange(1 << 20), B=rng.choice([1, 1, 2, 3]))
        if rng.random() < 0.5:
            yield dict(c, kind="stack", T=rng.randint(9, 20), pair=rng.random() < 0.3, tup=rng.random() < 0.3,
                       blocks=[dict(s=rng.choice([1, 1, 2, 3]), a=rng.choice([1, 2]), cut=rng.choice([0, 0, 1])) for _ in range(n)])
        else:
            n = min(n, 3)
            g = rng.choice([1, 1, 2, 3])
            cin = g * rng.choice([1, 2])
            if skip == "mix":
                c["skip"] = skip = "plain"
            dec = rng.choice([0, 0, g, 2 * g])
            f = dict(ch=[rng.choice([1, 2, 3]) for _ in range(n)], k=rng.randint(1, 5), s=rng.choice([1, 1, 2, 3]), g=g,
                     act=rng.choice(["id", "relu", "neg"]), oact=rng.choice(["", "id", "relu", "neg"]), dec=dec)
            if skip == "add" and n > 1:
                pass
            T = rng.randint(6, 12) * f["s"] ** (n - 1) + rng.randint(0, 5)
            yield dict(c, kind="conv", f=f, cin=cin, T=min(T, 60))
    for _ in range(ctx.n(60, 500)):
        g = rng.choice([1, 1, 2, 3])
        n = rng.choice([1, 2, 3])
        yield dict(kind="shapes", skip=rng.choice(["none", "add", "concat", "plain"]), g=g, cin=g * rng.choice([1, 2, 3]),
                   ch=[rng.choice([1, 2, 3, 4]) for _ in range(n)], k=rng.randint(1, 8), s=rng.choice([1, 2, 3, 4]),
                   dec=rng.choice([0, 0, g, 3 * g]), oact=rng.choice(["", "sigmoid", "tanh", "relu"]), norm=rng.randrange(3),
                   B=rng.choice([1, 2, 3]), T=rng.randint(40, 130), seed=rng.randrange(1 << 20))
    for _ in range(ctx.n(60, 300)):
        yield dict(kind="match", sh=[rng.choice([1, 2]), rng.choice([1, 3]), rng.randint(1, 12)], n=rng.randint(1, 16))
    for i in range(6):
        yield dict(kind="refuse", g=[2, 3, 4][i % 3], ch=[3, 4, 5, 7, 1, 6][i], seed=i)


def execute(case):
    import random

    import torch
    from ml4gw.nn import autoencoder as A
    from ml4gw.nn.autoencoder.utils import match_size

    rng = random.Random(case.get("seed", 1))

    class Neg(torch.nn.Module):
        def forward(self, x):
            return -x

    class Mix(A.SkipConnection):
        def forward(self, X, state):
            return 2 * super().forward(X, state) + 3 * state

    def skip(kind, g):
        return {"none": lambda: None, "plain": A.SkipConnection, "add": A.AddSkipConnect,
                "concat": lambda: A.ConcatSkipConnect(g) if g > 1 or rng.random() < 0.5 else A.ConcatSkipConnect(), "mix": Mix}[kind]()

    def data(*sh):
        return torch.tensor([rng.randint(-9, 9) for _ in range(torch.Size(sh).numel())], dtype=torch.float64).reshape(sh)

    if case["kind"] == "refuse":  # channels that do not divide into the groups
        x = data(2, case["ch"], 5)
        _, err = attempt(A.ConcatSkipConnect(case["g"]), x, x)
        yield dict(op="refuse", err=err)
        return
    if case["kind"] == "match":
        x = torch.arange(1.0, 1 + torch.Size(case["sh"]).numel()).reshape(case["sh"])
        x0 = x.clone()
        y, err = attempt(match_size, x, case["n"])
        ev = dict(op="match", n=case["n"], err=err, mutated=not torch.equal(x, x0), **tens("x", x))
        if not err:
            ev.update(tens("y", y))
        yield ev
        return
    if case["kind"] == "shapes":
        torch.manual_seed(case["seed"])
        g = case["g"]
        acts = dict(sigmoid=(torch.nn.Sigmoid, 0, 10000), tanh=(torch.nn.Tanh, -10000, 10000), relu=(torch.nn.ReLU, 0, 10**9))
        oact, lo, hi = acts[case["oact"]] if case["oact"] else (None, 0, 10**9)
        from ml4gw.nn.norm import GroupNorm1DGetter

        norm = [torch.nn.BatchNorm1d, GroupNorm1DGetter(g), torch.nn.Identity][case["norm"]]
        kw = {} if case["norm"] == 0 else dict(norm=norm)
        if g > 1:
            kw["groups"] = g
        m, err = attempt(lambda: A.ConvolutionalAutoencoder(case["cin"], case["ch"], case["k"], case["s"], output_activation=oact,
                                                            decode_channels=case["dec"] or None, skip_connection=skip(case["skip"], g), **kw))
        dec = case["dec"] or case["cin"]
        x = torch.randn(case["B"], case["cin"], case["T"])
        ev = dict(op="shapes", dec=dec, lo=lo, hi=hi, x_sh=list(x.shape), mutated=False, err=err)
        if not err:
            m.eval()
            x0 = x.clone()
            y, ev["err"] = attempt(crowd, case, m, x, cap=300)
            if not ev["err"]:
                ev["mutated"] = not torch.equal(x, x0)
                ev.update(qtens("y", y, 10000))
                ev["alone"] = quant(torch.cat([m(x[i : i + 1]) for i in range(len(x))]), 10000)[1]
                # with unit norms, groups of channels are separate networks
                ev["g"], ev["y2_d"] = g, []
                if g > 1:  # another input to the first group only
                    x2 = x.clone()
                    x2[:, : case["cin"] // g] += 1
                    ev["y2_d"] = quant(m(x2), 10000)[1]
        yield ev
        return
    g = 1
    if case["kind"] == "stack":

        class Block(torch.nn.Module):
            def __init__(self, i, b, pair):
                super().__init__()
                self.i, self.b, self.pair = i, b, pair

            def encode(self, X):
                y = self.b["a"] * X[..., :: self.b["s"]] + self.i
                return (y, y + 1) if self.pair else y

            def decode(self, X, Y=None):
                if self.pair:
                    X = X + 2 * Y
                w = torch.arange(1, X.shape[1] + 1, dtype=X.dtype)[:, None]
                y = (X * w).sum(1, keepdim=True).repeat_interleave(self.b["s"], -1) + 2 * self.i
                return y[..., : y.shape[-1] - self.b["cut"]]

        m = A.Autoencoder(skip_connection=skip(case["skip"], 1))
        n = len(case["blocks"])
        for i, b in enumerate(case["blocks"], 1):
            m.blocks.append(Block(i, b, case["pair"] and i == n))
        yield dict(op="stack", blocks=case["blocks"], skip=case["skip"], g=1, pair=case["pair"])
        cin = 1
    else:
        f = dict(case["f"])
        n, g, cin = len(f["ch"]), f["g"], case["cin"]
        acts = dict(id=torch.nn.Identity, relu=torch.nn.ReLU, neg=Neg)
        kw = {}
        if f["oact"]:
            kw["output_activation"] = acts[f["oact"]]
        else:
            f["oact"] = f["act"]
        if f["dec"]:
            kw["decode_channels"] = f["dec"]
        else:
            f["dec"] = cin
        if g > 1 or rng.random() < 0.5:
            kw["groups"] = g
        if case["skip"] != "none":
            kw["skip_connection"] = skip(case["skip"], g)
        if f["act"] != "relu" or rng.random() < 0.5:
            kw["activation"] = acts[f["act"]]
        m, err = attempt(lambda: A.ConvolutionalAutoencoder(cin, f["ch"], f["k"], f["s"], norm=torch.nn.Identity, **kw))
        yield dict(op="conv", f=f, skip=case["skip"], g=g, err=err)
        if err:
            return
        m.double()
        for p in m.parameters():
            torch.nn.init.ones_(p)

    def tensors(v):
        return v if isinstance(v, tuple) else (v,)

    with torch.no_grad():
        for kind in case["h"]:
            x = data(case["B"], cin, case["T"])
            x0 = x.clone()
            if kind == "forward":
                y, err = attempt(crowd, [case, len(x)], m, x, cap=600)
                ev = dict(op="forward", err=err, mutated=not torch.equal(x, x0), **tens("x", x0))
                if not err:
                    ev.update(tens("y", y))
                yield ev
                continue
            want = kind != "encode"
            if want:
                r, err = attempt(m.encode, x, return_states=True)
                y, states = r if not err else (None, None)
            else:
                y, err = attempt(m.encode, x)
                states = []
            ev = dict(op="encode", states=want, err=err, mutated=not torch.equal(x, x0), **tens("x", x0))
            if err:
                yield ev
                continue
            ys = tensors(y)
            ev.update(tens("y", ys[0]))
            if len(ys) > 1:
                ev.update(tens("y2", ys[1]))
            enc = [exact(s) for s in states]
            ev.update(s_sh=[s for s, _ in enc], s_d=[d for _, d in enc])
            yield ev
            if kind in ("encode", "states"):
                continue
            given = list(states)
            if kind == "short":
                given = given[:-1] if given else given + [y if not isinstance(y, tuple) else y[0]]
            elif kind == "long":
                given = given + [ys[0]]
            if case["skip"] == "none" and len(given) == len(states):
                given = None
            if kind == "bare":
                given = None
            # states of another magnitude, so that they cannot be recomputed
            if given is not None and rng.random() < 0.5:
                given = [s + 5 for s in given]
            arg = given if given is None or not case.get("tup") else tuple(given)
            kw = {}
            if given is not None or rng.random() < 0.5:
                kw["states"] = arg
            size = 0
            if case["kind"] == "conv" and rng.random() < 0.5:
                size = kw["input_size"] = case["T"] + rng.choice([-2, 0, 0, 3])
            keep = [v.clone() for v in [*ys, *(given or [])]]
            z, err = attempt(m.decode, *ys, **kw)
            enc = [exact(s) for s in given or []]
            ev = dict(op="decode", given=-1 if given is None else len(given), size=size, err=err, s_sh=[s for s, _ in enc], s_d=[d for _, d in enc],
                      mutated=any(not torch.equal(a, b) for a, b in zip([*ys, *(given or [])], keep)), **tens("x", ys[0]))
            if not err:
                ev.update(tens("y", z))
            yield ev
