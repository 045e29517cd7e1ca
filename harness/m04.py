"""M04: state-space layers."""
import copy
import math

from .enc import attempt, crowd, qtens, tens

MC = ["S4D_MC"]
TRACE = "S4D_Trace"
NEEDS_STIM = True
ASSUMPTIONS = ["numeric oracle for decays of 2^(-k/2) per step and rational turns per step; other values through relations only"]


def cases(ctx):
    rng = ctx.rng
    st = ctx.stim["S4D_MC"]
    for s in rng.sample(st, ctx.n(220, 2500)):
        yield dict(kind="layer", H=s["H"], N=s["N"], tr=s["tr"], h=s["h"], f64=rng.random() < 0.6, drop=rng.choice([0, 0, 0, 300, 1000]), seed=rng.randrange(1 << 20))
    for _ in range(ctx.n(60, 500)):
        yield dict(kind="model", out=rng.choice([1, 2, 3, 5]), cin=rng.choice([1, 2, 3]), d=rng.choice([1, 2, 4, 6]), N=rng.choice([2, 4, 8, 64]), layers=rng.choice([1, 2, 3]),
                   drop=rng.choice([None, 0, 200, 500, 1000]), L=rng.choice([1, 2, 3, 8, 17, 64]), B=rng.choice([1, 2, 3, 4]), seed=rng.randrange(1 << 20))
    yield dict(kind="drop", seed=rng.randrange(1 << 20))
    for _ in range(ctx.n(10, 80)):
        yield dict(kind="far", H=rng.choice([1, 2, 3]), N=rng.choice([2, 4, 8]), tr=rng.random() < 0.5, f64=rng.random() < 0.5, P=rng.choice([200, 600, 1000, 1500]),
                   n=rng.choice([1, 2, 4]), extra=rng.randint(1, 400), seed=rng.randrange(1 << 20))


def far(case, S4D):
    """Modes that halve over P steps and turn a whole number of times in them:
    the kernel, and the answer to an impulse, is the same P steps later at half
    the size, however far into a sequence."""
    import random

    import torch

    rng = random.Random(case["seed"])
    H, N, P, n, tr = case["H"], case["N"], case["P"], case["n"], case["tr"]
    dt = torch.float64 if case["f64"] else torch.float32
    layer, err = attempt(S4D, H, d_state=N, transposed=tr)
    if err:
        yield dict(op="same", what="constructor", err=err)
        return
    layer = layer.to(dt).eval()
    L = n * P + case["extra"] + 2
    with torch.no_grad():
        k = layer.kernel
        step = torch.tensor([2.0 ** -rng.randint(0, 6) for _ in range(H)], dtype=torch.float64)
        k.log_dt.copy_(torch.log(step))
        k.log_A_real.copy_(torch.log(math.log(2) / P / step[:, None].expand(H, N // 2)))
        turns = torch.tensor([[rng.randint(1, P // 20) for _ in range(N // 2)] for _ in range(H)], dtype=torch.float64)
        k.A_imag.copy_(2 * math.pi * turns / P / step[:, None])
        k.C.copy_(torch.tensor([[[rng.randint(1, 3), rng.randint(-3, 3)] for _ in range(N // 2)] for _ in range(H)], dtype=torch.float64))
        layer.D.zero_()
        conv = next(m for m in layer.modules() if isinstance(m, torch.nn.Conv1d))
        conv.weight.zero_()
        conv.weight[:H, :, 0] = torch.eye(H, dtype=dt)
        conv.bias[:H] = 0
        conv.bias[H:] = 60.0
        kk, err = attempt(layer.kernel, L)
        ev = dict(op="same", what="the kernel far from its start", err=err, tol=4 if case["f64"] else 60)
        if not err:
            m = L - n * P
            s = 1e4 / kk.abs().max().item()
            ev.update(qtens("a", kk[:, n * P :], s * 2**n) | qtens("b", kk[:, :m], s))
        yield ev
        if not err:
            at, w = rng.randrange(1, 20), 30.0 / kk.abs().max().item()
            u = torch.zeros(2, H, L, dtype=dt)
            u[0, :, at] = w
            u[1, :, at] = w * 2**n
            y, err = attempt(layer, u if tr else u.transpose(-1, -2))
            ev = dict(op="same", what="the answer to an impulse far from it", err=err, tol=4 if case["f64"] else 60)
            if not err:
                y = y if tr else y.transpose(-1, -2)
                ev.update(qtens("a", y[1, :, at + n * P :], 300) | qtens("b", y[0, :, at : L - n * P], 300))
            yield ev


def modes(rng, H, M):
    out = []
    for _ in range(H):
        ch = []
        for _ in range(M):
            q = rng.choice([3, 4, 5, 8, 12])
            ch.append(dict(k=rng.choice([1, 1, 2, 3, 4]), p=rng.randrange(-q // 2, q * 3 // 4), q=q, cr=rng.randint(-3, 3), ci=rng.randint(-3, 3)))
        out.append(ch)
    return out


def execute(case):
    import random

    import torch
    from ml4gw.nn.ssm.s4d import S4D, S4Model

    rng = random.Random(case["seed"])
    torch.manual_seed(case["seed"])
    if case["kind"] == "drop":
        vals = [("none", 0, None), ("str", 0, "0.1"), ("list", 0, [0.1]), ("nan", 0, float("nan")), ("complex", 0, 0.1 + 0j)]
        vals += [("float", v, v / 1000) for v in (-1000, -1, 0, 1, 500, 999, 1000, 1001, 2000)]
        vals += [("int", v, v // 1000) for v in (-1000, 0, 1000, 2000)]
        vals += [("inf", 0, math.inf), ("inf", 0, -math.inf)]
        for kind, num, v in vals:
            for what in (S4D, S4Model):
                m, err = attempt(what, 2, **(dict(d_output=1) if what is S4Model else {}), d_state=4, dropout=v)
                yield dict(op="drop", kind=kind, num=num, err=err)
        return
    if case["kind"] == "model":
        kw = {} if case["drop"] is None else dict(dropout=case["drop"] / 1000)
        m, err = attempt(S4Model, case["cin"], case["out"], d_model=case["d"], d_state=case["N"], n_layers=case["layers"], **kw)
        if err:
            yield dict(op="model", err=err)
            return
        m = m.double()
        B, L = case["B"], case["L"]
        x = torch.randn(B, case["cin"], L, dtype=torch.float64)
        if rng.random() < 0.4:
            x[rng.randrange(B)] *= 1000
        with torch.no_grad():
            if rng.random() < 0.5:
                attempt(m.train(), x)
            m.eval()
            x0 = x.clone()
            y, err = attempt(crowd, case, m, x, cap=300)
            ev = dict(op="model", B=B, out=case["out"], err=err, mutated=not torch.equal(x, x0), tol=3)
            if not err:
                s = 1e6 / max(1e-9, y.abs().max().item())
                ev.update(qtens("y", y, s) | qtens("again", m(x0), s) | qtens("alone", torch.cat([m(x0[b : b + 1]) for b in range(B)]), s))
            yield ev
            if not err:
                m2 = S4Model(case["cin"], case["out"], d_model=case["d"], d_state=case["N"], n_layers=case["layers"]).double()
                attempt(m2.eval(), x0 * 2)
                m2.load_state_dict(m.state_dict())
                yield dict(op="same", what="checkpoint", err="", tol=0, **qtens("a", y, s), **qtens("b", m2.eval()(x0), s))
        return
    if case["kind"] == "far":
        yield from far(case, S4D)
        return
    H, N, tr = case["H"], case["N"], case["tr"]
    dt = torch.float64 if case["f64"] else torch.float32
    kw = {} if tr and rng.random() < 0.5 else dict(transposed=tr)
    layer, err = attempt(S4D, H, d_state=N, dropout=case["drop"] / 1000, **kw)
    es = [rng.choice([0, 0, 1, 2]) for _ in range(H)]
    ms = modes(rng, H, N // 2)
    ds = [rng.randint(-3, 3) for _ in range(H)]
    yield dict(op="layer", modes=ms, e=es, d=ds, err=err)
    if err:
        return
    layer = layer.to(dt).eval()
    wild = copy.deepcopy(layer)  # random parameters, for the relations
    if rng.random() < 0.6:  # used before the parameters change
        with torch.no_grad():
            u = torch.randn(2, H, 50, dtype=dt)
            attempt(layer, u if tr else u.transpose(-1, -2))
    with torch.no_grad():
        k = layer.kernel
        step = torch.tensor([2.0**-v for v in es], dtype=torch.float64)
        k.log_dt.copy_(torch.log(step))
        k.log_A_real.copy_(torch.log(torch.tensor([[m["k"] / 2 * math.log(2) for m in ch] for ch in ms], dtype=torch.float64) / step[:, None]))
        k.A_imag.copy_(torch.tensor([[2 * math.pi * m["p"] / m["q"] for m in ch] for ch in ms], dtype=torch.float64) / step[:, None])
        k.C.copy_(torch.tensor([[[m["cr"], m["ci"]] for m in ch] for ch in ms], dtype=torch.float64))
        layer.D.copy_(torch.tensor(ds, dtype=torch.float64))
        conv = next(m for m in layer.modules() if isinstance(m, torch.nn.Conv1d))
        conv.weight.zero_()
        conv.weight[:H, :, 0] = torch.eye(H, dtype=dt)
        conv.bias[:H] = 0
        conv.bias[H:] = 60.0
        flip = (lambda t: t) if tr else (lambda t: t.transpose(-1, -2))
        run = lambda m, u: flip(m(flip(u)))  # noqa: E731
        for kind in case["h"]:
            B = rng.choice([1, 2, 3])
            L = {"one": 1, "long": rng.choice([32, 40])}.get(kind, rng.choice([2, 3, 5, 8, 13, 16]))
            u = torch.tensor([rng.randint(-60, 60) for _ in range(B * H * L)], dtype=dt).reshape(B, H, L)
            if kind == "prefix":
                S = rng.randint(1, L)
                kk, err = attempt(layer.kernel, L)
                ev = dict(op="kernel", L=L, S=S, err=err)
                if not err:
                    ev.update(qtens("k", kk, 10000) | qtens("short", layer.kernel(L=S), 10000))
                yield ev
                kk, ks = wild.kernel(L=4 * L + 1), wild.kernel(L=S)
                sc = 1e4 / kk.abs().max().item()
                yield dict(op="same", what="prefix of a longer kernel", err="", tol=1, **qtens("a", kk[:, :S], sc), **qtens("b", ks, sc))
                continue
            if kind == "impulse":
                u = torch.zeros_like(u)
                u[:, :, rng.randrange(L)] = rng.choice([-50, 1, 50])
            if kind in ("impulse", "random", "long", "one"):
                if rng.random() < 0.3:
                    u = u.transpose(0, 2).contiguous().transpose(0, 2)
                arg = flip(u)
                a0 = arg.clone()
                y, err = attempt(crowd, case, layer, arg, cap=600)
                ev = dict(op="out", err=err, mutated=not torch.equal(arg, a0), **tens("u", u))
                if not err:
                    ev.update(qtens("y", flip(y), 10000))
                yield ev
            elif kind == "layout":
                other = S4D(H, d_state=N, transposed=not tr, dropout=0.0).to(dt).eval()
                attempt(other, torch.cat([flip(u)] * 2, dim=-1 if tr else -2).transpose(-1, -2))
                other.load_state_dict(wild.state_dict())
                a = wild(flip(u))
                b, err = attempt(other, flip(u).transpose(-1, -2))
                ev = dict(op="same", what="layout", err=err, tol=2)
                if not err:
                    s = 1e4 / max(1e-6, a.abs().max().item())
                    ev.update(qtens("a", a, s) | qtens("b", b.transpose(-1, -2), s))
                yield ev
            else:
                u2 = u.clone()
                if kind == "causal":
                    for b in range(B):
                        t = rng.randint(0, L)
                        u2[b, :, t:] += rng.randint(1, 200)
                else:
                    u2[rng.randrange(B)] = rng.randint(-300, 300)
                (y1, err), (y2, err2) = attempt(run, wild, u), attempt(run, wild, u2)
                ev = dict(op="pair", err=err or err2, tol=3, **tens("u1", u), **tens("u2", u2))
                if not ev["err"]:
                    s = (1e5 if case["f64"] else 1e3) / max(1e-6, y1.abs().max().item(), y2.abs().max().item())
                    ev.update(qtens("y1", y1, s) | qtens("y2", y2, s))
                yield ev
