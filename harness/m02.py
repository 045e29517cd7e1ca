"""M02: residual networks."""
from .enc import attempt, crowd, qtens, quant

MC = ["ResNet_MC"]
TRACE = "ResNet_Trace"
NEEDS_STIM = True
ASSUMPTIONS = ["networks of up to four stages and seven blocks; batches run in double precision"]


def weight(s):
    c = s["cfg"]
    return sum(c["layers"][i] * (4 if c["bottleneck"] else 1) * 4**i for i in range(len(c["layers"]))) * c["kernel"]


def cases(ctx):
    rng = ctx.rng
    st = ctx.stim["ResNet_MC"]
    bad = [s for s in st if not s["ok"]]
    good = [s for s in st if s["ok"]]
    groups = {}
    for s in good:
        c = s["cfg"]
        groups.setdefault((c["bottleneck"], len(c["layers"]), "dilation" in c["strides"], len(c["n"])), []).append(s)
    pick = []
    for k in sorted(groups):
        g = groups[k]
        g.sort(key=weight)
        pick += rng.sample(g, min(len(g), ctx.n(3, 14)))
    # stages dilated more than once, on axes long enough for their reach to show
    deep = [s for s in good if s["cfg"]["strides"].count("dilation") > 1 and s["cfg"]["kernel"] > 1 and s["cfg"]["n"][0] > 90 and s["cfg"]["at"][0] > 0]
    strata = {}
    for s in deep:
        strata.setdefault((len(s["cfg"]["n"]), s["cfg"]["strides"].count("dilation")), []).append(s)
    light = []
    for k in sorted(strata):
        light += rng.sample(strata[k], min(len(strata[k]), ctx.n(3, 25)))
    for s in light:
        yield dict(cfg=s["cfg"], ok=True, light=True, norm="default", classes=2, cin=1, seed=rng.randrange(1 << 20), heavy=weight(s))
    # every kind of refusal, of either dimension
    kinds = {}
    for s in bad:
        c = s["cfg"]
        kinds.setdefault((c["bottleneck"], len(c["n"]), c["groups"] > 1, c["width"] != 64, c["kernel"] % 2, c["strides"][-1:] == ["pool"],
                          "dilation" in c["strides"], len(c["strides"]) - len(c["layers"])), []).append(s)
    for k in sorted(kinds):
        yield dict(cfg=rng.choice(kinds[k])["cfg"], ok=False, norm="default", classes=2, cin=1, seed=rng.randrange(1 << 20), heavy=0)
    for s in rng.sample(bad, ctx.n(40, 300)) + pick:
        norm = rng.choice(["default", "default", "batch", "group"])
        yield dict(cfg=s["cfg"], ok=s["ok"], norm=norm, classes=rng.choice([1, 2, 3, 5]), cin=rng.choice([1, 2, 3]), seed=rng.randrange(1 << 20), heavy=weight(s))


def build(case, norm, zero=False):
    from ml4gw.nn.resnet import resnet_1d, resnet_2d

    c = case["cfg"]
    mod, d = (resnet_1d, "1D") if len(c["n"]) == 1 else (resnet_2d, "2D")
    cls = getattr(mod, ("Bottleneck" if c["bottleneck"] else "") + "ResNet" + d)
    kw = {}
    if c["kernel"] != 3 or case["seed"] % 2:
        kw["kernel_size"] = c["kernel"]
    if c["groups"] != 1:
        kw["groups"] = c["groups"]
    if c["width"] != 64:
        kw["width_per_group"] = c["width"]
    if any(w != "stride" for w in c["strides"]) or len(c["strides"]) != len(c["layers"]) - 1 or case["seed"] % 3 == 0:
        kw["stride_type"] = list(c["strides"])
    if zero:
        kw["zero_init_residual"] = True
    if norm is not None:
        kw["norm_layer"] = norm
    return attempt(cls, case["cin"], list(c["layers"]), case["classes"], **kw)


def norm_of(case):
    import torch
    from ml4gw.nn.norm import GroupNorm1DGetter, GroupNorm2DGetter

    one = len(case["cfg"]["n"]) == 1
    return {
        "default": None,
        "batch": torch.nn.BatchNorm1d if one else torch.nn.BatchNorm2d,
        "group": (GroupNorm1DGetter if one else GroupNorm2DGetter)(8),
    }[case["norm"]]


def execute(case):
    import random

    import torch

    c = case["cfg"]
    rng = random.Random(case["seed"])
    torch.manual_seed(case["seed"])
    seen = []

    class Record(torch.nn.Module):
        def __init__(self, num):
            super().__init__()
            self.num = num
            self.weight = torch.nn.Parameter(torch.ones(1))

        def forward(self, x):
            axes = []
            for a in range(2, x.ndim):
                other = [k for k in range(x.ndim) if k != a]
                hit = (x != 0).double().sum(other) > 0
                axes.append(dict(n=x.shape[a], s=torch.nonzero(hit)[:, 0].tolist()))
            seen.append(dict(c=x.shape[1], axes=axes))
            return x.clone()

    model, err = build(case, Record)
    yield dict(op="new", cfg=c, classes=case["classes"], err=err)
    if err or not case["ok"]:
        return
    model = model.double().eval()
    with torch.no_grad():
        for m in model.modules():
            if isinstance(m, torch.nn.Conv1d | torch.nn.Conv2d):
                m.weight.fill_(1.0 / m.weight[0].numel())
        B = rng.choice([1, 2])
        x = torch.zeros(B, case["cin"], *c["n"], dtype=torch.float64)
        x[(slice(None), slice(None), *c["at"])] = 1.0
        y, err = attempt(model, x)
    ev = dict(op="pass", batch=B, norms=seen, err=err)
    if not err:
        ev.update(y_sh=list(y.shape))
    yield ev
    del model
    if case.get("light"):
        return
    # rows of a batch
    model, err = build(case, norm_of(case))
    if err:
        yield dict(op="rows", err=err)
        return
    model = model.double()
    B = rng.choice([1, 2, 3, 4])
    # final feature maps of at least two positions per axis: instance
    # normalisation of a single position is undefined (torch refuses it)
    least = 2 ** (2 + sum(w == "stride" for w in c["strides"])) + 1
    x = torch.randn(B, case["cin"], *[max(v, least) for v in c["n"]], dtype=torch.float64)
    with torch.no_grad():
        if case["norm"] == "batch":
            attempt(model, torch.randn(4, *x.shape[1:], dtype=torch.float64))
        model.eval()
        if rng.random() < 0.4:
            x[rng.randrange(B)] *= 100
        if rng.random() < 0.3:
            x = x.transpose(0, 1).contiguous().transpose(0, 1)
        x0 = x.clone()
        order = list(range(B))
        rng.shuffle(order)
        y, err = attempt(crowd, case, model, x, cap=70 if case.get("light") else 0, every=3)
        mut = not torch.equal(x, x0)
        ev = dict(op="rows", batch=B, order=order, mutated=mut, tol=3, err=err)
        if not err:
            scale = 1e6 / max(1e-9, y.abs().max().item())
            ev.update(qtens("y", y, scale))
            again, perm = model(x0), model(x0[order])
            alone = torch.cat([model(x0[b : b + 1]) for b in range(B)])
            ev.update(qtens("again", again, scale) | qtens("perm", perm, scale) | qtens("alone", alone, scale))
        yield ev
    # zero-initialised residual branches
    model, err = build(case, norm_of(case), zero=True)
    ev = dict(op="zero", blocks=[], err=err)
    if not err:
        model = model.double().eval()
        blocks = []

        def hook(m, args, out):
            with torch.no_grad():
                src = m._probe
                short = src if m.downsample is None else m.downsample(src)
                idx = torch.randperm(out.numel())[:120]
                if short.shape != out.shape:
                    blocks.append(dict(y_sh=list(out.shape), s_sh=list(short.shape), y_d=[], s_d=[]))
                    return
                _, yd = quant(out.reshape(-1)[idx], 1e5)
                _, sd = quant(short.reshape(-1)[idx], 1e5)
                blocks.append(dict(y_sh=list(out.shape), s_sh=list(short.shape), y_d=yd, s_d=sd))

        def pre(m, args):
            m._probe = args[0].detach().clone()

        for m in model.modules():
            if hasattr(m, "downsample"):
                m.register_forward_pre_hook(pre)
                m.register_forward_hook(hook)
        with torch.no_grad():
            _, err = attempt(model, x0)
        ev.update(err=err, blocks=blocks)
    yield ev
