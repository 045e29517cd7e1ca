"""T01: life cycle of transforms with fitted parameters."""
import copy
import io
import pickle
import zlib

from .enc import attempt, exact

MC = ["Fittable_MC"]
TRACE = "Fittable_Trace"
NEEDS_STIM = True
KINDS = ["scaler1", "scaler2", "whiten", "whiten_ts", "rescaler", "rescaler_cut"]


def cases(ctx):
    rng = ctx.rng
    stim = ctx.stim["Fittable_MC"]
    for i, s in enumerate(rng.sample(stim, min(len(stim), ctx.n(420, 6000)))):
        yield dict(kind=KINDS[i % 6], sched=s["sched"], style=rng.randrange(4))
    ops = ["fit"] * 3 + ["fitfails", "save", "save", "load", "load", "loadfails", "copy", "construct"] + ["apply"] * 3
    for i in range(ctx.n(120, 1200)):
        sched = []
        for _ in range(rng.randint(5, 12)):
            op, who = rng.choice(ops), rng.randint(1, 2)
            a = {
                "fit": rng.randint(1, 4), "fitfails": rng.randint(1, 2), "save": rng.randint(1, 2),
                "load": rng.randint(1, 2), "loadfails": rng.randint(1, 5), "copy": 3 - who,
            }.get(op, 0)
            sched.append([op, who, a])
        yield dict(kind=KINDS[i % 6], sched=sched, style=rng.randrange(4))


def digest(mod):
    h = 0
    for k, v in sorted(mod.state_dict().items()):
        h = zlib.crc32(k.encode() + str(v.dtype).encode() + v.detach().cpu().contiguous().numpy().tobytes(), h)
    return h % 1000000007


class Kind:
    def __init__(self, kind):
        import torch

        self.kind = kind
        self.g = torch.Generator().manual_seed(11)
        self.rand = lambda *s: torch.randn(*s, generator=self.g)
        self.probe = self.rand(3, 2, 32) if kind != "scaler1" else self.rand(3, 32)
        base = torch.arange(1.0, 5.0)
        # data set d (1..4), and unsuitable data
        self.data = {}
        for d in range(1, 5):
            if kind == "scaler1":
                self.data[d] = (self.rand(40) * d + 3 * d,)
            elif kind == "scaler2":
                self.data[d] = (self.rand(2, 40) * d + base[:2, None] * d,)
            elif kind in ("whiten_ts", "rescaler"):
                self.data[d] = tuple(self.rand(128) * d for _ in range(2))
            else:
                n = 17 if d % 2 else 9  # with and without interpolation
                self.data[d] = tuple(1 + torch.rand(n, generator=self.g) * d for _ in range(2))

    def make(self, channels=2):
        from ml4gw.transforms import ChannelWiseScaler, FixedWhiten, SnrRescaler

        if self.kind == "scaler1":
            return ChannelWiseScaler(None if channels == 2 else channels)
        if self.kind == "scaler2":
            return ChannelWiseScaler(channels)
        if self.kind.startswith("whiten"):
            return FixedWhiten(channels, 2, 16)
        kw = dict(highpass=2.0, lowpass=6.0) if self.kind == "rescaler_cut" else {}
        return SnrRescaler(channels, 16, 2, **kw)

    def fit(self, m, args, d=0):
        if self.kind.startswith("scaler"):
            m.fit(*args)
        elif self.kind.startswith("whiten"):
            kw = dict(fftlength=1) if self.kind == "whiten_ts" else {}
            m.fit([0.5, 0.25, 1.0, 0.5][d - 1], *args, **kw)
        else:
            m.fit(*args, **(dict(fftlength=1) if self.kind == "rescaler" else {}))

    def bad(self, a):
        """Data that cannot be fitted."""
        if self.kind == "scaler1":
            return (self.rand(3, 2, 8),) if a == 1 else (self.rand(2, 8),)
        if self.kind == "scaler2":
            return (self.rand(3, 2, 8),) if a == 1 else (self.rand(3, 8),)
        if a == 1 or self.kind in ("whiten", "rescaler_cut"):
            return self.data[1] + self.data[1][:1]
        return tuple(self.rand(7) for _ in range(2))  # shorter than one FFT

    def apply(self, m, style):
        import torch

        m = torch.nn.Sequential(m) if style == 3 and self.kind.startswith("scaler") else m
        if self.kind.startswith("rescaler"):
            return m(self.probe, torch.arange(1.0, 4.0))[0]
        return m(self.probe)


def out_of(y):
    return exact((y.double().reshape(-1)[:12] * 2**16).round())[1]


def load(m, sd, style, strict=True):
    import torch

    if style == 1:  # as a child of another module
        torch.nn.ModuleDict({"t": m}).load_state_dict({"t." + k: v for k, v in sd.items()}, strict=strict)
    elif style == 2:
        buf = io.BytesIO()
        torch.save(sd, buf)
        buf.seek(0)
        m.load_state_dict(torch.load(buf, weights_only=True), strict=strict)
    else:
        m.load_state_dict(sd, strict=strict)


def execute(case):
    import torch

    k = Kind(case["kind"])
    style = case["style"]
    inst = {1: k.make(), 2: k.make()}
    slots = {s: copy.deepcopy(k.make().state_dict()) for s in (1, 2)}
    dig = lambda: [digest(inst[1]), digest(inst[2])]  # noqa: E731
    yield dict(op="start", dig=dig())
    sched = list(case["sched"]) + [["apply", 1, 0], ["apply", 2, 0]]
    for op, i, a in sched:
        m = inst[i]
        ev = dict(op=op, i=i, a=a)
        if op == "construct":
            inst[i] = k.make()
        elif op == "fit":
            args = tuple(x.clone() for x in k.data[a])
            _, ev["err"] = attempt(k.fit, m, args, a)
        elif op == "fitfails":
            if style % 2:  # parameters that cannot be stored
                first = sorted(m.state_dict())[0]
                wrong = {first: torch.zeros([3, *m.state_dict()[first].shape, 3])}
                _, ev["err"] = attempt(m.build, **wrong)
            else:
                _, ev["err"] = attempt(k.fit, m, k.bad(a), 1)
        elif op == "save":
            sd, ev["err"] = attempt(m.state_dict)
            slots[a] = copy.deepcopy(dict(sd))
        elif op == "load":
            _, ev["err"] = attempt(load, m, slots[a], style)
        elif op == "loadfails":
            good = k.make()
            k.fit(good, k.data[3], 3)
            sd = dict(good.state_dict())
            first = sorted(sd)[0]
            if a == 1:
                sd, strict = {}, False
            elif a == 2:
                sd.pop(first)
                strict = True
            elif a == 4:
                sd.pop(sorted(sd)[-1])
                strict = False
            else:
                sd = dict(k.make(3).state_dict())
                strict = a == 3
            _, ev["err"] = attempt(load, m, sd, style, strict)
            ev["strict"] = a in (2, 3, 5)
        elif op == "copy":
            inst[a], ev["err"] = attempt(copy.deepcopy if style != 2 else lambda x: pickle.loads(pickle.dumps(x)), m)
        else:
            y, ev["err"] = attempt(k.apply, m, style)
            if not ev["err"]:
                ev["out"] = out_of(y)
                y2, err2 = attempt(k.apply, m, style)
                ev["repeated"] = bool(err2) or not torch.equal(torch.nan_to_num(y), torch.nan_to_num(y2))
        ev["dig"] = dig()
        yield ev
