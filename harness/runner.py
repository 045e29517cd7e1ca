"""Runner: TLC design runs, driver, TLC trace validation, verdict, evidence."""
import argparse
import contextlib
import importlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

REPO = os.environ.get("VERIF_REPO", "/repo")
TLA_CP = ":".join(
    [
        "/opt/veriftools/tla/tla2tools.jar",
        "/opt/veriftools/tla/CommunityModules-deps.jar",
    ]
)


class MachineryError(Exception):
    pass


class CaseTimeout(Exception):
    pass


class Ctx:
    def __init__(self, tier, seed, stim, tmp):
        self.tier, self.seed, self.stim, self.tmp = tier, seed, stim, tmp
        self.rng = random.Random(seed * 7919 + 13)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick


class Tlc:
    """One TLC process."""

    def __init__(self, here, module, tmp, env=None, workers=1, heap="3g", timeout=800):
        self.module = module
        self.meta = tempfile.mkdtemp(prefix="meta", dir=tmp)
        self.out = os.path.join(self.meta, "out.txt")
        self.timeout = timeout
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = [
            "java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss64m",
            f"-Xmx{heap}", f"-Djava.io.tmpdir={self.meta}",
            "-cp", TLA_CP, "tlc2.TLC",
            "-workers", str(workers), "-deadlock", "-noGenerateSpecTE",
            "-metadir", self.meta, "-config", module + ".cfg", module + ".tla",
        ]
        self.cmd = cmd
        self.t0 = time.time()
        self.fh = open(self.out, "w")
        self.p = subprocess.Popen(
            cmd, cwd=os.path.join(here, "spec"), stdout=self.fh,
            stderr=subprocess.STDOUT, env=e, stdin=subprocess.DEVNULL,
        )

    def wait(self):
        try:
            rc = self.p.wait(timeout=max(1, self.timeout - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            raise MachineryError(f"TLC timed out on {self.module}")
        finally:
            self.fh.close()
        text = open(self.out, errors="replace").read()
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.text = text
        self.rc = rc
        self.wall = time.time() - self.t0
        return rc


def run_mc(here, name, tmp, stim, tier, workers):
    return Tlc(
        here, name, tmp,
        env={"STIM": stim, "TIER": tier}, workers=workers,
        heap="6g" if tier == "thorough" else "3g",
    )


@contextlib.contextmanager
def setting(case):
    """None of the properties depends on whether gradients are recorded or
    whether a module is in training or evaluation mode (drivers that need
    a mode set it themselves): cases run in any of the four settings."""
    import torch

    mood = zlib.crc32(json.dumps(case, sort_keys=True, default=str).encode())
    init = torch.nn.Module.__init__

    def evaluating(self, *args, **kwargs):
        init(self, *args, **kwargs)
        self.training = False

    if mood & 2:
        torch.nn.Module.__init__ = evaluating
    try:
        with torch.set_grad_enabled(bool(mood & 1)):
            yield
    finally:
        torch.nn.Module.__init__ = init


def guarded(execute, case, limit):
    """Run one case; anything the real code throws that the driver did not
    expect becomes a 'crash' event, which no specification allows."""

    def on_alarm(*_):
        raise CaseTimeout(f"case exceeded {limit}s")

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        with setting(case):
            return list(execute(case))
    except MachineryError:
        raise
    except BaseException as exc:  # noqa: BLE001
        if isinstance(exc, KeyboardInterrupt):
            raise
        return [
            {
                "op": "crash",
                "err": type(exc).__name__,
                "msg": (str(exc)[:300] + " @ " + tb_tail(exc)),
            }
        ]
    finally:
        signal.alarm(0)


def tb_tail(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    return " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[::-1][:4])


def load_known(here, pid):
    path = os.path.join(here, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                r = json.loads(line)
                if r.get("property") == pid and r.get("status") == "known":
                    out.append(r)
    return out


def main(here):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    os.makedirs("/tmp", exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=f"vf-{a.pid}-")
    rc = 2
    try:
        rc = decide(here, a, tmp)
    except MachineryError as exc:
        print(f"MACHINERY-ERROR property={a.pid} {exc}")
    except Exception:
        traceback.print_exc()
        print(f"MACHINERY-ERROR property={a.pid}")
    finally:
        if a.keep:
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(here, a, tmp):
    t0 = time.time()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    mod = importlib.import_module("harness." + a.pid.lower())

    # ---- phase A: design models (run while torch is imported)
    mcs = []
    stim_path = {}
    names = list(getattr(mod, "MC", []))
    if tier == "thorough":
        names += list(getattr(mod, "MC_THOROUGH", []))
    if not a.replay:
        for n in names:
            stim_path[n] = os.path.join(tmp, n + ".stim")
            mcs.append(run_mc(here, n, tmp, stim_path[n], tier, max(1, 6 // len(names))))
    sys.path.insert(0, REPO)
    os.environ.setdefault("OMP_NUM_THREADS", "4")
    import torch

    torch.set_num_threads(4)
    import ml4gw

    if not os.path.realpath(ml4gw.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise MachineryError(f"imported {ml4gw.__file__}, not {REPO}")
    if hasattr(mod, "setup"):
        mod.setup()

    stim = {}
    mc_stats = []

    def finish_mc():
        for m in mcs:
            rc = m.wait()
            if rc != 0 or "Model checking completed. No error has been found" not in m.text:
                print(m.text[-3000:])
                raise MachineryError(f"design model {m.module} failed (rc {rc})")
            mc_stats.append(
                {"model": m.module, "generated": m.generated, "distinct": m.distinct,
                 "wall_s": round(m.wall, 1)}
            )
            p = stim_path[m.module]
            if os.path.exists(p):
                stim[m.module] = sorted(
                    (load_stim(x) for x in open(p) if x.strip()), key=lambda r: json.dumps(r, sort_keys=True)
                )

    needs_stim = getattr(mod, "NEEDS_STIM", False)
    if needs_stim:
        finish_mc()

    # ---- phase B: drive the real code
    ctx = Ctx(tier, a.seed, stim, tmp)
    if a.replay:
        cases = [json.loads(x)["case"] for x in open(a.replay) if x.strip()]
    else:
        cases = list(mod.cases(ctx))
    limit = getattr(mod, "CASE_LIMIT", 120)
    events = []
    case_of = {}
    import warnings

    warnings.simplefilter("ignore")
    tb = time.time()
    for cid, case in enumerate(cases, 1):
        case_of[cid] = case
        for e in guarded(mod.execute, case, limit):
            e["cid"] = cid
            e.setdefault("err", "")
            events.append(e)
    drive_s = time.time() - tb
    if not events:
        raise MachineryError("driver produced no events")
    if not needs_stim:
        finish_mc()

    # ---- phase C: trace validation
    nshard = getattr(mod, "SHARDS", 4 if tier == "quick" else 6)
    total = len(events)
    weights = [len(json.dumps(e)) for e in events] if nshard > 1 else []
    shards = split(events, weights, nshard)
    spec = mod.TRACE
    runs = []
    tc = time.time()

    def launch(name, sh):
        path = os.path.join(tmp, f"trace{name}.ndjson")
        with open(path, "w") as f:
            for e in sh:
                f.write(json.dumps(e, allow_nan=False) + "\n")
        return sh, Tlc(here, spec, tmp, env={"TRACE": path, "TIER": tier}, heap="4g")

    for i, sh in enumerate(shards):
        runs.append(launch(i, sh))
    bad = []
    tr_states = 0
    stuck = 0
    while runs:
        sh, t = runs.pop(0)
        rc = t.wait()
        m = re.findall(r'"VERDICT (.*)"\s*$', t.text, re.M)
        if rc != 0 or not m:
            at = re.findall(r"^(?:/\\ )?l = (\d+)$", t.text, re.M)
            if "The error occurred when TLC was evaluating" in t.text and at and int(at[-1]) <= len(sh):
                # no transition of the specification has a value for this event
                # (data out of range or of the wrong form): it is rejected, and
                # the rest of the trace is judged without its case
                stuck += 1
                e = sh[int(at[-1]) - 1]
                bad.append({"line": int(at[-1]), "cid": e["cid"], "op": e["op"], "event": e,
                            "clause": "data outside what any behaviour of the specification has"})
                rest = [x for x in sh if x["cid"] != e["cid"]]
                if rest and stuck < 12:  # enough to report otherwise
                    runs.append(launch(f"r{stuck}", rest))
                continue
            print(t.text[-4000:])
            raise MachineryError(f"trace spec {spec} gave no verdict (rc {rc})")
        v = json.loads(m[-1].replace('\\"', '"'))
        if v["consumed"] != len(sh):
            raise MachineryError("trace not fully consumed")
        tr_states += t.distinct
        for b in v["bad"]:
            b["event"] = sh[b["line"] - 1]
            bad.append(b)
    trace_s = time.time() - tc

    # ---- verdict
    known = load_known(here, a.pid)
    fresh, hits = [], {}
    for b in bad:
        k = match_known(known, b, case_of[b["cid"]])
        if k is not None:
            hits[k["id"]] = k
        else:
            fresh.append(b)
    for k in known:
        if k["id"] in hits:
            print(f"KNOWN-FINDING: property={a.pid} {k['what']}")

    ops = {}
    for e in events:
        ops[e["op"]] = ops.get(e["op"], 0) + 1
    ev = {
        "property": a.pid,
        "tier": tier,
        "seed": a.seed,
        "level": "model_checking",
        "coverage": {
            "states": sum(m["distinct"] for m in mc_stats) + tr_states,
            "transitions": sum(m["generated"] for m in mc_stats) + total,
            "traces_validated_against_impl": len(cases),
            "design_models": mc_stats,
            "events_validated": total,
            "events_by_action": ops,
            "trace_spec": spec,
            "driver_wall_s": round(drive_s, 1),
            "trace_wall_s": round(trace_s, 1),
            "samples": [compact(case_of[c]) for c in sorted(case_of)[:: max(1, len(cases) // 4)][:5]],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    if not a.replay:
        with open(os.path.join(here, "evidence", a.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    if fresh:
        rdir = os.path.join(here, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f"{a.pid}-{tier}-{a.seed}.jsonl")
        seen = set()
        lines = []
        for b in fresh:
            print(
                f"  clause '{b['clause']}' fails at action {b['op']} "
                f"case={json.dumps(compact(case_of[b['cid']]))[:400]}"
                + (f" err={b['event'].get('err')} {b['event'].get('msg','')}" if b["event"].get("err") else "")
            )
            if b["cid"] not in seen:
                seen.add(b["cid"])
                lines.append(json.dumps({"case": case_of[b["cid"]], "clause": b["clause"], "op": b["op"]}))
        if not a.replay:
            with open(rp, "w") as f:
                f.write("\n".join(lines) + "\n")
        else:
            rp = a.replay
        print(f"VIOLATION property={a.pid} replay={rp}")
        return 1
    print(
        f"OK property={a.pid} tier={tier} cases={len(cases)} events={total} "
        f"design_states={sum(m['distinct'] for m in mc_stats)} wall={time.time()-t0:.1f}s "
        f"(drive {drive_s:.1f}s trace {trace_s:.1f}s)"
    )
    return 0


def match_known(known, b, case):
    """A finding is identified by clause, action and the exact fields of the
    case listed in it."""
    for k in known:
        if k.get("clause") and k["clause"] != b["clause"]:
            continue
        if k.get("op") and k["op"] != b["op"]:
            continue
        if all(case.get(f) == v for f, v in k.get("case", {}).items()):
            return k
    return None


def compact(case):
    def c(v):
        if isinstance(v, list) and len(v) > 12:
            return v[:12] + ["..."]
        if isinstance(v, dict):
            return {k: c(x) for k, x in v.items()}
        return v

    return c(case) if isinstance(case, dict) else {"case": c(case)}


def split(events, weights, n):
    """Split into <= n shards at case boundaries, balanced by size."""
    if n <= 1:
        return [events]
    groups, cur, last = [], [], None
    for e, w in zip(events, weights):
        if e["cid"] != last and cur:
            groups.append(cur)
            cur = []
        cur.append((e, w))
        last = e["cid"]
    groups.append(cur)
    total = sum(weights)
    if total < 200_000:
        n = min(n, 2)
    bins = [[0, []] for _ in range(min(n, len(groups)))]
    for g in groups:
        b = min(bins, key=lambda x: x[0])
        b[0] += sum(w for _, w in g)
        b[1].append(g)
    return [[e for g in b[1] for e, _ in g] for b in bins if b[1]]


def load_stim(line):
    v = json.loads(line)
    return json.loads(v) if isinstance(v, str) else v
