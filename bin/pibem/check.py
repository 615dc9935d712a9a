"""Check framework: evidence, violations, known findings, confirmation by re-run."""
import json, os, random, sys, time, traceback, tempfile, shutil, concurrent.futures as cf
from . import build, run, tlc

VERIF = build.VERIF


def known_findings():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


class Violation(Exception):
    def __init__(self, key, what, data=None):
        super().__init__(what)
        self.key, self.what, self.data = key, what, data


class Check:
    """One property check.  Subclass hooks: `body(self)`.

    self.scenarios(list of Scenario) etc. are convenience layers on top."""

    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.t0 = time.time()
        self.mc_states = self.mc_trans = 0
        self.traces = 0
        self.trace_lines = 0
        self.samples = []
        self.extra = {}
        self.models = []
        self.assumptions = []
        self.known_hit = []
        self.bins = {}

    # ---- building / running -------------------------------------------
    def exe(self, *names):
        miss = [n for n in names if n not in self.bins]
        if miss:
            self.bins.update(build.build(*miss))
        return [self.bins[n] for n in names]

    def pmap(self, fn, items, n=7):
        with cf.ThreadPoolExecutor(n) as ex:
            return list(ex.map(fn, items))

    # ---- model checking -------------------------------------------------
    def model(self, module, cfg, workers=6, timeout=700, must_cover=(), extra=(), note=""):
        """Exhaustive TLC run of a design spec. A failure is a machinery error
        unless the spec's constants come from the code."""
        o = tlc.tlc(module, cfg, workers=workers, timeout=timeout, extra=list(extra) + (["-coverage", "1"] if must_cover else []))
        if not o.ok:
            raise tlc.TLCError("design model %s/%s: %s\n%s" % (module, cfg, o.violated, o.text[-3000:]))
        for a in must_cover:
            if not o.coverage.get(a):
                raise tlc.TLCError("vacuous: action %s of %s never taken (%s)" % (a, module, o.coverage))
        self.mc_states += o.distinct
        self.mc_trans += o.states
        self.models.append({"module": module, "config": cfg if "\n" not in cfg else "inline", "distinct_states": o.distinct, "states_generated": o.states, "depth": o.diameter, **({"note": note} if note else {})})
        return o

    def rejects(self, module, cfg, workers=6, timeout=700):
        """a deliberately wrong design that TLC must refuse (the properties bite)"""
        o = tlc.tlc(module, cfg, workers=workers, timeout=timeout)
        if o.ok:
            raise tlc.TLCError("wrong design %s/%s was accepted" % (module, cfg))
        self.mc_states += o.distinct
        self.mc_trans += o.states
        self.models.append({"module": module, "config": cfg, "rejected": o.violated})

    # ---- trace validation -------------------------------------------------
    def validate(self, module, trace, consts="", label=None, **kw):
        ok, pos, o = tlc.validate(module, trace, consts, **kw)
        self.mc_states += o.distinct
        self.mc_trans += o.states
        return ok, pos, o

    def finish(self, violations):
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": dict({"states": self.mc_states, "transitions": self.mc_trans,
                                "traces_validated_against_impl": self.traces, "trace_events": self.trace_lines,
                                "models": self.models, "samples": self.samples[:6] or ["none"]}, **self.extra),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")


class Scenario:
    """key: stable name; record(): runs the real code, returns list of trace
    events (dicts, first is {"op":"scenario","key":...}).  An abnormal end of
    the real code is itself recorded as the event {"op":"abnormal"}."""

    def __init__(self, key, fn, desc=None):
        self.key, self.fn, self.desc = key, fn, desc or {}


def run_scenarios(chk, scenarios, module, consts="", chunk=None, xmx="6g", invariants=(), pool=7, tlc_par=3, maxviol=5):
    """Record every scenario (parallel), validate with TLC in chunks; on
    rejection find the scenario, re-record and re-validate it alone."""
    kf = [k for k in known_findings() if k["property"] == chk.id]

    def rec(s):
        t = s.fn()
        return [{"op": "scenario", "key": s.key}] + t

    traces = chk.pmap(rec, scenarios, pool)
    todo = list(range(len(scenarios)))
    bad = []
    listed = [i for i in todo if any(scenarios[i].key == k["scenario"] for k in kf)]
    todo = [i for i in todo if i not in listed]
    chunk = chunk or max(1, (len(todo) + tlc_par - 1) // tlc_par)
    chunks = [todo[i::(len(todo) + chunk - 1) // chunk] for i in range((len(todo) + chunk - 1) // chunk)] if todo else []

    def val(ix):
        """returns list of (scenario index, event) rejected"""
        res = []
        ix = list(ix)
        while ix:
            tr, own = [], []
            for i in ix:
                tr += traces[i]
                own += [i] * len(traces[i])
            ok, pos, o = chk.validate(module, tr, consts, xmx=xmx, invariants=invariants)
            if ok:
                break
            i = own[pos - 1]
            res.append((i, tr[pos - 1]))
            ix = ix[ix.index(i) + 1:]  # everything before was accepted
            if len(res) >= maxviol:
                break
        return res

    for r in chk.pmap(val, chunks, tlc_par):
        bad += r
    chk.traces += len(todo)
    chk.trace_lines += sum(len(traces[i]) for i in todo)
    for i in todo[:3]:
        chk.samples.append({"scenario": scenarios[i].key, "desc": scenarios[i].desc, "events": len(traces[i]), "first": _short(traces[i][1] if len(traces[i]) > 1 else None)})
    viol = 0
    for i, ev in bad:
        s = scenarios[i]
        # confirm: fresh execution of the real code and fresh validation
        for k in range(3):
            t2 = rec(s)
            ok, pos, o = chk.validate(module, t2, consts, xmx=xmx, invariants=invariants)
            if not ok:
                break
        if ok:
            sys.stderr.write("NOTE: rejection of %s did not repeat\n" % s.key)
            continue
        viol += 1
        report(chk, s.key, s.desc, t2, pos, module)
    for i in listed:
        ok, pos, o = chk.validate(module, traces[i], consts, xmx=xmx, invariants=invariants)
        k = [k for k in kf if k["scenario"] == scenarios[i].key][0]
        if ok:
            continue
        ev = traces[i][pos - 1]
        if k.get("op") and ev.get("op") != k["op"] or k.get("match") and any(ev.get(a) != b for a, b in k["match"].items()):
            t2 = rec(scenarios[i])
            ok, pos, o = chk.validate(module, t2, consts, xmx=xmx, invariants=invariants)
            if not ok:
                viol += 1
                report(chk, scenarios[i].key, scenarios[i].desc, t2, pos, module)
            continue
        print("KNOWN-FINDING: property=%s %s" % (chk.id, k["what"]))
        chk.known_hit.append(k["scenario"])
    return viol


def _short(e):
    t = json.dumps(e)
    return t if len(t) < 700 else t[:700] + "..."


def report(chk, key, desc, trace, pos, module):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (chk.id, "".join(c if c.isalnum() or c in "-_." else "_" for c in key)[:80]))
    with open(p, "w") as f:
        json.dump({"property": chk.id, "scenario": key, "desc": desc, "seed": chk.seed, "tier": chk.tier, "module": module,
                   "rejected_event": trace[pos - 1] if pos else None, "position": pos}, f)
    sys.stderr.write("rejected: scenario %s, event %s\n" % (key, _short(trace[pos - 1] if pos else None)))
    print("VIOLATION property=%s replay=%s" % (chk.id, p), flush=True)


def main(pid, tier, body):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    base = tempfile.mkdtemp(prefix="pibem-chk-")
    os.environ["PIBEM_SCRATCH"] = base
    try:
        c = Check(pid, tier, seed)
        v = body(c)
        c.finish(v)
        return 1 if v else 0
    except (build.BuildError, tlc.TLCError) as e:
        sys.stderr.write("CHECK ERROR: %s\n" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(base, ignore_errors=True)
