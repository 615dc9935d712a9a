"""F05: expansions as values."""
import json, os, tempfile
import numpy as np
from .. import check, run, tlc
from ..check import Scenario

UNIT = 1e-7
CLIP = 10 ** 9


# ---- exact truncated fields, by power series along the segment from the centre
def legendre_terms(y, x, p):
    """|y|^n/|x|^(n+1) P_n(cos): values for n = 0..p (arrays of complex step allowed)"""
    xx, xy, yy = x @ x, y @ x, y @ y
    H = [1.0, xy]
    for n in range(1, p):
        H.append(((2 * n + 1) * xy * H[n] - n * xx * yy * H[n - 1]) / (n + 1))
    return [H[n] / xx ** (n + 0.5) for n in range(p + 1)]


def mult_field(src, c, p, x):
    y, n = src
    y = np.asarray(y) - c
    x = np.asarray(x) - c
    if n is None:
        return float(sum(legendre_terms(y, x, p)))
    h = 1e-40
    return float(sum(legendre_terms(y + 1j * h * n, x.astype(complex), p)).imag / h)


def ser_mul(a, b):
    k = len(a)
    return np.array([sum(a[i] * b[j - i] for i in range(j + 1)) for j in range(k)])


def ser_pow(a, s):
    """a(t)^s for a[0] != 0"""
    k = len(a)
    b = np.zeros(k, dtype=a.dtype)
    b[0] = a[0] ** s
    for j in range(1, k):
        b[j] = sum((s * i - (j - i)) * a[i] * b[j - i] for i in range(1, j + 1)) / (j * a[0])
    return b


def local_field(src, cm, cl, p, x):
    """value at x of the degree-p part of the multipole field about cl"""
    y, n = src
    dip = n is not None
    h = 1e-40
    y = (np.asarray(y) - cm).astype(complex) + (1j * h * n if dip else 0)
    a, d = (np.asarray(cl) - cm).astype(complex), (np.asarray(x) - cl).astype(complex)
    k = p + 1

    def lin(*v):
        r = np.zeros(k, dtype=complex)
        r[:min(k, len(v))] = v[:k]
        return r
    xx, xy, yy = lin(a @ a, 2 * (a @ d), d @ d), lin(a @ y, d @ y), y @ y
    H = [lin(1.0), xy]
    for i in range(1, p):
        H.append(((2 * i + 1) * ser_mul(xy, H[i]) - i * yy * ser_mul(xx, H[i - 1])) / (i + 1))
    tot = sum(ser_mul(H[i], ser_pow(xx, -(i + 0.5))) for i in range(p + 1)).sum()
    return float(tot.imag / h if dip else tot.real)


class Geo:
    def __init__(self, r, special):
        def P(s, o=(0, 0, 0)):
            return np.array([r.uniform(-s, s) + o[k] for k in range(3)])

        def N():
            v = P(1.0)
            return v / np.linalg.norm(v)
        # a random direction for the local cluster
        o = 5.0 * N()
        self.m = [P(0.4) for _ in range(3)]
        self.l = [P(0.4, o) for _ in range(3)]
        self.s = [(P(0.6), None) for _ in range(4)] + [(P(0.6), N()) for _ in range(4)]
        self.pm = [6.0 * N(), 4.0 * N(), 7 * N()]
        self.pl = [P(0.5, o) for _ in range(3)]
        if special:
            # coincident positions, points on the polar axis or in the coordinate planes of a centre; the whole
            # arrangement is put in one of the 48 orientations of a cube
            z = np.array
            ax, sg = r.sample(range(3), 3), [r.choice((-1, 1)) for _ in range(3)]

            def T(v):
                return z([sg[k] * float(v[ax[k]]) for k in range(3)])

            def cloud(n, o, s):
                # distinct points of a lattice, pairs of them aligned with the axes
                v = r.choice(([(0, 0, 0), (1, 0, 0), (0, 0, 1)], [(0, 0, 0), (0, 1, 1), (0, 1, -1)], [(0, 0, 0), (1, 1, 0), (1, 1, 1)]))
                return [T(z(o, float) + s * z(e, float)) for e in v[:n]]
            self.m = cloud(3, (0, 0, 0), 0.25)
            self.l = cloud(3, (0, 0, 5), 0.25)
            self.s = [(T((0, 0, 0.25)), None), (T((0.0, 0, 0)), None), (T((0.25, 0, -0.5)), None), (T((0.25, 0.25, 0)), None),
                      (T((0, 0, 0.25)), N()), (T((0.0, 0, 0)), N()), (T((0.25, 0, 0.0)), T((0.6, 0, 0.8))), (T((0, 0, -0.5)), T((0, 1.0, 0)))]
            self.pm = [T((0, 0, 6.0)), T((0.25, 0, -5.0)), T((4, 0, 0.0))]
            self.pl = [self.l[0], self.l[1], T((0, 0, 5.5))]

    def line(self):
        f = lambda v: " ".join("%.17g" % t for t in v)
        o = ["geo", str(len(self.m))] + [f(v) for v in self.m] + [str(len(self.l))] + [f(v) for v in self.l]
        o += [str(len(self.s))] + [f(y) + " " + f(n if n is not None else (0, 0, 0)) for y, n in self.s]
        o += [str(len(self.pm))] + [f(v) for v in self.pm] + [str(len(self.pl))] + [f(v) for v in self.pl]
        return " ".join(o)

    def table(self, orders, fix):
        q = lambda v: int(round(v / UNIT))
        m = {str(p): {str(i + 1): [[q(mult_field(s, c, p, x)) for x in self.pm] for s in self.s] for i, c in enumerate(self.m)} for p in orders}
        l = {str(p): {str(i + 1): {str(j + 1): [[q(local_field(s, c, d, p, x)) for x in self.pl] for s in self.s] for j, d in enumerate(self.l)}
                      for i, c in enumerate(self.m)} for p in orders}
        return {"op": "table", "m": m, "l": l, "fix": fix}


def hists(mode, depth, num, seed, orders):
    d = tempfile.mkdtemp(prefix="pibem-gen-", dir=os.environ.get("PIBEM_SCRATCH"))
    f = os.path.join(d, "h")
    ms, ls = ('{"a", "b"}', '{"x", "y"}') if mode == "short" else ('{"a", "b", "c"}', '{"x", "y", "z"}')
    cfg = "\n".join(["SPECIFICATION Spec", "CONSTANTS", " MSlots = " + ms, " LSlots = " + ls, " MCen = {1, 2, 3}", " LCen = {1, 2, 3}",
                     " Src = {1, 2, 3, 4, 5, 6, 7, 8}", " Ord = {%s}" % ", ".join(map(str, orders)), " GenDepth = %d" % depth,
                     ' Mode = "%s"' % mode, "INVARIANT Written", "CHECK_DEADLOCK FALSE", ""])
    o = tlc.tlc("ExpansionGen", cfg, env={"OUT": f}, workers=1, simulate=("num=%d" % num if mode != "short" else None),
                extra=(["-depth", str(depth + 1), "-seed", str(seed)] if mode != "short" else []))
    if not o.ok:
        raise tlc.TLCError("generation failed: " + o.text[-1500:])
    out = []
    for line in open(f):
        line = line.strip()
        if line.startswith('"'):
            line = json.loads(line)
        h = json.loads(line)
        out.append(h)
    if mode != "short":  # TLC writes every last step: keep two per history
        seen, keep = {}, []
        for h in out:
            k = json.dumps(h[:-1])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 2:
                keep.append(h)
        out = keep
    return out, o


def hscenario(c, key, geo, hs, orders):
    def fn():
        s = [geo.line()] + ["hist %d " % len(h) + " ".join("%s %s %s %d %d %d %d" % (o["op"], o["s"], o["t"], o["c"], o["p"], o["x"], o["q"]) for o in h) for h in hs]
        # freed and fresh memory is filled with a pattern
        r = run.harness(c.exe("expx")[0], s, timeout=200, args=["script", "out"], env={"MALLOC_PERTURB_": "173"})
        if not r.ok:
            return [{"op": "abnormal", "why": r.why}]
        evs = r.all("hist")
        if len(evs) != len(hs):
            return [{"op": "abnormal", "why": "missing histories"}]
        ev = [geo.table(orders, r.get("geo")["fix"])]
        for h, e in zip(hs, evs):
            f = [[max(-CLIP, min(CLIP, int(round(max(-1e3, min(1e3, v)) / UNIT)))) for v in l] for l in e["f"]]
            ev.append({"op": "ops", "h": h, "fp": e["fp"], "f": f, "fix": e["fix"]})
        return ev
    return Scenario(key, fn, {"orders": orders, "histories": len(hs), "length": len(hs[0]) if hs else 0})


def cscenario(c, key, rng, n):
    hs = []
    for _ in range(n):
        st, h = {}, []
        for _ in range(12):
            s = rng.choice("abc")
            k = rng.choice(["new", "set", "set", "copy", "assign"])
            if k == "new" or not st:
                p = rng.choice([1, 2])
                st[s] = p
                h.append({"op": "new", "s": s, "t": s, "p": p, "n": size(p), "i": 0, "v": 0})
            elif k == "set":
                s = rng.choice(sorted(st))
                h.append({"op": "set", "s": s, "t": s, "p": 0, "n": 0, "i": rng.randint(1, size(st[s])), "v": rng.randint(-99, 99)})
            else:
                t = rng.choice(sorted(st))
                if k == "copy" and s == t or k == "assign" and s not in st:
                    continue
                st[s] = st[t]
                h.append({"op": k, "s": s, "t": t, "p": 0, "n": 0, "i": 0, "v": 0})
        hs.append(h)

    def fn():
        s = ["coeff %d " % len(h) + " ".join("%s %s %s %d %d %d" % (o["op"], o["s"], o["t"], o["p"], o["i"], o["v"]) for o in h) for h in hs]
        r = run.harness(c.exe("expx")[0], s, timeout=100, args=["script", "out"], env={"MALLOC_PERTURB_": "173"})
        if not r.ok:
            return [{"op": "abnormal", "why": r.why}]
        return [{"op": "coeff", "h": h, "obs": e["obs"]} for h, e in zip(hs, r.all("coeff"))]
    return Scenario(key, fn, {"histories": n})


def size(p):
    return sum((a + 1) * (p + 1) ** 2 for a in range(p + 1))


def F05(c):
    c.exe("expx")
    c.model("ExpansionDesign", "ExpansionDesign_ok.cfg")
    for b in ("bad1", "bad2", "bad3"):
        c.rejects("ExpansionDesign", "ExpansionDesign_%s.cfg" % b)
    r = c.rng
    sc = []
    n = 3 if c.thorough else 2
    hs, o = hists("short", n, 0, 0, [10])
    c.mc_states += o.distinct
    if len(hs) > 9000:
        hs = r.sample(hs, 9000)
    for k in range(0, len(hs), 400):
        sc.append(hscenario(c, "short-%d" % (k // 400), Geo(r, (k // 400) % 3 != 2), hs[k:k + 400], [10]))
    for k in range(24 if c.thorough else 6):
        orders = sorted(r.sample(range(2, 11), 2)) if k else [1, 10]
        hs, o = hists("long", 60 if c.thorough else 36, 80 if c.thorough else 50, c.seed * 100 + k, orders)
        sc.append(hscenario(c, "long-%d" % k, Geo(r, k % 3 == 0), hs, orders))
    sc.append(cscenario(c, "coefficient-tables", r, 200 if c.thorough else 60))
    return check.run_scenarios(c, sc, "ExpansionTrace")
