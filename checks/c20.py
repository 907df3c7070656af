import numpy as np
from vlib import gen
from vlib.oracle import sint

TRACE = "PolygonsTrace"
RULE = ("for every simple lattice polygon grown by the specification, at every scale, area, crossing, triangulation and "
        "quadrature of the real code are those computed exactly by the specification")
CONSTS = "CONSTANTS Side = 4\n NMax = 9\n"
TRACE_CFG = gen.trace_cfg(CONSTS, done="TraceDone")
CHUNK = 16
LIMIT = 30
SCALE = {"unit": 1.0, "mm": 2.0 ** -11, "tenth": 2.0 ** -3, "odd": 0.037}
SHIFT = {0: (0.0, 0.0), 1: (2.0, -1.5), 2: (0.25, 0.75)}


def models(tier):
    inv = "INVARIANT NeverStuck\nINVARIANT StaysSimple\nINVARIANT Tiles\nINVARIANT MomentsAdd\nCHECK_DEADLOCK FALSE\n"
    n = (2, 5) if tier == "quick" else (2, 6)
    return [{"name": "Polygons", "module": "Polygons",
             "cfg": "SPECIFICATION PSpec\n" + inv + "CONSTANTS Side = %d\n NMax = %d\n" % n, "kw": {"workers": 4}}]


def scenarios(tier, seed):
    return _gen(120 if tier == "quick" else 1500, seed)


def _gen(n, seed):
    from vlib import tlc
    import hashlib
    cfg = "SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n" + CONSTS
    items, r = tlc.generate("PolygonsGen", cfg, workers=1, args=(
        "-simulate", "num=%d" % n, "-depth", "9", "-seed", str(seed)))
    out, seen = [], set()
    for c in items:
        k = hashlib.sha1(repr(c).encode()).hexdigest()
        if k not in seen and not (c["how"]["scale"] == "odd" and collinear(c["a"])):
            seen.add(k)
            out.append({"c": c, "id": "poly-" + k[:10]})
    return out, {"states": r["distinct"] or r["states"], "transitions": r["states"]}


def collinear(p):
    n = len(p)
    return any((p[j][0] - p[i][0]) * (p[k][1] - p[i][1]) == (p[j][1] - p[i][1]) * (p[k][0] - p[i][0])
               for i in range(n) for j in range(i) for k in range(j))


def execute(scn):
    from freegs import polygons, quadrature
    c, how = scn["c"], scn["c"]["how"]
    s, (r0, z0) = SCALE[how["scale"]], SHIFT[how["shift"]]

    def place(p):
        return [(r0 + s * x, z0 + s * y) for x, y in p]
    a = [tuple(v) for v in c["a"]]
    if how["rev"]:
        a = a[::-1]
    t = how["turn"] % len(a)
    a = a[t:] + a[:t]
    b = [tuple(v) for v in c["b"]]
    pa, pb = place(a), place(b)
    back = {v: list(w) for v, w in zip(pa, a)}
    keep = list(pa)
    ev = []
    try:
        tri = polygons.triangulate(pa)
        tri = [[back.get(tuple(v), [99, 99]) for v in tr] for tr in tri]
        cross = []
        for p, q, pp, pq in ((a, b, pa, pb), (b, a, pb, pa)):
            for c1 in (True, False):
                for c2 in (True, False):
                    yes = polygons.intersect([v[0] for v in pp], [v[1] for v in pp], [v[0] for v in pq],
                                             [v[1] for v in pq], closed1=c1, closed2=c2)
                    cross.append({"p": [list(v) for v in p], "q": [list(v) for v in q], "cp": c1, "cq": c2, "yes": bool(yes)})
            yes = polygons.intersect([v[0] for v in pp], [v[1] for v in pp], [v[0] for v in pq], [v[1] for v in pq])
            cross.append({"p": [list(v) for v in p], "q": [list(v) for v in q], "cp": True, "cq": True, "yes": bool(yes)})
        ev.append({"ev": "poly", "poly": [list(v) for v in a], "tri": tri, "cross": cross,
                   "area": sint(polygons.area(pa) / s ** 2 * 2, 100), "cw": bool(polygons.clockwise(pa)),
                   "same": pa == keep})
    except Exception as x:
        ev.append(gen.crash(x))
    A = abs(sum((a[(i + 1) % len(a)][0] - a[i][0]) * (a[i][1] + a[(i + 1) % len(a)][1]) for i in range(len(a)))) / 2
    for n in (1, 3, 6):
        try:
            quad = quadrature.polygon_quad(pa, n=n) if n != 6 else quadrature.polygon_quad(pa)
            mom = []
            for i in range(5):
                for j in range(5 - i):
                    v = quadrature.average(lambda r, z: ((r - r0) / s) ** i * ((z - z0) / s) ** j, quad)
                    f = 1
                    for k in range(1, i + j + 3):
                        f *= k
                    mom.append({"a": i, "b": j, "v": sint(v * A * f, 100)})
            ws = [q[2] for q in quad]
            ev.append({"ev": "quad", "n": n, "poly": [list(v) for v in a], "npts": len(quad), "wsum": sint(sum(ws), 1e6),
                       "wmin": sint(min(ws), 1e6), "mom": mom,
                       "pts": [[sint((q[0] - r0) / s, 1e3), sint((q[1] - z0) / s, 1e3)] for q in quad if q[2] > 1e-9]})
        except Exception as x:
            ev.append(gen.crash(x))
    try:
        quadrature.triangle_quad(pa[:3], n=4)
        ev.append({"ev": "refuse", "refused": False})
    except ValueError:
        ev.append({"ev": "refuse", "refused": True})
    return ev
