"""P17: TSPLIB files are read as the problem they describe."""
import itertools
import numpy as np
from vmc import tsplib as T
from vmc.core import guarded, scratch_file
from verypy import cvrp_io

LEVEL = "model_checking"
TECHNIQUE = "files are generated from abstract problems for every combination of format, depot position, section order, line split and limits; what the real reader returns is compared with the abstract problem"
NOTE = ("Complete within the bounds. Nodes are numbered from 1, values are numbers in plain notation, and MAN_2D and MAX_2D use integer coordinates (TSPLIB rounds there, the library does not). "
        "Files whose meaning TSPLIB leaves open are not judged.")
BOUNDS = {"quick": "2-5 nodes; 6 explicit formats x every depot position x every split of the values over lines for up to 9 values (else every regular split) x integer and fractional weights; whole-number matrices with one fractional value at every position; every 4x4 symmetric matrix over {1,2}; 8 coordinate types x every depot position x layouts; demands, capacity, display coordinates present or not; section orders; every order of the nodes in every section (up to 4 nodes); every single missing value; every combination of route limit, vehicles and service time",
          "thorough": "as quick with every split up to 12 values and every 4x4 symmetric matrix over {0,1,2}"}
ASSUMPTIONS = ["one depot", "symmetric matrices"]

COORDS = {2: [(3, 4), (0, 0)], 3: [(1, 7), (-3, 4), (6, -2)], 4: [(0, 0), (3, 4), (-5, 12), (7, -1)], 5: [(2.5, 1), (0, 0.5), (-4, 3), (10, 10), (2.5, 1)]}
ICOORDS = {n: [(int(2 * x), int(2 * y)) for x, y in c] for n, c in COORDS.items()}
GCOORDS = {2: [(3.30, 4.15), (-10.45, 20.59)], 3: [(16.47, 96.10), (-16.47, -94.44), (20.09, 0.0)], 4: [(1.0, 1.0), (1.01, 1.0), (1.0, 1.02), (0.0, 179.59)],
           5: [(38.24, 20.42), (39.57, 26.15), (-40.56, 25.32), (36.26, -23.12), (38.24, 20.42)]}


def put(text, name="p.vrp"):
    p = scratch_file(name)
    with open(p, "w") as f:
        f.write(text)
    return p


def num(x):
    return str(int(x)) if float(x) == int(x) else repr(float(x))


def text(n, sec, wt, fmt=None, C=None, sep=" : ", extra=(), typ="CVRP", eof=True, ind=""):
    """sec: list of (keyword, lines)."""
    out = ["NAME%sx" % sep, "COMMENT%s(CAPACITY: 7, EDGE_WEIGHT_SECTION EOF)" % sep, "TYPE%s%s" % (sep, typ), "DIMENSION%s%d" % (sep, n)]
    out.append("EDGE_WEIGHT_TYPE%s%s" % (sep, wt))
    if fmt:
        out.append("EDGE_WEIGHT_FORMAT%s%s" % (sep, fmt))
    out += list(extra)
    if C is not None:
        out.append("CAPACITY%s%s" % (sep, num(C)))
    for k, lines in sec:
        out.append(k)
        out += [ind + l for l in lines]
    if eof:
        out.append("EOF")
    return "\n".join(out) + "\n"


def same(a, b):
    return a is None and b is None if (a is None or b is None) else np.allclose(np.array(a, dtype=float), np.array(b, dtype=float), atol=1e-9, rtol=0)


def check(txt, want, name="p.vrp"):
    """want: dict of the fields; None when the file must be refused."""
    p = put(txt, name)
    got, err = guarded(lambda: cvrp_io.read_TSPLIB_CVRP(p), 10)
    if want is None:
        if err is None:
            return "was accepted, distances %r" % (got.distance_matrix.tolist() if got.distance_matrix is not None else None,)
        return None if "IOError" in err or "OSError" in err else err
    if err:
        return err
    M = want["D"]
    if got.size != len(M) - 1:
        return "size read as %r, it has %d customers" % (got.size, len(M) - 1)
    if not isinstance(got.distance_matrix, np.ndarray) or got.distance_matrix.shape != M.shape or not same(got.distance_matrix, M):
        return "distances read as %r, the file says %r" % (None if got.distance_matrix is None else got.distance_matrix.tolist(), M.tolist())
    for f, k in (("coordinate_points", "pts"), ("display_coordinate_points", "dd"), ("customer_demands", "d"), ("capacity_constraint", "C")):
        if not same(getattr(got, f), want.get(k)):
            return "%s read as %r, the file says %r" % (f, getattr(got, f), want.get(k))
    if got.edge_weight_type != want["wt"]:
        return "edge weight type read as %r" % (got.edge_weight_type,)
    return None


def splits(vals, mode):
    if isinstance(mode, tuple):         # cut positions
        out, cur = [], []
        for i, v in enumerate(vals):
            cur.append(v)
            if i in mode:
                out.append(cur)
                cur = []
        return out + ([cur] if cur else [])
    return [vals[i:i + mode] for i in range(0, len(vals), mode)]


def perm(M, o):
    return M[np.ix_(o, o)]


def coords_lines(pts):
    return ["%d %s %s" % (i + 1, num(x), num(y)) for i, (x, y) in enumerate(pts)]


def demand_lines(d):
    return ["%d %s" % (i + 1, num(x)) for i, x in enumerate(d)]


def matrices(n):
    k = itertools.count(1)
    M = np.zeros((n, n))
    for i in range(n):
        for j in range(i + 1, n):
            M[i, j] = M[j, i] = next(k)
    return [M, M * 1.5 + 0.25 * (M > 0)]


def explicit(tier):
    full = 9 if tier == "quick" else 12
    for n in (2, 3, 4, 5):
        dem = [0] + [5 * i + 1 for i in range(1, n)]
        for mi, M in enumerate(matrices(n)):
            for fmt in T.FORMATS:
                rows = T.weights(M, fmt)
                vals = [num(v) for r in rows for v in r]
                m = len(vals)
                modes = [None] + list(range(1, m + 1))
                if m <= full and mi == 0:
                    modes += [tuple(i for i in range(m - 1) if b >> i & 1) for b in range(2 ** (m - 1))]
                for mode in modes:
                    lines = [" ".join(map(num, r)) for r in rows] if mode is None else [" ".join(r) for r in splits(vals, mode)]
                    for dep in range(n) if mode is None or not isinstance(mode, tuple) else (n - 1,):
                        o = T.move_first(n, dep)
                        d = [x + (i + 1) for i, x in enumerate(dem)]
                        d[dep] = 0
                        sec = [("EDGE_WEIGHT_SECTION", lines), ("DEMAND_SECTION", demand_lines(d)), ("DEPOT_SECTION", [str(dep + 1), "-1"])]
                        yield text(n, sec, "EXPLICIT", fmt, 20), {"D": perm(M, o), "d": [d[i] for i in o], "C": 20, "wt": "EXPLICIT"}
                if mi == 0:
                    # a value missing or too short a list: refused
                    for k in range(1, m + 1):
                        sec = [("EDGE_WEIGHT_SECTION", [" ".join(vals[:m - k])] if m > k else [])]
                        yield text(n, sec, "EXPLICIT", fmt), None
                    # section orders, a coordinate or display section besides
                    dd = COORDS[n]
                    for dep in (0, n - 1):
                        o = T.move_first(n, dep)
                        d = [0 if i == dep else i + 2 for i in range(n)]
                        W = ("EDGE_WEIGHT_SECTION", [" ".join(map(num, r)) for r in rows])
                        A = ("DEMAND_SECTION", demand_lines(d))
                        B = ("DEPOT_SECTION", [str(dep + 1), "-1"])
                        for kind in ("DISPLAY_DATA_SECTION", "NODE_COORD_SECTION"):
                            X = (kind, coords_lines(dd))
                            w = {"D": perm(M, o), "d": [d[i] for i in o], "C": 9.5, "wt": "EXPLICIT", "dd" if kind[0] == "D" else "pts": [dd[i] for i in o]}
                            for sec in itertools.permutations([W, A, B, X]):
                                yield text(n, list(sec), "EXPLICIT", fmt, 9.5, sep=": "), w
                        for eof, ind, sep in itertools.product((True, False), ("", "   "), (":", " : ", ": ")):
                            yield text(n, [W, A, B], "EXPLICIT", fmt, 9, sep=sep, eof=eof, ind=ind), {"D": perm(M, o), "d": [d[i] for i in o], "C": 9, "wt": "EXPLICIT"}
                        yield text(n, [W], "EXPLICIT", fmt, typ="TSP"), {"D": M, "wt": "EXPLICIT"}
    # one fractional value among whole ones, at every position
    for n in (2, 3, 4, 5):
        for i, j in zip(*np.triu_indices(n, 1)):
            for v in (0.5, 2.75, 1e-3):
                M = matrices(n)[0].copy()
                M[i, j] = M[j, i] = v
                for fmt in T.FORMATS:
                    for dep in range(n):
                        yield text(n, [("EDGE_WEIGHT_SECTION", [" ".join(map(num, r)) for r in T.weights(M, fmt)]), ("DEPOT_SECTION", [str(dep + 1), "-1"])],
                                   "EXPLICIT", fmt), {"D": perm(M, T.move_first(n, dep)), "wt": "EXPLICIT"}
    n = 4
    al = (1, 2) if tier == "quick" else (0, 1, 2)
    iu = np.triu_indices(n, 1)
    for v in itertools.product(al, repeat=6):
        M = np.zeros((n, n))
        M[iu] = v
        M = M + M.T
        for fmt in T.FORMATS:
            for dep in range(n):
                yield text(n, [("EDGE_WEIGHT_SECTION", [" ".join(map(num, r)) for r in T.weights(M, fmt)]), ("DEPOT_SECTION", [str(dep + 1), "-1"])],
                           "EXPLICIT", fmt), {"D": perm(M, T.move_first(n, dep)), "wt": "EXPLICIT"}


def coordinates(tier):
    for wt in T.TYPES:
        for n in (2, 3, 4, 5):
            pts = GCOORDS[n] if wt == "GEO" else ICOORDS[n] if wt in ("MAN_2D", "MAX_2D") else COORDS[n]
            read = [(T.geo_rad(x), T.geo_rad(y)) for x, y in pts] if wt == "GEO" else pts
            M = T.matrix(read, wt)
            for dep in range(n):
                o = T.move_first(n, dep)
                d = [0 if i == dep else 1.5 * i + 2 for i in range(n)]
                P = ("NODE_COORD_SECTION", coords_lines(pts))
                A = ("DEMAND_SECTION", demand_lines(d))
                B = ("DEPOT_SECTION", [str(dep + 1), "-1"])
                w = {"D": perm(M, o), "d": [d[i] for i in o], "C": 30, "wt": wt}
                w["dd" if wt == "GEO" else "pts"] = [read[i] for i in o]
                for sec in itertools.permutations([P, A, B]):
                    for fmt in (None, "FUNCTION"):
                        yield text(n, list(sec), wt, fmt, 30, extra=["NODE_COORD_TYPE : TWOD_COORDS"]), w
                w2 = dict(w, d=None, C=None)
                yield text(n, [P, B], wt), w2
                if dep == 0:
                    yield text(n, [P], wt, typ="TSP"), w2
                for what in ("DISTANCE : 100", "VEHICLES : 3", "SERVICE_TIME : 10", "DISPLAY_DATA_TYPE : COORD_DISPLAY"):
                    yield text(n, [P, A, B], wt, None, 30, extra=[what]), w
    for n in (2, 3):
        P = ("NODE_COORD_SECTION", coords_lines(COORDS[n]))
        for deps in ([1, 2], [2, 1]):
            yield text(n, [P, ("DEPOT_SECTION", [str(x) for x in deps] + ["-1"])], "EUC_2D"), None
        yield text(n, [P], "XRAY1"), None
        yield text(n, [P], "EUC_2D", typ="ATSP".replace("TSP", "HCP")), None


def orders(tier):
    """Nodes listed in every order, not the same in every section."""
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        X = matrices(n)[0]
        for wt in ("EUC_2D", "GEO", "EXPLICIT"):
            pts = GCOORDS[n] if wt == "GEO" else COORDS[n]
            read = [(T.geo_rad(x), T.geo_rad(y)) for x, y in pts] if wt == "GEO" else pts
            M = X if wt == "EXPLICIT" else T.matrix(read, wt)
            for dep in range(n) if n < 5 else (3,):
                o = T.move_first(n, dep)
                d = [0 if i == dep else 1.5 * i + 2 for i in range(n)]
                w = {"D": perm(M, o), "d": [d[i] for i in o], "C": 30, "wt": wt}
                w["pts" if wt == "EUC_2D" else "dd"] = [read[i] for i in o]
                for a, b in itertools.product(itertools.permutations(range(n)), repeat=2):
                    P = ("DISPLAY_DATA_SECTION" if wt == "EXPLICIT" else "NODE_COORD_SECTION", [coords_lines(pts)[i] for i in a])
                    A = ("DEMAND_SECTION", [demand_lines(d)[i] for i in b])
                    W = [("EDGE_WEIGHT_SECTION", [" ".join(map(num, r)) for r in T.weights(M, "UPPER_ROW")])] if wt == "EXPLICIT" else []
                    yield text(n, W + [P, A, ("DEPOT_SECTION", [str(dep + 1), "-1"])], wt, "UPPER_ROW" if W else None, 30), w


def extras(tier):
    Ls, Ks, STs = (None, 200, 200.5, 1), (None, 1, 4), (None, 0, 10, 2.5)
    for L, K, ST in itertools.product(Ls, Ks, STs):
        for how in ("field", "section", "section-first") if ST is not None else ("field",):
            for depot_st in (0, 7) if how != "field" else (0,):
                ex = []
                if L is not None:
                    ex.append("DISTANCE : %s" % L)
                if K is not None:
                    ex.append("VEHICLES : %s" % K)
                if ST is not None and how == "field":
                    ex.append("SERVICE_TIME : %s" % ST)
                P = ("NODE_COORD_SECTION", coords_lines(COORDS[3]))
                sec = [P, ("DEMAND_SECTION", demand_lines([0, 1, 2])), ("DEPOT_SECTION", ["1", "-1"])]
                if how != "field":
                    S = ("SVC_TIME_SECTION", ["%d %s" % (i + 1, depot_st if i == 0 else ST) for i in range(3)])
                    sec = [S] + sec if how == "section-first" else sec[:1] + [S] + sec[1:]
                yield text(3, sec, "EUC_2D", None, 10, extra=ex), (K, L, ST)
    for a, b in ((1, 2), (0, 3)):
        P = ("NODE_COORD_SECTION", coords_lines(COORDS[3]))
        yield text(3, [P, ("SVC_TIME_SECTION", ["1 0", "2 %d" % a, "3 %d" % b])], "EUC_2D"), None


def judge_extra(txt, want):
    p = put(txt)
    got, err = guarded(lambda: cvrp_io.read_TSBLIB_additional_constraints(p), 10)
    if want is None:
        return None if err and ("OSError" in err or "IOError" in err) else "service times that differ were read as %r" % (got,)
    if err:
        return err
    if tuple(got) != tuple(want):
        return "constraints read as %r, the file says %r" % (got, want)
    got, err = guarded(lambda: cvrp_io.read_TSPLIB_CVRP(p), 10)
    return err


GEN = {"explicit": explicit, "coordinates": coordinates, "orders": orders, "extras": extras}


def shards(tier):
    for k, parts in (("explicit", 24), ("coordinates", 4), ("orders", 4), ("extras", 1)):
        for i in range(parts):
            yield (tier, k, i, parts)


def run(shard, rec):
    tier, kind, part, parts = shard
    for i, (txt, want) in enumerate(GEN[kind](tier)):
        if i % parts != part:
            continue
        rec.state(txt)
        w = judge_extra(txt, want) if kind == "extras" else check(txt, want)
        rec.step(); rec.valid()
        rec.outcome("%s %s" % (kind, "refused" if want is None else "read"))
        if w:
            rec.fail({"kind": kind, "text": txt, "want": want}, "%s; file:\n%s" % (w, txt))
        if i == part:
            rec.sample({"file": txt})


def replay(case):
    w = case["want"]
    if case["kind"] == "extras":
        return judge_extra(case["text"], w)
    return check(case["text"], w)
