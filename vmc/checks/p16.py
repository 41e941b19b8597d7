"""P16: service times baked into distances, on every small matrix and every route."""
import itertools, numpy as np
from vmc import ref
from vmc.core import guarded
from verypy.cvrp_ops import D2D_c

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small matrices, service times and routes against a definition"
NOTE = ("Complete for every symmetric matrix with 2 or 3 customers over the entry alphabets, all listed service times, "
        "every route over them and every dtype; D2D_c only adds constants entrywise, so larger matrices repeat these cases.")
BOUNDS = {"quick": "all symmetric matrices with 1-3 customers over {0,1,2,7} (int64, int32, float64) and over {0.25,1.5,3} (float64), 14 service times, every ordered route",
          "thorough": "as quick with 4 customers over {0,1,5} and 30 service times"}
ASSUMPTIONS = ["positive service time, symmetric distances with zero diagonal"]
ST = {"quick": [1, 2, 3, 7, 10, 0.5, 2.5, 1.0, 3.0, 0.1, 1 / 3., 1e-3, 12345, 10.25],
      "thorough": [1, 2, 3, 4, 5, 7, 10, 11, 90, 0.5, 2.5, 1.5, 1.0, 2.0, 3.0, 0.1, 0.2, 0.7, 1 / 3., 1e-3, 1e-9, 12345, 10.25, 99.99, 2 ** 31 + 1, 1e12, 0.125, 6.75, 13, 1000]}
TYPED = [np.int64(3), np.float64(2.5), np.int32(4), np.float32(1.5)]


def shards(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for dt in ("int64", "int32", "float64", "real"):
            alpha = (0.25, 1.5, 3) if dt == "real" else ((0, 1, 2, 7) if n < 4 else (0, 1, 5))
            for first in alpha:
                yield (tier, n, dt, alpha, first)


def build(n, dt, vals):
    D = np.zeros((n + 1, n + 1), dtype="float64" if dt == "real" else dt)
    for (i, j), v in zip(itertools.combinations(range(n + 1), 2), vals):
        D[i, j] = D[j, i] = v
    return D


def one(D, st):
    D0 = D.copy()
    R, err = guarded(lambda: D2D_c(D, st), 5)
    if err:
        return "D2D_c(%s, %r) %s" % (D.tolist(), st, err)
    if not np.array_equal(D, D0) or D.dtype != D0.dtype:
        return "D2D_c changed its input for st=%r" % (st,)
    if R is D or np.shares_memory(R, D):
        return "D2D_c returned the original matrix"
    if not np.array_equal(R, R.T) or np.any(np.diag(R) != 0):
        return "D2D_c(%s, %r) is not symmetric with zero diagonal: %s" % (D.tolist(), st, R.tolist())
    n = len(D) - 1
    for k in range(1, n + 1):
        for p in itertools.permutations(range(1, n + 1), k):
            want = float(ref.rcost(p, D)) + k * float(st)
            if not ref.close(ref.rcost(p, R), want, 1e-9):
                return "with st=%r route %r costs %r, travel plus service is %r (D=%s %s)" % (
                    st, p, float(ref.rcost(p, R)), want, D.tolist(), D.dtype)
    return None


def run(shard, rec):
    tier, n, dt, alpha, first = shard
    pairs = n * (n + 1) // 2
    for vals in itertools.product(alpha, repeat=pairs - 1):
        D = build(n, dt, (first,) + vals)
        rec.state((dt, D.tolist()))
        for st in ST[tier] + TYPED:
            what = one(D.copy(), st)
            rec.step(); rec.valid()
            if what:
                rec.fail([D, st], what)
    rec.outcome("%s n=%d" % (dt, n))
    rec.sample({"D": D.tolist(), "service_times": len(ST[tier]) + len(TYPED)})


def replay(case):
    return one(case[0], case[1])
