"""Neighbourhoods of a single route, by definition (not by index arithmetic)."""
import itertools


def two_opt(r):
    """Reverse one stretch of customers."""
    n = len(r)
    return {r[:i] + r[i:j][::-1] + r[j:] for i in range(1, n) for j in range(i + 2, n)}


def three_opt(r):
    """Cut at up to three places; turn and swap the two inner pieces."""
    out = set(two_opt(r))
    n = len(r)
    for i, j, k in itertools.combinations(range(1, n), 3):
        head, s, t, tail = r[:i], r[i:j], r[j:k], r[k:]
        for x, y in ((s, t), (t, s)):
            for p in (x, x[::-1]):
                for q in (y, y[::-1]):
                    out.add(head + p + q + tail)
    out.discard(r)
    return out


def relocate(r):
    out = set()
    for i in range(1, len(r) - 1):
        rest = r[:i] + r[i + 1:]
        for j in range(1, len(rest)):
            out.add(rest[:j] + (r[i],) + rest[j:])
    out.discard(r)
    return out


def exchange(r):
    out = set()
    for i, j in itertools.combinations(range(1, len(r) - 1), 2):
        x = list(r)
        x[i], x[j] = x[j], x[i]
        out.add(tuple(x))
    return out


NB = {"do_2opt_move": two_opt, "do_3opt_move": three_opt, "do_relocate_move": relocate, "do_exchange_move": exchange}


# ---- several routes; every element is a tuple of routes (tuples with depots) ----

def two_opt_star(a, b):
    """Cut both routes once and recombine the four pieces in the two other ways."""
    out = set()
    for i in range(1, len(a)):
        for j in range(1, len(b)):
            out.add((a[:i] + b[j:], b[:j] + a[i:]))
            out.add((a[:i] + b[:j][::-1], a[i:][::-1] + b[j:]))
    return out


def one_point(a, b):
    out = set()
    for i in range(1, len(a) - 1):
        for j in range(1, len(b)):
            out.add((a[:i] + a[i + 1:], b[:j] + (a[i],) + b[j:]))
    return out


def two_point(a, b):
    out = set()
    for i in range(1, len(a) - 1):
        for j in range(1, len(b) - 1):
            out.add((a[:i] + (b[j],) + a[i + 1:], b[:j] + (a[i],) + b[j + 1:]))
    return out


def chain(a, b, c):
    """A customer of a replaces one of b, which is inserted into c."""
    out = set()
    for i in range(1, len(a) - 1):
        for j in range(1, len(b) - 1):
            for k in range(1, len(c)):
                out.add((a[:i] + a[i + 1:], b[:j] + (a[i],) + b[j + 1:], c[:k] + (b[j],) + c[k:]))
    return out


NB2 = {"do_2optstar_move": two_opt_star, "do_1point_move": one_point, "do_2point_move": two_point}
NB3 = {"do_chain_move": chain}
