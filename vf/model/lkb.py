"""
The Lawrence-Krammer representation from its generator formulas, with q and t monomials ±v^a, ±v^b, and
inverses obtained by solving, not by the formula peyl uses.
"""
import functools

from . import lp


def unit(u):
    """(sign, exponent) -> polynomial."""
    return lp.mono(u[1], u[0])


def unit_pow(u, k):
    return lp.mono(u[1] * k, u[0] ** abs(k))


@functools.lru_cache(maxsize=None)
def pairs(n):
    return tuple((i, j) for i in range(n) for j in range(i + 1, n))


@functools.lru_cache(maxsize=None)
def generator(n, s, q, t):
    """Matrix of σ_s: column (i, j) is the image of the fork between punctures i < j."""
    P = pairs(n)
    where = {x: k for k, x in enumerate(P)}
    Q, T = unit(q), unit(t)
    one, qm1 = {0: 1}, lp.sub(unit(q), {0: 1})
    M = [[{} for _ in P] for _ in P]

    def put(col, row, c):
        M[where[row]][where[col]] = lp.add(M[where[row]][where[col]], c)

    for i, j in P:
        if (i, j) == (s, s + 1):
            put((i, j), (i, j), lp.mul(T, lp.mul(Q, Q)))
        elif j == s:
            put((i, j), (i, j), lp.neg(qm1))
            put((i, j), (i, s + 1), Q)
        elif j == s + 1:
            put((i, j), (i, s), one)
            put((i, j), (s, s + 1), lp.mul(lp.mul(T, unit_pow(q, s + 1 - i)), qm1))
        elif i == s:
            put((i, j), (s, s + 1), lp.mul(lp.mul(T, Q), qm1))
            put((i, j), (s + 1, j), Q)
        elif i == s + 1:
            put((i, j), (s, j), one)
            put((i, j), (i, j), lp.neg(qm1))
        else:
            put((i, j), (i, j), one)
            if i < s and s + 1 < j:
                put((i, j), (s, s + 1), lp.mul(lp.mul(T, unit_pow(q, s - i)), lp.mul(qm1, qm1)))
    return M


def is_identity(M):
    return M == lp.mident(len(M))
