"""
Exact images in the two-row Jones representations, σ_i -> 1 - v e_i acting on diagrams (n, n-2r) with n-2r
through strands.  Independent of peyl: diagrams are glued by union-find and polynomials are single big
integers (evaluation at v = 2^K with K beyond any coefficient).
"""
import functools
import math

from . import lp, tlm


@functools.lru_cache(maxsize=None)
def action(n, r, basis):
    """table[i][j] = (kind, k): e_i b_j is zero, b_j times the loop value, or b_k."""
    diagrams = [(n, n - 2*r, tlm.of_seq(n, n - 2*r, s)) for s in basis]
    where = {d: k for k, d in enumerate(diagrams)}
    table = []
    for i in range(n - 1):
        row = []
        for d in diagrams:
            g, loops = tlm.glue(tlm.e(i, n), d)
            if tlm.through(g) < n - 2*r:
                row.append(None)
            else:
                row.append((where[g], loops))
        table.append(row)
    return table


def good_basis(n, r, basis):
    """Is `basis` the set of all diagrams with n-2r through strands, each once?"""
    want = {s for s in tlm.matchings(2*n - 2*r) if tlm.through((n, n - 2*r, tlm.of_seq(n, n - 2*r, s))) == n - 2*r}
    return len(basis) == len(set(basis)) and set(basis) == want


def dim(n, r):
    return math.comb(n, r) - (math.comb(n, r - 1) if r else 0)


def evaluate(n, r, word, basis, p=0):
    """The matrix of the word, as nested lists of dictionaries."""
    table = action(n, r, tuple(basis))
    letters = [(i, 1 if e > 0 else -1) for i, e in word for _ in range(abs(e))]
    size = len(basis)
    K = 8 * ((2 * len(letters) + 24) // 8)
    offset = -2 * sum(1 for _, e in letters if e < 0)
    columns = []
    for j in range(size):
        vec = [0] * size
        vec[j] = 1
        for i, e in reversed(letters):
            row = table[i]
            # Positive: x - v e x.  Negative, times v^2: v^2 x - v e x.
            new = vec[:] if e > 0 else [x << (2*K) for x in vec]
            for k, x in enumerate(vec):
                if x and row[k] is not None:
                    target, loops = row[k]
                    if loops:
                        new[target] -= (x << (2*K)) + x
                    else:
                        new[target] -= x << K
            vec = new
        columns.append(vec)
    top = 2 * len(letters) + 1
    out = [[decode(columns[j][i], K, top, offset) for j in range(size)] for i in range(size)]
    return lp.mmod(out, p) if p else out


@functools.lru_cache(maxsize=64)
def _bias(K, count):
    return sum(1 << (K*d + K - 1) for d in range(count))


def decode(x, K, top, offset):
    if x == 0:
        return {}
    # One digit more than any power of v that occurs.
    count = max(top + 1, x.bit_length() // K + 2)
    raw = (x + _bias(K, count)).to_bytes(K * count // 8 + 8, 'little')
    half, step, out = 1 << (K - 1), K // 8, {}
    for d in range(count):
        c = int.from_bytes(raw[d*step:(d+1)*step], 'little') - half
        if c:
            out[d + offset] = c
    return out


def slow_evaluate(n, r, word, basis, p=0):
    """The same by dictionary polynomials, to validate `evaluate`."""
    table = action(n, r, tuple(basis))
    size = len(basis)
    M = lp.mident(size)
    for i, e in word:
        for _ in range(abs(e)):
            s = 1 if e > 0 else -1
            G = lp.mident(size)
            for k in range(size):
                if table[i][k] is not None:
                    t, loops = table[i][k]
                    c = lp.mono(s, -1)
                    if loops:
                        c = lp.mul(c, {1: 1, -1: 1})
                    G[t][k] = lp.add(G[t][k], c)
            M = lp.mmul(M, G)
    return lp.mmod(M, p) if p else M
