"""
Deciding equality of braids, twice over.

* `key`: Dynnikov coordinates.  B_n acts on Z^{2n} by piecewise linear maps and a braid is trivial exactly when
  it fixes (0,1,0,1,...,0,1) (Dehornoy, Dynnikov, Rolfsen, Wiest, Ordering Braids, XII.2), so the image of that
  point is a complete invariant.
* `free_key`: the Artin action on the free group of rank n, also faithful, but exponential; used to validate
  `key` on short words.
"""


def key(n, word):
    a = [0] * n
    b = [1] * n
    for i, e in word:
        if e > 0:
            for _ in range(e):
                x1, y1, x2, y2 = a[i], b[i], a[i+1], b[i+1]
                y1p, y1m = (y1, 0) if y1 > 0 else (0, y1)
                y2p, y2m = (y2, 0) if y2 > 0 else (0, y2)
                z = x1 - y1m - x2 + y2p
                zp = z if z > 0 else 0
                u = y2p - z
                w = y1m + z
                a[i] = x1 + y1p + (u if u > 0 else 0)
                b[i] = y2 - zp
                a[i+1] = x2 + y2m + (w if w < 0 else 0)
                b[i+1] = y1 + zp
        else:
            for _ in range(-e):
                x1, y1, x2, y2 = a[i], b[i], a[i+1], b[i+1]
                y1p, y1m = (y1, 0) if y1 > 0 else (0, y1)
                y2p, y2m = (y2, 0) if y2 > 0 else (0, y2)
                z = x1 + y1m - x2 - y2p
                zm = z if z < 0 else 0
                u = y2p + z
                w = y1m - z
                a[i] = x1 - y1p - (u if u > 0 else 0)
                b[i] = y2 + zm
                a[i+1] = x2 - y2m - (w if w < 0 else 0)
                b[i+1] = y1 - zm
    return tuple(a), tuple(b)


def _reduce(letters):
    out = []
    for x in letters:
        if out and out[-1] == -x:
            out.pop()
        else:
            out.append(x)
    return tuple(out)


def free_key(n, word):
    """Images of the free generators 1..n."""
    image = [(k,) for k in range(1, n + 1)]

    def sub(w):
        out = []
        for x in w:
            out += current[x] if x > 0 else [-y for y in reversed(current[-x])]
        return _reduce(out)

    # Compose automorphisms: apply the letters right to left to the images.
    for i, e in reversed(list(word)):
        for _ in range(abs(e)):
            p, q = i + 1, i + 2
            current = {k: [k] for k in range(1, n + 1)}
            if e > 0:
                current[p], current[q] = [p, q, -p], [p]
            else:
                current[p], current[q] = [q], [-q, p, q]
            image = [sub(w) for w in image]
    return tuple(image)
