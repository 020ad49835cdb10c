import collections
import html.parser
import re
import sys
import types

from peyl import JonesCellRep, JonesSummand, SymmetricGroup, show, tl
from peyl.poly import Poly
from peyl.tl import TLDiag, TLExtDiag, TLMor

from ..core import Suite
from ..lib import *
from ..model import tlm as MT
from .c07 import full, random_blocks
from .c08 import random_seq
from .c09 import lpoly, random_mor
from .c11 import long_lp, random_lp
from .c12 import long_poly

SUITE = Suite('C32',
    'Random polynomials, matrices of both kinds of entries and all shapes, permutations, noncrossing partitions, braids of both kinds, diagrams with and without bubbles, morphisms and representations are displayed in every form they offer (text, LaTeX, HTML, SVG drawn into a stand-in for the svg module) and read back by independent parsers, which must give the displayed value. Diagrams are read off the picture: the arcs by their end points on the two edges. Rows and framed tables of such values are read cell by cell. Different values of one type must have different texts. Non-trivial: a value with at least two terms, factors, blocks or arcs.',
    assumptions=['SVG pictures are drawn with the svg.py interface (M, C, Path, SVG.as_str), for which a stand-in is used where that package is missing.'],
    require={'polynomials': 3000, 'matrices': 2000, 'permutations': 1000, 'partitions': 1000, 'braids': 500, 'pictures': 1500, 'morphisms': 800, 'rows': 300, 'tables': 300})


# A stand-in for the svg package: every class remembers what it was given, and prints it.
class Element:
    name = ''

    def __init__(self, *args, **kw):
        self.args, self.kw = args, kw

    def as_str(self):
        kw = dict(self.kw)
        inner = ''.join(e.as_str() for e in kw.pop('elements', None) or ())
        attrs = ''.join(f' {k.replace("_", "-")}="{show_value(v)}"' for k, v in kw.items() if v is not None)
        tag = self.name.lower()
        return f'<{tag}{attrs}>{inner}</{tag}>'

    __str__ = as_str


class Command(Element):
    def as_str(self):
        values = list(self.args) + list(self.kw.values())
        return ' '.join([self.name] + [str(v) for v in values])

    __str__ = as_str


def show_value(v):
    return ' '.join(map(show_value, v)) if isinstance(v, (list, tuple)) else v.as_str() if isinstance(v, Element) else str(v)


class StandIn(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return type(name, (Command if len(name) == 1 else Element,), {'name': name})


def setup():
    try:
        import svg  # noqa: F401
    except ImportError:
        sys.modules['svg'] = StandIn('svg')


TERM = re.compile(r'([+-]?)(\d*)([a-z]?)(?:\^(?:\{(-?\d+)\}|(-?\d+)))?')


def parse_poly(text, variable):
    """The polynomial a text denotes, as a dictionary; None if it denotes none."""
    rest = text.replace(' ', '').replace('$', '')
    out, first = {}, True
    if not rest:
        return None
    while rest:
        m = TERM.match(rest)
        sign, digits, var, *powers = m.groups()
        power = next((int(p) for p in powers if p is not None), None)
        if m.end() == 0 or not (digits or var) or not (sign or first) or var not in ('', variable) or power is not None and not var:
            return None
        k = 0 if not var else 1 if power is None else power
        if k in out:
            return None
        out[k] = (-1 if sign == '-' else 1) * (int(digits) if digits else 1)
        rest, first = rest[m.end():], False
    return {k: c for k, c in out.items() if c}


def named(text, name):
    m = re.fullmatch(name + r"\('(.*)'\)", text)
    return m and m[1]


Text = collections.namedtuple('Text', 'text')
SCOPE = {'LPoly': lambda t: parse_poly(t, 'v'), 'Poly': lambda t: parse_poly(t, 'x')}


def read_lpoly(ctx, x, want):
    ctx.check(SCOPE['LPoly'](named(repr(x), 'LPoly') or '') == want, 'the text denotes another polynomial', text=repr(x), want=want)
    for text in (x.fmt(), x.fmt('latex'), x._repr_latex_(), x.fmt(None), show.html_repr(x), show.html_repr(x, prefer_latex=True)):
        ctx.check(parse_poly(text, 'v') == want, 'the text denotes another polynomial', text=text, want=want)
    # LaTeX exponents of several characters need braces.
    ctx.check(not re.search(r'\^-|\^\d\d', x.fmt('latex')), 'an exponent without braces', text=x.fmt('latex'))


@SUITE.scenario('polynomials', quick=6000, thorough=200000)
def polynomials(ctx, rng, i):
    a = random_lp(rng)
    x = lpoly(a, rng)
    ctx.describe(a=a)
    read_lpoly(ctx, x, a)
    b = {k: c for k, c in random_lp(rng).items() if 0 <= k < 50}
    coeffs = [b.get(k, 0) for k in range(max(b, default=-1) + 1 + rng.randint(0, 2))]
    p = Poly(*coeffs)
    ctx.check(SCOPE['Poly'](named(repr(p), 'Poly') or '') == b, 'the text denotes another polynomial', text=repr(p), want=b)
    ctx.eq(str(p), repr(p), 'str')
    ctx.hit('polynomials', 2)
    if len(a) > 1:
        ctx.distinct(sorted(a.items()))
        ctx.sample(text=repr(x), latex=x._repr_latex_())


def entry(x):
    return {k: c for k, c in x.items()} if isinstance(x, dict) else {0: x} if x else {}


def rows_of(A, m, n):
    return [[lp.of(A[i, j]) for j in range(n)] for i in range(m)]


def parse_latex_matrix(text, m, n):
    inner = re.fullmatch(r'\$?\\begin\{pmatrix\}(.*)\\end\{pmatrix\}\$?', text.strip(), re.S)[1]
    if m == 0 or n == 0:
        return [[] for _ in range(m)]
    return [[parse_poly(c, 'v') for c in row.split('&')] for row in inner.split(r'\\')]


def tabulated(ctx, rng):
    most = rng.choice((2, 5, 5, 5, 12))
    m, n = rng.randint(0, most), rng.randint(0, most)
    mode = rng.randrange(3)
    data = tuple(rng.choice((0, rng.randint(-20, 20), 10**30)) if mode == 0 or mode == 2 and rng.random() < .5 else lpoly(random_lp(rng)) for _ in range(m * n))
    return m, n, Matrix(m, n, data), [[lp.of(data[i * n + j]) for j in range(n)] for i in range(m)]


def read_matrix(ctx, m, n, A, want):
    text = repr(A)
    ctx.describe(text=text[:3000])
    # The text is an expression for the matrix, either by rows or by shape and rows.
    seen = []
    got = eval(text, {**SCOPE, 'Matrix': lambda *a: seen.append(a) or a})
    shape, rows = (None, got[0]) if len(got) == 1 else (got[:2], got[2])
    ctx.check(shape in (None, (m, n)), 'another shape', text=text)
    if m and n:
        ctx.eq([[entry(c) for c in row] for row in rows], want, 'the text denotes another matrix', text=text)
    else:
        ctx.check(shape == (m, n), 'the shape of an empty matrix is not shown', text=text)
    if m:
        plain = eval(str(A).removeprefix('M'), dict(SCOPE))
        ctx.eq([[entry(c) for c in row] for row in plain], want, 'str denotes another matrix', text=str(A))
    latex = A._repr_latex_()
    if m and n:
        ctx.eq(parse_latex_matrix(latex, m, n), want, 'the LaTeX form denotes another matrix', latex=latex)
    return text


@SUITE.scenario('matrices', quick=4000, thorough=120000)
def matrices(ctx, rng, i):
    m, n, A, want = tabulated(ctx, rng)
    text = read_matrix(ctx, m, n, A, want)
    ctx.hit('matrices')
    if m > 1 and n > 1:
        ctx.distinct(text)
        ctx.sample(text=text)


def parse_word(text):
    text = text.strip().strip('$').strip()
    if text == r'\mathrm{id}':
        return []
    parts = text.split()
    word = [re.fullmatch(r's_(?:\{(\d+)\}|(\d))', p) for p in parts]
    return None if None in word or not parts else [int(m[1] or m[2]) for m in word]


def parse_blocks(text):
    m = re.fullmatch(r'p\((.*)\)', text.strip().strip('$').strip())
    if m is None:
        return None
    return tuple(sorted(tuple(sorted(int(x) for x in re.search(r'\\\{(.*)\\\}', b)[1].split(','))) for b in m[1].split('∪'))) if m[1].strip() else ()


def random_perm(rng, n):
    w = list(range(n))
    rng.shuffle(w)
    return tuple(w)


def read_permutation(ctx, n, w):
    x = Permutation(w)
    ctx.describe(w=w)
    ctx.check(eval(repr(x), {'Permutation': Permutation}) == x, 'the text denotes another permutation', text=repr(x))
    word = parse_word(x._repr_latex_())
    ctx.check(word is not None and all(0 <= k < n - 1 for k in word) and MP.from_word(n, word) == w and len(word) == MP.inversions(w), 'the LaTeX form denotes another permutation', latex=x._repr_latex_(), w=w)


@SUITE.scenario('permutations', quick=3000, thorough=80000)
def permutations(ctx, rng, i):
    n = rng.choice((0, 1, 2, 3, 4, 5, 6, 8, 12, 12, rng.randint(13, 30)))
    w = random_perm(rng, n) if rng.random() < .9 else MP.ident(n)
    read_permutation(ctx, n, w)
    ctx.hit('permutations')
    if n > 2:
        ctx.distinct(w)


def read_partition(ctx, n, blocks):
    x = NPar.from_components(n, blocks)
    ctx.describe(n=n, blocks=blocks)
    read = eval(repr(x), {'NPar': lambda n, comps: (n, comps)})
    ctx.check(read[0] == n and full(n, read[1]) == full(n, blocks), 'the text denotes another partition', text=repr(x), blocks=blocks)
    ctx.check(parse_blocks(x._repr_latex_()) == full(n, blocks), 'the LaTeX form denotes another partition', latex=x._repr_latex_(), blocks=blocks)


@SUITE.scenario('partitions', quick=3000, thorough=80000)
def partitions(ctx, rng, i):
    n = rng.choice((1, 2, 3, 4, 5, 6, 8, 12, 12, rng.randint(13, 60)))
    blocks = random_blocks(rng, n)
    read_partition(ctx, n, blocks)
    ctx.hit('partitions')
    if len(blocks) > 1:
        ctx.distinct(blocks)


def split_outside(text):
    """Split at commas that are outside all brackets."""
    parts, depth = [''], 0
    for c in text:
        depth += (c in '({') - (c in ')}')
        if c == ',' and depth == 0:
            parts.append('')
        else:
            parts[-1] += c
    return [p.strip() for p in parts if p.strip()]


def read_braid(ctx, kind, n, b):
    power, factors = b.canonical_decomposition()
    ctx.describe(b=b)
    got = eval(repr(b), {kind: lambda *a: a, 'Permutation': Permutation, 'NPar': lambda n, comps: NPar.from_components(n, comps)})
    ctx.check(got == (power, tuple(factors)), 'the text denotes another braid', text=repr(b), power=power)
    latex = b._repr_latex_()
    m = re.fullmatch(r'\$?\((\\Delta|\\delta)\^\{(-?\d+)\};(.*)\)\$?', latex)
    ctx.check(m is not None and m[1] == {'GNF': r'\Delta', 'DGNF': r'\delta'}[kind] and int(m[2]) == power, 'the LaTeX form', latex=latex)
    parts = split_outside(m[3])
    if kind == 'GNF':
        words = [parse_word(p) for p in parts]
        ctx.check(None not in words and [MP.from_word(n, w) for w in words] == [factor_perm(f) for f in factors], 'the LaTeX form denotes another braid', latex=latex, b=b)
    else:
        ctx.check([parse_blocks(p) for p in parts] == [blocks_of(f) for f in factors], 'the LaTeX form denotes another braid', latex=latex, b=b)
    ctx.hit('braids')
    if len(factors) > 1:
        ctx.distinct(b)
        ctx.sample(latex=latex)


@SUITE.scenario('braids', quick=1600, thorough=40000)
def braids(ctx, rng, i):
    kind = rng.choice(('GNF', 'DGNF'))
    n = rng.choice((2, 3, 4, 4, 5))
    b = random_braid(rng, kind, n)
    read_braid(ctx, kind, n, b)
    # Different braids have different texts, equal ones the same.
    c = random_braid(rng, kind, n)
    ctx.check((repr(b) == repr(c)) == (b == c) and (b._repr_latex_() == c._repr_latex_()) == (b == c), 'texts and braids', b=b, c=c)
    # Representations and groups.
    p, r = rng.choice((0, 2, 3, 101, 32749, 1000003, 2147483647)), rng.randint(0, n // 2)
    for rep in JonesSummand(n, r, p), JonesCellRep(n, r, p):
        numbers = [int(x) for x in re.findall(r'\d+', repr(rep))]
        ctx.check(numbers == [n - r, r, n] + [p] * (p > 0) and ('ℤ' in repr(rep)) == (p == 0), 'the text denotes another representation', text=repr(rep), n=n, r=r, p=p)
    for g in BraidGroup(n), SymmetricGroup(n):
        ctx.check([int(x) for x in re.findall(r'\d+', repr(g))] == [n], 'the text denotes another group', text=repr(g))


NUMBER = r'[+-]?(?:\d+\.?\d*|\.\d+)(?:e[+-]?\d+)?'


def read_picture(ctx, text, top, bot, what):
    """The diagram drawn: the set of pairs of labelled points."""
    width, height = (float(re.search(rf'\b{k}="?({NUMBER})', text)[1]) for k in ('width', 'height'))
    paths = re.findall(r'<path[^>]*?\bd="([^"]*)"', text)
    arcs = []
    for path in paths:
        for stroke in re.split(r'(?=M)', path):
            if not stroke.strip():
                continue
            numbers = [float(x) for x in re.findall(NUMBER, stroke)]
            ctx.check(len(numbers) >= 4 and len(numbers) % 2 == 0, f'{what}: a stroke is no arc', stroke=stroke)
            points = list(zip(numbers[::2], numbers[1::2]))
            arcs.append(points)
            ends = points[0], points[-1]
            ctx.check(all(y in (0, height) and 0 <= x <= width for x, y in ends), f'{what}: an arc ends inside the picture', arc=points, width=width, height=height)
            # Arcs stay inside.
            ctx.check(all(0 <= y <= height and 0 <= x <= width for x, y in points), f'{what}: an arc leaves the picture', arc=points)
            if ends[0][1] == ends[1][1] and len(points) > 2:
                ctx.check(all(y != ends[0][1] for _, y in points[1:-1]), f'{what}: an arc runs along the edge', arc=points)
    label = {}
    for side, y, count in (('t', 0, top), ('b', height, bot)):
        xs = sorted(x for a in arcs for x, z in (a[0], a[-1]) if z == y)
        ctx.check(len(xs) == len(set(xs)) == count, f'{what}: {len(xs)} end points instead of {count}', text=text)
        gaps = [b - a for a, b in zip(xs, xs[1:])]
        ctx.check(not gaps or max(gaps) - min(gaps) < 1e-6, f'{what}: end points unevenly placed', xs=xs)
        ctx.check(not xs or abs(xs[0] + xs[-1] - width) < 1e-6, f'{what}: not in the middle', xs=xs, width=width)
        label.update({(x, y): (side, k) for k, x in enumerate(xs)})
    return frozenset(frozenset((label[a[0]], label[a[-1]])) for a in arcs)


@SUITE.scenario('pictures', quick=3000, thorough=60000, setup=setup)
def pictures(ctx, rng, i):
    most = rng.choice((4, 8, 8, 25))
    top, bot = rng.randint(0, most), rng.randint(0, most)
    bot += (top + bot) % 2
    seq = random_seq(rng, top + bot)
    read_diagram(ctx, rng, top, bot, seq)
    ctx.hit('pictures')
    if len(seq) > 2:
        ctx.distinct((top, seq))
        ctx.sample(text=TLDiag(top, bot, seq)._repr_html_())


def read_diagram(ctx, rng, top, bot, seq):
    d = TLDiag(top, bot, seq)
    ctx.describe(d=d)
    ctx.check(eval(repr(d), {'TLDiag': TLDiag}) == d, 'the text denotes another diagram', text=repr(d))
    want = MT.of_seq(top, bot, seq)
    for text in (d._repr_html_(), tl.draw_svg(seq, bot), show.html_repr(d), show.html_repr(d, prefer_latex=True)):
        ctx.eq(read_picture(ctx, text, top, bot, 'picture'), want, 'the picture shows another diagram', d=d, text=text)
    k = rng.choice((0, 0, 1, 2, 7))
    x = TLExtDiag(top, bot, seq, k)
    ctx.check(eval(repr(x), {'TLExtDiag': TLExtDiag}) == x, 'the text denotes another diagram', text=repr(x))
    other = TLExtDiag(top, bot, random_seq(rng, top + bot), rng.choice((0, k)))
    ctx.check((repr(x) == repr(other)) == (x == other), 'texts and diagrams', x=x, other=other)


def read_morphism(ctx, top, bot, model, x):
    got = eval(repr(x), {**SCOPE, 'TLDiag': TLDiag, 'TLMor': lambda top, bot, terms: (top, bot, terms)})
    ctx.eq((got[0], got[1], {MT.of(d): c for d, c in got[2].items()}), (top, bot, model), 'the text denotes another morphism', text=repr(x))
    text = x._repr_html_()
    pieces = re.findall(r'\$\((.*?)\)\$\s*(<svg.*?</svg>)', text, re.S)
    read = {}
    for c, picture in pieces:
        read[top, bot, read_picture(ctx, picture, top, bot, 'term')] = parse_poly(c, 'v')
    ctx.check(len(read) == len(pieces) == len(model) and read == model, 'the HTML form shows another morphism', text=text, x=x)
    rest = re.sub(r'<[^>]*>', '', re.sub(r'\$\((.*?)\)\$\s*(<svg.*?</svg>)', '', text, flags=re.S)).replace('$', '').replace(' ', '')
    ctx.eq(rest, '+' * max(len(model) - 1, 0), 'the terms are joined by something else than plus', text=text)
    return text


@SUITE.scenario('morphisms', quick=1600, thorough=30000, setup=setup)
def morphisms(ctx, rng, i):
    top, bot = rng.randint(0, 5), rng.randint(0, 5)
    bot += (top + bot) % 2
    model, x = random_mor(rng, top, bot)
    ctx.describe(x=x)
    text = read_morphism(ctx, top, bot, model, x)
    ctx.hit('morphisms')
    if len(model) > 1:
        ctx.distinct(text)


class Reader(html.parser.HTMLParser):
    """Texts in the order of the page, with the tags that are open; cells of tables."""
    def __init__(self, text):
        super().__init__()
        self.open, self.texts, self.rows, self.bad = [], [], [], False
        self.feed(text)
        self.close()
        self.bad |= bool(self.open)

    def handle_starttag(self, tag, attrs):
        self.open.append(tag)
        if tag == 'tr':
            self.rows.append([])
        if tag in ('td', 'th'):
            self.rows[-1].append('')

    def handle_endtag(self, tag):
        if not self.open or self.open.pop() != tag:
            self.bad = True

    def handle_data(self, data):
        if 'td' in self.open or 'th' in self.open:
            self.rows[-1][-1] += data
        self.texts.append((tuple(self.open), data))


def value(rng):
    """Something to show: (object, what its text must be read as, reader)."""
    m = rng.randrange(6)
    if m == 0:
        w = random_perm(rng, rng.randint(2, 5))
        return Permutation(w), w, lambda t, n=len(w): (lambda word: word is not None and MP.from_word(n, word))(parse_word(t.replace('$', '')))
    if m == 1:
        a = random_lp(rng)
        return lpoly(a), a, lambda t: parse_poly(t, 'v')
    if m == 2:
        k = rng.randint(-99, 99)
        return k, k, lambda t: int(t.replace('$', '').strip() or 0)
    if m == 3:
        s = rng.choice('abcdefgh') + str(rng.randint(0, 99)) if rng.random() < .7 else rng.choice(('-', '-0', '00', '0.0', '+', '0 0', 'None', '[]', '()', '1', 'False', '0v', '.'))
        return s, s, str.strip
    if m == 4:
        s = 'x_{%d}' % rng.randint(0, 99)
        return show.Latex(s), s, lambda t: t.replace('$', '').strip()
    w = random_perm(rng, 3)
    return w, w, lambda t: eval(t)


@SUITE.scenario('rows and tables', quick=1600, thorough=30000)
def rows_and_tables(ctx, rng, i):
    rows_table(ctx, rng, rng.randint(0, 5), rng.randint(0, 4), rng.randint(0, 4))


def rows_table(ctx, rng, size, m, n):
    items = [value(rng) for _ in range(size)]
    captions = [value(rng) for _ in items]
    ctx.describe(items=items, captions=captions)
    given = rng.choice((list, tuple, iter))([x[0] for x in items])
    calls = []
    fn = None if rng.random() < .4 else lambda k, x: calls.append((k, x)) or captions[k][0]
    row = show.Row(given, fn)
    for again in range(2):
        page = Reader(row._repr_html_())
        ctx.check(not page.bad, 'tags do not match', text=row._repr_html_())
        texts = [t for where, t in page.texts if t.strip() and (t.strip() != ',' or where.count('div') > 1)]
        want = [x for k, it in enumerate(items) for x in ([it] if fn is None else [it, captions[k]])]
        ctx.check(len(texts) == len(want), 'a row shows more or fewer things', texts=texts, items=[x[1] for x in want])
        for t, (_, what, reader) in zip(texts, want):
            ctx.check(reader(t) == what, 'a row shows something else', text=t, want=what)
        ctx.check(fn is None or all(x is items[k % len(items)][0] and k == j % len(items) for j, (k, x) in enumerate(calls)), 'captions of other items')
    ctx.hit('rows')
    cells = [[value(rng) for _ in range(n)] for _ in range(m)]
    rows, cols = [value(rng) for _ in range(m)], [value(rng) for _ in range(n)]
    ctx.describe(cells=cells, rows=rows, cols=cols)
    entries = [[c[0] for c in r] for r in cells]
    if rng.random() < .5:
        entries = Matrix(m, n, tuple(c for r in entries for c in r))
    elif rng.random() < .5:
        entries = rng.choice((tuple(map(tuple, entries)), tuple(entries), list(map(tuple, entries)), collections.UserList(entries)))
    page = Reader(show.FramedMatrix([r[0] for r in rows], [c[0] for c in cols], entries)._repr_html_())
    ctx.check(not page.bad and len(page.rows) == m + 1 and all(len(r) == n + 1 for r in page.rows), 'shape of a table', rows=page.rows)
    ctx.check(page.rows[0][0].strip() == '', 'the corner of a table', rows=page.rows)
    for text, (_, what, reader) in [(page.rows[0][j + 1], cols[j]) for j in range(n)] + [(page.rows[j + 1][0], rows[j]) for j in range(m)] + [(page.rows[j + 1][k + 1], cells[j][k]) for j in range(m) for k in range(n)]:
        # Zero entries may be left blank.
        ctx.check(reader(text) == what if text.strip() else what in (0, {}), 'a table shows something else', text=text, want=what)
    ctx.hit('tables')
    if m > 1 and n > 1:
        ctx.distinct([[c[1] for c in r] for r in cells])


@SUITE.scenario('large', quick=720, thorough=12000, setup=setup)
def large(ctx, rng, i):
    """The same, of values whose texts are long."""
    m = i % 9
    if m == 0:
        a = long_lp(rng)
        ctx.describe(a=str(a)[:3000])
        read_lpoly(ctx, lpoly(a, rng), a)
    elif m == 1:
        c = long_poly(rng)
        ctx.describe(c=str(c)[:3000])
        p = Poly(*c)
        ctx.check(SCOPE['Poly'](named(repr(p), 'Poly') or '') == {k: x for k, x in enumerate(c) if x}, 'the text denotes another polynomial', text=repr(p)[:3000])
        ctx.eq(str(p), repr(p), 'str')
    elif m == 2:
        h, w = log_size(rng, 1, 60), log_size(rng, 1, 60)
        data = tuple(rng.choice((0, 1, rng.randint(-999, 999), rng.getrandbits(200))) if rng.random() < .6 else lpoly(random_lp(rng)) for _ in range(h * w))
        read_matrix(ctx, h, w, Matrix(h, w, data), [[lp.of(data[j * w + k]) for k in range(w)] for j in range(h)])
    elif m == 3:
        n = log_size(rng, 12, 120)
        w = list(random_perm(rng, n))
        if rng.random() < .5:
            # Close to one of the ends of the order.
            w = list(range(n)) if rng.random() < .5 else list(range(n))[::-1]
            for _ in range(rng.randint(1, 4)):
                j = rng.randrange(n - 1)
                w[j], w[j + 1] = w[j + 1], w[j]
        read_permutation(ctx, n, tuple(w))
    elif m == 4:
        n = log_size(rng, 30, 250)
        read_partition(ctx, n, full(n, random_blocks(rng, n)))
    elif m == 5:
        kind = rng.choice(('GNF', 'DGNF'))
        n = rng.choice((3, 4, 5, 5, 6)[:4 + (kind == 'DGNF')])
        b = long_braid(rng, kind, n, log_size(rng, 10, 150))
        if rng.random() < .5:
            b = turned(b, rng.choice((1, -1)) * 10**log_size(rng, 1, 30))
        read_braid(ctx, kind, n, b)
        n = log_size(rng, 6, 10**6)
        ctx.eq([int(x) for x in re.findall(r'\d+', repr(BraidGroup(n)))], [n], 'the text denotes another group')
        ctx.eq([int(x) for x in re.findall(r'\d+', repr(SymmetricGroup(n)))], [n], 'the text denotes another group')
    elif m == 6:
        top, bot = rng.randint(0, 100), rng.randint(0, 100)
        bot += (top + bot) % 2
        read_diagram(ctx, rng, top, bot, random_seq(rng, top + bot))
    elif m == 7:
        top, bot = rng.randint(0, 9), rng.randint(6, 9)
        bot += (top + bot) % 2
        terms = [TLDiag(top, bot, random_seq(rng, top + bot)) for _ in range(log_size(rng, 3, 100))]
        terms = {t: lp.norm({rng.randint(-99, 99): rng.randint(-10**9, 10**9) for _ in range(rng.randint(1, 3))}) or {0: 1} for t in terms}
        x = TLMor(top, bot, {t: lpoly(c) for t, c in terms.items()})
        read_morphism(ctx, top, bot, {MT.of(t): c for t, c in terms.items()}, x)
    else:
        rows_table(ctx, rng, log_size(rng, 5, 150), log_size(rng, 2, 50), log_size(rng, 2, 50))
    ctx.hit('large')
    ctx.distinct(i)
