"""C06 tables of a paradigm: cells, table scripts and headers."""
import numpy as np
import refscript as R
from sut import *

PROPERTY = 'C06'
RULE = ('random paradigms of layers 0-5 with 1, 2 or 3 plural roles, sums of tables, nested tables and sizes up to 12 '
        'headers; cells, table scripts and headers are read by coordinates and compared with products computed by an '
        'independent model; non-trivial when the paradigm has at least two plural roles or several tables')
ASSUMPTIONS = ['sums have no overlapping terms (recorded finding of C02)']
REQUIRED = ['tables', '2d tables', '3d tables', '1d tables', 'several tables', 'too many headers']
MAX_HEADER = 12


def plural(n):
    return [k for k, c in enumerate(n.ch) if c.card > 1] if n.kind == 'mul' else None


def order(n):
    return [R.from_prims(p) for p in sorted(n.den, key=lambda p: R.key(R.from_prims(p)))]


def replace(n, k, v):
    ch = list(n.ch)
    ch[k] = v
    return R.mul(ch)


class TooBig(Exception):
    pass


def model(n):
    """[(nested list of cell texts [row][col][tab])], [table script texts], [[headers per dimension]]"""
    if n.card == 1:
        return [[[[n.text]]]], [n.text], []
    if n.kind == 'add':
        if any(c.card == 1 for c in n.ch):
            return [[[[t]] for t in R.expand(n)]], [n.text], [[[n.text]]]
        cells, scripts, headers = [], [], []
        for c in n.ch:
            a, b, d = model(c)
            cells += a
            scripts += b
            headers += d
        return cells, scripts, headers
    pl = plural(n)
    if len(pl) == 1:
        k = pl[0]
        cells, scripts, headers = model(n.ch[k])

        def up(t):
            return replace(n, k, R.parse(t)).text
        return ([[[[up(x) for x in tab] for tab in col] for col in c] for c in cells], [up(t) for t in scripts],
                [[[up(t) for t in dim] for dim in hd] for hd in headers])
    if any(n.ch[k].card > MAX_HEADER for k in pl):
        raise TooBig()
    axes = [order(n.ch[k]) for k in pl]
    while len(axes) < 3:
        axes.append([None])

    def cell(*v):
        ch = list(n.ch)
        for k, x in zip(pl, v):
            ch[k] = x
        return R.mul(ch).text
    cells = [[[cell(a, b, c) for c in axes[2]] for b in axes[1]] for a in axes[0]]
    if len(pl) == 3:
        scripts = [replace(n, 2, c).text for c in axes[2]]
        headers = [[[replace(replace(n, 2, c), 0, a).text for a in axes[0]],
                    [replace(replace(n, 2, c), 1, b).text for b in axes[1]]] for c in axes[2]]
    else:
        scripts = [n.text]
        headers = [[[replace(n, k, x).text for x in axes[j]] for j, k in enumerate(pl)]]
    return [cells], scripts, headers


def gen(rng):
    layer = rng.choice([1, 1, 2, 2, 3, 4])
    r = rng.random()

    def prod(layer, limit=MAX_HEADER):
        for _ in range(30):
            ch = []
            for _ in range(3):
                if rng.random() < .3:
                    ch.append(R.null(layer - 1) if rng.random() < .5 else R.gen(rng, layer - 1, 1))
                else:
                    ch.append(R.gen(rng, layer - 1, rng.choice([2, 3, 5, limit]), p_sum=.6))
            n = R.mul(ch)
            if 1 < n.card <= 120 and R.disjoint(n):
                return n
        return R.mul([R.promote(R.sums('M'), layer - 1)])
    if r < .6:
        return prod(layer)
    if r < .8:
        for _ in range(20):
            n = R.add([prod(layer) for _ in range(rng.randint(2, 3))])
            if R.disjoint(n) and n.card <= 300:
                return n
    if r < .9:
        n = gen(rng)
        if n.layer < 5:
            ch = [R.null(n.layer), R.null(n.layer), R.null(n.layer)]
            ch[rng.randrange(3)] = n
            if rng.random() < .5:
                ch[rng.randrange(3)] = n
            n2 = R.mul(ch)
            if n2.card <= 360:
                return n2
        return n
    if r < .93:
        # one or two roles around the limit of the headers, and others well below
        ch = [wide(rng, layer, rng.choice([MAX_HEADER - 1, MAX_HEADER, MAX_HEADER + 1, MAX_HEADER + 4])), wide(rng, layer, rng.randint(2, 3)),
              wide(rng, layer, rng.choice([1, 1, 1, 2, MAX_HEADER]))]
        rng.shuffle(ch)
        n = R.mul(ch)
        if n.card <= 360:
            return n
    return R.gen(rng, layer, 24, p_sum=.7)


def wide(rng, layer, k):
    """a script with k singular sequences"""
    prims = set()
    while len(prims) < k:
        prims.add(''.join(rng.choice(R.PRIM) for _ in range(3 ** layer)))
    return R.add([R.from_prims(p) for p in sorted(prims)])


def table(ctx, rng, i):
    n = gen(rng)
    if n.card > 360 or not R.disjoint(n):
        return
    ctx.about(n.text)
    s = script(R.respell(rng, n, noise=False)) if rng.random() < .7 else build(rng, n)
    try:
        cells, scripts, headers = model(n)
    except TooBig:
        for attr in ('cells', 'headers', 'tables_script'):
            try:
                getattr(s, attr)
            except ValueError:
                ctx.event('too many headers')
            else:
                ctx.fail('%s has a dimension with more than %d headers and gives a table' % (n.text, MAX_HEADER))
        return
    for attr in rng.sample(['cells', 'headers', 'tables_script'], 3):     # any order of the reads
        got = getattr(s, attr)
        ctx.event('tables')
        if attr == 'cells':
            ctx.check(all(isinstance(c, np.ndarray) and c.ndim == 3 for c in got), 'cells of {} are not 3d arrays', n.text)
            ctx.equal([[[[str(x) for x in tab] for tab in col] for col in c] for c in got], cells, 'cells of %s' % n.text)
            flat = [str(x) for c in got for x in c.flat]
            ctx.equal(sorted(flat), sorted(R.expand(n)), 'cells of %s as a set' % n.text)
            ctx.check(all(x.cardinal == 1 for c in got for x in c.flat), 'a cell of {} is not singular', n.text)
        elif attr == 'headers':
            ctx.equal([[[str(x) for x in dim] for dim in hd] for hd in got], headers, 'headers of %s' % n.text)
        else:
            ctx.equal([str(x) for x in got], scripts, 'table scripts of %s' % n.text)
    # meaning: the tables partition the paradigm, a header contains exactly its row or column
    union = []
    for t in s.tables_script:
        union += [str(x) for x in t.singular_sequences]
    ctx.equal(sorted(union), sorted(R.expand(n)), 'union of the tables of %s' % n.text)
    planes = [c[:, :, k] for c in s.cells for k in range(c.shape[2])]
    ctx.equal(len(planes), len(s.tables_script), 'number of tables of %s' % n.text)
    for plane, t in zip(planes, s.tables_script):
        ctx.equal({str(x) for x in plane.flat}, {str(x) for x in t.singular_sequences}, 'cells of the table %s' % t)
    if n.card > 1:
        ctx.equal(len(s.headers), len(planes), 'number of headers of %s' % n.text)
        for plane, hd in zip(planes, s.headers):
            if plane.shape[1] > 1:
                for k, row in enumerate(hd[0]):
                    ctx.equal({str(x) for x in row.singular_sequences}, {str(x) for x in plane[k, :]}, 'row %d of %s' % (k, n.text))
                for k, col in enumerate(hd[1]):
                    ctx.equal({str(x) for x in col.singular_sequences}, {str(x) for x in plane[:, k]}, 'column %d of %s' % (k, n.text))
        dims = sorted({1 + (p.shape[1] > 1) for p in planes})
        for d in dims:
            ctx.event('%dd tables' % d)
        if any(c.shape[2] > 1 for c in s.cells):
            ctx.event('3d tables')
        if len(planes) > 1:
            ctx.event('several tables')
        if len(planes) > 1 or 2 in dims:
            ctx.seen(n.text)
        ctx.sample('%s: %s' % (n.text, [c.shape for c in s.cells]))


KINDS = {'table': (table, 3000, 40000)}
