"""C19 place of each script of a dictionary in the tables of its root."""
from dsut import *
from ieml.dictionary.table.table import table_class

PROPERTY = 'C19'
RULE = ('random dictionaries; rank, parent, dimension, cells, coordinates and headers of each table are compared with those of an independent model and checked against each '
        'other; non-trivial when a paradigm that is not a root is placed')
ASSUMPTIONS = ['the sums have no overlapping terms (recorded finding of C02)', 'a singular sequence is not declared as ignored']
REQUIRED = ['rank %d' % k for k in (0, 1, 2, 3, 4, 5, 6)] + ['ndim %d' % k for k in range(5)] + ['coordinates', 'children', 'headers', 'no place', 'shapes of three dimensions']


def structure(ctx, rng, i):
    c = Case(rng)
    d = c.load(rng, ctx)
    got, exp = tables(d), ref_tables(c.ref)
    ctx.equal(sorted(got), sorted(exp), 'scripts in the tables')
    for t in sorted(exp):
        ctx.equal(got[t], exp[t], '(rank, parent, dimensions, root) of %s' % t)
        ctx.event('rank %d' % got[t][0])
        ctx.event('ndim %d' % got[t][2])
    inner = [t for t in exp if 0 < exp[t][0] < 6]
    if inner:
        ctx.seen(sorted(n.text for n in c.listed))
    # invariants that do not need the model
    roots = {str(r): r for r in d.tables.roots}
    for s, t in d.tables.tables.items():
        ctx.check(t.script == s, 'the table of {} is the one of {}', s, t.script)
        if t.parent is not None:
            ctx.check(s in t.parent.script and d.tables.tables.get(t.parent.script) is t.parent, 'the parent of {} is not a table that contains it', s)
            ctx.check(t.rank == 6 or t.rank >= t.parent.rank, 'rank of {} lower than its parent', s)
        else:
            ctx.check(str(s) in roots, '{} has no parent and is not a root', s)
        ctx.check((t.rank == 6) == (s.cardinal == 1), 'rank {} for {}', t.rank, s)
    for r in d.tables.roots:
        mine = d.tables.roots[r]
        cells = sorted(str(t.script) for t in mine if t.rank == 6)
        ctx.equal(cells, sorted(R.expand(R.parse(str(r)))), 'cells of the root %s' % r)
        ctx.check(all(t.script in r for t in mine), 'the root {} has tables that it does not contain', r)
    ctx.equal(sorted(str(t.script) for t in d.tables), sorted(exp), 'iteration on the tables')
    for t in rng.sample(sorted(exp), min(6, len(exp))):
        tab = d.tables[script(t, factorize=False)]
        kids = sorted(str(x.script) for x in d.tables.children(tab))
        ctx.equal(kids, sorted(x for x in exp if exp[x][1] == t), 'children of %s' % t)
        ctx.event('children')
    for n in c.listed:
        if n.text not in exp and n.text not in c.ignored:
            ctx.event('no place')
    for t in inner + sorted(roots):
        places(ctx, rng, d.tables[script(t, factorize=False)], c.ref.t[t])


def places(ctx, rng, tab, ref):
    t = ref.n.text
    if ref.kind in ('1d', '2d'):
        shape = ref.shape[:1] if ref.kind == '1d' else ref.shape[:2]
        ctx.equal(tuple(tab.shape), tuple(shape), 'shape of %s' % t)
        for ss, at in ref.where.items():
            at = at[:len(shape)]
            ctx.event('coordinates')
            ctx.equal(tuple(tab.index_of(ss)), tuple(at), 'place of %s in %s' % (ss, t))
            ctx.equal(str(tab[at] if ref.kind == '2d' else tab[at[0]]), ss, 'cell %s of %s' % (at, t))
        ctx.equal([str(x) for x in tab.cells.flat], [ss for ss, _ in sorted(ref.where.items(), key=lambda x: x[1])], 'cells of %s' % t)
        try:
            x = tab.index_of('E:' if 'E:' not in ref.where else 'wa.')
        except KeyError:
            pass
        else:
            ctx.fail('a place %s in %s for a script that it does not have' % (x, t))
    else:
        ctx.equal([str(x) for x in tab.tables], [x.text for x in ref.tables], 'tables of %s' % t)
        ctx.equal(sorted(str(x) for block in tab.cells for x in block.flat), sorted(R.expand(ref.n)), 'cells of the tables of %s' % t)
        if ref.kind == '3d':
            ctx.equal(tuple(tab.shape), tuple(ref.shape), 'shape of %s' % t)
            ctx.event('shapes of three dimensions')
    if ref.kind == '2d':
        for headers, axis in ((tab.rows, 0), (tab.columns, 1)):
            ctx.event('headers')
            ctx.equal(len(headers), ref.shape[axis], 'number of headers of %s' % t)
            for k, h in enumerate(headers):
                line = {ss for ss, at in ref.where.items() if at[axis] == k}
                ctx.equal({str(x) for x in h.singular_sequences}, line, 'header %d of the dimension %d of %s' % (k, axis, t))


def accept(ctx, rng, i):
    """whether a table takes a paradigm as its own"""
    r = D.gen_root(rng, 60)
    ref = D.T(r)
    tab = table_class(script(r.text, factorize=False))(script(r.text, factorize=False), parent=None)
    ctx.about(r.text)
    for _ in range(12):
        n = D.gen_inside(rng, r) if rng.random() < .85 else D.gen_root(rng, 12)
        if not (1 < n.card <= 360 and R.disjoint(n) and D.fits(n)):
            continue
        ctx.about((r.text, n.text))
        how = ref.accept(n)
        ctx.event('accepts ' + str(how))
        ctx.equal(tuple(bool(x) for x in tab.accept_script(script(n.text, factorize=False))), {None: (False, False), 'regular': (True, True), 'block': (True, False)}[how],
                  '(accepted, regular) for %s in %s' % (n.text, r.text))


KINDS = {'structure': (structure, 1200, 8000), 'accept': (accept, 2500, 20000)}
