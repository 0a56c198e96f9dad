"""C20 relations of a dictionary."""
import numpy as np
from dsut import *
from ieml.constants import RELATIONS, INVERSE_RELATIONS

PROPERTY = 'C20'
RULE = ('random dictionaries whose roots are made of the scripts of other roots, with inhibitions; each relation is compared, on every pair of scripts, with the pairs that an '
        'independent definition gives, and the ways to ask for it with each other; non-trivial when a father or sibling relation exists')
ASSUMPTIONS = ['the sums have no overlapping terms (recorded finding of C02)', 'a singular sequence is not declared as ignored',
               'the fathers, children and siblings of an empty script are not judged (their inverses are)']
REQUIRED = ['pairs ' + r for r in ('contains', 'contained', 'father_substance', 'father_attribute', 'father_mode', 'child_substance', 'child_attribute', 'child_mode',
                                   'opposed', 'associated', 'crossed', 'twin', 'table_0', 'table_1', 'table_2', 'table_3', 'table_4', 'table_5', 'identity')] + \
    ['questions', 'inhibited', 'dictionaries with more than four roots']


def rich(rng):
    """a dictionary with siblings and several layers of fathers"""
    r = rng.random()
    if r < .4:
        return Case(rng)
    c = Case.__new__(Case)
    O, M = R.sums('O'), R.sums('M')
    low = rng.choice([O, M, R.add([R.prim(x) for x in rng.sample('UASBT', 3)])])
    other = rng.choice([low, O, M])
    l1 = R.mul([low, low, rng.choice([R.null(0), R.null(0), R.prim('S'), R.add([R.prim('U'), R.null(0)])])])
    if l1.card > 18:
        l1 = R.mul([O, O, R.add([R.prim('U'), R.null(0)])])
    roots = [l1]
    if rng.random() < .6:
        roots.append(R.add([R.prim(x) for x in rng.sample('EUASBT', rng.randint(2, 5))]))
    if rng.random() < .8:
        a = D.narrow(rng, l1, .3)
        b = a if rng.random() < .6 else D.narrow(rng, l1, .3)
        l2 = R.mul([a, b, R.null(1) if rng.random() < .7 else R.mul([O])])
        if 1 < l2.card <= 40 and D.fits(l2):
            roots.append(l2)
            if rng.random() < .4:
                l3 = R.mul([D.narrow(rng, l2, .6), D.narrow(rng, l2, .8), R.null(2)])
                if 1 < l3.card <= 40 and D.fits(l3):
                    roots.append(l3)
    rng.shuffle(roots)
    listed = {x.text: x for x in roots}
    for x in roots:
        for _ in range(rng.choice([1, 4, 8])):
            n = D.gen_inside(rng, x)
            if 1 < n.card and R.disjoint(n) and D.fits(n):
                listed[n.text] = n
    c.listed, c.roots = list(listed.values()), roots
    from ieml.constants import INHIBITABLE_RELATIONS
    c.inh = {x.text: set(rng.sample(INHIBITABLE_RELATIONS, rng.randint(1, 3))) for x in roots if rng.random() < .3}
    # an inhibition of a paradigm that is not a root has no effect
    for n in c.listed:
        if n not in roots and rng.random() < .05:
            c.inh[n.text] = {rng.choice(INHIBITABLE_RELATIONS)}
    c.ignored = set()
    c.ref = D.Dict(c.listed, roots, {k: v for k, v in c.inh.items() if k in {x.text for x in roots}})
    return c


def pairs(ctx, rng, i):
    c = rich(rng)
    if len(c.ref.scripts) > 130:
        return
    if len(c.roots) > 4:
        ctx.event('dictionaries with more than four roots')
    d = c.load(rng, ctx)
    got, exp = relations(d), c.ref.relations()
    ctx.equal(sorted(got), sorted(RELATIONS), 'names of the relations')
    # what an empty script is linked with is not judged
    empty = {n.text for n in c.ref.scripts if n.empty}
    for r in RELATIONS:
        if r.startswith(('father', 'child')) or r in D.SIBLINGS:
            exp[r] = {(a, b) for a, b in exp[r] if a not in empty and b not in empty} | {(a, b) for a, b in got[r] if a in empty or b in empty}
        if got[r] != exp[r]:
            ctx.fail('relation {}: too many {!r:.300}, missing {!r:.300}'.format(r, sorted(got[r] - exp[r])[:3], sorted(exp[r] - got[r])[:3]))
        ctx.event('pairs ' + r, len(got[r]))
        ctx.event('assertions')
        inv = INVERSE_RELATIONS.get(r)
        if inv in got:
            ctx.check({(b, a) for a, b in got[r]} == got[inv], '{} is not the inverse of {}', inv, r)
        if r in D.SIBLINGS:
            ctx.check(all(a != b for a, b in got[r]), '{} links a script with itself', r)
    if c.inh:
        ctx.event('inhibited')
    if any(exp[r] for r in D.SIBLINGS + D.FATHERS):
        ctx.seen(sorted(n.text for n in c.listed))
    # the other ways to ask
    names = [n.text for n in c.ref.scripts]
    g = d.relations
    for t in rng.sample(names, min(5, len(names))):
        s = script(t, factorize=False)
        ro = g.relation_object(s)
        ctx.equal(sorted(ro), sorted(RELATIONS), 'relations of %s' % t)
        for r in RELATIONS:
            ctx.event('questions')
            want = [n for n in names if (t, n) in exp[r]]
            ctx.equal([str(x) for x in g.object(s, r)], want, 'objects of the relation %s of %s' % (r, t))
            ctx.equal([str(x) for x in ro[r]], want, 'relation_object of %s, %s' % (t, r))
        o = rng.choice(names)
        ctx.equal(g.relation(s, script(o, factorize=False)), [r for r in RELATIONS if (t, o) in exp[r]], 'relations between %s and %s' % (t, o))
    m = np.asarray(g.boolean_matrix)
    linked = set().union(*exp.values())
    ctx.equal({(names[a], names[b]) for a, b in zip(*np.nonzero(m))}, linked, 'matrix of all the relations')
    if rng.random() < .1 and len(names) < 40:
        p = g.pandas()
        rows = sorted(zip(p['substance'], p['mode'], p['attribute']))
        ctx.equal(rows, sorted((a, r, b) for r in RELATIONS for a, b in exp[r]), 'table of all the relations')
        ctx.event('tables of relations')


KINDS = {'pairs': (pairs, 2000, 12000)}
