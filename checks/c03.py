"""C03 total order of scripts."""
import functools
import itertools
import refscript as R
from sut import *

PROPERTY = 'C03'
RULE = ('sets of 12 scripts made of neighbours (one primitive, role or addend changed), of all layers; every ordered '
        'pair is compared with <, and sorts of shuffled copies; each worker process has another hash seed and the sorted '
        'texts must be the same in all of them; non-trivial when two scripts of the set have the same layer')
ASSUMPTIONS = ['the documented order: layer, empty script first, number of singular sequences, canonical form, '
               'structure (model in /verif/lib/refscript.py)']
REQUIRED = ['ordered pairs compared', 'sorts', 'same layer and cardinal pairs', 'triples', 'sums and products with the same canonical form', 'same canonical form, other structure',
            'answers compared between processes with different hash seeds']
SHARED = ('digest',)


def collision(rng):
    """a product and a sum of the same layer, with the same canonical form and the same number of singular sequences:
    (a+b+c+d)*e*f and a*b*c+d*e*f where a, b, c, d have 1, 2, 3 and 6 or more singular sequences"""
    def sub(k):
        return R.add([R.prim(c) for c in rng.sample(R.PRIM, k)])

    def term(*ks):
        n = R.mul([sub(k) for k in rng.sample(ks, 3)])
        for _ in range(layer - 2):
            n = R.mul([n, R.null(n.layer), R.null(n.layer)])
        return n

    layer = rng.choice([2, 3, 4, 5, 6])
    a, b, c = term(1, 1, 1), term(1, 1, 2), term(1, 1, 3)
    d, e, f = term(*rng.choice([(2, 3, 1), (3, 3, 1), (2, 2, 2), (1, 4, 2)])), term(1, 1, 1), rng.choice([term(1, 1, 1), R.null(layer - 1)])
    return [R.mul([R.add([a, b, c, d]), e, f]), R.add([R.mul([a, b, c]), R.mul([d, e, f])])]


def shifted(rng):
    """products of the same layer with the same canonical form and the same number of singular sequences, that differ by where
    their sums end: (a+b)*c*d, a*(b+c)*d and a*b*(c+d), alone or in a sum"""
    layer = rng.choice([2, 2, 3, 4, 5])
    ts = {}
    while len(ts) < 6:
        n = R.gen(rng, 1, budget=1, disj=False) if layer == 2 else R.mul([R.gen(rng, layer - 2, budget=1, disj=False) for _ in range(3)])
        if not n.empty and n.card == 1:
            ts[n.text] = n
    ts = sorted(ts.values(), key=R.key)
    a, b, c, d = [ts[k] for k in sorted(rng.sample(range(6), 4))]
    res = [R.mul([R.add([a, b]), c, d]), R.mul([a, R.add([b, c]), d]), R.mul([a, b, R.add([c, d])])]
    if rng.random() < .5:
        # the product of the sum ends after what follows it
        x = R.mul([ts[0], ts[1], rng.choice([R.null(layer - 1), ts[2]])])
        res += [R.add([n, x]) for n in res]
    if rng.random() < .5:
        res = res + [R.mul([n, R.null(n.layer), R.null(n.layer)]) for n in res]
    return res


def family(rng, size=12):
    n = R.gen(rng, rng.choice(LAYERS), budget=12, disj=False)
    out = {n.text: n}
    pool = [n]
    if rng.random() < .3:
        out.update({c.text: c for c in collision(rng)})
    if rng.random() < .3:
        out.update({c.text: c for c in shifted(rng)})
    tries = 0
    while len(out) < size and tries < 60:
        tries += 1
        r = rng.random()
        if r < .75:
            new = rng.choice(variants(rng, rng.choice(pool)) or [n])
        elif r < .9:
            new = R.gen(rng, n.layer, 12, disj=False)
        else:
            new = R.gen(rng, rng.choice(LAYERS), 8, disj=False)
        if new.text not in out:
            out[new.text] = new
            pool.append(new)
    return list(out.values())


def compare(ctx, rng, i):
    fam = family(rng)
    real = [script(R.respell(rng, n, noise=False)) for n in fam]
    for (n, a), (v, b) in itertools.permutations(zip(fam, real), 2):
        ctx.about((n.text, v.text))
        ctx.event('ordered pairs compared')
        lt = a < b
        ctx.check(lt is True or lt is False, 'comparison of {} and {} gives {!r}', n.text, v.text, lt)
        ctx.equal(lt, R.key(n) < R.key(v), '%s < %s' % (n.text, v.text))
        ctx.check(lt != (b < a), 'both or none of {} and {} is smaller', n.text, v.text)
        ctx.equal(a > b, not lt, '%s > %s' % (n.text, v.text))
        if n.layer == v.layer and n.card == v.card:
            ctx.event('same layer and cardinal pairs')
            ctx.seen((n.text, v.text))
            if n.kind != v.kind and R.key(n)[:4] == R.key(v)[:4]:
                ctx.event('sums and products with the same canonical form')
            if n.kind == v.kind and R.key(n)[:4] == R.key(v)[:4]:
                ctx.event('same canonical form, other structure')
    for a in real:
        ctx.check(not (a < a), '{} is smaller than itself', a)
        ctx.check(not (a < script(str(a))), '{} is smaller than an equal script', a)
    for a, b, c in itertools.islice(itertools.combinations(rng.sample(real, len(real)), 3), 60):
        ctx.event('triples')
        if a < b and b < c:
            ctx.check(a < c, 'not transitive: {} {} {}', a, b, c)
    want = [n.text for n in sorted(fam, key=R.key)]
    for _ in range(3):
        rng.shuffle(real)
        ctx.event('sorts')
        ctx.equal(texts(sorted(real)), want, 'sorted scripts')
    ctx.equal((str(min(real)), str(max(real))), (want[0], want[-1]), 'extrema')
    ctx.sample(' < '.join(want[:4]))


def digest(ctx, rng, i):
    fam = family(rng, 20)
    real = [script(n.text) for n in fam]
    rng.shuffle(real)
    ctx.digest('sort %d' % i, ' '.join(texts(sorted(set(real)))))
    ctx.event('sorts')
    ctx.seen(fam[0].text, 'digest')


KINDS = {'compare': (compare, 700, 12000), 'digest': (digest, 60, 400)}
