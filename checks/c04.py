"""C04 factorization of scripts."""
import refscript as R
from sut import *

PROPERTY = 'C04'
RULE = ('random sets of singular sequences (products, products with holes, unions of blocks, random subsets, products of irregular '
        'sets, mixed layers) given as a script or as a list in random order; the factorized script is compared with the set by an '
        'independent model; the answers of workers with different hash seeds are compared; non-trivial when the set has '
        'at least two sequences')
ASSUMPTIONS = ['the reference model of /verif/lib/refscript.py states what a script denotes']
REQUIRED = ['factorizations', 'complete products', 'lists', 'answers compared between processes with different hash seeds']
SHARED = ('digest',)


def sequences(rng, layer=None):
    """(primitive strings of one layer, shape)"""
    layer = rng.choice([1, 1, 2, 2, 3, 4]) if layer is None else layer
    shape = rng.choice(['product', 'holes', 'blocks', 'random', 'script', 'nested', 'nested'])
    size = 3 ** (layer - 1)
    if shape == 'nested' and layer > 1:
        # the axes of the product are themselves sets without a regular shape
        axes = []
        for k in range(3):
            if rng.random() < (.95, .45, .15)[k]:
                part = sequences(rng, layer - 1)[0]
                axes.append(rng.sample(part, min(len(part), 12)))
            else:
                axes.append(['E' * size])
        full = [a + b + c for a in axes[0] for b in axes[1] for c in axes[2]]
        return rng.sample(full, min(len(full) - (len(full) > 1 and rng.random() < .3), 60)), shape
    elif shape == 'nested':
        shape = 'random'

    def part(k):
        alpha = rng.choice([R.PRIM, 'UA', 'SBT', 'EU'])
        out = set()
        for _ in range(k):
            p = list('E' * size)
            for j in range(min(size, rng.randint(1, 4))):
                p[j if rng.random() < .7 else rng.randrange(size)] = rng.choice(alpha)
            out.add(''.join(p))
        return sorted(out)

    if shape == 'script':
        return sorted(R.gen(rng, layer, rng.choice([4, 12, 30]), p_sum=.7, disj=False).den), shape
    axes = [part(rng.randint(1, 4)) for _ in range(3)]
    full = [a + b + c for a in axes[0] for b in axes[1] for c in axes[2]]
    if shape == 'product':
        return full, shape
    if shape == 'holes':
        return rng.sample(full, max(1, len(full) - rng.randint(1, 3))), shape
    if shape == 'random':
        return rng.sample(full, rng.randint(1, len(full))), shape
    axes = [part(rng.randint(1, 3)) for _ in range(3)]
    return sorted(set(full) | {a + b + c for a in axes[0] for b in axes[1] for c in axes[2]}), shape


def as_scripts(rng, seqs):
    """a list of scripts that covers the sequences, some of them grouped in sums"""
    seqs = list(seqs)
    rng.shuffle(seqs)
    out = []
    while seqs:
        k = rng.randint(1, min(4, len(seqs))) if rng.random() < .4 else 1
        out.append(R.add([R.from_prims(p) for p in seqs[:k]]))
        seqs = seqs[k:]
    return out


def denoted(ctx, f, what):
    n = R.parse(str(f))
    ctx.equal(str(script(str(f))), str(f), 'reading of the factorized script %s' % what)
    return n


def facto(ctx, rng, i):
    seqs, shape = sequences(rng)
    layer = {3 ** k: k for k in range(7)}[len(seqs[0])]
    ctx.about((shape, [R.from_prims(p).text for p in seqs]))
    source = R.add([R.from_prims(p) for p in seqs])
    f = factorize(script(source.text))
    ctx.event('factorizations')
    n = denoted(ctx, f, source.text)
    ctx.equal(sorted(n.den), sorted(set(seqs)), 'set of the factorized script %s' % f)
    ctx.equal((f.cardinal, f.layer), (len(set(seqs)), layer), 'cardinal and layer of the factorized script %s' % f)
    ctx.check(mergeable(n) is None, 'two terms of the factorized script {} could be one multiplication: {}', f, mergeable(n))
    ctx.equal(texts(f.singular_sequences), R.expand(source), 'singular sequences of the factorized script %s' % f)
    ctx.equal(str(factorize(f)), str(f), 'factorization of a factorized script')
    ctx.equal(str(script(source.text, factorize=True)), str(f), 'script(..., factorize=True)')
    # any other script with the same singular sequences gives the same factorization
    for _ in range(2):
        lst = [script(R.respell(rng, x, noise=False)) for x in as_scripts(rng, seqs)]
        before = texts(lst)
        g = factorize(rng.choice([list, tuple, set, iter])(lst), **rng.choice([{}, {}, {'promote': True}, {'promote': False}]))
        ctx.event('lists')
        ctx.equal(str(g), str(f), 'factorization of the list %s' % before)
        ctx.equal(texts(lst), before, 'the list given to factorize after the call')
    g = factorize(script(R.add(as_scripts(rng, seqs)).text))
    ctx.equal(str(g), str(f), 'factorization of an equivalent sum')
    parts = list(zip(*[(p[:len(p) // 3], p[len(p) // 3:2 * len(p) // 3], p[2 * len(p) // 3:]) for p in seqs]))
    size = 1
    for p in parts:
        size *= len(set(p))
    if size == len(set(seqs)):
        ctx.event('complete products')
        ctx.check(not isinstance(f, AdditiveScript), 'the complete product {} is factorized in the sum {}', source.text, f)
    if len(seqs) > 1:
        ctx.seen(source.text)
    ctx.sample('%s: %s -> %s' % (shape, source.text, f))


def mergeable(n):
    """two terms of a sum that differ by one factor only"""
    if n.kind == 'add' and n.layer > 0:
        for i, a in enumerate(n.ch):
            for b in n.ch[:i]:
                if a.kind == b.kind == 'mul' and sum(x.text == y.text for x, y in zip(a.ch, b.ch)) >= 2:
                    return a.text, b.text
    return next(filter(None, map(mergeable, n.ch or ())), None)


def promoted(ctx, rng, i):
    """a list with several layers: everything is promoted to the highest layer"""
    scripts = [R.gen(rng, rng.choice([0, 1, 2, 3]), 6) for _ in range(rng.randint(2, 4))]
    layer = max(s.layer for s in scripts)
    ctx.about([s.text for s in scripts])
    want = set().union(*(R.promote(s, layer).den for s in scripts))
    f = factorize([script(s.text) for s in scripts])
    n = denoted(ctx, f, [s.text for s in scripts])
    ctx.equal((n.layer, sorted(n.den)), (layer, sorted(want)), 'factorization of %s' % [s.text for s in scripts])
    rng.shuffle(scripts)
    ctx.equal(str(factorize([script(s.text) for s in scripts])), str(f), 'factorization of a shuffled list')
    ctx.event('lists')
    try:
        g = factorize([script(s.text) for s in scripts], promote=False)
    except InvalidScript:
        ctx.check(len({s.layer for s in scripts}) > 1, 'the list {} of one layer is refused without promotion', [s.text for s in scripts])
        ctx.event('lists refused')
    else:
        ctx.check(len({s.layer for s in scripts}) == 1, 'the list {} of several layers is factorized without promotion', [s.text for s in scripts])
        ctx.equal(str(g), str(f), 'factorization of %s without promotion' % [s.text for s in scripts])
    ctx.seen(sorted(want))


def digest(ctx, rng, i):
    seqs, shape = sequences(rng, rng.choice([None, 2, 3]))
    source = R.add([R.from_prims(p) for p in seqs])
    ctx.event('digests of ' + shape)
    ctx.digest('factorize ' + source.text, str(factorize(script(source.text))))
    ctx.event('factorizations')
    ctx.seen(source.text, 'digest')


KINDS = {'facto': (facto, 1500, 30000), 'promoted': (promoted, 400, 6000), 'digest': (digest, 400, 4000)}
