"""C02 singular sequences, cardinal and containment of scripts."""
import refscript as R
from sut import *

PROPERTY = 'C02'
RULE = ('random scripts of layers 0-6 read from random spellings or built; their singular sequences are compared, as an '
        'ordered list, with the set of primitive strings denoted by an independent model; pairs of nested, overlapping '
        'and disjoint scripts for the containment; non-trivial when the script is a paradigm')
ASSUMPTIONS = ['the reference model of /verif/lib/refscript.py states what a script denotes and the order of singular '
               'sequences', 'sums whose terms overlap are the recorded finding C02 overlap']
REQUIRED = ['paradigms expanded', 'containments true', 'containments false', 'overlapping sums']


def expand(ctx, rng, i):
    n = R.gen(rng, rng.choice(LAYERS), budget=rng.choice([2, 6, 20, 60, 120 if i % 20 else 360]))
    ctx.about(n.text)
    s = script(R.respell(rng, n)) if rng.random() < .7 else build(rng, n)
    ss = s.singular_sequences
    want = R.expand(n)
    ctx.equal(texts(ss), want, 'singular sequences of %s' % n.text)
    ctx.equal((s.cardinal, len(s), bool(s.is_singular)), (len(want), len(want), len(want) == 1), 'cardinal of %s' % n.text)
    ctx.equal({str(x) for x in s.singular_sequences_set}, set(want), 'set of singular sequences of %s' % n.text)
    ctx.equal(len(s.singular_sequences_set), len(want), 'distinct singular sequences of %s' % n.text)
    ctx.equal(list(ss), sorted(ss), 'order of the singular sequences of %s' % n.text)
    for x in rng.sample(ss, min(len(ss), 6)):
        ctx.check(x.cardinal == 1 and len(x) == 1 and texts(x.singular_sequences) == [str(x)] and x.layer == s.layer,
                  '{} given as a singular sequence of {} is not one', x, n.text)
        ctx.check(x in s and x in s.singular_sequences_set, '{} is not contained in {}', x, n.text)
        ctx.equal(str(script(str(x))), str(x), 'reading of a singular sequence')
    if len(want) > 1:
        ctx.event('paradigms expanded')
        ctx.event('singular sequences observed', len(want))
        ctx.seen(n.text)
        ctx.sample('%s: %d singular sequences' % (n.text, len(want)))


def related(rng, n):
    """scripts nested in, overlapping or close to n"""
    den = sorted(n.den)
    sub = rng.sample(den, rng.randint(1, len(den)))
    out = [R.add([R.from_prims(p) for p in sub]), R.from_prims(rng.choice(den)), n] + variants(rng, n)
    if n.kind == 'mul':
        ch = list(n.ch)
        j = rng.randrange(3)
        d = sorted(ch[j].den)
        ch[j] = R.add([R.from_prims(p) for p in rng.sample(d, rng.randint(1, len(d)))])
        out.append(R.mul(ch))
    other = R.gen(rng, n.layer, 6)
    out += [other, R.add([n, other]), R.gen(rng, max(0, n.layer - 1), 6)]
    if n.layer < 6:
        out.append(R.promote(n, n.layer + 1))
    return [o for o in out if o.card <= 360]


def contains(ctx, rng, i):
    n = R.gen(rng, rng.choice(LAYERS), budget=rng.choice([4, 12, 36]), disj=False)
    a = script(n.text)
    for v in related(rng, n):
        b = script(v.text)
        ctx.about((n.text, v.text))
        want = n.layer == v.layer and v.den <= n.den
        ctx.equal(b in a, want, '%s contained in %s' % (v.text, n.text))
        want2 = n.layer == v.layer and n.den <= v.den
        ctx.equal(a in b, want2, '%s contained in %s' % (n.text, v.text))
        ctx.event('containments true' if want else 'containments false')
        ctx.seen((n.text, v.text), 'pair')
    ctx.equal(n.text in a, False, 'a text contained in a script')


def overlap(ctx, rng, i):
    """sums whose terms overlap: the library counts the common sequences once per term (recorded finding)"""
    if i == 0:
        n = R.parse('S:O:.+I:U:.')
    else:
        for _ in range(200):
            n = R.gen(rng, rng.choice([1, 1, 2, 2, 3]), budget=30, p_sum=.8, disj=False)
            if not R.disjoint(n):
                break
        else:
            return
    ctx.about(n.text)
    ctx.event('overlapping sums')
    s = script(n.text)
    ss = texts(s.singular_sequences)
    want = R.expand(n)
    ctx.equal(sorted(set(ss)), sorted(want), 'set of singular sequences of %s' % n.text)
    ctx.equal({str(x) for x in s.singular_sequences_set}, set(want), 'set of singular sequences of %s' % n.text)
    ctx.equal(list(s.singular_sequences), sorted(s.singular_sequences), 'order of the singular sequences of %s' % n.text)
    if ss == want and s.cardinal == len(want):
        return
    # exactly the recorded behaviour: every common sequence once per way to obtain it
    ctx.equal(s.cardinal, n.card, 'cardinal of the sum %s' % n.text)
    ctx.equal(len(ss), n.card, 'number of singular sequences of the sum %s' % n.text)
    ctx.known_finding('overlap', '%s: cardinal %d for %d singular sequences' % (n.text, s.cardinal, len(want)))


KINDS = {
    'expand': (expand, 3000, 60000),
    'contains': (contains, 1500, 20000),
    'overlap': (overlap, 300, 5000),
}
