"""C11 singular sequences of polymorphemes."""
from usut import *

PROPERTY = 'C11'
RULE = ('random polymorphemes with 0-3 groups of 1-5 morphemes and every multiplicity, with and without constants; the set of singular sequences is compared with '
        'the one of an independent model: from each group between 0 and its multiplicity morphemes, the numbers taken from two groups differ by at most one, '
        'never more than 5 morphemes; non-trivial when there is a group')
ASSUMPTIONS = ['the numbers of morphemes taken from the groups are q or q + 1 for some q, at least one group giving q (documented in the code)',
               'a polymorpheme without constants counts the empty morpheme in its size']
REQUIRED = ['paradigms', 'groups: 1', 'groups: 2', 'groups: 3', 'size limit reached', 'multiplicity limits', 'containments true', 'containments false',
            'answers compared between processes with different hash seeds']
SHARED = ('digest',)


def gen_pm(rng):
    for _ in range(50):
        pm = U.gen_pm(rng, small=rng.random() < .5)
        if not pm[2] and rng.random() < .8:
            continue
        n = 1
        for g, mu in pm[2]:
            n *= 1 + sum(1 for _ in range(0)) + len(g) ** min(mu, 2)
        if n <= 600:
            return pm
    return pm


def sequences(ctx, rng, i):
    pm = gen_pm(rng)
    ctx.about((pm, U.txt_pm(pm)))
    u = obtain(rng, pm)
    want = U.ss_pm(pm)
    got = u.singular_sequences
    ctx.equal(sorted(str(s) for s in got), sorted(want), 'singular sequences of %s' % u)
    ctx.equal((u.cardinal, len(u)), (len(want), len(want)), 'cardinal of %s' % u)
    ctx.equal({str(s) for s in u.singular_sequences_set}, want, 'set of singular sequences of %s' % u)
    ctx.equal(bool(u.is_singular), len(want) == 1, 'is_singular of %s' % u)
    ctx.equal([str(s) for s in u.singular_sequences], [str(s) for s in got], 'second reading of the singular sequences')
    for s in rng.sample(list(got), min(3, len(got))):
        ctx.equal([str(x) for x in s.singular_sequences], [str(s)], 'singular sequences of the singular sequence %s' % s)
        ctx.check(s in u, '{} is not in {}', s, u)
    if pm[2]:
        ctx.event('paradigms')
        ctx.event('groups: %d' % len(pm[2]))
        ctx.seen(U.txt_pm(pm))
        if any(mu < len(g) for g, mu in pm[2]):
            ctx.event('multiplicity limits')
        if max((len(t.split()) for t in want), default=0) >= U.SIZE_LIMIT - 1:
            ctx.event('size limit reached')
    o = mutate(rng, pm)
    if all(g for g, _ in o[2]):
        v = build_pm(rng, o)
        inside = U.ss_pm(o) <= want
        ctx.equal(v in u, inside, '%s in %s' % (v, u))
        ctx.event('containments ' + str(inside).lower())
        inside = want <= U.ss_pm(o)
        ctx.equal(u in v, inside, '%s in %s' % (u, v))
        ctx.event('containments ' + str(inside).lower())
    ctx.sample('%s: %d' % (U.txt_pm(pm), len(want)))


def digest(ctx, rng, i):
    pm = gen_pm(rng)
    u = usl(U.txt_pm(pm) or 'E:')
    u = usl(u)
    ctx.digest('ss %d %s' % (i, u), repr(sorted(str(s) for s in u.singular_sequences)))


U.EMPTY_GROUPS = .03
U.FULL = True
KINDS = {'sequences': (sequences, 4000, 60000), 'digest': (digest, 60, 600)}
