"""C26 total order of usls."""
from usut import *

PROPERTY = 'C26'
RULE = ('sets of close usls and scripts of all kinds; every ordered pair is compared, sorts of shuffled copies must agree between them and between processes '
        'with different hash seeds; non-trivial when two usls of the same kind only differ in one place')
ASSUMPTIONS = ['undecorated usls', 'a polymorpheme with a single morpheme is not compared with this morpheme']
REQUIRED = ['pairs compared', 'sorts', 'answers compared between processes with different hash seeds', 'words with junctions']
SHARED = ('digest',)
LEVELS = {'pm': 1, 'lex': 2, 'word': 3}


def family(rng):
    m = gen(rng) if rng.random() < .8 else U.gen_word(rng, roles(), max_items=14)
    out = {text(m): m}
    for _ in range(5):
        o = mutate(rng, rng.choice(list(out.values())))
        out.setdefault(text(o), o)
    for _ in range(3):
        o = gen(rng)
        out.setdefault(text(o), o)
    return {t: o for t, o in out.items() if t and not single(o)}


def order(ctx, rng, i):
    fam = family(rng)
    us = [(obtain(rng, o), LEVELS[o[0]]) for o in fam.values()]
    for t in U.pool(rng, 2):
        us.append((script(t), 0))
    ctx.about(list(fam))
    if any(a in roles().links for m in fam.values() if m[0] == 'word' for addr, _ in m[2] for a in addr):
        ctx.event('words with junctions')
    for x, (a, la) in enumerate(us):
        for y, (b, lb) in enumerate(us):
            lt, gt = a < b, b < a
            ctx.event('pairs compared')
            ctx.check(lt + gt == (x != y), 'comparison of {} and {}: {} {}', a, b, lt, gt)
            if la < lb:
                ctx.check(lt, '{} is not before {}', a, b)
            ctx.check((a > b) == gt, '> and < disagree on {} and {}', a, b)
    first = sorted(u for u, _ in us)
    for _ in range(3):
        c = [u for u, _ in us]
        rng.shuffle(c)
        ctx.equal([str(u) for u in sorted(c)], [str(u) for u in first], 'two sorts')
        ctx.event('sorts')
    ctx.seen(sorted(fam))


def digest(ctx, rng, i):
    fam = family(rng)
    us = [obtain(rng, o) for o in fam.values()]
    rng.shuffle(us)
    ctx.digest('sort %d' % i, repr([str(u) for u in sorted(us)]))


KINDS = {'order': (order, 800, 12000), 'digest': (digest, 40, 400)}
