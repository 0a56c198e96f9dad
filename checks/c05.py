"""C05 the limit on the number of singular sequences of a script."""
import refscript as R
from sut import *
from ieml.usl.usl import usl

PROPERTY = 'C05'
RULE = ('scripts whose number of singular sequences is drawn around the limit (300-420), just at it (359, 360, 361) and '
        'far above it, as products, sums and nested mixes; each is obtained by reading its text, by the constructors, by '
        'the sum operator, by factorizing a list and inside the text of a USL; non-trivial when it is within 5% of the '
        'limit or above it')
ASSUMPTIONS = ['the limit is the documented 360 singular sequences']
REQUIRED = ['accepted at or below the limit', 'rejected above the limit', 'exactly at the limit', 'one above the limit',
            'lists factorized', 'usls read']
LIMIT = 360
REJECT = (TooManySingularSequences, CannotParse, InvalidScript)


def axis(rng, layer, k):
    """a script of this layer with exactly k singular sequences, no overlap"""
    if layer == 0:
        return R.add([R.prim(c) for c in rng.sample(R.PRIM, k)])
    alpha = 'UASBT'
    if k > 5 ** min(3, 3 ** layer) - 1:
        raise ValueError
    if k <= 5 and rng.random() < .5:
        return R.promote(axis(rng, 0, k), layer)
    out = {}
    while len(out) < k:
        p = [rng.choice(alpha) for _ in range(min(4, 3 ** layer))] + ['E'] * (3 ** layer - min(4, 3 ** layer))
        out[''.join(p)] = 1
    return R.add([R.from_prims(p) for p in out])


def split(rng, total):
    """factors a*b*c == total"""
    divs = [d for d in range(1, 41) if total % d == 0]
    a = rng.choice(divs)
    rest = total // a
    divs = [d for d in range(1, 61) if rest % d == 0 and rest // d <= 60]
    if not divs:
        return None
    b = rng.choice(divs)
    return [a, b, rest // b]


def of_cardinal(rng, total):
    """a random script with exactly this cardinal"""
    for _ in range(100):
        layer = rng.choice([2, 2, 3, 3, 4])
        r = rng.random()
        if r < .5:
            f = split(rng, total)
            if f is None or max(f) > 60:
                continue
            rng.shuffle(f)
            n = R.mul([axis(rng, layer - 1, k) for k in f])
        else:
            # a sum of products with different first role
            k = rng.randint(2, 4)
            heads = rng.sample('UASBT', k)
            left, terms = total, []
            for j, hd in enumerate(heads):
                part = left if j == k - 1 else rng.randint(1, max(1, left - (k - j)))
                left -= part
                f = split(rng, part)
                if f is None or part < 1:
                    break
                f = sorted(f)
                if f[0] * f[1] * f[2] != part or f[0] != 1:
                    f = [1, *(lambda d: (d, part // d))(max(d for d in range(1, 61) if part % d == 0))]
                if max(f) > 60:
                    break
                sizes = f[1:]
                terms.append(R.mul([R.promote(R.prim(hd), layer - 1), axis(rng, layer - 1, sizes[0]),
                                    axis(rng, layer - 1, sizes[1])]))
            else:
                n = R.add(terms)
                if n.card == total:
                    return n
            continue
        if n.card == total:
            return n
    return None


def total(rng):
    r = rng.random()
    if r < .25:
        return 360
    if r < .4:
        return rng.choice([361, 361, 363, 364, 365, 366, 372, 375])
    if r < .5:
        return rng.choice([359, 358, 357, 356, 352, 350])
    if r < .8:
        return rng.randint(300, 420)
    return rng.choice([432, 450, 512, 600, 720, 1000, 1296, 2000])


def attempt(ctx, n, how, f):
    """f() gives a script with the cardinal of n or is rejected, according to the limit"""
    ctx.about((how, n.card, n.text))
    try:
        s = f()
    except REJECT as e:
        ctx.check(n.card > LIMIT, 'a script of {} singular sequences is rejected ({}): {!r}', n.card, how, e)
        ctx.event('rejected above the limit')
        return None
    ctx.check(n.card <= LIMIT, 'a script of {} singular sequences is accepted ({})', n.card, how)
    ctx.event('accepted at or below the limit')
    return s


def route(ctx, rng, i):
    n = of_cardinal(rng, total(rng))
    if n is None:
        ctx.event('not generated')
        return
    for how, f in (('read', lambda: script(R.respell(rng, n, noise=False))),
                   ('built', lambda: build(rng, n))):
        s = attempt(ctx, n, how, f)
        if s is not None:
            ctx.equal(s.cardinal, n.card, 'cardinal of %s' % n.text)
            ctx.check(s.cardinal <= LIMIT, 'a script of {} singular sequences was obtained', s.cardinal)
            if rng.random() < .3:
                ctx.equal(len(s.singular_sequences), n.card, 'number of singular sequences of %s' % n.text)
    # inside a usl
    text = rng.choice(['{}', '(({}))', '[! E:A:. ()({})]', '({} m1({} U:.))']).format(n.text, n.text)
    ctx.about(text)
    try:
        u = usl(text)
        ctx.check(n.card <= LIMIT, 'a usl with a script of {} singular sequences is accepted', n.card)
    except (CannotParse, TooManySingularSequences) as e:
        ctx.check(n.card > LIMIT or text != n.text, 'a script of {} singular sequences is rejected in a usl: {!r}', n.card, e)
    ctx.event('usls read')
    if n.card == LIMIT:
        ctx.event('exactly at the limit')
    if n.card == LIMIT + 1:
        ctx.event('one above the limit')
    if n.card > LIMIT * .95:
        ctx.seen(n.text)
    ctx.sample('%d singular sequences: %s' % (n.card, n.text[:200]))


def summed(ctx, rng, i):
    """two scripts below the limit whose sum goes around it"""
    t = total(rng)
    if t > 700:
        return
    a = rng.randint(max(1, t - LIMIT), min(LIMIT, t - 1))
    layer = 3
    parts = []
    for hd, k in (('U', a), ('S', t - a)):
        x = max(d for d in range(1, 26) if k % d == 0)
        if k // x > 60:
            return
        parts.append(R.mul([R.promote(R.prim(hd), layer - 1), axis(rng, layer - 1, x), axis(rng, layer - 1, k // x)]))
    n = R.add(parts)
    if n.card != t:
        return
    s = [script(p.text) for p in parts]
    for how, f in (('sum operator', lambda: s[0] + s[1]), ('sum', lambda: script_add(list(s))),
                   ('constructor', lambda: AdditiveScript(children=[s[1], s[0]]))):
        r = attempt(ctx, n, how, f)
        if r is not None:
            ctx.equal((r.cardinal, str(r)), (n.card, n.text), 'sum')
    # several additions of the same script do not count twice
    ctx.equal((s[0] + s[0]).cardinal, parts[0].card, 'sum of a script with itself')
    ctx.seen(n.text)


def factorized(ctx, rng, i):
    """a list of singular sequences of a complete product around the limit"""
    f = rng.choice([[6, 6, 10], [5, 8, 9], [19, 19, 1], [4, 9, 10], [3, 11, 11], [7, 52, 1], [13, 28, 1], [6, 61, 1],
                    [2, 180 // 10, 10], [11, 11, 3], [1, 19, 19], [12, 30, 1], [8, 9, 5], [20, 18, 1], [20, 19, 1]])
    n = R.mul([axis(rng, 2, k) for k in f])
    seqs = [script(R.from_prims(p).text) for p in sorted(n.den)]
    rng.shuffle(seqs)
    r = attempt(ctx, n, 'factorized list', lambda: factorize(seqs))
    ctx.event('lists factorized')
    if r is not None:
        ctx.equal(r.cardinal, n.card, 'cardinal of the factorized list')
    ctx.seen(n.text)


KINDS = {'route': (route, 500, 6000), 'summed': (summed, 400, 5000), 'factorized': (factorized, 16, 200)}
