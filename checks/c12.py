"""C12 singular sequences of lexemes and words."""
from usut import *

PROPERTY = 'C12'
RULE = ('random lexemes and words with paradigms in any of their polymorphemes and roles, up to 400 singular sequences; the set of singular sequences is compared '
        'with the product of the choices of each polymorpheme computed by an independent model; containment of close usls; non-trivial when there are at least '
        'two singular sequences')
ASSUMPTIONS = ['the singular sequences of a polymorpheme are those of C11']
REQUIRED = ['lexemes', 'words', 'several plural roles', 'plural junctions', 'containments true', 'containments false', 'singular usls', 'full polymorphemes', 'words with one choice']


def full(m):
    """a polymorpheme has groups, and a constant that leaves no room for their morphemes"""
    ls = [m] if m[0] == 'lex' else [l for _, l in m[2]]
    return any(len(p[1]) >= U.SIZE_LIMIT and p[2] for l in ls for p in l[1:])


def gen_one(rng):
    for _ in range(80):
        if rng.random() < .35:
            m = U.gen_lex(rng, small=rng.random() < .6, p_par=.6)
            if len(U.ss_pm(m[1])) * len(U.ss_pm(m[2])) <= 400:
                return m
        else:
            p = rng.choice([.05, .2, .35])
            m = U.gen_word(rng, roles(), max_items=6, lex=lambda: U.gen_lex(rng, p_par=p))
            if U.n_ss_word(m) <= 400 and (U.n_ss_word(m) > 1 or rng.random() < .15 or full(m)):
                return m
    return U.gen_lex(rng, p_par=0)


def ss(m):
    return {ws(t) for t in (U.ss_lex(m) if m[0] == 'lex' else U.ss_word(m, roles().order))}


def sequences(ctx, rng, i):
    m = gen_one(rng)
    ctx.about(text(m))
    if full(m):
        ctx.event('full polymorphemes')
        if m[0] == 'word' and len(ss(m)) == 1:
            ctx.event('words with one choice')
    u = obtain(rng, m)
    want = ss(m)
    got = u.singular_sequences
    ctx.equal(sorted(ws(s) for s in got), sorted(want), 'singular sequences of %s' % u)
    ctx.equal((u.cardinal, len(u), bool(u.is_singular)), (len(want), len(want), len(want) == 1), 'cardinal of %s' % u)
    ctx.equal({ws(s) for s in u.singular_sequences_set}, want, 'set of singular sequences of %s' % u)
    for s in rng.sample(list(got), min(3, len(got))):
        ctx.equal([ws(x) for x in s.singular_sequences], [ws(s)], 'singular sequences of the singular sequence %s' % s)
        ctx.check(s in u, '{} is not in {}', s, u)
        ctx.equal(str(usl(str(s))), str(s), 'text of the singular sequence read again')
        if m[0] == 'word':
            ctx.equal(s.grammatical_class, u.grammatical_class, 'class of a singular sequence')
            ctx.equal(str(s.role), str(u.role), 'role of a singular sequence')
    ctx.event('lexemes' if m[0] == 'lex' else 'words')
    if len(want) == 1:
        ctx.event('singular usls')
    else:
        ctx.seen(text(m))
    if m[0] == 'word':
        plural = [a for a, l in m[2] if len(U.ss_pm(l[1])) * len(U.ss_pm(l[2])) > 1]
        if len(plural) > 1:
            ctx.event('several plural roles')
        if any(x in roles().links for a in plural for x in a):
            ctx.event('plural junctions')
    o = mutate(rng, m)
    n = U.n_ss_word(o) if o[0] == 'word' else len(U.ss_pm(o[1])) * len(U.ss_pm(o[2]))
    if n <= 400:
        v = build(rng, o)
        so = ss(o)
        for a, b, x in ((v, u, so <= want), (u, v, want <= so)):
            ctx.equal(a in b, x, '%s in %s' % (a, b))
            ctx.event('containments ' + str(x).lower())
    ctx.sample('%s: %d' % (ws(u)[:150], len(want)))


U.FULL = True
KINDS = {'sequences': (sequences, 2000, 30000)}
