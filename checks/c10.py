"""C10 canonical text of usls."""
from usut import *

PROPERTY = 'C10'
RULE = ('random polymorphemes, lexemes and words (process, dependent and independent quality, junctions, three levels of roles), each read from several '
        'spellings (order of morphemes, groups and roles, spelling of the morphemes, empty morphemes, blanks, old grammatical class) and built with the '
        'constructors; the text is compared with an independent model, read again, and compared with the one of close but different usls; non-trivial when '
        'the spelling differs from the canonical text')
ASSUMPTIONS = ['the reference model of /verif/lib/refusl.py states the normal form of usls', 'blanks are compared as one blank',
               'a polymorpheme with a single morpheme is written like this morpheme']
REQUIRED = ['polymorphemes', 'lexemes', 'words', 'junctions', 'usls built', 'usls read', 'pairs compared', 'different usls']


def rich(rng):
    """lexemes, or words with lexemes, whose flexion and content have several groups"""
    pm = lambda: U.gen_pm(rng, max_groups=3 if rng.random() < .7 else 0, small=True)
    if rng.random() < .5:
        return 'lex', pm(), pm()
    return U.gen_word(rng, roles(), max_items=4, lex=lambda: ('lex', pm(), pm()))


def canonical(ctx, rng, i):
    m = gen(rng) if rng.random() < .8 else rich(rng)
    want = text(m)
    ctx.about((m, want))
    ctx.event({'pm': 'polymorphemes', 'lex': 'lexemes', 'word': 'words'}[m[0]])
    if m[0] == 'word' and any(a in roles().links for addr, _ in m[2] for a in addr):
        ctx.event('junctions')
    got = []
    for _ in range(3):
        r = rng.random()
        if r < .4:
            u = build(rng, m)
            ctx.event('usls built')
            how = 'built'
        else:
            how = respell(rng, m)
            u = usl(how)
            ctx.event('usls read')
            if ws(how) != ws(want):
                ctx.seen(how)
        ctx.equal(ws(u), ws(want), 'text of the usl %r' % how)
        got.append(u)
        if not single(m):
            ctx.check(isinstance(u, {'pm': PolyMorpheme, 'lex': Lexeme, 'word': Word}[m[0]]), '{} is a {}', u, type(u))
        if m[0] == 'pm':
            ctx.equal(u.grammatical_class, pm_class(m), 'grammatical class of %s' % u)
        elif m[0] == 'lex':
            ctx.equal(u.grammatical_class, pm_class(m[2]), 'grammatical class of %s' % u)
        if m[0] != 'word':
            ctx.equal(bool(u.empty), not want or want == '()', 'emptiness of %s' % u)
    for u in got:
        ctx.equal(str(u), str(got[0]), 'texts of two spellings')
        if type(u) == type(got[0]):
            ctx.check(u == got[0] and hash(u) == hash(got[0]) and not u != got[0], 'two spellings of {} are different', u)
            ctx.event('pairs compared')
    if str(got[0]):
        again = usl(str(got[0]))
        ctx.equal(str(again), str(got[0]), 'text read again')
    if m[0] == 'pm':
        ms = sorted({x for x in m[1]} | {x for g, _ in m[2] for x in g}, key=U.sk)
        u = got[0] if isinstance(got[0], USL) else usl(got[0])
        ctx.equal([str(x) for x in u.morphemes if not x.empty], ms, 'morphemes of %s' % u)
    o = mutate(rng, m)
    if ws(text(o)) != ws(want):
        v = build(rng, o)
        ctx.check(str(v) != str(got[0]) and not (type(v) == type(got[0]) and v == got[0]), 'two different usls have the same text {}', v)
        ctx.event('different usls')
    ctx.sample('%s' % want[:200])


U.EMPTY_GROUPS = .03
U.FULL = True
KINDS = {'canonical': (canonical, 4000, 60000)}
