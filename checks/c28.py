"""C28 the ways a usl varies: its parts with several singular sequences, and the choices of independent ones."""
from usut import *
from ieml.usl.decoration.instance import InstancedUSL, Decoration
from ieml.usl.decoration.path import path as read_path
from ieml.usl.table import enumerate_partitions

PROPERTY = 'C28'
RULE = ('the dimension and the choices of parts of random usls (polymorphemes, lexemes, words) are compared with those of an independent model of the usl: the parts with several singular '
        'sequences and the sets of such parts none of which is inside another; each path is followed, written and read; the widest choice has as many singular sequences as the usl; '
        'non-trivial when two parts vary')
ASSUMPTIONS = ['the order of the choices, and of the parts in a choice, is not claimed', 'the constants leave room for one morpheme at least of their groups (at most four morphemes)']
REQUIRED = ['usls that do not vary', 'usls with one part that varies', 'usls with several parts that vary', 'words', 'lexemes', 'polymorphemes', 'choices', 'parts followed', 'junctions', 'flexions that vary',
            'widest choices', 'decorated usls', 'words with several groups in a role']
MOST = 3000


def t_pm(pm):
    _, c, gs = U.norm_pm(pm)
    return {'>group_%d %d' % (k, mu): {} for k, (g, mu) in enumerate(gs) if len(U.ss_pm(('pm', [], [(g, mu)]))) > 1}


def t_lex(l):
    res = {}
    if len(U.ss_pm(l[1])) > 1:
        res['>flexion'] = {}
    if len(U.ss_pm(l[2])) > 1:
        res['>content'] = {'>content' + p: t for p, t in t_pm(l[2]).items()}
    return res


def under(prefix, tree):
    return {prefix + p: under(prefix, t) for p, t in tree.items()}


def tree(m):
    if m[0] == 'pm':
        return t_pm(m)
    if m[0] == 'lex':
        return t_lex(m)
    res = {}
    for a, l in m[2]:
        if len(U.ss_pm(l[1])) * len(U.ss_pm(l[2])) > 1:
            r = '>role>' + ('! ' if U.marked(m, a) else '') + ' '.join(a)
            res[r] = under(r, t_lex(l))
    return res


def leaves(t):
    return sum(leaves(c) if c else 1 for c in t.values())


def count(t):
    n = 1
    for c in t.values():
        n *= 1 + count(c)
    return n


def choices(t):
    res = [()]
    for p, c in t.items():
        res = [r + x for r in res for x in [(p,)] + choices(c)]
    return res


def rich(rng):
    """a lexeme with several groups in its content"""
    pm = lambda p: U.gen_pm(rng, max_groups=3 if rng.random() < p else 0, small=True)
    return 'lex', pm(.1), pm(.7)


def variable(rng):
    """a usl with parts that vary, most often"""
    for _ in range(20):
        m = gen(rng) if rng.random() < .7 else U.gen_word(rng, roles(), max_items=4, lex=lambda: rich(rng))
        t = tree(m)
        if count(t) <= MOST and (t or rng.random() < .2):
            return m, t
    return m, t


def vary(ctx, rng, i):
    m, t = variable(rng)
    while count(t) > MOST:
        m, t = variable(rng)
    u = obtain(rng, m)
    ctx.about(text(m))
    n = leaves(t)
    if rng.random() < .15 and text(m):
        # the decorations do not vary
        p = rng.choice([p for p, _ in u.iter_structure_path()])
        dim, parts = enumerate_partitions(InstancedUSL(u, [Decoration(p, 'x')]))
        ctx.event('decorated usls')
    else:
        dim, parts = enumerate_partitions(u)
    ctx.event({'pm': 'polymorphemes', 'lex': 'lexemes', 'word': 'words'}[m[0]])
    ctx.event('usls that do not vary' if not n else 'usls with one part that varies' if n == 1 else 'usls with several parts that vary')
    if m[0] == 'word' and any(len(a) > 2 and a[1] in roles().links for a, _ in m[2]):
        ctx.event('junctions')
    if m[0] == 'word' and any(len(t_pm(l[2])) > 1 for _, l in m[2]):
        ctx.event('words with several groups in a role')
    ctx.equal(dim, n, 'number of parts of %s that vary' % u)
    got = sorted(tuple(sorted(str(p) for p in l)) for l in parts)
    want = sorted(tuple(sorted(c)) for c in choices(t))
    ctx.equal(got, want, 'choices of the parts of %s that vary' % u)
    ctx.event('choices', len(want))
    cards = {}
    for p in {str(p): p for l in parts for p in l}.values():
        x = p.deference(u)
        ctx.check(x.cardinal > 1, 'the part {} of {} does not vary', p, u)
        ctx.event('parts followed')
        q = read_path(str(p))
        ctx.check(q == p and ws(q.deference(u)) == ws(x), 'the part {} of {} is another one once read', p, u)
        cards[str(p)] = x.cardinal
        if str(p).endswith('>flexion'):
            ctx.event('flexions that vary')
    if m[0] != 'pm':
        prod = 1
        for p in t:
            prod *= cards[p]
        ctx.equal(prod, u.cardinal, 'number of singular sequences of the widest parts of %s' % u)
        ctx.event('widest choices')
    again = enumerate_partitions(obtain(rng, m))
    ctx.equal((again[0], sorted(tuple(sorted(str(p) for p in l)) for l in again[1])), (n, want), 'choices of an equal usl')
    ctx.equal(ws(u), ws(text(m)), 'text of the usl afterwards')
    if n > 1:
        ctx.seen(text(m))


KINDS = {'vary': (vary, 1600, 24000)}
