"""C01 canonical text of scripts."""
import refscript as R
from sut import *

PROPERTY = 'C01'
RULE = ('random scripts of layers 0-6 from an independent grammar, several spellings of each (order and repetition of '
        'addends, remarkable letters or spelled out, omitted or written empty roles, blanks) read by the parser and '
        'built with the constructors; a case is non-trivial when its spelling differs from its canonical text')
ASSUMPTIONS = ['the reference model of /verif/lib/refscript.py states the normal form of scripts',
               'layers 0-6, at most 360 singular sequences']
REQUIRED = ['spellings read', 'scripts built', 'pairs compared', 'enumerated scripts', 'arguments refused']


def observe(ctx, s, n, how):
    ctx.equal(str(s), n.text, 'text of the script %s' % how)
    ctx.equal(s.layer, n.layer, 'layer of %s' % n.text)
    ctx.equal(bool(s.paradigm), n.card > 1, 'paradigm flag of %s' % n.text)
    ctx.equal(bool(s.empty), n.empty, 'emptiness of %s' % n.text)
    ctx.equal(s.grammatical_class, script_class(n), 'grammatical class of %s' % n.text)
    ctx.equal(s.script_class, script_class(n), 'script class of %s' % n.text)


def spellings(ctx, rng, i):
    n = R.gen(rng, rng.choice(LAYERS), budget=rng.choice([1, 4, 12, 40]), disj=False)
    first = script(n.text)
    ctx.about(n.text)
    observe(ctx, first, n, 'read from its canonical text')
    for _ in range(4):
        sp = R.respell(rng, n, noise=rng.random() < .5)
        ctx.about((n.text, sp))
        s = script(sp)
        ctx.event('spellings read')
        observe(ctx, s, n, 'read from %r' % sp)
        ctx.check(s == first and hash(s) == hash(first) and not (s != first), 'the readings of {!r} and {!r} are not equal', sp, n.text)
        again = script(str(s))
        ctx.equal(str(again), str(s), 'second reading of %r' % sp)
        if sp != n.text:
            ctx.seen(sp)
    ctx.sample('%r -> %s' % (sp, n.text))


def constructed(ctx, rng, i):
    n = R.gen(rng, rng.choice(LAYERS), budget=rng.choice([1, 6, 24]), disj=False)
    ctx.about(n.text)
    s = build(rng, n)
    ctx.event('scripts built')
    if n.layer <= 6:
        ctx.equal(str(s), n.text, 'text of the script built with the constructors')
        t = script(str(s))
        ctx.check(t == s and hash(t) == hash(s), 'the script built for {} is not equal to the one read from its text', n.text)
        ctx.equal((s.layer, bool(s.paradigm), bool(s.empty)), (n.layer, n.card > 1, n.empty), 'attributes of %s' % n.text)
        if n.kind != 'null':
            ctx.equal(s.grammatical_class, script_class(n), 'grammatical class of %s' % n.text)
    ctx.seen(('built', n.text))


def different(ctx, rng, i):
    n = R.gen(rng, rng.choice(LAYERS[:-1]), budget=12, disj=False)
    a = script(R.respell(rng, n))
    for v in variants(rng, n):
        b = script(R.respell(rng, v))
        ctx.about((n.text, v.text))
        ctx.event('pairs compared')
        same = n.text == v.text
        ctx.equal(a == b, same, 'equality of %s and %s' % (n.text, v.text))
        ctx.equal(a != b, not same, 'difference of %s and %s' % (n.text, v.text))
        ctx.equal(len({a, b}), 1 if same else 2, 'set of %s and %s' % (n.text, v.text))
        ctx.equal(a == v.text, same, 'equality of %s with a text' % n.text)
        if not same:
            ctx.seen((n.text, v.text))


def arguments(ctx, rng, i):
    """roles that are not given to the constructors are empty, and what is not a script expression is refused"""
    layer = rng.choice([0, 1, 1, 2, 3])
    ns = [R.gen(rng, layer, budget=4, disj=False) for _ in range(3)]
    a, b, c = (script(n.text) for n in ns)
    null = R.null(layer)
    ctx.about([n.text for n in ns])
    for want, got in (([ns[0]], MultiplicativeScript(substance=a)),
                      ([ns[0]], MultiplicativeScript(children=[a])),
                      ([ns[0], ns[1]], MultiplicativeScript(a, b)),
                      (ns, MultiplicativeScript(children=(x for x in (a, b, c)))),
                      ([ns[0], null, ns[2]], MultiplicativeScript(children=(a, None, c))),
                      ([ns[0], null, ns[2]], MultiplicativeScript(substance=a, mode=c)),
                      ([null, ns[1], ns[2]], MultiplicativeScript(children=[None, b, c])),
                      ([null, null, ns[2]], MultiplicativeScript(children=[NullScript(layer=layer), None, c]))):
        n = R.mul(want)
        ctx.equal((str(got), got.layer, got.cardinal, bool(got.empty)), (n.text, layer + 1, n.card, n.empty), 'script built with roles omitted')
    other = script(R.gen(rng, rng.choice([x for x in range(4) if x != layer]), budget=4, disj=False).text)
    for what, f in (('a product of layers %d and %d' % (layer, other.layer), lambda: MultiplicativeScript(*rng.choice([(a, b, other), (a, other, b), (other, a, b)]))),
                    ('a product of layers %d and %d with a role omitted' % (layer, other.layer), lambda: MultiplicativeScript(*rng.choice([(a, other), (other, a)]))),
                    ('a product of four', lambda: MultiplicativeScript(children=[a, b, c, a])),
                    ('a sum of layers %d and %d' % (layer, other.layer), lambda: AdditiveScript(children=rng.choice([[a, b, other], [a, other], [other, a]]))),
                    ('the operator + on layers %d and %d' % (layer, other.layer), lambda: a + other),
                    ('the operator + on a text', lambda: a + b'U:'),
                    ('an empty sum', lambda: AdditiveScript(children=[])),
                    ('an unknown letter', lambda: rng.choice([MultiplicativeScript, AdditiveScript])(character=rng.choice('ZQ1.')))):
        try:
            s = f()
        except InvalidScript:
            ctx.event('arguments refused')
        else:
            ctx.check(False, '{} is accepted and gives {}', what, s)
    ctx.seen(('arguments', [n.text for n in ns], str(other)))


SUBSETS = [s for s in range(1, 64)]


def enumerated(ctx, rng, i):
    """every sum of primitives, every singular sequence of layer 1, and the remarkable letters"""
    if i < 63:
        chars = [c for k, c in enumerate(R.PRIM) if SUBSETS[i] >> k & 1]
        n = R.add([R.prim(c) for c in chars])
        sps = ['+'.join(c + ':' for c in chars), '+'.join(c + ':' for c in reversed(chars)), n.text]
    elif i < 63 + 216:
        k = i - 63
        p = R.PRIM[k // 36] + R.PRIM[k // 6 % 6] + R.PRIM[k % 6]
        n = R.from_prims(p)
        sps = [''.join(c + ':' for c in p) + '.', n.text]
    else:
        k = i - 279
        subs = [R.add([R.prim(c) for j, c in enumerate(R.PRIM) if SUBSETS[x] >> j & 1]) for x in (k % 63, k // 63 % 63)]
        n = R.mul(subs)
        sps = [subs[0].text + subs[1].text + '.', subs[0].text + subs[1].text + 'E:.', n.text]
    for sp in sps:
        ctx.about(sp)
        observe(ctx, script(sp), n, 'read from %r' % sp)
        ctx.event('enumerated scripts')
        ctx.seen(sp)


KINDS = {
    'spellings': (spellings, 4000, 40000),
    'constructed': (constructed, 4000, 30000),
    'different': (different, 2000, 15000),
    'arguments': (arguments, 1000, 8000),
    'enumerated': (enumerated, 279 + 1500, 279 + 63 * 63),
}
