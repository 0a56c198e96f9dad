"""C16 decorations keep their place and their text, and do not leak."""
import copy
import pickle
from usut import *
import c14
from dbkit import value
from ieml.usl.decoration.instance import InstancedUSL, Decoration
from ieml.usl.decoration.path import path as read_path, DeferenceError

PROPERTY = 'C16'
RULE = ('a random usl is decorated at a random set of the paths of its structure with values that hold quotes, backslashes, brackets, line ends and unicode, by the '
        'constructor and by reading; the decorations found are compared with those given, the text is read again, the usl and other usls that share its parts are '
        'looked at before and after; non-trivial when there are two decorations or more')
ASSUMPTIONS = ['one decoration per path', 'the decorated usl is not the empty polymorpheme, whose text is empty']
REQUIRED = ['decorations found', 'texts read', 'others looked at', 'refused', 'singular sequences with decorations', 'singular sequences without decorations', 'values with quotes or backslashes',
            'decorated flexions', 'decorated groups', 'decorated roles', 'empty values']


def val(rng):
    r = rng.random()
    if r < .08:
        return ''
    if r < .3:
        return rng.choice(['"', '\\', '\\"', '"]', '] [> "x', '\\\\', 'a" b', ']', '[', '> "', 'a\\', '\\n', 'line\nend', '(a.)', "[! E:A:. ()]", '"" ""', '\\\\"', ' x ', '#a#'])
    return value(rng)


def esc(v):
    return v.replace('\\', '\\\\').replace('"', '\\"')


def plain(p):
    """a path without what only repeats the usl: focus and multiplicity"""
    return re.sub(r'(group_\d) \d', r'\1', p.replace('! ', ''))


def gen_deco(rng):
    while True:
        m = gen(rng)
        if m[0] == 'pm' and U.pm_empty(m):
            continue
        paths = [p for p, _ in c14.model(m)]
        n = min(len(paths), rng.choice([1, 2, 2, 3, 5, 9]))
        return m, {p: val(rng) for p in rng.sample(paths, n)}


def decorate(rng, m, deco):
    """the decorated usl, by one of the ways a user has"""
    ds = list(deco.items())
    rng.shuffle(ds)
    if rng.random() < .5:
        return InstancedUSL(obtain(rng, m), [Decoration(read_path(p), v) for p, v in ds])
    return usl(deco_text(rng, respell(rng, m) if rng.random() < .5 else text(m), ds))


def deco_text(rng, t, ds):
    sp = lambda: rng.choice([' ', ' ', '  ', '\n', '\t'])
    return t + sp() + sp().join('[%s%s"%s"]' % (p, sp(), esc(v)) for p, v in ds)


def found(x):
    return {str(d.path): d.value for d in x.decorations}


def same(ctx, x, m, deco, what):
    ctx.check(isinstance(x, InstancedUSL), '{} is not decorated: {!r}', what, str(x))
    ctx.equal(ws(x.usl), ws(text(m)), 'usl of ' + what)
    ctx.equal(found(x), deco, 'decorations of ' + what)
    ctx.equal(len(x.decorations), len(deco), 'number of decorations of ' + what)
    ctx.event('decorations found', len(deco))


def events(ctx, deco):
    for p, v in deco.items():
        if '"' in v or '\\' in v:
            ctx.event('values with quotes or backslashes')
        if not v:
            ctx.event('empty values')
        if 'flexion' in p:
            ctx.event('decorated flexions')
        if 'group_' in p:
            ctx.event('decorated groups')
        if 'role' in p:
            ctx.event('decorated roles')


def round_trip(ctx, rng, i):
    m, deco = gen_deco(rng)
    ctx.about((text(m), deco))
    events(ctx, deco)
    x = decorate(rng, m, deco)
    t = str(x)
    same(ctx, x, m, deco, 'the decorated usl')
    y = usl(t)
    ctx.event('texts read')
    same(ctx, y, m, deco, 'the text read again')
    ctx.equal(str(y), t, 'text read and written')
    z = decorate(rng, m, deco)
    ctx.equal(str(z), t, 'text of the same decorations given otherwise')
    ctx.check(x == y and y == z and hash(x) == hash(y), 'the same decorated usl is different once read: {}', t)
    for c in (copy.copy(x), copy.deepcopy(x), pickle.loads(pickle.dumps(x))):
        same(ctx, c, m, deco, 'a copy')
    a, b = ({str(d.path): d for d in v.decorations} for v in (x, y))
    ctx.check(a == b, 'the decorations of {} are different once read', t)
    p = rng.choice(sorted(a))
    ctx.check(a[p] != Decoration(read_path(p), deco.get(p, '') + 'x'), 'two decorations of {} with different values are the same', t)
    ctx.check(all((a[p] == a[q]) == (p == q) for p in a for q in a), 'two decorations of {} are the same', t)
    # what has not the same decorations is an other usl
    d2 = dict(deco)
    p = rng.choice(sorted(d2))
    if rng.random() < .5:
        d2[p] += rng.choice(['x', '\\', '"', ' x'])
    else:
        del d2[p]
    if d2:
        w = decorate(rng, m, d2)
        ctx.check(w != x and str(w) != t, '{} and {} are the same', str(w), t)
    if len(deco) > 1:
        ctx.seen(t)


def literals(u):
    return [(str(p), x.get_literal()) for p, x in u.iter_structure_path() if x.get_literal() is not None]


def leak(ctx, rng, i):
    m, deco = gen_deco(rng)
    ctx.about((text(m), deco))
    u = obtain(rng, m)
    before = ws(u)
    # others: the same usl read again, one close to it, parts of it
    others = [(m, obtain(rng, m)), (lambda k: (k, obtain(rng, k)))(mutate(rng, m))]
    m2, deco2 = m, {p: val(rng) for p, _ in rng.sample(c14.model(m), 1)}
    second = InstancedUSL(u, [Decoration(read_path(p), v) for p, v in deco2.items()])
    first = InstancedUSL(u, [Decoration(read_path(p), v) for p, v in deco.items()])
    read = usl(deco_text(rng, text(m), list(deco.items())))
    same(ctx, second, m2, deco2, 'a usl decorated before an other one')
    same(ctx, first, m, deco, 'a usl decorated after an other one')
    same(ctx, read, m, deco, 'a decorated usl read')
    rng.choice([lambda: first.singular_sequences, lambda: str(first), lambda: list(first.iter_structure_path()), lambda: first.check()])()
    others.append((m, u))
    others.append((m, obtain(rng, m)))
    k = mutate(rng, m)
    others.append((k, obtain(rng, k)))
    for k, o in others:
        ctx.event('others looked at')
        ctx.check(not isinstance(o, InstancedUSL), 'a usl read without decorations has some')
        ctx.equal(ws(o), ws(text(k)), 'text of a usl that is not decorated')
        ctx.equal(literals(o), [], 'decorations in the usl %s that has none' % text(k))
        ctx.equal(InstancedUSL.list_decorations(o), [], 'decorations listed in %s' % text(k))
    ctx.equal(ws(u), before, 'text of a usl once decorated')
    same(ctx, second, m2, deco2, 'a usl decorated, at the end')
    same(ctx, first, m, deco, 'a usl decorated, at the end')
    if len(deco) > 1:
        ctx.seen((text(m), sorted(deco.items())), 'leak')


def singular(ctx, rng, i):
    m = gen(rng)
    while (m[0] == 'word' and U.n_ss_word(m) > 60) or (m[0] == 'pm' and U.pm_empty(m)):
        m = gen(rng)
    # the empty morpheme is in any constant
    paths = [p for p, _ in c14.model(m) if not p.endswith('>E:')]
    deco = {p: val(rng) for p in rng.sample(paths, min(len(paths), rng.choice([1, 2, 4])))}
    x = decorate(rng, m, deco)
    ctx.about((text(m), deco))
    if m[0] == 'pm':
        models = U.ss_pm_models(m) if m[2] else [m]
    elif m[0] == 'lex':
        models = U.ss_lex_models(m)
    else:
        models = [('word', m[1], [(a, l) for (a, _), l in zip(m[2], ls)], m[3]) for ls in U.product(*(U.ss_lex_models(l) for _, l in m[2]))]
    want = {}
    for k in models:
        has = {plain(p) for p, _ in c14.model(k)}
        want[ws(text(k))] = {p: v for p, v in deco.items() if plain(p) in has}
    got = {}
    for s in x.singular_sequences:
        if isinstance(s, InstancedUSL):
            ctx.event('singular sequences with decorations')
            got[ws(s.usl)] = found(s)
        else:
            ctx.event('singular sequences without decorations')
            got[ws(s)] = {}
    ctx.equal(len(x.singular_sequences), len(want), 'number of the singular sequences of a decorated usl')
    ctx.equal(x.cardinal, len(want), 'cardinal of a decorated usl')
    ctx.equal(got, want, 'singular sequences of %s' % str(x))


def refuse(ctx, rng, i):
    m, deco = gen_deco(rng)
    other = [x for x in U.pool(rng, 40) if x not in text(m)]
    x = rng.choice(other)
    if m[0] == 'pm':
        bad = ['>constant>' + x, '>group_2 1>' + x, '>' + x, '>content', '>flexion>' + x, '>role>' + roles().actants[0]]
    elif m[0] == 'lex':
        bad = ['>flexion>' + x, '>content>constant>' + x, '>content>group_0 1>' + x, '>role>' + roles().actants[0], '>constant>' + x]
    else:
        a = ' '.join(rng.choice(m[2])[0])
        bad = ['>role>%s>flexion>%s' % (a, x), '>role>%s>content>constant>%s' % (a, x), '>role>%s>content>group_1 1>%s' % (a, x), '>content>constant>' + x, '>constant>' + x]
        if m[1] == 'process':
            free = [r for r in roles().actants if all(r not in a for a, _ in m[2])]
            bad.append('>role>' + free[0])
    p = rng.choice(bad)
    ds = list(deco.items())
    ds.insert(rng.randint(0, len(ds)), (p, val(rng)))
    ctx.about((text(m), ds))
    ctx.event('refused')
    try:
        y = usl(deco_text(rng, text(m), ds))
    except CannotParse:
        pass
    else:
        ctx.fail('a decoration at a path that is not in the usl is read: %s' % y)
    try:
        y = InstancedUSL(obtain(rng, m), [Decoration(read_path(p), v) for p, v in ds])
    except DeferenceError:
        pass
    else:
        ctx.fail('a decoration at a path that is not in the usl is accepted: %s' % y)


KINDS = {'round_trip': (round_trip, 700, 10000), 'leak': (leak, 400, 6000), 'singular': (singular, 300, 5000), 'refuse': (refuse, 300, 4000)}
