"""C09 asking, combining, copying and transporting scripts and usls never changes them nor what they answer."""
import copy
import os
import pickle
import random
import subprocess
import sys
import numpy as np
from usut import *
from ieml.exceptions import InvalidScript, TooManySingularSequences, IncompatiblesScriptsLayers
from sut import build as build_script, factorize, script_add, MultiplicativeScript, AdditiveScript, variants, LAYERS, m as mult

PROPERTY = 'C09'
RULE = ('the same random script or usl is asked a fixed set of questions, each on a fresh object, then in a random order with repetitions on one object that is '
        'meanwhile compared, added, multiplied, factorised, pickled and copied; the answers, and those of the operands, must stay those of the fresh objects; '
        'collections of scripts and usls are pickled and read in a process with another hash seed; non-trivial when the object is a paradigm or has several parts')
ASSUMPTIONS = ['the caller does not itself modify what it is given (lists of singular sequences, tables)']
REQUIRED = ['scripts questioned', 'usls questioned', 'pickles', 'deep copies', 'operations', 'transports', 'caller lists']
SHARDS = 8


def arr(t):
    return [[str(x) for x in np.asarray(a, dtype=object).flatten()] + [np.asarray(a, dtype=object).shape] for a in t]


def ask(f, *a):
    try:
        return f(*a)
    except (ValueError, TypeError, InvalidScript, TooManySingularSequences, IncompatiblesScriptsLayers) as e:
        return 'raises', type(e).__name__


S_QUESTIONS = {
    'text': str, 'hash': lambda s: hash(s) == hash(str(s)), 'layer': lambda s: s.layer, 'cardinal': lambda s: (s.cardinal, len(s), s.is_singular),
    'ss': lambda s: [str(x) for x in s.singular_sequences], 'ss set': lambda s: sorted(str(x) for x in s.singular_sequences_set),
    'empty': lambda s: s.empty, 'class': lambda s: (s.script_class, s.grammatical_class), 'canonical': lambda s: s.canonical,
    'cells': lambda s: ask(lambda: arr(s.cells)), 'tables': lambda s: ask(lambda: [str(x) for x in s.tables_script]),
    'headers': lambda s: ask(lambda: [[[str(x) for x in d] for d in h] for h in s.headers]),
    'children': lambda s: [str(x) for x in s.children], 'iter': lambda s: [str(x) for x in s], 'character': lambda s: s.character,
    'paradigm': lambda s: s.paradigm, 'tree': lambda s: [str(x) for x in s.tree_iter()],
    'self': lambda s: (s == s, s < s, s in s, str(script(s)) == str(s), s == str(s)),
    'paths': lambda s: [(str(p), str(x)) for p, x in s.iter_structure_path_by_script_ss()],
}


def paths(u, flexion):
    return [(str(p), ws(x)) for p, x in u.iter_structure_path(flexion=flexion)]


U_QUESTIONS = {
    'text': lambda u: ws(u), 'hash': lambda u: hash(u) == hash(str(u)), 'empty': lambda u: (u.empty, bool(u)), 'cardinal': lambda u: (u.cardinal, len(u), u.is_singular),
    'ss': lambda u: [ws(x) for x in u.singular_sequences], 'ss set': lambda u: sorted(ws(x) for x in u.singular_sequences_set),
    'morphemes': lambda u: [str(x) for x in u.morphemes], 'structure': lambda u: [ws(x) for x in u.iter_structure()],
    'paths': lambda u: paths(u, False), 'script paths': lambda u: [(str(p), str(x)) for p, x in u.iter_structure_path_by_script_ss()],
    'scripts': lambda u: [(str(p), str(x)) for p, x in u.iter_structure_path_by_type()],
    'class': lambda u: u.grammatical_class, 'self': lambda u: (u == u, u < u, u in u, ws(usl(u)) == ws(u)), 'literal': lambda u: u.get_literal(),
    'check': lambda u: ask(u.check),
}


def operate(ctx, rng, x, others, is_script):
    """one thing a user does with x, whose result is not looked at here"""
    o = rng.choice(others)
    r = rng.randrange(9)
    ctx.event('operations')
    if r == 0:
        x < o, o < x, x == o, x != o
    elif r == 1:
        ask(lambda: o in x), ask(lambda: x in o)
    elif r == 2:
        ctx.event('pickles')
        return pickle.loads(pickle.dumps(x, protocol=rng.choice([2, 4, 5])))
    elif r == 3:
        ctx.event('deep copies')
        return copy.deepcopy(x)
    elif r == 4:
        return copy.copy(x)
    elif r == 5:
        sorted([x, o, x]), {x: 1, o: 2}, {x, o}
    elif is_script:
        if r == 6:
            ask(lambda: x + o), ask(lambda: o + x)
        elif r == 7:
            if x.layer < 6 and o.layer < 6:
                ask(lambda: mult(x, o)), ask(lambda: mult(o, x, x))
        elif o.layer == x.layer and x.layer <= 3 and x.cardinal + o.cardinal < 30:
            factorize([x, o]), factorize(x)
    elif r == 6:
        for s in list(u for u in x.singular_sequences)[:3]:
            list(s.iter_structure_path()), s.morphemes, s in x
    elif r == 7:
        [str(p) for p, _ in x.iter_structure_path()]
    else:
        usl(str(x)), usl(x)
    return None


def history(ctx, rng, fresh, others, questions, name, is_script):
    want = {}
    for k, q in questions.items():
        want[k] = q(fresh())
    wants = [{k: q(o()) for k, q in questions.items()} for o in others]
    x, os_ = fresh(), [o() for o in others]
    objs = [x]
    for _ in range(rng.randint(8, 24)):
        y = rng.choice(objs)
        if rng.random() < .6:
            k = rng.choice(list(questions))
            ctx.equal(questions[k](y), want[k], '%s of %s after other questions' % (k, name))
        else:
            z = operate(ctx, rng, y, os_, is_script)
            if z is not None:
                ctx.check(z == y and y == z and hash(z) == hash(y), 'a copy of {} is different', name)
                objs.append(z)
        if rng.random() < .3:
            ctx.event('operands compared')
            j = rng.randrange(len(os_))
            k = rng.choice(list(questions))
            ctx.equal(questions[k](os_[j]), wants[j][k], '%s of the operand %s after it was used with %s' % (k, wants[j]['text'], name))
    for k, q in questions.items():
        ctx.equal(q(x), want[k], '%s of %s at the end' % (k, name))
        for z in objs[1:3]:
            ctx.equal(q(z), want[k], '%s of a copy of %s at the end' % (k, name))
        for o, w in zip(os_, wants):
            ctx.equal(q(o), w[k], '%s of the operand %s at the end' % (k, w['text']))


def scripts(ctx, rng, i):
    n = R.gen(rng, rng.choice(LAYERS), budget=rng.choice([1, 6, 20, 40]))
    vs = rng.sample(variants(rng, n), 2) + [R.gen(rng, n.layer, 6), R.gen(rng, rng.choice(LAYERS), 6)]
    ctx.about((n.text, [v.text for v in vs]))
    if n.card > 1:
        ctx.seen(n.text)
    ctx.event('scripts questioned')
    r = rng.random()

    def maker(n):
        # the parser shares the scripts it has already read
        if rng.random() < .4:
            return lambda: script(n.text)
        seed = rng.random()
        return lambda: build_script(random.Random(seed), n)
    history(ctx, rng, maker(n), [maker(v) for v in vs], S_QUESTIONS, n.text, True)


def usls(ctx, rng, i):
    m = gen(rng)
    vs = [mutate(rng, m), mutate(rng, m), gen(rng) if rng.random() < .3 else gen(rng, 'pm')]
    ctx.about((text(m), [text(v) for v in vs]))
    ctx.seen(text(m))
    ctx.event('usls questioned')

    def maker(m):
        t = text(m)
        if single(m) or rng.random() < .6:
            seed = rng.random()
            return lambda: build(random.Random(seed), m)
        return lambda: usl(t)
    history(ctx, rng, maker(m), [maker(v) for v in vs], U_QUESTIONS, text(m), False)


def caller(ctx, rng, i):
    """the lists given to the constructors stay as they are"""
    n = R.gen(rng, rng.choice([0, 1, 2, 3]), 6)
    cs = [n] + [R.gen(rng, n.layer, 6) for _ in range(rng.randint(1, 2))]
    ss = [script(c.text) for c in cs]
    ctx.about([c.text for c in cs])
    ctx.seen(repr([c.text for c in cs]), 'caller')
    for f, name in ((lambda l: AdditiveScript(children=l), 'the sum'), (script_add, 'add'), (lambda l: factorize(l) if sum(map(len, l)) < 40 else None, 'factorize'),
                    (lambda l: MultiplicativeScript(children=l[:3]), 'the product'), (lambda l: MultiplicativeScript(children=l) if len(l) <= 3 else None, 'the product')):
        l = list(ss)
        ask(f, l)
        ctx.event('caller lists')
        ctx.equal([str(x) for x in l], [c.text for c in cs], 'operands given to %s' % name)
        # and the result does not share the list
        l = list(ss)
        res = ask(f, l)
        if isinstance(res, Script):
            t = str(res)
            ch = [str(c) for c in res.children]
            l.clear()
            ctx.equal(([str(c) for c in res.children], str(res)), (ch, t), '%s after the list of its operands is emptied' % name)
    pm = U.gen_pm(rng, allow_empty=False, small=True)
    c = [script(x) for x in pm[1]]
    gs = [[[script(x) for x in g], mu] for g, mu in pm[2]]
    rng.shuffle(c)
    for g, _ in gs:
        rng.shuffle(g)
    before = [str(x) for x in c], [([str(x) for x in g], mu) for g, mu in gs]
    u = PolyMorpheme(constant=c, groups=[tuple(g) for g in gs])
    t = str(u)
    u.singular_sequences, list(u.iter_structure_path()), u.morphemes
    ctx.equal(([str(x) for x in c], [([str(x) for x in g], mu) for g, mu in gs]), before, 'lists given to PolyMorpheme')
    c.clear(), gs.clear()
    ctx.equal((str(u), text(pm)), (t, t), 'polymorpheme after its lists are emptied')
    items = U.gen_word(rng, roles(), max_items=5)[2]
    l = [([script(a) for a in addr], build_lex(rng, x)) for addr, x in items]
    before = [([str(a) for a in addr], str(x)) for addr, x in l]
    SyntagmaticFunction.from_list(l)
    ctx.equal([([str(a) for a in addr], str(x)) for addr, x in l], before, 'list given to SyntagmaticFunction.from_list')


READER = r'''
import pickle, sys
d = pickle.load(sys.stdin.buffer)
import json
out = []
from ieml.dictionary.script import Script, script
from ieml.usl.usl import usl
for x in d['list']:
    v = script(str(x)) if isinstance(x, Script) else usl(str(x)) if str(x) else x
    out.append([str(x), hash(x) == hash(v), x == v or str(v) == str(x), x in d['set'], d['dict'].get(x), [str(s) for s in x.singular_sequences],
                sorted(str(s) for s in x.singular_sequences_set), all(s in x.singular_sequences_set for s in x.singular_sequences)])
out.append(sorted(str(x) for x in d['set']))
out.append([str(x) for x in sorted(x for x in d['list'] if isinstance(x, Script))])
json.dump(out, sys.stdout)
'''


def transport(ctx, rng, i):
    """pickled collections read by a process that has another hash seed"""
    import json
    xs = [script(R.gen(rng, rng.choice(LAYERS), 12).text) for _ in range(12)]
    for _ in range(8):
        u = obtain(rng, gen(rng))
        xs.append(u)
    xs = list({str(x): x for x in xs}.values())
    for x in xs:
        if rng.random() < .5:
            x.singular_sequences_set
        if isinstance(x, Script) and rng.random() < .3:
            ask(lambda: x.cells)
    want = [[str(x), True, True, True, str(x), [str(s) for s in x.singular_sequences], sorted(str(s) for s in x.singular_sequences_set), True] for x in xs]
    want.append(sorted(str(x) for x in xs))
    want.append([str(x) for x in sorted(x for x in xs if isinstance(x, Script))])
    data = pickle.dumps({'list': xs, 'set': set(xs), 'dict': {x: str(x) for x in xs}}, protocol=4)
    ctx.about([str(x) for x in xs])
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1 << 31)))
    p = subprocess.run([sys.executable, '-c', READER], input=data, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
    ctx.event('transports')
    if p.returncode:
        ctx.fail('a pickle of scripts and usls can not be read in another process: ' + p.stderr.decode('utf8', 'replace')[-1500:])
    for g, w in zip(json.loads(p.stdout), want):
        ctx.equal(g, w, 'scripts and usls read in another process')
    ctx.seen(repr(want), 'transport')


KINDS = {'scripts': (scripts, 400, 9000), 'usls': (usls, 240, 7000), 'caller': (caller, 400, 6000), 'transport': (transport, 24, 300)}
