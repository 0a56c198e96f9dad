"""C18 content of a dictionary."""
import copy
import pickle
from dsut import *
from ieml.exceptions import CannotParse
from ieml.usl.parser import IEMLParser

PROPERTY = 'C18'
RULE = ('random sets of root paradigms with paradigms inside of them, across them and out of them, ignored paradigms, inhibitions and structure values that are false, given in '
        'any order; the content, positions, roots and tables are compared with those of an independent model, between orders, after pickling, and between hash seeds; '
        'non-trivial when there are several roots or paradigms that are left out')
ASSUMPTIONS = ['the sums have no overlapping terms (recorded finding of C02)', 'a singular sequence is not declared as ignored', 'a root is declared once']
REQUIRED = ['dictionaries', 'other orders', 'pickles', 'overlaps refused', 'paradigms left out', 'ignored', 'questions', 'dictionaries with more than four roots']
SHARED = ('seeds',)


def content(d):
    return ([str(s) for s in d.scripts], {str(k): int(v) for k, v in d.index.items()}, [int(x) for x in d.roots_idx],
            sorted(str(r) for r in d.tables.roots), sorted(tables(d).items()))


def want(c):
    texts = [n.text for n in c.ref.scripts]
    roots = {r.text for r in c.ref.roots}
    return (texts, {t: i for i, t in enumerate(texts)}, [int(t in roots) for t in texts], sorted(roots), sorted(ref_tables(c.ref).items()))


NAMES = ('scripts', 'index', 'marks of the roots', 'roots', 'tables')


def compare(ctx, got, exp, what):
    for g, e, name in zip(got, exp, NAMES):
        ctx.event('assertions')
        if g != e:
            diff = [(x, y) for x, y in zip(g, e) if x != y][:2] if len(g) == len(e) and not isinstance(g, dict) else \
                (sorted(set(map(repr, g)) - set(map(repr, e)))[:3], sorted(set(map(repr, e)) - set(map(repr, g)))[:3])
            ctx.fail('{} of {}: differences (got, expected) {!r:.600}'.format(name, what, diff))


def questions(ctx, rng, d, c):
    """what a user asks by text or by script"""
    texts = [n.text for n in c.ref.scripts]
    for t in rng.sample(texts, min(8, len(texts))):
        ctx.event('questions')
        s = script(t, factorize=False)
        ctx.check(s in d and str(d[t]) == t and d[t].cardinal == s.cardinal, '{} is not found in the dictionary', t)
        ctx.equal(d.index[s], c.ref.index[t], 'index of %s' % t)
        ctx.equal(str(d.tables.root(s)), c.ref.root[t].text, 'root of %s' % t)
        ctx.check(s in d.tables and str(d.tables[s].script) == t, 'the table of {} is an other one', t)
    out = [n for n in c.listed if n.text not in c.ref.index] + [R.gen(rng, rng.choice([0, 1, 2, 3]), 6) for _ in range(6)]
    for n in out:
        if n.text in c.ref.index:
            continue
        ctx.event('questions')
        s = script(n.text, factorize=False)
        ctx.check(s not in d and s not in d.tables, '{} is in the dictionary', n.text)
        for f in (lambda: d[n.text], lambda: d.tables.root(s)):
            try:
                x = f()
            except KeyError:
                continue
            ctx.fail('the dictionary answers %s for %s that it does not have' % (x, n.text))
    ctx.equal(len(d), len(texts), 'size of the dictionary')
    # a reader with the dictionary only accepts its morphemes
    ms = [n for n in c.ref.scripts if n.card == 1 and not n.empty]
    if len(ms) >= 2:
        p = IEMLParser(dictionary=d)
        a, b = rng.sample(ms, 2)
        ctx.check(sorted(str(x) for x in p.parse(a.text + ' ' + b.text).constant) == sorted([a.text, b.text]), '{} and {} are read otherwise with the dictionary', a, b)
        x = next((n for n in out if n.card == 1 and not n.empty and n.text not in c.ref.index), None)
        if x is not None:
            try:
                r = p.parse(a.text + ' ' + x.text)
            except CannotParse:
                pass
            else:
                ctx.fail('%s is read with a dictionary that does not have %s' % (r, x.text))


def build(ctx, rng, i):
    c = Case(rng)
    if len(c.roots) > 4:
        ctx.event('dictionaries with more than four roots')
    d = c.load(rng, ctx)
    ctx.event('dictionaries')
    left = [n for n in c.listed if n.text not in c.ref.index and n.text not in c.ignored]
    if left:
        ctx.event('paradigms left out')
    if c.ignored:
        ctx.event('ignored')
    if len(c.roots) > 1 or left:
        ctx.seen(sorted(n.text for n in c.listed))
    exp = want(c)
    got = content(d)
    compare(ctx, got, exp, 'the dictionary')
    questions(ctx, rng, d, c)
    d2 = c.load(rng)
    ctx.event('other orders')
    compare(ctx, content(d2), got, 'the dictionary built in an other order')
    if rng.random() < .4:
        d3 = pickle.loads(pickle.dumps(d))
        ctx.event('pickles')
        compare(ctx, content(d3), got, 'the dictionary pickled')
        questions(ctx, rng, d3, c)
        ctx.check({k: v.toarray().tolist() for k, v in d3.relations.relations.items()} == {k: v.toarray().tolist() for k, v in d.relations.relations.items()},
                  'the relations of the pickled dictionary differ')


def overlap(ctx, rng, i):
    c = Case(rng)
    r = rng.choice(c.ref.roots)
    for _ in range(50):
        n = R.add([D.narrow(rng, r), D.gen_root(rng, 12)]) if rng.random() < .3 and False else D.narrow(rng, r)
        if rng.random() < .4:
            o = D.gen_root(rng, 12)
            if o.layer == n.layer:
                n = R.add([n, o])
        if n.card > 1 and R.disjoint(n) and n != r and D.fits(n) and n.text not in c.ignored and n.card <= 360:
            break
    else:
        return
    texts, rows = c.inputs(rng)
    rows = [x for x in rows if x[0] != n.text]
    rows.insert(rng.randint(0, len(rows)), (n.text, 'is_root', 'True'))
    if n.text not in texts:
        texts.insert(rng.randint(0, len(texts)), n.text)
    ctx.about((texts, rows))
    try:
        load(texts, rows)
    except ValueError:
        ctx.event('overlaps refused')
        return
    ctx.fail('the roots %s and %s overlap and are accepted' % (n.text, r.text))


def seeds(ctx, rng, i):
    """the same dictionary in every worker: digests are compared between hash seeds"""
    c = Case(rng)
    d = c.load(rng, ctx)
    ctx.digest('dictionary %d' % i, content(d))
    ctx.event('dictionaries')


KINDS = {'build': (build, 1200, 8000), 'overlap': (overlap, 400, 2500), 'seeds': (seeds, 20, 60)}
