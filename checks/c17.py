"""C17 the listing of a database is complete, right and sorted."""
import refscript as R
import refusl as U
from dbkit import Store, Item, scratch, value
from world import World, roles
from sut import script_class
from usut import pm_class, usl
from ieml.constants import LANGUAGES, DESCRIPTORS_CLASS
from ieml.dictionary.script import script
from ieml.ieml_database import IEMLDatabase
from ieml.usl import get_index, int2base
import refdict as D
import dsut

PROPERTY = 'C17'
RULE = ('synthetic databases with root paradigms (those of the roles included), paradigms, singular scripts, polymorphemes, lexemes, words, decorated usls and usls with morphemes that the '
        'dictionary does not have; the listing is compared, entry by entry, with a model; indexes are compared with the order of the dictionary; numbers in a base, with each other; '
        'non-trivial when there are usls of every kind')
ASSUMPTIONS = ['the sums have no overlapping terms (recorded finding of C02)', 'the usls were stored by the database, so under their canonical text', 'the order between lexemes and between words is not judged']
REQUIRED = ['listings', 'entries', 'scripts', 'polymorphemes', 'polymorphemes without constant', 'lexemes', 'words', 'decorated', 'left out', 'root paradigms', 'indexes compared', 'numbers compared']
CASE_LIMIT = 200
NAMES = {0: 'Auxiliary', 1: 'Verb', 2: 'Noun'}


def kind_class(m):
    if m[0] == 'pm':
        return pm_class(m)
    if m[0] == 'lex':
        return pm_class(m[2])
    r = roles()
    return 1 if any(a in r.valence for a in m[3]) else 0 if r.ind in m[3] else 2


def expected(w, it):
    if it.type == 'morpheme':
        n = R.parse(it.text)
        cl, root = script_class(n), n.text in {r.text for r in w.ref.roots}
    else:
        cl, root = kind_class(it.model), False
    return {'ieml': it.text, 'type': it.type, 'paradigm': it.paradigm, 'class': NAMES[cl],
            'cardinality': 'root_paradigm' if root else 'paradigm' if it.paradigm else 'singular_sequence', 'domains': []}


def listing(ctx, rng, i):
    w = World(rng)
    its, out = {}, set()
    for n in w.listed:
        its[n.text] = Item(n.text, 'morpheme', n.card > 1)
    for _ in range(rng.randint(4, 14)):
        it = w.item(rng)
        its.setdefault(it.text, it)
        if it.type != 'morpheme' and rng.random() < .3:
            d = Item('', it.type, it.paradigm)
            d.model = it.model
            d.text = str(usl(it.text + ' [> "%s"]' % rng.choice(['x', 'a b', 'é'])))
            its.setdefault(d.text, d)
            ctx.event('decorated')
    # usls that the dictionary can not read
    known = set(w.scripts)
    for _ in range(rng.randint(0, 3)):
        bad = R.gen(rng, rng.choice([1, 2, 3]), rng.choice([1, 4]))
        if bad.text in known or bad.empty or not R.disjoint(bad):
            continue
        if rng.random() < .5 or bad.card > 1:
            its[bad.text] = Item(bad.text, 'morpheme', bad.card > 1)
            if bad.card > 1:
                # a listed paradigm is in the dictionary when a root contains it
                ref = D.Dict(w.listed + [bad], w.roots, w.inh, w.ignored)
                if any(n.text == bad.text for n in ref.scripts):
                    del its[bad.text]
                    continue
            out.add(bad.text)
        else:
            pm = ('pm', [bad.text] + [m for m in rng.sample(w.singular, 1) if not U.empty_m(m)], [])
            if len(pm[1]) == 2:
                t = U.txt_pm(pm)
                its[t] = Item(t, 'polymorpheme', False)
                out.add(t)
    for n in w.listed:
        if n.text not in known:
            out.add(n.text)
    model = Store()
    with scratch(ctx) as d:
        db = IEMLDatabase(d, use_cache=rng.random() < .2)
        w.fill(rng, db, model)
        todo = [t for t in its for _ in range(rng.choice([1, 1, 2, 4])) if t not in model.desc or rng.random() < .3]
        todo += [t for t in its if t not in model.desc]
        rng.shuffle(todo)
        ctx.about((w.rows(rng), sorted(its), sorted(out)))
        for t in todo:
            a = (t, rng.choice(LANGUAGES), rng.choice(DESCRIPTORS_CLASS), value(rng).strip() or 'y')
            db.add_descriptor(*a)
            model.add(*a)
        got = db.get_list()
        parsed = db.list(parse=True)
    want = {t: expected(w, it) for t, it in its.items() if t not in out}
    ctx.event('left out', len(out))
    ctx.event('listings')
    names = [e['ieml'] for e in got]
    ctx.equal(sorted(names), sorted(want), 'usls of the listing')
    ctx.equal(sorted(map(str, parsed)), sorted(want), 'usls of list(parse=True)')
    for e in got:
        exp = want[e['ieml']]
        ctx.equal({k: e[k] for k in exp}, exp, 'entry of %s' % e['ieml'])
        desc = model.descriptor(e['ieml'])
        ctx.equal({k: e.get(k, {l: [] for l in LANGUAGES}) for k in desc}, desc, 'descriptors listed for %s' % e['ieml'])
        ctx.event('entries')
        ctx.event({'morpheme': 'scripts', 'polymorpheme': 'polymorphemes', 'lexeme': 'lexemes', 'word': 'words'}[exp['type']])
        if exp['cardinality'] == 'root_paradigm':
            ctx.event('root paradigms')
        if exp['type'] == 'polymorpheme' and not its[e['ieml']].model[1]:
            ctx.event('polymorphemes without constant')
    ctx.check([e['index'] for e in got] == sorted(e['index'] for e in got), 'the listing is not sorted by index')
    ranks = [('morpheme', 'polymorpheme', 'lexeme', 'word').index(e['type']) for e in got]
    ctx.check(ranks == sorted(ranks), 'the kinds are mixed in the listing: {}', ranks)
    scripts = [w.index[e['ieml']] for e in got if e['type'] == 'morpheme']
    ctx.check(scripts == sorted(scripts), 'the scripts are not listed in the order of the dictionary: {}', scripts)
    if len({r for r in ranks}) == 4:
        ctx.seen(tuple(sorted(want)))


def index(ctx, rng, i):
    w = World(rng, size=rng.choice([12, 36]))
    texts = [n.text for n in w.listed]
    rng.shuffle(texts)
    rows = w.rows(rng)
    d = dsut.load(texts, rows)
    ctx.about((texts, rows))
    idx = [get_index(script(t), d)[1] for t in w.scripts]
    for a, b, x, y in zip(idx, idx[1:], w.scripts, w.scripts[1:]):
        ctx.check(a < b, 'the index of {} is not before that of {}: {} {}', x, y, a, b)
        ctx.check(len(a) == len(b), 'indexes of different widths: {} {}', a, b)
        ctx.event('indexes compared')
    seen = {}
    for _ in range(60):
        pm = w.pm(rng, 0)
        if pm[2] or len(pm[1]) < 2:
            continue
        t = U.txt_pm(pm)
        k, x = get_index(usl(t), d)
        ctx.equal(k, 1, 'kind of the index of %s' % t)
        ctx.check(x > idx[-1], 'the index of the polymorpheme {} is before the scripts', t)
        ctx.check(seen.setdefault(x, t) == t, '{} and {} have the same index {}', t, seen[x], x)
        ctx.event('indexes compared')
    l, wd = usl(U.txt_lex(w.lex(rng))), usl(U.txt_word(w.word(rng), roles().order))
    il, iw = get_index(l, d), get_index(wd, d)
    ctx.check(max(idx + list(seen)) < il[1] < iw[1] and il[0] < iw[0], 'indexes of {} and {}: {} {}', l, wd, il, iw)
    ctx.seen(tuple(texts))


def base(ctx, rng, i):
    chars = rng.choice([None, '01', '0123456789', '0abc', ''.join(map(chr, range(48, 123)))])
    width = rng.choice([12, 20, 30, 40])
    n = len(chars) if chars else 62
    top = n ** width - 1
    def num():
        return rng.choice([lambda: rng.randint(0, 200), lambda: rng.randint(0, top), lambda: n ** rng.randint(0, width - 1) + rng.randint(-1, 1),
                           lambda: int(10 ** rng.uniform(0, 20))])()
    xs = sorted({min(top, max(0, num())) for _ in range(30)} | {0, 1, n - 1, n, n + 1, top})
    kw = {'characters': sorted(chars)} if chars else {}
    if width != 30 or rng.random() < .5:
        kw['max'] = width
    else:
        width = 30
    ys = [int2base(x, **kw) for x in xs]
    digits = sorted(chars) if chars else sorted('0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz')
    for x, y in zip(xs, ys):
        back = 0
        for c in y:
            back = back * n + digits.index(c)
        ctx.check(back == x, 'the digits {} of {} are those of {}', y, x, back)
        ctx.check(len(y) == width, 'the text {} of {} is not {} wide', y, x, width)
        ctx.event('numbers compared')
    ctx.check(ys == sorted(ys), 'the texts of numbers are not in the order of the numbers')
    ctx.seen((xs[3], width, n))


KINDS = {'listing': (listing, 260, 6000), 'index': (index, 120, 2400), 'base': (base, 400, 4000)}
