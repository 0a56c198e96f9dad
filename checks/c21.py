"""C21 the database gives back exactly what was stored, for any history of additions and removals."""
import hashlib
import itertools
import os
import refusl as U
from dbkit import *
from ieml.exceptions import CannotParse
from ieml.usl.usl import usl, USL
from ieml.dictionary.script import Script
from ieml.usl.parser import IEMLParser

PROPERTY = 'C21'
RULE = ('random histories of additions and removals of descriptors and structure values for scripts, polymorphemes, lexemes, words and decorated words, '
        'under any of their spellings, with values that hold quotes, backslashes, line breaks, numbers, missing-value names and unicode; the whole content is '
        'read again and compared with a model; non-trivial when the history has at least one removal that changes the content')
ASSUMPTIONS = ['one writer at a time', 'values have no NUL character and no lone surrogate', 'structure values are stored for undecorated usls']
REQUIRED = ['unnormalized usls', 'normalized usls', 'usls of large databases', 'removals', 'states compared', 'listings', 'paths', 'decorated usls', 'values with quotes or backslashes', 'files that existed', 'names as long as possible', 'edits refused', 'values of more than 131072 characters']
CASE_LIMIT = 200


def INIT(ctx):
    global ROLES
    ROLES = U.Roles()


def lists(ctx, db, model, its):
    by = {i.text: i for i in its}
    for type in (None, 'morpheme', 'polymorpheme', 'lexeme', 'word'):
        for paradigm in ((None, True, False) if type else (None,)):
            got = db.list(type, paradigm=paradigm)
            want = sorted(t for t in model.desc if (type is None or by[t].type == type) and (paradigm is None or by[t].paradigm == paradigm))
            ctx.equal(sorted(got), want, 'list(%s, paradigm=%s)' % (type, paradigm))
            ctx.event('listings')


def queries(ctx, rng, db, model, its):
    desc, struct = db.get_descriptors(), db.get_structure()
    for it in rng.sample(its, min(4, len(its))):
        for l in LANGUAGES:
            for d in DESCRIPTORS_CLASS:
                got = desc.get_values(it.text, l, d)
                ctx.equal(got, model.values(it.text, l, d), 'get_values(%s, %s, %s)' % (it.text, l, d))
                got += ['what the caller does with the answer'] * 2
                ctx.equal(desc.get_values(it.text, l, d), model.values(it.text, l, d), 'get_values(%s, %s, %s), again' % (it.text, l, d))
        ctx.equal(desc.get_descriptor(it.text), model.descriptor(it.text), 'get_descriptor(%s)' % it.text)
        got = desc.get_descriptor(it.text)
        for v in got.values():
            for vv in v.values():
                vv.append('what the caller does with the answer')
        ctx.equal(desc.get_descriptor(it.text), model.descriptor(it.text), 'get_descriptor(%s), again' % it.text)
        l, d = rng.choice(LANGUAGES + [None]), rng.choice(DESCRIPTORS_CLASS + [None])
        want = {k: v for k, v in model.partial().items() if k[0] == it.text and l in (None, k[1]) and d in (None, k[2])}
        ctx.equal(desc.get_values_partial(it.text, l, d), want, 'get_values_partial(%s, %s, %s)' % (it.text, l, d))
        for k in STRUCTURE_KEYS:
            struct.get_values(it.text, k).append('what the caller does with the answer')
            ctx.equal(struct.get_values(it.text, k), [v for kk, v in model.struct.get(it.text, ()) if kk == k], 'structure of %s' % it.text)
        ctx.equal(struct.get_values_partial(it.text), {k: v for k, v in model.partial_s().items() if k[0] == it.text}, 'partial structure of %s' % it.text)
    l = rng.choice(LANGUAGES)
    ctx.equal(desc.get_values_partial(None, l), {k: v for k, v in model.partial().items() if k[1] == l}, 'all descriptors of %s' % l)


def layout(d, it, ext):
    """the file of a usl in the databases that exist"""
    name = it.text
    if len(name) > 100:
        name = name[:89] + '|' + hashlib.sha224(name.encode('utf8')).hexdigest()[:10]
    return os.path.join(d, it.type, 'paradigm' if it.paradigm else 'singular', name[:{'morpheme': 0, 'polymorpheme': 5, 'lexeme': 8, 'word': 10}[it.type]], name + ext)


def plain(it):
    return all(' ' <= c <= '~' and c not in '/\\' for c in it.text)


def existing(ctx, rng, d, its, model):
    """files written as the databases that exist have them"""
    for it in its:
        if not plain(it) or rng.random() < .3:
            continue
        desc, struct = layout(d, it, '.desc'), layout(d, it, '.ieml')
        os.makedirs(os.path.dirname(desc), exist_ok=True)
        with open(desc, 'w', encoding='utf8', newline='') as fp:
            for _ in range(rng.randint(1, 3)):
                v = value(rng).replace('\\', '').replace('\r', '').strip() or 'x'
                l, k = rng.choice(LANGUAGES), rng.choice(DESCRIPTORS_CLASS)
                fp.write('"%s" %s %s "%s"\n' % (it.text.replace('"', '""'), l, k, v.replace('"', '""').replace('\n', '\\n')))
                model.add(it.text, l, k, v)
        if it.type == 'morpheme' and it.paradigm and rng.random() < .6:
            with open(struct, 'w', encoding='utf8', newline='') as fp:
                for k, v in [('is_root', 'True')] + [('inhibition', x) for x in rng.sample(INHIBITABLE_RELATIONS, rng.randint(0, 2))]:
                    fp.write('"%s" %s "%s"\n' % (it.text, k, v))
                    model.add_s(it.text, k, v)
        ctx.event('files that existed')
        if 99 <= len(it.text) <= 101:
            ctx.event('names as long as possible')


def edge(rng, its):
    """a usl whose text is about as long as a file name can be"""
    for _ in range(400):
        it = item(rng, ROLES, False)
        if 100 <= len(it.text) <= 101:
            return its + [it] if all(it.text != x.text for x in its) else its
    return its


def refused(ctx, rng, db, its):
    """what is not a language, a descriptor, a key or a value is refused"""
    t = rng.choice(its).text
    l, d = rng.choice(LANGUAGES), rng.choice(DESCRIPTORS_CLASS)
    calls = [lambda: db.add_descriptor(t, 'de', d, 'v'), lambda: db.add_descriptor(t, l, 'notes', 'v'), lambda: db.add_descriptor('E:.(', l, d, 'v'),
             lambda: db.add_structure(t, 'is_leaf', 'True'), lambda: db.add_structure(t, 'inhibition', 'contains'), lambda: db.add_structure(t, 'is_root', '3'),
             lambda: db.add_descriptor(t, l.upper(), d, 'v'), lambda: db.add_descriptor(t, d, l, 'v'), lambda: db.remove_descriptor(t, 'de'),
             lambda: db.remove_structure(t, 'is_leaf')]
    k = rng.randrange(len(calls))
    try:
        calls[k]()
    except (ValueError, CannotParse):
        ctx.event('edits refused')
    else:
        ctx.fail('the invalid edit %d of %s is accepted' % (k, t))


def history(ctx, rng, i):
    its = items(rng, ROLES, rng.randint(3, 9))
    if any('"' in t.text for t in its):
        ctx.event('decorated usls')
    if rng.random() < .3:
        its = edge(rng, its)
    model = Store()
    log = []
    ctx.about(log)
    with scratch(ctx) as d:
        if rng.random() < .5:
            existing(ctx, rng, d, its, model)
            log.append(('existing', repr(model.desc), repr(model.struct)))
        db = IEMLDatabase(d, use_cache=False)
        changed = False
        for step in range(rng.randint(5, 40)):
            before = repr(model.desc) + repr(model.struct)
            op = random_edit(rng, model, rng.choice(its), db)
            log.append(op)
            if op[0].startswith('remove'):
                ctx.event('removals')
                changed |= before != repr(model.desc) + repr(model.struct)
            elif op[0] == 'add' and ('"' in op[4] or '\\' in op[4]):
                ctx.event('values with quotes or backslashes')
            if rng.random() < .12:
                compare(ctx, db, model, 'after %d edits' % len(log))
            if rng.random() < .08:
                refused(ctx, rng, db, its)
            if rng.random() < .1:
                db = IEMLDatabase(d, use_cache=False)
        compare(ctx, db, model, 'at the end')
        queries(ctx, rng, db, model, its)
        lists(ctx, db, model, its)
        files = [db.path_of(t) for t in model.desc]
        rng.shuffle(files)
        some = files[:rng.randint(0, len(files))]
        got = {k[0] for k in db.get_descriptors(files_list=some).df.index} if some else set()
        want = {t for t in model.desc if db.path_of(t) in some}
        ctx.equal(got, want, 'descriptors of a list of files')
    if changed:
        ctx.seen(repr(log))
    ctx.sample('%d edits of %d usls' % (len(log), len(its)))


def naming(ctx, rng, i):
    """each usl has its own file, whatever its spelling"""
    with scratch(ctx) as d:
        db = IEMLDatabase(d, use_cache=False)
        its = edge(rng, items(rng, ROLES, 25))
        seen = {}
        ctx.about([i.text for i in its])
        for it in its:
            paths = set()
            for descriptor in (True, False):
                p = db.path_of(it.text, descriptor=descriptor)
                ctx.check(p not in seen, 'the file {} is used by {} and {}', p, seen.get(p), it.text)
                seen[p] = it.text
                paths.add(p)
                ctx.check(os.path.dirname(os.path.abspath(p)).startswith(d + os.sep), '{} is stored out of the database: {}', it.text, p)
                for s in it.spellings:
                    ctx.equal(db.path_of(s, descriptor=descriptor), p, 'path of the spelling %r' % s)
                ctx.equal(db.path_of(usl(it.text), descriptor=descriptor), p, 'path of the object %s' % it.text)
                with open(db.path_of(it.text, descriptor=descriptor, mkdir=True), 'w') as fp:    # the name must be possible
                    fp.write('')
                ctx.event('paths')
                if plain(it):
                    ctx.equal(p, layout(d, it, '.desc' if descriptor else '.ieml'), 'file of %s' % it.text)
            ctx.seen(it.text, 'paths')


def twins(ctx, rng, i):
    """long usls that only differ far in their text"""
    with scratch(ctx) as d:
        db = IEMLDatabase(d, use_cache=False)
        ms = U.pool(rng, 24)
        base = rng.sample(ms, 5)
        model = Store()
        texts = set()
        for _ in range(6):
            tail = rng.sample([m for m in ms if m not in base], 2)
            w = U.gen_word(rng, ROLES, 'process', max_items=3, lex=lambda: ('lex', ('pm', base, []), ('pm', rng.sample(ms, 2), [])), depth=0)
            texts.add(str(usl(U.txt_word(w, ROLES.order))))
        ctx.about(sorted(texts))
        for t in sorted(texts):
            v = value(rng)
            model.add(t, 'fr', 'translations', v)
            db.add_descriptor(t, 'fr', 'translations', v)
        t = rng.choice(sorted(texts))
        model.remove(t)
        db.remove_descriptor(t)
        ctx.event('removals')
        compare(ctx, db, model, 'of long usls')
        ctx.equal(sorted(db.list()), sorted(model.desc), 'listing of long usls')
        ctx.event('listings')
        ctx.seen(sorted(texts))


def unnormalized(ctx, rng, i):
    """usls that an old version stored under another spelling: they are removed as they are written, or replaced by the canonical ones"""
    with scratch(ctx) as d:
        model = Store()
        its = [t for t in items(rng, ROLES, 8, False)]
        old = []
        for it in its:
            raws = sorted({t for t in it.spellings if t != it.text and t == t.strip() and all(' ' <= c <= '~' and c not in '/\\' for c in t)} - {o.text for o, _ in old} - {x.text for x in its})
            if raws and rng.random() < .8:
                old.append((Item(rng.choice(raws), it.type, it.paradigm), it))
        if not old:
            return
        about = [(o.text, it.text) for o, it in old]
        log = []
        ctx.about((about, log))
        existing(ctx, rng, d, [o for o, _ in old] + its, model)
        db = IEMLDatabase(d, use_cache=False)
        compare(ctx, db, model, 'as it is stored')
        ctx.equal(sorted(db.list()), sorted(model.desc), 'listing of unnormalized usls')
        if rng.random() < .4:
            # what the maintenance program does: write the values under the canonical text, then remove the others
            desc, struct = db.get_descriptors(), db.get_structure()
            for o, it in old:
                for (_, k), vs in struct.get_values_partial(o.text).items():
                    for v in vs:
                        db.add_structure(it.text, k, v)
                        model.add_s(it.text, k, v)
                for (_, l, dd), vs in desc.get_values_partial(o.text).items():
                    for v in vs:
                        db.add_descriptor(it.text, l, dd, v)
                        model.add(it.text, l, dd, v)
            for o, it in old:
                db.remove_structure(o.text, normalize=False)
                db.remove_descriptor(o.text, normalize=False)
                model.remove(o.text)
                model.remove_s(o.text)
            compare(ctx, db, model, 'once normalized')
            ctx.event('normalized usls', len(old))
        else:
            for _ in range(rng.randint(3, 12)):
                o, it = rng.choice(old)
                args = (None, None, None)
                if o.text in model.desc and rng.random() < .7:
                    l, dd, v = rng.choice(model.desc[o.text])
                    args = rng.choice([(l, dd, v), (l, dd, None), (l, None, None), (None, dd, None), (None, None, v)])
                sargs = (None, None)
                if o.text in model.struct and rng.random() < .7:
                    sargs = rng.choice([rng.choice(model.struct[o.text]), ('is_root', None), ('inhibition', None)])
                raw = rng.random() < .7
                what = rng.random() < .6
                log.append((o.text, raw, what, args, sargs))
                if what:
                    db.remove_descriptor(o.text, *args, normalize=not raw)
                    model.remove(o.text if raw else it.text, *args)
                else:
                    db.remove_structure(o.text, *sargs, normalize=not raw)
                    model.remove_s(o.text if raw else it.text, *sargs)
                ctx.event('removals')
                compare(ctx, db, model, 'after the removals')
        ctx.event('unnormalized usls', len(old))
        ctx.event('listings')
        ctx.equal(sorted(db.list()), sorted(model.desc), 'listing')
        ctx.seen(repr((about, log)))


def large(ctx, rng, i):
    """as many files as a real database has"""
    with scratch(ctx) as d:
        model = Store()
        n = rng.randint(1500, 4000)
        texts = {}
        ms = ['%s%s%s.' % t for t in itertools.product('SBTUA', repeat=3)]
        for _ in range(n):
            t = "%s%s%s-" % tuple(rng.sample(ms, 3))
            texts[t] = None
        ctx.about(n)
        for t in texts:
            p = os.path.join(d, 'morpheme', 'singular', t + '.desc')
            if not model.desc:
                os.makedirs(os.path.dirname(p))
            with open(p, 'w', encoding='utf8', newline='') as fp:
                for k in range(rng.randint(1, 3)):
                    l, dd, v = rng.choice(LANGUAGES), rng.choice(DESCRIPTORS_CLASS), '%s %d' % (t, k)
                    fp.write('"%s" %s %s "%s"\n' % (t, l, dd, v))
                    model.add(t, l, dd, v)
        db = IEMLDatabase(d, use_cache=False)
        ctx.equal(sorted(db.list()), sorted(model.desc), 'listing of a large database')
        ctx.equal(sorted(db.list('morpheme', paradigm=False)), sorted(model.desc), 'listing of a large database')
        got = {}
        for k, (v,) in db.get_descriptors().df.iterrows():
            got.setdefault(k, []).append(v)
        ctx.equal(got, model.partial(), 'descriptors of a large database')
        ctx.event('usls of large databases', n)
        ctx.event('listings')
        ctx.seen(n)


KINDS = {'large': (large, 2, 16), 'unnormalized': (unnormalized, 60, 900), 'history': (history, 240, 4000), 'naming': (naming, 60, 800), 'twins': (twins, 60, 800)}
