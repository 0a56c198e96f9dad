"""C23 each operation on the database does what it says, in one commit, and nothing else."""
from collections import Counter
import os
import pygit2
import refscript as R
import refusl as U
import refdict as D
from c22 import state, untouched
from dbkit import *
from world import World, roles
from ieml.dictionary.script import Script, script, factorize
from ieml.ieml_database.transactions.DBTransaction import DBTransactions
from ieml.usl.usl import USL, usl

PROPERTY = 'C23'
RULE = ('histories of operations (create, add, update and delete root paradigms and paradigms, replace descriptors and inhibitions, migrate all the usls), valid or not, on synthetic databases; after each one the '
        'whole content, the commits and the reported difference are compared with an executable model of the operation; non-trivial when the operation changes something')
ASSUMPTIONS = ['one writer at a time', 'a root paradigm is created with at least one translation and its tables are not listed yet (each table is added by its own commit)',
               'the sums have no overlapping terms (recorded finding of C02)']
REQUIRED = ['done create root', 'done add', 'done update', 'done update root', 'done delete', 'done delete root', 'done descriptors', 'done inhibitions', 'done migrate',
            'refused', 'no change', 'values repeated', 'across two roots', 'differences', 'files in a difference', 'descriptors removed']
CASE_LIMIT = 250


def ref_dict(model):
    listed = [n for n in (R.parse(t) for t in model.desc if is_script(t)) if n.card > 1]
    texts = {n.text: n for n in listed}
    roots, inh, ignored = {}, {}, set()
    for t, vs in model.struct.items():
        for k, v in vs:
            if t not in texts:
                continue
            if k == 'is_root' and v[0] in 'tT':
                roots[t] = texts[t]
            elif k == 'is_ignored' and v[0] in 'tT':
                ignored.add(t)
            elif k == 'inhibition':
                inh.setdefault(t, set()).add(v)
    return D.Dict(listed, list(roots.values()), inh, ignored)


def is_script(t):
    return ' ' not in t and '(' not in t and '[' not in t


def descs(rng, empty=False):
    if rng.random() < .12:
        return {l: ['%s %d' % (value(rng).strip() or 'z', k) for k in range(rng.randint(0 if empty or l != 'fr' else 1, 9))] for l in LANGUAGES}
    return {l: [value(rng).strip() or 'z' for _ in range(rng.choice([0, 1, 2]))] if not (l == 'fr' and not empty) else [value(rng).strip() or 'z' for _ in range(rng.choice([1, 2]))]
            for l in LANGUAGES}


class H:
    def __init__(self, ctx, rng, d):
        self.ctx, self.rng = ctx, rng
        self.origin = bare(os.path.join(d, 'origin.git'))
        self.git = clone(self.origin, os.path.join(d, 'db'))
        self.w = World(rng, with_roles=rng.random() < .3, n_roots=rng.choice([1, 2, 3]))
        self.model = Store()
        db = IEMLDatabase(self.git.folder, use_cache=False)
        self.items = {}
        with self.git.commit(SIG, 'first'):
            self.w.fill(rng, db, self.model)
            for _ in range(rng.randint(0, 5)):
                it = self.w.item(rng)
                self.items[it.text] = it
                v = value(rng).strip() or 'x'
                a = it.text, rng.choice(LANGUAGES), rng.choice(DESCRIPTORS_CLASS)
                for x in rng.choice([[v], [v], [v, v], [v, value(rng).strip() or 'y', v]]):
                    db.add_descriptor(*a, x)
                    self.model.add(*a, x)
                if rng.random() < .3:
                    # described in all the languages and classes
                    for l in LANGUAGES:
                        for c in DESCRIPTORS_CLASS:
                            x = '%s %s %s' % (v, l, c)
                            db.add_descriptor(it.text, l, c, x)
                            self.model.add(it.text, l, c, x)
        cached = rng.random() < .4
        self.sig = pygit2.Signature('Ann', 'ann@x.org', 1500000001, 0)
        self.tr = DBTransactions(self.git, self.sig, use_cache=cached, cache_folder=rng.choice([None, os.path.join(d, 'cache')]) if cached else None)
        self.ref = ref_dict(self.model)

    # each operation returns (name, callable, model after or None when it must be refused, number of commits)

    def plural(self):
        roots = {r.text for r in self.ref.roots}
        return [n for n in self.ref.scripts if n.card > 1 and n.text not in roots]

    def some_script(self):
        rng = self.rng
        r = rng.random()
        if r < .3 and self.ref.roots:
            return rng.choice(self.ref.roots)
        if r < .5 and self.ref.scripts:
            return rng.choice(self.ref.scripts)
        if r < .85 and self.ref.roots:
            n = D.gen_inside(rng, rng.choice(self.ref.roots))
        else:
            n = D.gen_root(rng, 12)
        return n if R.disjoint(n) and n.card <= 360 and D.fits(n) else R.sums('M')

    def fresh(self):
        """a factorized paradigm inside of a root, that is not stored yet"""
        rng = self.rng
        for _ in range(30):
            if not self.ref.roots:
                break
            n = D.gen_inside(rng, rng.choice(self.ref.roots))
            if n.card > 360 or not R.disjoint(n):
                continue
            n = R.parse(str(factorize(script(n.text))))
            if n.card > 1 and R.disjoint(n) and D.fits(n) and n.text not in self.model.desc:
                return n
        return self.some_script()

    def across(self):
        """parts of two root paradigms of the same layer, summed"""
        rng = self.rng
        pairs = [(a, b) for a in self.ref.roots for b in self.ref.roots if a.text < b.text and a.layer == b.layer]
        for _ in range(20):
            if not pairs:
                return None
            a, b = rng.choice(pairs)
            parts = [x if rng.random() < .3 else R.from_prims(rng.choice(sorted(x.den))) if rng.random() < .5 else D.gen_inside(rng, x) for x in (a, b)]
            n = R.add(parts)
            if n.card > 360 or not R.disjoint(n):
                continue
            n = R.parse(str(factorize(script(n.text))))
            if R.disjoint(n) and D.fits(n):
                self.ctx.event('across two roots')
                return n
        return None

    def valid_script(self, n):
        s = script(n.text)
        return factorize(s) == s

    def create_root(self):
        rng = self.rng
        n = D.gen_root(rng, 12) if rng.random() < .8 else self.some_script()
        tr, co = descs(rng), descs(rng, True)
        inh = rng.sample(INHIBITABLE_RELATIONS, rng.choice([0, 1, 3, len(INHIBITABLE_RELATIONS)])) + (['nothing'] if rng.random() < .05 else [])
        call = lambda: self.tr.create_root_paradigm(script(n.text), inh, {l: list(v) for l, v in tr.items()}, {l: list(v) for l, v in co.items()})
        name = 'create root', n.text, inh, tr, co
        ok = self.valid_script(n) and n.card > 1 and n.text not in self.model.desc and not any(p in self.ref.root_of_prims for p in n.den) and 'nothing' not in inh
        if not ok:
            return name, call, None, 0
        m = self.model.copy()
        m.remove_s(n.text, 'is_root')
        m.add_s(n.text, 'is_root', 'True')
        for x in inh:
            m.add_s(n.text, 'inhibition', x)
        for l in LANGUAGES:
            for v in tr[l]:
                m.add(n.text, l, 'translations', v)
            for v in co[l]:
                m.add(n.text, l, 'comments', v)
        # its tables are added as paradigms
        k = 1
        tables = [t for t in map(str, script(n.text).tables_script) if t != n.text]
        for i, t in enumerate(tables):
            tn = R.parse(t)
            if not self.valid_script(tn) or tn.card == 1 or any(x.text == t for x in ref_dict(m).scripts):
                return None
            k += 1
            m.remove(t)
            m.remove_s(t)
            m.add_s(t, 'is_root', 'False')
            for l in LANGUAGES:
                for v in tr[l]:
                    m.add(t, l, 'translations', v + str(i))
                for v in co[l]:
                    m.add(t, l, 'comments', v + str(i))
        return name, call, m, k

    def add(self):
        rng = self.rng
        n = self.fresh() if rng.random() < .6 else rng.random() < .4 and self.across() or self.some_script()
        tr, co = descs(rng), descs(rng, True)
        call = lambda: self.tr.add_morpheme_paradigm(script(n.text), tr, co)
        ok = self.valid_script(n) and n.card > 1 and n.text not in self.ref.index and len({r.text for r in map(self.ref.root_of_prims.get, n.den) if r}) == 1 \
            and all(p in self.ref.root_of_prims for p in n.den)
        name = 'add', n.text, tr, co
        if not ok:
            return name, call, None, 0
        m = self.model.copy()
        m.remove(n.text)
        m.remove_s(n.text)
        m.add_s(n.text, 'is_root', 'False')
        for l in LANGUAGES:
            for v in tr[l]:
                m.add(n.text, l, 'translations', v)
            for v in co[l]:
                m.add(n.text, l, 'comments', v)
        return name, call, m, 1

    def delete_root(self):
        rng = self.rng
        n = rng.choice(self.ref.roots) if self.ref.roots and rng.random() < .6 else self.some_script()
        empty = rng.random() < .6
        call = lambda: self.tr.delete_morpheme_root_paradigm(script(n.text), empty) if not empty or rng.random() < .5 else self.tr.delete_morpheme_root_paradigm(script(n.text))
        name = 'delete root', n.text, empty
        if not self.valid_script(n) or n.text not in {r.text for r in self.ref.roots}:
            return name, call, None, 0
        m = self.model.copy()
        m.remove_s(n.text)
        if empty:
            for a, b in self.ref.relations()['contains']:
                if a == n.text:
                    m.remove(b)
        return name, call, m, 1

    def delete(self):
        rng = self.rng
        inside = self.plural()
        n = rng.choice(inside) if inside and rng.random() < .6 else self.some_script()
        call = lambda: self.tr.delete_morpheme_paradigm(script(n.text))
        name = 'delete', n.text
        if not self.valid_script(n) or n.card == 1 or n.text not in self.ref.index:
            if n.text not in self.ref.index and n.text in self.model.desc:
                return None               # stored but not in the dictionary
            return name, call, None, 0
        m = self.model.copy()
        m.remove_s(n.text)
        m.remove(n.text)
        return name, call, m, 1

    def update(self):
        rng = self.rng
        inside = self.plural()
        old = rng.choice(inside) if inside and rng.random() < .7 else self.some_script()
        new = self.fresh() if rng.random() < .7 else rng.random() < .4 and self.across() or self.some_script()
        return self._update(old, new)

    def update_root(self):
        rng = self.rng
        if not self.ref.roots:
            return None
        old = rng.choice(self.ref.roots)
        new = old
        for _ in range(20):
            r = rng.random()
            if r < .5:
                extra = R.gen(rng, old.layer, 4)
                new = R.add([old, extra]) if not extra.empty else old
            else:
                new = widen(rng, old)
            if R.disjoint(new) and 1 < new.card <= 60 and old.den < new.den and D.fits(new):
                break
        if not (R.disjoint(new) and new.card <= 360 and D.fits(new)):
            return None
        if rng.random() < .7:
            new = R.parse(str(factorize(script(new.text))))
            if not R.disjoint(new) or not D.fits(new):
                return None
        return self._update(old, new)

    def _update(self, old, new):
        root = old.text in {r.text for r in self.ref.roots}
        name = 'update root' if root else 'update', old.text, new.text
        call = lambda: self.tr.update_morpheme_paradigm(script(old.text), script(new.text))
        if not self.valid_script(old) or not self.valid_script(new):
            return name, call, None, 0
        if old == new:
            return name, call, self.model, 0
        if new.text in self.model.struct or new.text in self.model.desc and new.text not in self.ref.index:
            return None                  # stored before without being in the dictionary
        owners = {r.text for r in map(self.ref.root_of_prims.get, new.den) if r}
        ok = old.text in self.ref.index and new.text not in self.ref.index and old.card > 1 and new.card > 1 and len(owners) == 1
        if root:
            ok = ok and owners == {old.text} and old.den <= new.den
        else:
            ok = ok and all(p in self.ref.root_of_prims for p in new.den)
        if not ok:
            return name, call, None, 0
        m = self.model.copy()
        lines = m.struct.get(old.text, [])
        m.remove_s(old.text)
        if root:
            m.add_s(old.text, 'is_root', 'False')
            for k, v in lines:
                m.add_s(new.text, k, v)
        else:
            m.add_s(new.text, 'is_root', 'False')
        vals = m.desc.get(old.text, [])
        m.remove(old.text)
        for l, d, v in vals:
            m.add(new.text, l, d, v)
            if root:
                m.add(old.text, l, d, '(translation migrated to %s) ' % new.text + v)
        return name, call, m, 1

    def pick(self):
        rng = self.rng
        if rng.random() < .6 and self.model.desc:
            return rng.choice(sorted(self.model.desc))
        if rng.random() < .5:
            return self.some_script().text
        it = self.w.item(rng)
        if it.type != 'morpheme' and rng.random() < .2:
            return str(usl(it.text + ' [> "a b"]'))
        return it.text

    def descriptors(self):
        rng = self.rng
        t = self.pick()
        d = rng.choice(DESCRIPTORS_CLASS)
        r = rng.random()
        stored = [(x, dd) for x in sorted(self.model.desc) for dd in sorted({y[1] for y in self.model.desc[x]})]
        if r < .25 and stored:
            t, d = rng.choice(stored)
        alone = [x for x in sorted(self.model.desc) if len({dd for _, dd, _ in self.model.desc[x]}) == 1]
        if alone and .25 < r < .4:
            # the only descriptor of a usl
            t = rng.choice(alone)
            d = self.model.desc[t][0][1]
            r = .3
        old = {l: self.model.values(t, l, d) for l in LANGUAGES}
        if r < .15:
            new = {l: rng.sample(v, len(v)) for l, v in old.items()}
        elif r < .25 and any(old.values()):
            # the same values, not the same number of times
            new = {l: v + rng.sample(v, 1) if v and rng.random() < .7 else list(dict.fromkeys(v)) for l, v in old.items()}
            self.ctx.event('values repeated')
        elif r < .35:
            new = {l: [] for l in LANGUAGES} if rng.random() < .5 else {}
        else:
            new = {l: [x for x in old[l] if rng.random() < .5] + [value(rng) for _ in range(rng.choice([0, 1, 2]))] for l in LANGUAGES}
        if rng.random() < .3:
            new.pop(rng.choice(LANGUAGES), None)
        bad = rng.random() < .08
        if bad:
            new['fr'] = rng.choice([[3], [None]])
        u = script(t) if is_script(t) else usl(t)
        out = []
        call = lambda: out.append(self.tr.set_descriptors(u, d, {k: list(v) for k, v in new.items()}))
        name = 'descriptors', t, d, new
        if bad or is_script(t) and not self.valid_script(R.parse(t)):
            return name, call, None, 0
        want = {l: new.get(l, []) for l in LANGUAGES}
        m = self.model.copy()
        if all(sorted(want[l]) == sorted(old[l]) for l in LANGUAGES):
            self.after = lambda: self.ctx.check(out == [False], 'set_descriptors without change gives {}', out)
            return name, call, m, 0
        m.remove(t, None, d)
        for l in LANGUAGES:
            for v in want[l]:
                m.add(t, l, d, v)
        if t not in m.desc and t in self.model.desc:
            self.ctx.event('descriptors removed')
        self.after = lambda: self.ctx.check(out == [True], 'set_descriptors gives {}', out)
        return name, call, m, 1

    def inhibitions(self):
        rng = self.rng
        n = rng.choice(self.ref.roots) if self.ref.roots and rng.random() < .8 else self.some_script()
        new = rng.sample(INHIBITABLE_RELATIONS, rng.choice([0, 1, 2, 4, len(INHIBITABLE_RELATIONS)]))
        had = [v for k, v in self.model.struct.get(n.text, []) if k == 'inhibition']
        if had and rng.random() < .4:
            # some of the present ones, asked several times
            new = [rng.choice(had) for _ in range(rng.randint(1, len(had) + 1))]
        bad = rng.random() < .08
        if bad:
            new.append('contains')
        call = lambda: self.tr.set_inhibitions(script(n.text), list(new))
        name = 'inhibitions', n.text, new
        if bad or not self.valid_script(n) or n.text not in {r.text for r in self.ref.roots}:
            return name, call, None, 0
        m = self.model.copy()
        old = [v for k, v in m.struct.get(n.text, []) if k == 'inhibition']
        if set(old) == set(new):
            return name, call, m, 0
        for x in old:
            if x not in new:
                m.remove_s(n.text, 'inhibition', x)
        for x in new:
            if x not in old:
                m.add_s(n.text, 'inhibition', x)
        return name, call, m, 1

    def migrate(self):
        ctx, rng = self.ctx, self.rng
        readable = [t for t in self.model.desc if self.readable(t)]
        if not readable:
            return None
        mapping = {}
        for t in readable:
            r = rng.random()
            if r < .2:
                mapping[t] = rng.choice(readable)
            elif r < .3:
                mapping[t] = self.pick()
        if rng.random() < .3 and len(readable) > 1:
            a, b = rng.sample(readable, 2)
            mapping[a], mapping[b] = b, a
        fail = rng.random() < .1
        seen = []

        def f(u):
            ctx.check(isinstance(u, (USL, Script)), 'the migration is given {!r}', u)
            seen.append(str(u))
            if fail and len(seen) == min(3, len(readable)):
                raise ValueError('no')
            t = mapping.get(str(u), str(u))
            return script(t) if is_script(t) else usl(t)
        call = lambda: self.tr.update_all_ieml(f, 'test')
        name = 'migrate', mapping, fail
        if fail:
            return name, call, None, 0
        m = self.model.copy()
        for t in readable:
            m.remove(t)
        for t in readable:
            for x in self.model.desc[t]:
                m.add(mapping.get(t, t), *x)
        self.after = lambda: self.ctx.equal(sorted(seen), sorted(readable), 'usls given to the migration')
        # the values of several usls that become the same one come in any order
        self.unordered = {t for t, k in Counter(mapping.get(t, t) for t in readable).items() if k > 1} | {t for t in mapping.values() if t not in readable}
        return name, call, m, 1

    def readable(self, t):
        if is_script(t):
            return t in self.ref.index
        import re
        body = t.split(' [>')[0]
        return all(x in self.ref.index for x in re.split(r'[\s()\[\]>!]+|m\d\(', body) if x)

    def run(self, ops):
        ctx, rng = self.ctx, self.rng
        self.after, self.unordered = None, set()
        got = getattr(self, rng.choice(ops))()
        if got is None:
            ctx.event('not tried')
            return
        name, call, model, n = got
        ctx.log.append(name)
        before = state(self.git.folder)
        try:
            call()
        except Exception as e:
            if model is not None:
                raise
            ctx.event('refused')
            ctx.event('refused ' + name[0])
            untouched(ctx, before, state(self.git.folder), 'refused %s' % name[0])
            return
        if model is None:
            ctx.check(False, 'the invalid request {!r} was accepted', name)
        after = state(self.git.folder)
        db = IEMLDatabase(self.git.folder, use_cache=False)
        self.compare(db, model, name)
        repo = pygit2.Repository(self.git.folder)
        chain, c = [], after['refs'][after['head']]
        while c != before['refs'][before['head']] and len(chain) < 30:
            chain.append(c)
            commit = repo.get(c)
            ctx.equal((commit.author.name, commit.author.email), ('Ann', 'ann@x.org'), 'author of the commit of %s' % name[0])
            c = str(commit.parent_ids[0])
        changed = before['files'] != after['files']
        if not changed:
            ctx.check(not chain, '{} changes nothing and makes a commit', name)
            ctx.event('no change')
        else:
            ctx.equal(len(chain), n, 'commits made by %s' % (name,))
            ctx.event('done ' + name[0])
            ctx.seen(name)
        ctx.equal(after['status'], {}, 'status after %s' % name[0])
        if self.after:
            self.after()
        self.diff(before, after)
        self.model = model
        self.ref = ref_dict(model)

    def compare(self, db, model, name):
        desc, struct = observed(db)
        want, want_s = model.partial(), model.partial_s()
        if self.unordered:
            desc, want = [{k: sorted(v) if k[0] in self.unordered else v for k, v in x.items()} for x in (desc, want)]
        struct, want_s = [{k: sorted(v) for k, v in x.items()} for x in (struct, want_s)]
        for got, exp, what in ((desc, want, 'descriptors'), (struct, want_s, 'structures')):
            self.ctx.event('assertions')
            if got != exp:
                diff = [(k, got.get(k), exp.get(k)) for k in sorted(set(got) | set(exp)) if got.get(k) != exp.get(k)]
                self.ctx.fail('{} after {!r:.400}: (key, got, expected) {!r:.700}'.format(what, name, diff[:3]))
        if self.unordered:
            # the order of the values that were merged is what was observed
            model.desc = {}
            for k, (v,) in db.get_descriptors().df.iterrows():
                model.add(k[0], k[1], k[2], v)

    def diff(self, before, after):
        ctx = self.ctx
        for a, b in ((before, after), (after, before)):
            got = self.git.diff(a['refs'][a['head']], b['refs'][b['head']])
            fa, fb = a['files'], b['files']
            ctx.equal(sorted(got), sorted(p for p in set(fa) | set(fb) if fa.get(p) != fb.get(p)), 'files of the difference')
            for p, e in got.items():
                x, y = [f.get(p, b'').decode('utf8').split('\n')[:-1] for f in (fa, fb)]
                added, deleted = [[l.rstrip('\n') for l in e[k]] for k in ('added', 'deleted')]
                c = Counter(x)
                c.subtract(Counter(deleted))
                c.update(Counter(added))
                ctx.equal({k: v for k, v in c.items() if v}, dict(Counter(y)), 'lines of the difference for %s' % p)
                ctx.check(not (set(deleted) - set(x)) and not (set(added) - set(y)), 'lines of the difference for {} that are in no version: {}', p, e)
                ctx.equal((e['is_new'], e['is_removed']), (p not in fa, p not in fb), 'is_new, is_removed for %s' % p)
                texts = [t for t in list(self.model.desc) + list(self.model.struct) if self.path(t) == p]
                if texts:
                    ctx.equal(e['ieml'], texts[0], 'ieml of the difference for %s' % p)
                ctx.event('files in a difference')
            ctx.event('differences')

    def path(self, t):
        key = getattr(self, '_paths', None)
        if key is None:
            key = self._paths = {}
        return key.get(t) or key.setdefault(t, self._path(t))

    def _path(self, t):
        return os.path.relpath(IEMLDatabase(self.git.folder, use_cache=False).path_of(t), self.git.folder)


def widen(rng, n):
    """a script that contains n, or close to it"""
    if n.kind == 'prim':
        return R.add([n, R.prim(rng.choice('UASBT'))])
    if n.kind == 'add':
        ch = list(n.ch)
        k = rng.randrange(len(ch))
        return R.add(ch[:k] + [widen(rng, ch[k])] + ch[k + 1:])
    if n.kind == 'mul':
        ch = list(n.ch)
        k = rng.choice([i for i in range(3) if not ch[i].empty] or [0])
        ch[k] = widen(rng, ch[k])
        return R.mul(ch)
    return n


OPS = ['create_root', 'add', 'add', 'delete_root', 'delete', 'update', 'update', 'update_root', 'descriptors', 'descriptors', 'inhibitions', 'migrate']


def history(ctx, rng, i):
    ctx.log = []
    ctx.about(ctx.log)
    with scratch(ctx) as d:
        h = H(ctx, rng, d)
        ctx.log.append((sorted(h.model.desc), h.model.struct))
        for _ in range(rng.randint(4, 10)):
            h.run(OPS)


KINDS = {'history': (history, 240, 4000)}
