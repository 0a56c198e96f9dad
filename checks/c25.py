"""C25 the cached answers of a database are those of its present content."""
import json
import multiprocessing
import os
import pickle
import random
import subprocess
import time as _time
import refscript as R
import refdict as D
import dsut
from dbkit import *
from world import World
from ieml.ieml_database import IEMLDatabase
from ieml.ieml_database import ieml_database as module

PROPERTY = 'C25'
RULE = ('histories of edits (through the same database, another one, git, or directly in the files with the size and the dates kept) and of cached reads of the dictionary and of the listing, with the '
        'cache in the folder or apart, damaged, removed or left by another content, in processes that read at the same time, with edits made while the files are read; each cached answer is compared with the '
        'answer without cache; non-trivial when an edit between two reads changes the answer')
ASSUMPTIONS = ['nobody edits the files while the compared answers are read (an answer read during an edit is not judged, the next ones are)', 'a cache file is damaged, not forged']
REQUIRED = ['reads compared', 'answers that changed', 'answers from the cache', 'cache damaged', 'cache removed', 'cache left by others', 'edits during a read', 'size and dates kept', 'git edits',
            'readers at the same time', 'separate cache folder', 'folder names']
CASE_LIMIT = 250


def content(d):
    rel = {r: sorted(v) for r, v in dsut.relations(d).items()}
    return [[str(s) for s in d.scripts], sorted((str(k), int(v)) for k, v in d.index.items()), [int(x) for x in d.roots_idx], sorted(str(r) for r in d.tables.roots),
            sorted(dsut.tables(d).items()), rel]


def listing(l):
    return json.dumps(sorted(l, key=lambda e: (e['index'], e['ieml'])), sort_keys=True)


def reader(db, what):
    return content(db.get_dictionary()) if what == 'dictionary' else listing(db.get_list())


class Watch:
    """counts the answers that are computed, and edits while they are"""

    def __init__(self, edit=None, k=0):
        self.edit, self.k, self.n = edit, k, 0

    def __enter__(self):
        self.saved = module.subprocess
        watch = self

        class Sub:
            PIPE = subprocess.PIPE

            @staticmethod
            def Popen(*a, **kw):
                watch.n += 1
                if watch.edit and watch.n == watch.k:
                    e, watch.edit = watch.edit, None
                    with_saved(watch, e)
                return subprocess.Popen(*a, **kw)

            def __getattr__(self, n):
                return getattr(subprocess, n)
        module.subprocess = Sub()
        return self

    def __exit__(self, *a):
        module.subprocess = self.saved


def with_saved(watch, f):
    mine = module.subprocess
    module.subprocess = watch.saved
    try:
        f()
    finally:
        module.subprocess = mine


class H:
    def __init__(self, ctx, rng, d, git=False):
        self.ctx, self.rng, self.d = ctx, rng, d
        name = rng.choice(['db', 'db', 'a b', 'db[1]', 'x*y', 'd\'q "z"', 'été', '[a-c]?', '.hidden'])
        ctx.event('folder names', int(name != 'db'))
        self.folder = os.path.join(d, name)
        if git:
            self.git = clone(bare(os.path.join(d, 'origin.git')), self.folder)
        else:
            self.git = None
            os.makedirs(self.folder)
        self.cache = rng.choice([None, None, os.path.join(d, 'cache'), os.path.join(d, 'c', 'sub')])
        if self.cache:
            ctx.event('separate cache folder')
        self.w = World(rng, size=8, with_roles=rng.random() < .3, n_roots=rng.choice([1, 2]))
        self.plain = IEMLDatabase(self.folder, use_cache=False)
        self.w.fill(rng, self.plain)
        self.items = [self.w.item(rng) for _ in range(4)]
        for it in self.items:
            self.plain.add_descriptor(it.text, 'fr', 'translations', value(rng))
        if git:
            self.commit()
        self.db = self.cached()

    def cached(self):
        return IEMLDatabase(self.folder, cache_folder=self.cache)

    def commit(self):
        import pygit2
        repo = pygit2.Repository(self.folder)
        repo.index.add_all([p for p in worktree(self.folder)])
        repo.index.write()
        repo.create_commit('HEAD', SIG, SIG, 'x', repo.index.write_tree(), [repo.head.target])

    # -------------------------------------------------------------- edits

    def files(self, ext=('.desc', '.ieml')):
        return sorted(p for p in worktree(self.folder) if p.endswith(ext))

    def edit(self):
        rng, ctx = self.rng, self.ctx
        db = rng.choice([self.plain, self.db])
        kind = rng.choice(['paradigm', 'paradigm', 'value', 'value', 'structure', 'structure', 'remove', 'item', 'bytes', 'bytes', 'swap', 'git', 'root'])
        if kind == 'paradigm':
            r = rng.choice(self.w.roots)
            n = D.gen_inside(rng, r)
            if n.card > 1 and n.card <= 360 and R.disjoint(n) and D.fits(n):
                db.add_descriptor(n.text, rng.choice(LANGUAGES), 'translations', 'p')
        elif kind == 'value':
            t = rng.choice(self.items).text if rng.random() < .6 else rng.choice(self.w.listed).text
            if rng.random() < .4:
                db.remove_descriptor(t, rng.choice(LANGUAGES), rng.choice(DESCRIPTORS_CLASS))
            else:
                db.add_descriptor(t, rng.choice(LANGUAGES), rng.choice(DESCRIPTORS_CLASS), value(rng))
        elif kind == 'structure':
            t = rng.choice(self.w.listed).text
            if rng.random() < .5:
                db.add_structure(t, 'inhibition', rng.choice(INHIBITABLE_RELATIONS))
            else:
                db.remove_structure(t, rng.choice(['inhibition', 'is_ignored']))
        elif kind == 'remove':
            roots = {r.text for r in self.w.roots}
            ts = [n.text for n in self.w.listed if n.text not in roots] + [i.text for i in self.items]
            t = rng.choice(ts)
            db.remove_descriptor(t)
        elif kind == 'root':
            # a root is declared or not any more
            t = rng.choice(self.w.roots).text
            if any(v == 'True' for v in self.plain.get_structure().get_values(t, 'is_root')):
                db.remove_structure(t, 'is_root')
            else:
                db.add_structure(t, 'is_root', True)
        elif kind == 'item':
            it = self.w.item(rng)
            self.items.append(it)
            db.add_descriptor(it.text, rng.choice(LANGUAGES), rng.choice(DESCRIPTORS_CLASS), value(rng))
        elif kind == 'bytes':
            # same size, same dates
            p = os.path.join(self.folder, rng.choice(self.files()))
            st = os.stat(p)
            with open(p, 'r', encoding='utf8', newline='') as fp:
                data = fp.read()
            new = data
            if p.endswith('.ieml'):
                for a, b in (('is_root "True"', 'is_root "true"'), ('opposed', 'crossed'), ('crossed', 'opposed')):
                    if a in data:
                        new = data.replace(a, b, 1)
                        break
            else:
                new = data.replace(' fr ', ' en ', 1) if ' fr ' in data else data.replace(' en ', ' fr ', 1)
            if len(new) == len(data):
                with open(p, 'w', encoding='utf8', newline='') as fp:
                    fp.write(new)
                os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
                if new != data:
                    ctx.event('size and dates kept')
        elif kind == 'swap':
            # the structure of a paradigm given to another one, with the same bytes
            fs = self.files('.ieml')
            roots = {r.text for r in self.w.roots}
            fs = [p for p in fs if not any(p.endswith(r + '.ieml') for r in roots)]
            if fs:
                os.remove(os.path.join(self.folder, rng.choice(fs)))
        elif kind == 'git' and self.git:
            ctx.event('git edits')
            if rng.random() < .6:
                self.git.reset()
            else:
                self.commit()
        return kind

    # -------------------------------------------------------------- reads

    def compare(self, what, why=''):
        ctx, rng = self.ctx, self.rng
        db = self.db if rng.random() < .5 else self.cached()
        try:
            want = reader(self.plain, what)
        except ValueError as e:
            want = 'ValueError'
        with Watch() as w:
            try:
                got = reader(db, what)
            except ValueError as e:
                got = 'ValueError'
        if got != want:
            ctx.fail('cached {} differs from the content {}: got {!r:.500} expected {!r:.500}'.format(what, why, *first_diff(got, want)))
        ctx.event('reads compared')
        if w.n == 0:
            ctx.event('answers from the cache')
        last = getattr(self, 'last_' + what, None)
        if last is not None and last != want:
            ctx.event('answers that changed')
            ctx.seen((last, want) if what == 'listing' else (repr(last)[:3000], repr(want)[:3000]))
        setattr(self, 'last_' + what, want)
        if what == 'listing' and want != 'ValueError' and rng.random() < .2:
            # what is done with an answer does not change the next one
            l = db.get_list()
            if l:
                l[0]['type'] = 'nothing'
                del l[1:]

    def cache_files(self):
        f = self.cache or self.folder
        return [os.path.join(f, n) for n in sorted(os.listdir(f)) if '-cache.' in n and os.path.isfile(os.path.join(f, n))] if os.path.isdir(f) else []

    def damage(self):
        ctx, rng = self.ctx, self.rng
        fs = self.cache_files()
        if not fs:
            return 'none'
        p = rng.choice(fs)
        how = rng.choice(['cut', 'empty', 'garbage', 'remove', 'other', 'flip', 'folder'])
        with open(p, 'rb') as fp:
            data = fp.read()
        if how == 'remove':
            os.remove(p)
            ctx.event('cache removed')
        elif how == 'folder' and self.cache:
            shutil.rmtree(self.cache)
            self.db = self.cached()
            ctx.event('cache removed')
        elif how == 'other':
            # a cache that belongs to another content
            with open(p.rsplit('.', 1)[0] + '.' + '0' * 32, 'wb') as fp:
                fp.write(pickle.dumps(['stale']))
            if rng.random() < .5:
                os.remove(p)
            ctx.event('cache left by others')
        else:
            new = {'cut': data[:rng.randint(0, max(0, len(data) - 1))], 'empty': b'', 'garbage': bytes(rng.randrange(256) for _ in range(50)),
                   'flip': b'\x80\x04N' + data[3:], 'folder': b'(((('}[how]
            if how == 'flip':
                new = b'\x00' + data[1:]
            with open(p, 'wb') as fp:
                fp.write(new)
            ctx.event('cache damaged')
        return how


def first_diff(a, b):
    if isinstance(a, str) and isinstance(b, str):
        k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), 0)
        return a[max(0, k - 100):k + 300], b[max(0, k - 100):k + 300]
    if isinstance(a, list) and isinstance(b, list):
        for x, y in zip(a, b):
            if x != y:
                return x, y
    return a, b


def history(ctx, rng, i):
    log = []
    ctx.about(log)
    with scratch(ctx) as d:
        h = H(ctx, rng, d, git=rng.random() < .3)
        log.append(h.folder)
        for step in range(rng.randint(4, 14)):
            r = rng.random()
            if r < .12:
                log.append(('damage', h.damage()))
            elif r < .27:
                # an edit while an answer is read
                w = Watch(lambda: log.append(('during', h.edit())), rng.randint(1, 6))
                try:
                    with w:
                        reader(h.db, rng.choice(['dictionary', 'listing']))
                except (ValueError, OSError, KeyError):
                    pass
                if w.edit is None:
                    ctx.event('edits during a read')
            else:
                for _ in range(rng.choice([0, 1, 1, 2])):
                    log.append(h.edit())
            for what in rng.sample(['dictionary', 'listing'], rng.choice([1, 2])):
                log.append(what)
                h.compare(what, 'after %s' % (log[-2],))


def _child(folder, cache, seed, q, what):
    try:
        out = []
        db = IEMLDatabase(folder, cache_folder=cache)
        for w in what:
            out.append(reader(db, w))
        q.put(('ok', json.dumps(out)))
    except BaseException as e:
        import traceback
        q.put(('error', traceback.format_exc()[-1500:]))


def processes(ctx, rng, i):
    """several processes read with the same cache"""
    mp = multiprocessing.get_context('fork')
    log = []
    ctx.about(log)
    with scratch(ctx) as d:
        h = H(ctx, rng, d)
        for turn in range(rng.randint(2, 4)):
            what = [rng.choice(['dictionary', 'listing']) for _ in range(3)]
            try:
                want = json.dumps([reader(h.plain, w) for w in what])
            except ValueError:
                break
            ps = []
            for k in range(3):
                q = mp.SimpleQueue()
                p = mp.Process(target=_child, args=(h.folder, h.cache, k, q, what), daemon=True)
                p.start()
                ps.append((p, q))
            answers = []
            for p, q in ps:
                for _ in range(1200):
                    if not q.empty() or not p.is_alive():
                        break
                    _time.sleep(.02)
                answers.append(q.get() if not q.empty() else ('error', 'no answer'))
                p.kill()
                p.join()
            for st, got in answers:
                ctx.check(st == 'ok', 'reading at the same time as other processes failed: {}', got)
                ctx.check(got == want, 'a process reads {!r:.300} expected {!r:.300}', *first_diff(got, want))
                ctx.event('readers at the same time')
            log.append(h.edit())


KINDS = {'history': (history, 280, 5000), 'processes': (processes, 24, 400)}
