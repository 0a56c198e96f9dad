"""C22 a transaction is committed whole or leaves no trace."""
import os
import pygit2
import refusl as U
from dbkit import *
from world import World
from ieml.dictionary.script import script
from ieml.ieml_database.transactions.DBTransaction import DBTransactions
from ieml.usl.usl import usl
import time as _time

PROPERTY = 'C22'
RULE = ('histories of transactions on a scratch repository, whose edits add, change and remove files of scripts, usls and structures (through the database, or directly, with partly written files); '
        'an exception is raised before, between and after the edits (each point in turn), inside the calls that record the commit (each call in turn, before or after it takes effect), '
        'or the process dies at such a point and the folder is opened again; operations of the database are interrupted at each of their writes. After each one the commits, branches, index and files are compared with those '
        'of before, or with what was edited; non-trivial when files were added, changed and removed')
ASSUMPTIONS = ['one transaction at a time in a folder', 'the process dies between two calls, not inside of the write of a git file', 'the reset itself does not fail',
               'files whose path starts with a dot are not part of the database']
REQUIRED = ['committed', 'interrupted by the caller', 'interrupted while committing', 'process died', 'nothing to commit', 'refused: not clean', 'operations interrupted', 'other branch',
            'files added', 'files changed', 'files removed']
CASE_LIMIT = 200


def INIT(ctx):
    global ROLES
    ROLES = U.Roles()


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


INDEX = ['add', 'remove', 'write', 'write_tree', 'read', 'add_all', 'remove_all']


class Faults:
    """raises (or ends the process) at the k-th call that records a commit"""

    def __init__(self, k, after=False, die=False):
        self.k, self.after, self.die, self.n, self.fired = k, after, die, 0, None

    def wrap(self, name, f):
        def g(*a, **kw):
            self.n += 1
            hit = self.n == self.k
            if hit and not self.after:
                self.fire(name)
            r = f(*a, **kw)
            if hit:
                self.fire(name)
            return r
        return g

    def fire(self, name):
        self.fired = name
        if self.die:
            os._exit(42)
        raise Boom('injected in ' + name)

    def __enter__(self):
        self.saved = []
        for cls, names in ((pygit2.Index, INDEX), (pygit2.Repository, ['create_commit'])):
            for n in names:
                f = getattr(cls, n)
                self.saved.append((cls, n, cls.__dict__.get(n)))
                setattr(cls, n, self.wrap(n, f))
        return self

    def __exit__(self, *a):
        for cls, n, f in self.saved:
            if f is None:
                delattr(cls, n)
            else:
                setattr(cls, n, f)


def state(folder):
    """everything of a repository that a reader sees"""
    repo = pygit2.Repository(folder)
    refs = {b: str(repo.lookup_reference(b).target) for b in repo.references if b.startswith('refs/heads/')}
    index = {e.path: str(e.id) for e in repo.index}
    return {'head': repo.head.name, 'refs': refs, 'index': index, 'files': worktree(folder), 'state': repo.state(),
            'status': {k: v for k, v in repo.status().items() if not k.startswith('.')}}


def untouched(ctx, before, after, what):
    for k in before:
        ctx.event('assertions')
        if before[k] != after[k]:
            b, a = before[k], after[k]
            if isinstance(b, dict):
                ks = [x for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)][:3]
                b, a = {x: b.get(x) for x in ks}, {x: a.get(x) for x in ks}
            ctx.fail('{}: the {} changed from {!r:.400} to {!r:.400}'.format(what, k, b, a))


def committed(ctx, git, before, after, files, message, sig, what):
    """one new commit, on the current branch, whose content is the files"""
    ctx.equal(after['files'], files, what + ': files')
    ctx.equal(after['status'], {}, what + ': status')
    ctx.equal(after['head'], before['head'], what + ': branch')
    others = {k: v for k, v in after['refs'].items() if k != after['head']}
    ctx.equal(others, {k: v for k, v in before['refs'].items() if k != before['head']}, what + ': other branches')
    repo = pygit2.Repository(git.folder)
    c = repo.get(after['refs'][after['head']])
    ctx.equal([str(p) for p in c.parent_ids], [before['refs'][before['head']]], what + ': parents of the commit')
    ctx.equal({k: v for k, v in tree_of(git.folder).items() if not k.startswith('.')}, files, what + ': content of the commit')
    ctx.equal((c.author.name, c.author.email, c.message), (sig.name, sig.email, message), what + ': author and message')
    ctx.equal(git.current_commit, str(c.id), what + ': current_commit')
    old, new = before['files'], files
    ctx.event('files added', len(set(new) - set(old)))
    ctx.event('files removed', len(set(old) - set(new)))
    ctx.event('files changed', sum(old[x] != new[x] for x in set(old) & set(new)))
    ctx.event('committed')


def steps(rng, db, model, its, folder, partial=True):
    """a list of edits, each a function"""
    def step():
        it = rng.choice(its)
        r = rng.random()
        if r < .75:
            return lambda: random_edit(rng, model, it, db)
        if r < .85:
            return lambda: (db.remove_descriptor(it.text), model.remove(it.text))
        if r < .93 and partial:
            def part():
                # a line that is being written
                p = db.path_of(it.text, mkdir=True)
                with open(p, 'a', encoding='utf8') as fp:
                    fp.write('"%s" fr transl' % it.text.replace('"', '""'))
            return part

        def other():
            p = os.path.join(folder, rng.choice(['README', 'notes/a b.txt', 'word/x']))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.exists(p) and rng.random() < .5:
                os.remove(p)
            else:
                with open(p, 'a') as fp:
                    fp.write(rng.choice('abc'))
        return other
    return [step() for _ in range(rng.choice([0, 1, 2, 3, 5]) if rng.random() < .9 else rng.randint(8, 20))]


def start(ctx, rng, d):
    origin = bare(os.path.join(d, 'origin.git'))
    git = clone(origin, os.path.join(d, 'db'))
    its = items(rng, ROLES, rng.randint(2, 5) if rng.random() < .85 else rng.randint(8, 12))
    model = Store()
    db = IEMLDatabase(git.folder, use_cache=False)
    with git.commit(SIG, 'first'):
        for _ in range(rng.randint(1, 6)):
            random_edit(rng, model, rng.choice(its), db)
    if rng.random() < .3:
        repo = pygit2.Repository(git.folder)
        repo.branches.local.create('work', repo.get(repo.head.target))
        git = GitInterface(origin=origin, folder=git.folder, branch='work')
        ctx.event('other branch')
    if rng.random() < .4:
        # files of the caches
        with open(os.path.join(git.folder, '.dictionary-cache.x'), 'w') as fp:
            fp.write('x')
    return git, db, model, its


def history(ctx, rng, i):
    log = []
    ctx.about(log)
    with scratch(ctx) as d:
        git, db, model, its = start(ctx, rng, d)
        for turn in range(rng.randint(2, 4)):
            mode = rng.choice(['ok', 'ok', 'caller', 'caller', 'fault', 'dirty'])
            todo = steps(rng, db, model, its, git.folder, mode == 'caller')
            sig = pygit2.Signature(rng.choice(['me', 'Zoé W']), 'me@x.org', 1500000000 + turn, 0)
            message = rng.choice(['edit', 'été "x"', 'a\nb', '[x] y'])
            before = state(git.folder)
            log.append((mode, len(todo)))
            if mode == 'dirty':
                dirty(ctx, rng, git, db, its, sig)
                continue
            point = rng.randint(0, len(todo)) if mode == 'caller' else None
            exc = rng.choice([Boom('x'), KeyError('k'), KeyboardInterrupt(), Stop(), SystemExit(3), GeneratorExit()]) if mode == 'caller' else None
            faults = Faults(rng.randint(1, 2 * len(todo) + 6) if mode == 'fault' else 10 ** 9, after=rng.random() < .5)
            files, raised = None, None
            try:
                with faults:
                    with git.commit(sig, message):
                        for k, f in enumerate(todo):
                            if k == point:
                                raise exc
                            log.append(f())
                        if point == len(todo):
                            raise exc
                        files = worktree(git.folder)
            except BaseException as e:
                if e is not exc and not isinstance(e, Boom):
                    raise
                raised = e
            after = state(git.folder)
            what = '{} transaction {}'.format(mode, turn)
            if mode == 'caller':
                ctx.check(raised is exc, '{}: the exception of the caller did not reach it, got {!r}', what, raised)
                untouched(ctx, before, after, what)
                ctx.event('interrupted by the caller')
            elif raised is not None:
                ctx.check(faults.fired is not None, '{}: raised {!r}', what, raised)
                untouched(ctx, before, after, what + ' (%s, %s)' % (faults.fired, 'after' if faults.after else 'before'))
                ctx.event('interrupted while committing')
                ctx.event('fault in ' + faults.fired)
            elif files == before['files']:
                untouched(ctx, before, after, what + ' without change')
                ctx.event('nothing to commit')
            else:
                # an exception inside of the commit must be given to the caller
                ctx.check(faults.fired is None, '{}: the error in {} was hidden', what, faults.fired)
                committed(ctx, git, before, after, files, message, sig, what)
            ctx.seen((mode, sorted(before['files']), point, faults.fired, faults.after))
            rebuild(git, model)


def rebuild(git, model):
    """the model of what the folder really has"""
    db = IEMLDatabase(git.folder, use_cache=False)
    desc, struct = observed(db)
    model.desc, model.struct = {}, {}
    for (t, l, d), vs in desc.items():
        for v in vs:
            model.add(t, l, d, v)
    for (t, k), vs in struct.items():
        for v in vs:
            model.add_s(t, k, v)


def dirty(ctx, rng, git, db, its, sig):
    files = worktree(git.folder)
    how = rng.choice(['new', 'change', 'remove'])
    if how == 'new' or not files:
        p = os.path.join(git.folder, 'word', 'left')
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').close()
    else:
        p = os.path.join(git.folder, rng.choice(sorted(files)))
        if how == 'remove':
            os.remove(p)
        else:
            with open(p, 'ab') as fp:
                fp.write(b'x')
    before = state(git.folder)
    entered = False
    try:
        with git.commit(sig, 'x'):
            entered = True
    except ValueError:
        pass
    ctx.check(not entered, 'a transaction starts on a folder that is not clean (%s)' % how)
    untouched(ctx, before, state(git.folder), 'refused transaction')
    ctx.event('refused: not clean')
    git.reset()
    ctx.equal(worktree(git.folder), files, 'files after a reset')
    ctx.equal(git.status(), {}, 'status after a reset')


def each_point(ctx, rng, i):
    """the same transaction interrupted at each of its points"""
    with scratch(ctx) as d:
        git, db, model, its = start(ctx, rng, d)
        before = state(git.folder)
        seed, sig = rng.random(), SIG
        import random

        def body(stop):
            r = random.Random(seed)
            m = model.copy()
            for k, f in enumerate(steps(r, db, m, its, git.folder)):
                if k == stop:
                    raise Boom('point')
                f()
            if stop == 'end':
                raise Boom('end')
        points = list(range(5)) + ['end']
        for p in points:
            n = 0
            try:
                with git.commit(sig, 'x'):
                    body(p)
                    n = 1
                    raise Stop()
            except (Boom, Stop):
                pass
            untouched(ctx, before, state(git.folder), 'transaction interrupted at %s' % p)
            ctx.event('interrupted by the caller')
        for after in (False, True):
            for k in range(1, 40):
                f = Faults(k, after)
                try:
                    with f, git.commit(sig, 'x'):
                        body(None)
                except Boom:
                    ctx.check(f.fired is not None, 'unexpected')
                    untouched(ctx, before, state(git.folder), 'commit interrupted %s call %d (%s)' % ('after' if after else 'before', k, f.fired))
                    ctx.event('interrupted while committing')
                    ctx.event('fault in ' + f.fired)
                    ctx.seen((f.fired, after, sorted(before['files']), k))
                else:
                    ctx.check(f.fired is None, 'the error in {} was hidden', f.fired)
                    git.reset(before['refs'][before['head']])
                    break


def death(ctx, rng, i):
    """the process dies in a transaction, the folder is opened again"""
    with scratch(ctx) as d:
        git, db, model, its = start(ctx, rng, d)
        before = state(git.folder)
        todo = steps(rng, db, model, its, git.folder)
        point = rng.randint(0, len(todo)) if rng.random() < .4 else None
        k, after = rng.randint(1, 2 * len(todo) + 5), rng.random() < .5
        done = os.path.join(d, 'files')
        pid = os.fork()
        if pid == 0:
            try:
                with Faults(k if point is None else 10 ** 9, after, die=True):
                    with git.commit(SIG, 'x'):
                        for j, f in enumerate(todo):
                            if j == point:
                                os._exit(42)
                            f()
                        if point == len(todo):
                            os._exit(42)
                        import pickle
                        with open(done, 'wb') as fp:
                            pickle.dump(worktree(git.folder), fp)
                os._exit(0)
            except BaseException:
                os._exit(1)
        for _ in range(600):
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            _time.sleep(.05)
        else:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            ctx.fail('the transaction does not end')
        code = os.WEXITSTATUS(st)
        ctx.check(code in (0, 42), 'the transaction of the other process failed')
        again = GitInterface(origin=git.origin, folder=git.folder, branch=before['head'].split('/')[-1])
        after_ = state(git.folder)
        if after_['refs'] == before['refs']:
            untouched(ctx, before, after_, 'folder opened again after the death of a transaction')
        else:
            import pickle
            with open(done, 'rb') as fp:
                files = pickle.load(fp)
            committed(ctx, again, before, after_, files, 'x', SIG, 'transaction of another process')
        if code == 42:
            ctx.event('process died')
            ctx.seen((point, k, after, sorted(before['files'])))


WRITES = ['add_descriptor', 'remove_descriptor', 'add_structure', 'remove_structure']


class Writes:
    def __init__(self, k, after):
        self.k, self.after, self.n, self.fired = k, after, 0, None

    def __enter__(self):
        self.saved = {n: IEMLDatabase.__dict__[n] for n in WRITES}
        for n, f in self.saved.items():
            def g(*a, _f=f, _n=n, **kw):
                self.n += 1
                hit = self.n == self.k
                if hit and not self.after:
                    self.fired = _n
                    raise Boom(_n)
                r = _f(*a, **kw)
                if hit:
                    self.fired = _n
                    raise Boom(_n)
                return r
            setattr(IEMLDatabase, n, g)
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(IEMLDatabase, n, f)


def operation(ctx, rng, i):
    """an operation of the database interrupted at one of its writes"""
    with scratch(ctx) as d:
        origin = bare(os.path.join(d, 'origin.git'))
        git = clone(origin, os.path.join(d, 'db'))
        w = World(rng, with_roles=False, n_roots=rng.choice([1, 2]))
        with git.commit(SIG, 'first'):
            w.fill(rng, IEMLDatabase(git.folder, use_cache=False))
        tr = DBTransactions(git, SIG, use_cache=False)
        roots = {r.text for r in w.ref.roots}
        inside = [n.text for n in w.ref.scripts if n.card > 1 and n.text not in roots]
        root = rng.choice(sorted(roots))
        ops = [('descriptors', lambda: tr.set_descriptors(script(root), 'comments', {'fr': ['a', 'b'], 'en': ['c']})),
               ('empty', lambda: tr.set_descriptors(script(root), 'translations', {'fr': [], 'en': []})),
               ('inhibitions', lambda: tr.set_inhibitions(script(root), ['child', 'twin', 'opposed'])),
               ('migrate', lambda: tr.update_all_ieml(lambda x: x, 'same')),
               ('delete root', lambda: tr.delete_morpheme_root_paradigm(script(root)))]
        if inside:
            t = rng.choice(inside)
            ops.append(('delete', lambda: tr.delete_morpheme_paradigm(script(t))))
        name, op = rng.choice(ops)
        before = state(git.folder)
        for after in (False, True):
            for k in range(1, 25):
                wr = Writes(k, after)
                try:
                    with wr:
                        op()
                except Boom:
                    untouched(ctx, before, state(git.folder), 'operation %s interrupted %s write %d (%s)' % (name, 'after' if after else 'before', k, wr.fired))
                    ctx.event('operations interrupted')
                    ctx.seen((name, k, after, root))
                except AssertionError:
                    return      # scripts that are not factorized are refused
                else:
                    ctx.check(wr.fired is None, 'operation {}: the error in {} was hidden', name, wr.fired)
                    git.reset(before['refs'][before['head']])
                    break


KINDS = {'history': (history, 280, 4000), 'each point': (each_point, 80, 1000), 'death': (death, 140, 2000), 'operation': (operation, 96, 1000)}
