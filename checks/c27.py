"""C27 every recorded version of a database can be opened, visited and compared exactly."""
import re
import os
from collections import Counter
from contextlib import contextmanager
import pygit2
import refusl as U
from dbkit import *
from ieml.ieml_database.git_interface import get_local_cache_dir

PROPERTY = 'C27'
RULE = ('histories of commits on several branches of a scratch repository and of its clones; between them the folder is put on a branch or on a commit (checkout, reset, opened again, cloned again), with or without '
        'uncommitted edits (files added, changed, removed, staged); after each the files, what a reader of the database gets, the branches and the version are compared with what was recorded when that version was made; '
        'any two versions are compared with diff; branches are pushed, with and without force; non-trivial when the version differs from the one that was there')
ASSUMPTIONS = ['one user of a folder at a time', 'files whose path starts with a dot are not part of the database', 'the remotes are local folders']
REQUIRED = ['committed', 'checkout of a branch', 'checkout of a commit', 'reset to a commit', 'reset', 'opened again', 'cloned', 'cloned to the folder by default', 'branch of the origin opened', 'uncommitted edits dropped', 'other files committed', 'branches named like files of the database', 'unknown refused',
            'differences', 'pushed', 'push refused', 'push forced', 'remotes added']
CASE_LIMIT = 200


def INIT(ctx):
    global ROLES
    ROLES = U.Roles()


def refs(folder, prefix='refs/heads/'):
    repo = pygit2.Repository(folder)
    return {b[len(prefix):]: str(repo.lookup_reference(b).target) for b in repo.references if b.startswith(prefix)}


@contextmanager
def default_cache(folder):
    before = os.environ.get('XDG_CACHE_HOME')
    os.environ['XDG_CACHE_HOME'] = folder
    try:
        yield
    finally:
        if before is None:
            del os.environ['XDG_CACHE_HOME']
        else:
            os.environ['XDG_CACHE_HOME'] = before


class H:
    def __init__(self, ctx, rng, d):
        self.ctx, self.rng, self.d = ctx, rng, d
        self.its = items(rng, ROLES, rng.randint(3, 6))
        self.origin = bare(os.path.join(d, 'origin.git'))
        self.known = {}     # commit -> (files, model)
        first = clone(self.origin, os.path.join(d, 'first'))
        self.model, self.folder, self.git = Store(), first.folder, first
        self.known[first.current_commit] = ({}, Store())
        names = ['master'] + rng.sample(['work', 'dev/x', 'été', 'v1.0', 'origin', 'new.desc', 'old.ieml'], rng.randint(1, 3))
        if any(b.endswith(('.desc', '.ieml')) for b in names):
            ctx.event('branches named like files of the database')
        for b in names:
            if b != 'master':
                repo = pygit2.Repository(first.folder)
                start = rng.choice(sorted(self.known))
                repo.branches.local.create(b, repo.get(start))
                first.checkout(b)
                self.model = self.known[start][1].copy()
                self.check_at(b, start, 'checkout of a new branch')
            for _ in range(rng.randint(1, 3)):
                self.commit()
            first.push()
        self.first = first
        self.names = names
        for b, c in refs(self.origin).items():
            ctx.check(c in self.known, 'the branch {} of the origin is on {} after the pushes', b, c)
        ctx.equal(sorted(refs(self.origin)), sorted(names), 'branches of the origin after the pushes')
        self.folder = os.path.join(d, 'db')
        self.open()

    # --------------------------------------------------------------

    def db(self):
        return IEMLDatabase(self.folder, use_cache=False)

    def commit(self):
        m = self.model.copy()
        with self.git.commit(SIG, 'edit'):
            for _ in range(self.rng.randint(1, 4)):
                random_edit(self.rng, m, self.rng.choice(self.its), self.db())
            if self.rng.random() < .2:
                p = os.path.join(self.folder, self.rng.choice(['README', 'notes/a b']))
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'a') as fp:
                    fp.write(self.rng.choice(['x\n', 'y\n', '\n', 'say "z\n', '# a\n\n', 'end']))
                self.ctx.event('other files committed')
            files = worktree(self.folder)
        self.model = m
        self.known.setdefault(self.git.current_commit, (files, m.copy()))
        self.ctx.event('committed')

    def dirty(self):
        """uncommitted edits; returns whether there are some"""
        rng = self.rng
        if rng.random() < .4:
            return False
        m = self.model.copy()
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            files = sorted(worktree(self.folder))
            if r < .5:
                random_edit(rng, m, rng.choice(self.its), self.db())
            elif r < .7 and files:
                os.remove(os.path.join(self.folder, rng.choice(files)))
            elif r < .8 and files:
                with open(os.path.join(self.folder, rng.choice(files)), 'ab') as fp:
                    fp.write(b'"x" fr transl')
            else:
                p = os.path.join(self.folder, rng.choice(['README', 'left', 'word/singular/z/left', 'x/y/z']))
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'a') as fp:
                    fp.write('left')
                if rng.random() < .5:
                    repo = pygit2.Repository(self.folder)
                    repo.index.add(os.path.relpath(p, self.folder))
                    repo.index.write()
        if rng.random() < .3:
            repo = pygit2.Repository(self.folder)
            repo.index.add_all([x for x in worktree(self.folder)])
            repo.index.write()
        return bool(self.git.status())

    def check_at(self, branch, commit, what):
        ctx, git = self.ctx, self.git
        commit = str(commit)
        files, model = self.known[commit]
        repo = pygit2.Repository(self.folder)
        ctx.check(not repo.head_is_detached, '{}: the folder is not on a branch', what)
        ctx.equal(repo.head.name, 'refs/heads/' + branch, what + ': branch')
        ctx.equal(git.get_version(), (branch, commit), what + ': version')
        ctx.equal(git.current_commit, commit, what + ': current commit')
        ctx.equal(worktree(self.folder), files, what + ': files')
        ctx.equal(git.status(), {}, what + ': status')
        ctx.equal({e.path for e in repo.index}, set(files), what + ': index')
        compare(ctx, self.db(), model, what)
        self.model = model.copy()
        ctx.event('versions compared')
        ctx.seen((what, commit))

    def others(self, before, branch, what):
        """the other branches stay where they were"""
        now = refs(self.folder)
        now.pop(branch, None)
        before = dict(before)
        before.pop(branch, None)
        self.ctx.equal(now, before, what + ': other branches')

    # --------------------------------------------------------------

    def open(self):
        """a new clone, on a branch of the origin"""
        ctx, rng = self.ctx, self.rng
        self.folder = os.path.join(self.d, 'db%d' % rng.randrange(10 ** 9))
        b = rng.choice(self.names)
        commit = None
        at = refs(self.origin)[b]
        if rng.random() < .3:
            commit = rng.choice(self.ancestors(self.origin, at))
        if rng.random() < .2:
            # the folder that the origin has by default
            with default_cache(self.folder):
                self.git = GitInterface(origin=self.origin, branch=b, commit_id=commit)
                ctx.equal(self.git.folder, get_local_cache_dir(self.origin), 'folder by default')
            ctx.check(self.git.folder.startswith(self.folder), 'the folder {} is not in the cache folder of the user', self.git.folder)
            self.folder = self.git.folder
            ctx.event('cloned to the folder by default')
        else:
            self.git = GitInterface(origin=self.origin, folder=self.folder, branch=b, commit_id=commit)
            ctx.equal(self.git.folder, self.folder, 'folder')
        ctx.event('cloned')
        if b != 'master':
            ctx.event('branch of the origin opened')
        self.check_at(b, commit or at, 'clone on the branch %s%s' % (b, ' and a commit' if commit else ''))

    def ancestors(self, folder, at):
        repo = pygit2.Repository(folder)
        return [str(c.id) for c in repo.walk(at)]

    def local(self):
        return refs(self.folder)

    def op_commit(self):
        self.commit()

    def op_branch(self):
        repo = pygit2.Repository(self.folder)
        name = 'b%d' % self.rng.randrange(10 ** 6)
        repo.branches.local.create(name, repo.get(self.rng.choice(self.ancestors(self.folder, repo.head.target))))

    def visit(self, how):
        ctx, rng = self.ctx, self.rng
        before, (cur, at) = self.local(), self.git.get_version()
        dropped = self.dirty()
        remote = [b for b in self.names if b not in before]
        branch = rng.choice(sorted(before))
        if how in ('checkout', 'reopen') and remote and rng.random() < .5:
            branch = rng.choice(remote)
        tip = before[branch] if branch in before else refs(self.folder, 'refs/remotes/origin/')[branch]
        commit = rng.choice(self.ancestors(self.folder, rng.choice(sorted(before.values()))))
        given = commit if rng.random() < .5 else pygit2.Oid(hex=commit)
        what = '{} ({}, {!r:.9})'.format(how, branch, commit)
        if how == 'checkout':
            self.git.checkout(branch)
            ctx.event('checkout of a branch')
            commit = tip
        elif how == 'checkout commit':
            if rng.random() < .5:
                self.git.checkout(branch, given)
            else:
                branch = cur
                self.git.checkout(commit_id=given)
            ctx.event('checkout of a commit')
        elif how == 'reset commit':
            branch = cur
            self.git.reset(given)
            ctx.event('reset to a commit')
        elif how == 'reset':
            branch, commit = cur, at
            rng.choice([self.git.reset, self.git.checkout])()
            ctx.event('reset')
        else:
            if rng.random() < .5:
                commit, given = tip, None
            self.git = GitInterface(origin=self.origin, folder=self.folder, branch=branch, commit_id=given)
            ctx.event('opened again')
        if branch not in before:
            ctx.event('branch of the origin opened')
        self.check_at(branch, commit, what)
        self.others(before, branch, what)
        if dropped:
            ctx.event('uncommitted edits dropped')

    def op_unknown(self):
        ctx, rng = self.ctx, self.rng
        before, v = self.local(), self.git.get_version()
        bad = rng.choice([('nothere', None), (None, '1' * 40), ('nothere', '1' * 40), ('refs/heads/master', None)])
        try:
            if bad[0] is None and rng.random() < .5:
                self.git.reset(bad[1])
            else:
                self.git.checkout(*bad)
            ctx.fail('the unknown version {} is accepted'.format(bad))
        except (KeyError, ValueError, pygit2.GitError):
            pass
        ctx.equal(self.local(), before, 'branches after the unknown version %s' % (bad,))
        ctx.equal(self.git.get_version(), v, 'version after the unknown version %s' % (bad,))
        self.check_at(*v, 'unknown version refused')
        ctx.event('unknown refused')

    def op_diff(self):
        ctx, rng = self.ctx, self.rng
        here = [c for b in self.local().values() for c in self.ancestors(self.folder, b)]
        a, b = rng.choice(here), rng.choice(here)
        names = {c: n for n, c in self.local().items()}
        got = self.git.diff(*[names[c] if c in names and rng.random() < .3 else rng.choice([str, lambda x: pygit2.Oid(hex=x)])(c) for c in (a, b)])
        fa, fb = self.known[a][0], self.known[b][0]
        ctx.equal(sorted(got), sorted(p for p in set(fa) | set(fb) if fa.get(p) != fb.get(p)), 'files of the difference')
        paths = {}
        for t in list(self.known[a][1].desc) + list(self.known[b][1].desc):
            paths[os.path.relpath(self.db().path_of(t), self.folder)] = t
        for t in list(self.known[a][1].struct) + list(self.known[b][1].struct):
            paths[os.path.relpath(self.db().path_of(t, descriptor=False), self.folder)] = t
        for p, e in got.items():
            x, y = [[l for l in re.split('(?<=\n)', f.get(p, b'').decode('utf8')) if l] for f in (fa, fb)]
            x, y = [[l.rstrip('\n') for l in f] for f in (x, y)]
            added, deleted = [[l.rstrip('\n') for l in e[k]] for k in ('added', 'deleted')]
            c = Counter(x)
            c.subtract(Counter(deleted))
            c.update(Counter(added))
            ctx.equal({k: v for k, v in c.items() if v}, dict(Counter(y)), 'lines of the difference for %s' % p)
            ctx.check(not (set(deleted) - set(x)) and not (set(added) - set(y)), 'lines of the difference for {} that are in no version: {}', p, e)
            ctx.equal((e['is_new'], e['is_removed']), (p not in fa, p not in fb), 'is_new, is_removed for %s' % p)
            if p in paths:
                ctx.equal(e['ieml'], paths[p], 'ieml of the difference for %s' % p)
            ctx.event('files in a difference')
        ctx.event('differences')

    def op_push(self):
        ctx, rng = self.ctx, self.rng
        branch, at = self.git.get_version()
        remote, before = refs(self.origin), self.local()
        force = rng.random() < .4
        theirs = remote.get(branch)
        ff = theirs is None or theirs in self.ancestors(self.folder, at)
        try:
            self.git.push(force=force)
            ok = True
        except pygit2.GitError:
            ok = False
        ctx.equal(ok, ff or force, 'push of %s (forward %s, force %s) accepted' % (branch, ff, force))
        if ok:
            remote[branch] = at
        ctx.equal(refs(self.origin), remote, 'branches of the origin after a push')
        ctx.equal(tree_of(self.origin, refs(self.origin)[branch]), self.known[remote[branch]][0], 'files of the origin after a push')
        ctx.equal(self.local(), before, 'local branches after a push')
        self.check_at(branch, at, 'after a push')
        ctx.event('pushed' if ok else 'push refused')
        if ok and not ff:
            ctx.event('push forced')
        self.names = sorted(refs(self.origin))

    def op_remote(self):
        ctx, rng = self.ctx, self.rng
        url = bare(os.path.join(self.d, 'r%d.git' % rng.randrange(10 ** 9)))
        name = rng.choice(['up', 'up', 'origin', 'down'])
        before = {r.name: r.url for r in pygit2.Repository(self.folder).remotes}
        again = name in before and rng.random() < .5
        if again:
            url = before[name]
        try:
            self.git.add_remote(name, url)
            ok = True
        except ValueError:
            ok = False
        ctx.equal(ok, name not in before or before[name] == url, 'remote %s accepted' % name)
        if ok:
            before[name] = url
        ctx.equal({r.name: r.url for r in pygit2.Repository(self.folder).remotes}, before, 'remotes')
        ctx.event('remotes added')
        if ok and name != 'origin' and url.startswith(self.d):
            branch, at = self.git.get_version()
            theirs, mine = refs(url), refs(self.origin)
            self.git.push(remote=name, force=True)
            ctx.equal(refs(url), {**theirs, branch: at}, 'branches of the remote after a push')
            ctx.equal(refs(self.origin), mine, 'branches of the origin after a push to another remote')


def history(ctx, rng, i):
    log = []
    ctx.about(log)
    with scratch(ctx) as d:
        h = H(ctx, rng, d)
        for _ in range(rng.randint(6, 14)):
            op = rng.choice(['checkout', 'checkout', 'checkout commit', 'reset commit', 'reset', 'reopen', 'reopen', 'commit', 'commit', 'branch', 'unknown', 'diff', 'diff', 'push', 'push', 'remote', 'open'])
            log.append(op)
            if op == 'open':
                h.open()
            elif op == 'remote':
                for _ in range(rng.randint(1, 3)):
                    h.op_remote()
            elif hasattr(h, 'op_' + op):
                getattr(h, 'op_' + op)()
            else:
                h.visit(op)


def folders(ctx, rng, i):
    """the default folders of different origins are different"""
    seen = {}
    for _ in range(40):
        o = rng.choice(['https://github.com/IEMLdev/', 'git@x.org:', '/tmp/', 'file:///']) + ''.join(rng.choice('abAB-_./é') for _ in range(rng.randint(1, 6)))
        p = get_local_cache_dir(o)
        ctx.equal(get_local_cache_dir(o), p, 'folder of %s asked again' % o)
        ctx.check(seen.setdefault(p, o) == o, 'the origins {} and {} share the folder {}', o, seen[p], p)
        ctx.check(os.path.abspath(p) == os.path.normpath(p), 'the folder {} of {} is not absolute', p, o)
        ctx.event('folders')
    ctx.seen(tuple(seen.values()))


KINDS = {'history': (history, 160, 2500), 'folders': (folders, 4, 40)}
