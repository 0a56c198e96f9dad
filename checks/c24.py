"""C24 pulling the work of others loses nothing silently."""
from collections import Counter
import os
import pygit2
import refusl as U
from dbkit import *
from ieml.usl.usl import usl

PROPERTY = 'C24'
RULE = ('two or three clones of a scratch repository edit the same pool of usls with committed transactions, pull and push in any order; after each pull the '
        'content is compared, usl by usl, with the common ancestor, the local and the remote versions; non-trivial when both sides changed the same usl')
ASSUMPTIONS = ['the clones are on the same branch and are only edited by committed transactions',
               'a usl that both sides changed is either merged line by line or replaced by the remote version with the local one given back as a conflict']
REQUIRED = ['pulls: up to date', 'pulls: fast forward', 'pulls: merged without conflict', 'pulls: merged with conflicts', 'pulls: remote out of reach', 'both sides changed a usl',
            'conflicts given back', 'both deleted or modified']
CASE_LIMIT = 200


def INIT(ctx):
    global ROLES
    ROLES = U.Roles()


def snap(folder):
    """{(kind, ieml): tuple of (.., value) lines} read by the library, without order between different keys"""
    db = IEMLDatabase(folder, use_cache=False)
    desc, struct = observed(db)
    out = {}
    for (t, l, d), vs in desc.items():
        out.setdefault(('desc', t), {})[l, d] = vs
    for (t, k), vs in struct.items():
        out.setdefault(('struct', t), {})[k] = vs
    return out


def lines(v):
    return Counter((k, x) for k, vs in (v or {}).items() for x in vs)


def judge(ctx, key, base, local, remote, got, conflicts):
    kind, t = key
    if local == base or local == remote:
        ctx.check(got == remote, '{} was only changed remotely: got {!r} expected {!r}', key, got, remote)
        ctx.check(kind != 'desc' or t not in conflicts, '{} is given as a conflict but only the remote changed it', t)
        return
    if remote == base:
        ctx.check(got == local, '{} was only changed locally: got {!r} expected {!r}', key, got, local)
        ctx.check(kind != 'desc' or t not in conflicts, '{} is given as a conflict but only the local changed it', t)
        return
    ctx.event('both sides changed a usl')
    ctx.both = True
    if local is None or remote is None:
        ctx.event('both deleted or modified')
    if kind == 'desc' and t in conflicts:
        ctx.event('conflicts given back')
        ctx.check(got == remote, 'conflict on {}: the content is {!r}, not the remote version {!r}', t, got, remote)
        want = {d: {l: (local or {}).get((l, d), []) for l in LANGUAGES} for d in DESCRIPTORS_CLASS}
        ctx.equal(conflicts[t], want, 'local version given back for %s' % t)
        return
    if kind == 'struct' and got == remote:
        return                                     # structures in conflict are replaced
    b, l, r, g = lines(base), lines(local), lines(remote), lines(got)
    for x in set(b) | set(l) | set(r) | set(g):
        ok = {r[x]} if l[x] == b[x] else {l[x]} if r[x] == b[x] else {l[x], r[x], l[x] + r[x] - b[x]}
        ctx.check(g[x] in ok, 'merge of {}: {!r} is there {} times; ancestor {}, local {}, remote {}', key, x, g[x], b[x], l[x], r[x])


def edit(ctx, rng, git, its, hot):
    db = IEMLDatabase(git.folder, use_cache=False)
    desc, struct = observed(db)
    model = Store()
    for (t, l, d), vs in desc.items():
        for v in vs:
            model.add(t, l, d, v)
    for (t, k), vs in struct.items():
        for v in vs:
            model.add_s(t, k, v)
    log = []
    with git.commit(SIG, 'edit'):
        for _ in range(rng.choice([1, 1, 2, 4]) if len(its) < 10 else rng.randint(6, 14)):
            it = rng.choice(hot) if rng.random() < .6 else rng.choice(its)
            if rng.random() < .12:
                db.remove_descriptor(it.text)
                model.remove(it.text)
                log.append(('remove', it.text))
            else:
                log.append(random_edit(rng, model, it, db))
    return log


def pull(ctx, rng, git, origin, log):
    local = snap(git.folder)
    head = git.current_commit
    bare_repo = pygit2.Repository(origin)
    target = str(bare_repo.lookup_reference('refs/heads/master').target)
    with scratch(ctx) as d:
        remote = snap(export(origin, target, d + '/r'))
        got_conflicts = git.pull()
        repo = pygit2.Repository(git.folder)
        b = repo.merge_base(head, target)
        base = snap(export(git.folder, str(b), d + '/b'))
    after = snap(git.folder)
    new = git.current_commit
    ctx.equal(git.status(), {}, 'status after a pull')
    ctx.check(not os.path.exists(os.path.join(git.folder, '.git', 'MERGE_HEAD')), 'a merge is left in progress')
    ctx.equal(worktree(git.folder), tree_of(git.folder), 'files and commit after a pull')
    if str(b) == target:
        ctx.event('pulls: up to date')
        ctx.equal(new, head, 'an up to date pull moves the branch')
    elif str(b) == head:
        ctx.event('pulls: fast forward')
        ctx.equal(new, target, 'a fast forward pull')
    else:
        ctx.event('pulls: merged ' + ('with conflicts' if got_conflicts else 'without conflict'))
        parents = {str(p) for p in repo.get(new).parent_ids}
        ctx.equal(parents, {head, target}, 'parents of the merge')
    for key in set(base) | set(local) | set(remote) | set(after):
        judge(ctx, key, base.get(key), local.get(key), remote.get(key), after.get(key), got_conflicts)
    ctx.check(set(got_conflicts) <= {k[1] for k in set(base) | set(local) | set(remote)}, 'conflicts on unknown usls: {}', got_conflicts)
    ctx.check(git.pull() == {} and git.current_commit == new, 'a second pull changes something')


def out_of_reach(ctx, git, origin):
    """a pull when the remote can't be reached"""
    before = worktree(git.folder), git.current_commit, snap(git.folder)
    os.rename(origin, origin + '.away')
    try:
        got = git.pull()
    finally:
        os.rename(origin + '.away', origin)
    ctx.event('pulls: remote out of reach')
    ctx.equal(got, {}, 'conflicts of a pull without remote')
    ctx.equal((worktree(git.folder), git.current_commit, snap(git.folder)), before, 'files, commit and content after a pull without remote')
    ctx.equal(git.status(), {}, 'status after a pull without remote')


def export(repo_path, commit, d):
    os.makedirs(d)
    for p, data in tree_of(repo_path, commit).items():
        os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
        with open(os.path.join(d, p), 'wb') as fp:
            fp.write(data)
    return d


def history(ctx, rng, i):
    # sometimes many usls are changed at once
    many = rng.random() < .25
    its = items(rng, ROLES, rng.randint(12, 16) if many else rng.randint(3, 8))
    hot = its[:9] if many else its[:2]
    log = []
    ctx.about(log)
    ctx.both = False
    with scratch(ctx) as d:
        origin = bare(os.path.join(d, 'origin.git'))
        gits = [clone(origin, os.path.join(d, 'c%d' % k)) for k in range(rng.choice([2, 2, 3]))]
        for _ in range(rng.randint(0, 3)):
            log.append((0, edit(ctx, rng, gits[0], its, hot)))
        gits[0].push()
        for g in gits[1:]:
            g.pull()
        for step in range(rng.randint(3, 9)):
            k = rng.randrange(len(gits))
            g = gits[k]
            r = rng.random()
            if r < .6:
                log.append((k, edit(ctx, rng, g, its, hot)))
            else:
                if rng.random() < .15:
                    log.append((k, 'out of reach'))
                    out_of_reach(ctx, g, origin)
                log.append((k, 'pull'))
                pull(ctx, rng, g, origin, log)
                if r < .9:
                    log.append((k, 'push'))
                    g.push()
        # everybody synchronises
        for k, g in list(enumerate(gits)) * 2:
            log.append((k, 'sync'))
            pull(ctx, rng, g, origin, log)
            g.push()
        states = [snap(g.folder) for g in gits]
        ctx.check(all(s == states[0] for s in states), 'the clones differ after they have synchronised')
    if ctx.both:
        ctx.seen(repr(log))
    ctx.sample('%d steps, %d clones' % (len(log), len(gits)))


KINDS = {'history': (history, 120, 2000)}
