"""Scratch databases and their reference model, for the checks of the store, of the transactions and of pull."""
import contextlib
import io
import os
import shutil
import tempfile

import pygit2

import refscript as R
import refusl as U
from ieml.constants import LANGUAGES, DESCRIPTORS_CLASS, STRUCTURE_KEYS, INHIBITABLE_RELATIONS, DEFAULT_COMMITER_SIGNATURE
from ieml.ieml_database import IEMLDatabase
from ieml.ieml_database.git_interface import GitInterface
from ieml.usl.usl import usl

SIG = pygit2.Signature('monitor', 'monitor@example.org', 1500000000, 0)
CHARS = ['a', 'b', 'Z', ' ', '  ', '"', '""', "'", '\\', '\\n', '\\\\', '\n', '\r', '\t', '#', ',', ';', 'é', 'œ', '\u4e2d', '\U0001f600', 'NA', 'nan',
         'null', '1', '0.0', '-', '%s', '%', '$HOME', '`', '*', '?', '/', '..', '{}', '\u2028', '\x0b', '\x85', '\xa0', 'translations', 'fr', '>', '[', ']',
         'e\u0301', '\ufeff', '<', '|', '&', '~', '^', '@', '=']


def value(rng):
    r = rng.random()
    if r < .35:
        return rng.choice(['maison', 'house', 'to be', 'le fait d\'être', 'NA', 'nan', 'None', '1', '007', '1e5', 'True', '-', '"', '""', '\\', 'a "b" c',
                           '#1', 'null', 'N/A', ' spaced ', 'tab\tin', 'one\ntwo', '\\n', 'back\\slash', '"quoted"', 'x" y "z'])
    if r < .353:
        # longer than the fields that csv readers take by default
        return (rng.choice('aé"\\') + rng.choice(CHARS)) * 90000
    if r < .42:
        return ''.join(rng.choice(CHARS) for _ in range(rng.randint(1, 7))) * rng.choice([20, 60, 300, 1500])
    return ''.join(rng.choice(CHARS) for _ in range(rng.randint(1, 7)))


class Item:
    """one usl: canonical text, other spellings, folder and whether it is a paradigm"""

    def __init__(self, text, type, paradigm, spellings=()):
        self.text, self.type, self.paradigm, self.spellings = text, type, paradigm, list(spellings)

    def spell(self, rng):
        return rng.choice(self.spellings) if self.spellings and rng.random() < .4 else self.text

    def __repr__(self):
        return '<%s %s>' % (self.type, self.text)


DECO = ['x', 'a b', 'é', 'q "r"', 'a/b', 'a\\\\b', '../..', '中', 'a"b']


def item(rng, roles, decorated=True):
    r = rng.random()
    if r < .4:
        n = R.gen(rng, rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6]), rng.choice([1, 6, 24]))
        return Item(n.text, 'morpheme', n.card > 1, [R.respell(rng, n, noise=False) for _ in range(2)])
    if r < .6:
        while True:
            pm = U.gen_pm(rng, allow_empty=False, small=True)
            # one constant alone is read as a script
            if len(pm[1]) + len(pm[2]) >= 2 or pm[2]:
                break
        return Item(U.txt_pm(pm), 'polymorpheme', len(U.ss_pm(pm)) != 1, [U.rs_pm(rng, pm)])
    if r < .75:
        lex = U.gen_lex(rng)
        return Item(U.txt_lex(lex), 'lexeme', len(U.ss_pm(lex[1])) * len(U.ss_pm(lex[2])) != 1, [U.rs_lex(rng, lex)])
    w = U.gen_word(rng, roles, max_items=5, max_ss=12)
    t = str(usl(U.txt_word(w, roles.order)))
    it = Item(t, 'word', U.n_ss_word(w) != 1, [U.rs_word(rng, w)])
    if decorated and rng.random() < .35:
        it.spellings = []
        it.text = str(usl(t + ' [> "%s"]' % rng.choice(DECO).replace('"', '\\"')))
    return it


def items(rng, roles, k, decorated=True):
    out = {}
    while len(out) < k:
        i = item(rng, roles, decorated)
        out.setdefault(i.text, i)
    return list(out.values())


class Store:
    """model of the content of a database: values in insertion order"""

    def __init__(self, desc=None, struct=None):
        self.desc = desc or {}          # text -> [(lang, descriptor, value)]
        self.struct = struct or {}      # text -> [(key, value)]

    def copy(self):
        return Store({k: list(v) for k, v in self.desc.items()}, {k: list(v) for k, v in self.struct.items()})

    def add(self, t, l, d, v):
        v = v.strip()
        if v:
            self.desc.setdefault(t, []).append((l, d, v))

    def remove(self, t, l=None, d=None, v=None):
        if t in self.desc:
            if v is not None:
                v = v.strip()
            self.desc[t] = [x for x in self.desc[t] if not ((l is None or x[0] == l) and (d is None or x[1] == d) and (v is None or x[2] == v))]
            if not self.desc[t]:
                del self.desc[t]

    def add_s(self, t, k, v):
        self.struct.setdefault(t, []).append((k, str(v)))

    def remove_s(self, t, k=None, v=None):
        if t in self.struct:
            self.struct[t] = [x for x in self.struct[t] if not ((k is None or x[0] == k) and (v is None or k is None or x[1] == str(v)))]
            if not self.struct[t]:
                del self.struct[t]

    def values(self, t, l, d):
        return [v for ll, dd, v in self.desc.get(t, ()) if (ll, dd) == (l, d)]

    def descriptor(self, t):
        return {d: {l: self.values(t, l, d) for l in LANGUAGES} for d in DESCRIPTORS_CLASS}

    def partial(self):
        res = {}
        for t, vs in self.desc.items():
            for l, d, v in vs:
                res.setdefault((t, l, d), []).append(v)
        return res

    def partial_s(self):
        res = {}
        for t, vs in self.struct.items():
            for k, v in vs:
                res.setdefault((t, k), []).append(v)
        return res


def observed(db):
    """what a reader of the database gets: ({(ieml, language, descriptor): values}, {(ieml, key): values})"""
    desc, struct = {}, {}
    for k, (v,) in db.get_descriptors().df.iterrows():
        desc.setdefault(k, []).append(v)
    for k, (v,) in db.get_structure().df.iterrows():
        struct.setdefault(k, []).append(v)
    return desc, struct


def compare(ctx, db, model, what):
    desc, struct = observed(db)
    want, want_s = model.partial(), model.partial_s()
    for got, exp, name in ((desc, want, 'descriptors'), (struct, want_s, 'structures')):
        ctx.event('assertions')
        if got != exp:
            diff = [(k, got.get(k), exp.get(k)) for k in sorted(set(got) | set(exp)) if got.get(k) != exp.get(k)]
            ctx.fail('{} {}: (key, got, expected) {!r:.900}'.format(name, what, diff[:3]))
    ctx.event('states compared')
    if any(len(v) > 131072 for vs in want.values() for v in vs):
        ctx.event('values of more than 131072 characters')


@contextlib.contextmanager
def scratch(ctx):
    d = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def bare(path):
    """a bare repository whose master branch has one empty commit"""
    repo = pygit2.init_repository(path, bare=True, initial_head='master')
    tree = repo.TreeBuilder().write()
    repo.create_commit('refs/heads/master', SIG, SIG, 'start', tree, [])
    return path


def clone(origin, folder):
    return GitInterface(origin=origin, folder=folder)


def tree_of(folder, commit=None):
    """{path: bytes} of a commit"""
    repo = pygit2.Repository(folder)
    commit = repo.get(commit or repo.head.target)
    out = {}

    def walk(tree, prefix):
        for e in tree:
            if isinstance(e, pygit2.Tree):
                walk(e, prefix + e.name + '/')
            else:
                out[prefix + e.name] = e.data
    walk(commit.tree, '')
    return out


def worktree(folder):
    """{path: bytes} of the files under the folder, without those that git or the caches keep"""
    out = {}
    for base, dirs, files in os.walk(folder):
        if base == folder:
            dirs[:] = [d for d in dirs if not d.startswith('.')]
            files = [f for f in files if not f.startswith('.')]
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as fp:
                out[os.path.relpath(p, folder)] = fp.read()
    return out


def random_edit(rng, model, it, db, structure=True):
    """one edit applied to both the model and the database; returns its description"""
    r = rng.random()
    l, d = rng.choice(LANGUAGES), rng.choice(DESCRIPTORS_CLASS)
    sp = it.spell(rng)
    if r < .55 or (r < .8 and it.text not in model.desc):
        v = value(rng)
        if rng.random() < .2 and it.text in model.desc:
            l, d, v = rng.choice(model.desc[it.text])
        model.add(it.text, l, d, v)
        db.add_descriptor(sp, l, d, v)
        return 'add', sp, l, d, v
    if r < .8:
        l0, d0, v0 = rng.choice(model.desc[it.text])
        args = rng.choice([(l0, d0, v0), (l0, d0, v0), (l0, d0, None), (l0, None, None), (None, d0, None), (None, None, None),
                           (None, d0, v0), (l0, None, v0), (l, d, v0), (l0, d0, v0 + 'x'), (l0, d0, v0[:-1] or None), (None, None, v0)])
        model.remove(it.text, *args)
        db.remove_descriptor(sp, *args)
        return ('remove', sp) + args
    if it.text.count('"') or not structure:
        return 'nothing'
    if r < .92:
        k = rng.choice(['is_root', 'is_ignored', 'inhibition', 'inhibition'])
        v = rng.choice(INHIBITABLE_RELATIONS) if k == 'inhibition' else rng.choice([True, False, 'true', 'False'])
        model.add_s(it.text, k, v if k == 'inhibition' else str(v).lower().capitalize())
        db.add_structure(sp, k, v)
        return 'structure', sp, k, v
    if it.text in model.struct:
        k0, v0 = rng.choice(model.struct[it.text])
        args = rng.choice([(k0, v0), (k0, v0), (k0, None), (None, None)])
    else:
        args = rng.choice([('is_root', 'True'), ('inhibition', rng.choice(INHIBITABLE_RELATIONS)), ('is_ignored', False), (None, None)])
    model.remove_s(it.text, *args)
    db.remove_structure(sp, *args)
    return ('remove structure', sp) + args
