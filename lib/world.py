"""Synthetic databases whose dictionary covers the roles, so that words can be read, with usls that the dictionary can read or not."""
import refscript as R
import refusl as U
import refdict as D
import dsut
from dbkit import value, Item
from usut import roles
from ieml.constants import LANGUAGES, DESCRIPTORS_CLASS
from ieml.usl.usl import usl

_RR = []


def role_roots():
    """one root paradigm per layer of the roles"""
    if not _RR:
        by = {}
        for t in roles().order:
            n = R.parse(t)
            by.setdefault(n.layer, []).append(n)
        _RR.extend(R.add(v) for _, v in sorted(by.items()))
    return _RR


class World:
    def __init__(self, rng, size=12, with_roles=None, n_roots=None):
        rr = role_roots() if (rng.random() < .6 if with_roles is None else with_roles) else []
        used = {x for r in rr for x in r.den}
        while True:
            listed, roots, inh, ignored = D.gen_dict(rng, size=size, n_roots=n_roots)
            if any(r.den & used for r in roots) or all(r.text in ignored for r in roots):
                continue
            if any(n.text in {r.text for r in rr} for n in listed):
                continue
            break
        self.listed, self.roots, self.inh, self.ignored = listed + rr, roots + rr, inh, ignored
        self.roles = bool(rr)
        self.refresh()

    def refresh(self):
        self.ref = D.Dict(self.listed, self.roots, self.inh, self.ignored)
        self.scripts = [n.text for n in self.ref.scripts]
        self.index = {t: i for i, t in enumerate(self.scripts)}
        self.singular = [n.text for n in self.ref.scripts if n.card == 1]

    # -------------------------------------------------------------- usls with the morphemes of the dictionary

    def morphemes(self, rng, k):
        return rng.sample(self.singular, k) if k <= len(self.singular) else None

    def pm(self, rng, groups=2):
        while True:
            ng = rng.choice([0, 0, 1, groups])
            nc = rng.choice([0, 1, 2, 3]) if ng else rng.choice([1, 2, 3])
            sizes = [rng.randint(1, 3) for _ in range(ng)]
            ms = self.morphemes(rng, nc + sum(sizes))
            ms = ms and [m for m in ms if not U.empty_m(m)]
            if not ms or len(ms) < nc + sum(sizes):
                if len(self.singular) < 5:
                    return 'pm', rng.sample(self.singular, 1), []
                continue
            const, i, gs = ms[:nc], nc, []
            for s in sizes:
                gs.append((ms[i:i + s], rng.randint(1, s)))
                i += s
            return 'pm', const, gs

    def lex(self, rng):
        e = ('pm', [], [])
        return 'lex', rng.choice([e, self.pm(rng, 0)]), rng.choice([e, self.pm(rng, 1), self.pm(rng, 1)])

    def word(self, rng):
        return U.gen_word(rng, roles(), max_items=4, lex=lambda: self.lex(rng), max_ss=12)

    def item(self, rng, kind=None):
        kind = kind or rng.choice(['script', 'script', 'pm', 'lex', 'word' if self.roles else 'pm'])
        if kind == 'script':
            n = R.parse(rng.choice(self.scripts))
            return Item(n.text, 'morpheme', n.card > 1)
        if kind == 'pm':
            while True:
                pm = self.pm(rng)
                if len(pm[1]) + len(pm[2]) > 1 or pm[2]:
                    break
            it = Item(U.txt_pm(pm), 'polymorpheme', len(U.ss_pm(pm)) != 1)
            it.model = pm
        elif kind == 'lex':
            m = self.lex(rng)
            it = Item(U.txt_lex(m), 'lexeme', len(U.ss_pm(m[1])) * len(U.ss_pm(m[2])) != 1)
            it.model = m
        else:
            m = self.word(rng)
            it = Item(str(usl(U.txt_word(m, roles().order))), 'word', U.n_ss_word(m) != 1)
            it.model = m
        return it

    # -------------------------------------------------------------- filling a database

    def rows(self, rng):
        return D.structure_rows(rng, self.listed, self.roots, self.inh, self.ignored)

    def fill(self, rng, db, model=None):
        """writes the paradigms and their structure with the operations of the database"""
        def add(t, l, d, v):
            db.add_descriptor(t, l, d, v)
            if model is not None:
                model.add(t, l, d, v)
        listed = list(self.listed)
        rng.shuffle(listed)
        for n in listed:
            add(n.text, rng.choice(LANGUAGES), rng.choice(DESCRIPTORS_CLASS), value(rng).strip() or 'x')
        for t, k, v in self.rows(rng):
            if k == 'inhibition':
                db.add_structure(t, k, v)
            else:
                v = v.lower().capitalize()
                db.add_structure(t, k, v)
            if model is not None:
                model.add_s(t, k, v)
