"""Independent reference of a dictionary: content, tables, ranks and relations, and generators of dictionaries."""
from collections import defaultdict
import refscript as R
from c06 import model as layout, TooBig, gen as gen_table_script

FATHERS = ('father_substance', 'father_attribute', 'father_mode')
SIBLINGS = ('opposed', 'associated', 'crossed', 'twin')


class T:
    """a paradigm or a cell in the tables of its root"""

    def __init__(self, n, parent=None, regular=False, cell=False):
        self.n, self.parent, self.regular, self.cell = n, parent, regular, cell
        cells, scripts, _ = layout(n)
        self.tables = [R.parse(t) for t in scripts]
        shape = (len(cells[0]), len(cells[0][0]), len(cells[0][0][0]))
        if cell or n.card == 1:
            self.kind = 'cell'
        elif len(scripts) == 1:
            self.kind = '2d' if shape[1] > 1 else '1d'
        else:
            self.kind = '3d' if len(cells) == 1 else 'set'
        self.shape = shape
        self.where = {}
        if self.kind in ('1d', '2d', 'cell'):
            for i, row in enumerate(cells[0]):
                for j, col in enumerate(row):
                    self.where[col[0]] = i, j

    @property
    def rank(self):
        if self.cell:
            return 6
        if self.parent is None:
            return 0
        r = max(self.parent.rank, 1)
        if self.parent.kind in ('set', '3d'):
            return r
        return r + (2 if self.regular else 1)

    def accept(self, p):
        """None, 'regular' or 'block'"""
        if not p.den <= self.n.den:
            return None
        if self.kind in ('set', '3d'):
            if self.parent is not None and self.parent.kind in ('set', '3d'):
                return None
            inside = [t.den for t in self.tables if t.den <= p.den]
            return 'block' if inside and frozenset().union(*inside) == p.den else None
        if self.rank > 3:
            return None
        at = {self.where[R.from_prims(x).text] for x in p.den}
        if self.kind == '1d':
            rows = [i for i, _ in at]
            return 'regular' if max(rows) - min(rows) + 1 == len(rows) else None
        if self.rank == 2:
            return None
        rows, cols = {i for i, _ in at}, {j for _, j in at}
        nr, nc = self.shape[0], self.shape[1]
        every = len(cols) if len(rows) == nr else len(rows) if len(cols) == nc else None
        if every == 1:
            return 'regular'
        if every is not None:
            return 'block'
        if len(at) == len(rows) * len(cols) and min(len(rows), len(cols)) >= 2 and periodic(rows, nr) and periodic(cols, nc):
            return 'block'
        return None


def periodic(idx, n):
    """one run of consecutive places (the end and the beginning touch each other), or runs that begin at a regular step"""
    starts = {j for j in range(n) if j not in idx and (j + 1) % n in idx}
    if len(starts) <= 1:
        return True
    step = n // len(starts)
    return all((j + step) % n in starts for j in starts)


class Dict:
    """listed: nodes; roots: nodes; inhibitions {text: set}; ignored: texts of plural paradigms"""

    def __init__(self, listed, roots, inhibitions=None, ignored=()):
        ignored = set(ignored)
        self.inhibitions = inhibitions or {}
        self.roots = [r for r in roots if r.text not in ignored]
        self.root_of_prims = {}
        for r in self.roots:
            for p in r.den:
                if p in self.root_of_prims:
                    raise ValueError('overlap')
                self.root_of_prims[p] = r
        self.t = {}
        self.root = {}
        for r in self.roots:
            top = T(r)
            mine = [top]
            inner = {p.text: p for p in listed if p.card > 1 and p.text not in ignored and p != r and p.den <= r.den}
            for p in sorted(sorted(inner.values(), key=R.key), key=lambda p: -p.card):
                cand = [(R.key(t.n), t, t.accept(p)) for t in mine]
                cand = [c for c in cand if c[2]]
                if cand:
                    _, parent, how = min(cand, key=lambda c: c[0])
                    mine.append(T(p, parent, how == 'regular'))
            for x in r.den:
                mine.append(T(R.from_prims(x), top, cell=True))
            for t in mine:
                self.t[t.n.text] = t
                self.root[t.n.text] = r
        self.scripts = sorted((t.n for t in self.t.values()), key=R.key)
        self.index = {n.text: i for i, n in enumerate(self.scripts)}

    # -------------------------------------------------------------- relations: {relation: set of (subject, object)}
    def relations(self):
        rel = defaultdict(set)
        texts = [n.text for n in self.scripts]
        for n in self.scripts:
            rel['identity'].add((n.text, n.text))
        by_root = defaultdict(list)
        for n in self.scripts:
            by_root[self.root[n.text].text].append(n)
        for root, ns in by_root.items():
            inh = self.inhibitions.get(root, ())
            for a in ns:
                for b in ns:
                    if b.den <= a.den and (a.card > 1 or a == b):
                        rel['contains'].add((a.text, b.text))
                        rel['contained'].add((b.text, a.text))
            above = {n.text: {a.text for a in ns if n.den <= a.den and (a.card > 1 or a == n)} for n in ns}
            for a in ns:
                for b in ns:
                    for c in above[a.text] & above[b.text]:
                        k = self.t[c].rank
                        if k < 6:
                            rel['table_%d' % k].add((a.text, b.text))
            if ns[0].layer > 0:
                ms = [n for n in ns if n.kind == 'mul']
                for a in ms:
                    for b in ms:
                        if a == b or a.card != b.card:
                            continue
                        if 'opposed' not in inh and opposed(a, b):
                            rel['opposed'].add((a.text, b.text))
                        if 'associated' not in inh and a.ch[:2] == b.ch[:2]:
                            rel['associated'].add((a.text, b.text))
                        if 'crossed' not in inh and a.layer >= 2 and opposed(a.ch[0], b.ch[0]) and opposed(a.ch[1], b.ch[1]):
                            rel['crossed'].add((a.text, b.text))
                        if 'twin' not in inh and a.ch[0] == a.ch[1] and b.ch[0] == b.ch[1]:
                            rel['twin'].add((a.text, b.text))
            for a in ns:
                for term in a.ch if a.kind == 'add' else [a]:
                    if term.kind != 'mul':
                        continue
                    for k, name in enumerate(FATHERS):
                        if name in inh:
                            continue
                        for f in self.nearest(term.ch[k]):
                            rel[name].add((a.text, f))
                            rel[name.replace('father', 'child')].add((f, a.text))
        return rel

    def nearest(self, n):
        """the terms of a role that are in the dictionary, or what is nearest below those that are not"""
        out = set()
        for term in n.ch if n.kind == 'add' else [n]:
            if term.empty:
                continue
            if term.text in self.index:
                out.add(term.text)
            elif term.kind == 'mul':
                for c in term.ch:
                    out |= self.nearest(c)
        return out


def opposed(a, b):
    if a.kind != 'mul' or b.kind != 'mul' or a.card != b.card:
        return False
    return a.ch[0] == b.ch[1] and a.ch[1] == b.ch[0]


# ------------------------------------------------------------------ generators

def fits(n):
    try:
        layout(n)
    except TooBig:
        return False
    return True


def gen_root(rng, size=36):
    for _ in range(200):
        r = rng.random()
        if r < .15:
            n = R.sums(rng.choice('OMFI')) if rng.random() < .6 else R.gen(rng, 0, 6, p_sum=1)
        elif r < .35:
            layer = rng.choice([1, 1, 2, 3])
            a, b = R.gen(rng, layer - 1, rng.choice([2, 3, 4]), p_sum=.8), R.gen(rng, layer - 1, rng.choice([2, 3, 4]), p_sum=.8)
            n = R.mul([a, a if rng.random() < .5 else b, R.gen(rng, layer - 1, rng.choice([1, 1, 2, 3]))])
        else:
            n = gen_table_script(rng)
        if 1 < n.card <= size and R.disjoint(n) and n.layer <= 4 and fits(n):
            return n
    return R.sums('M')


def narrow(rng, n, p=.5):
    """a script inside of n: some sums lose terms"""
    if n.kind == 'add':
        ch = list(n.ch)
        if rng.random() < p and len(ch) > 1:
            ch = rng.sample(ch, rng.randint(1, len(ch) - 1))
        return R.add([narrow(rng, c, p) for c in ch])
    if n.kind == 'mul':
        return R.mul([narrow(rng, c, p) for c in n.ch])
    return n


def gen_inside(rng, root):
    r = rng.random()
    if r < .55:
        n = narrow(rng, root, rng.choice([.3, .5, .8]))
    elif r < .7:
        ss = sorted(root.den)
        n = R.add([R.from_prims(x) for x in rng.sample(ss, rng.randint(2, min(6, len(ss))))])
    elif r < .85:
        # rows, columns or tables together, not factorized
        _, scripts, headers = layout(root)
        lines = [h for t in headers for dim in t for h in dim] + scripts
        n = R.add([R.parse(x) for x in rng.sample(lines, rng.randint(1, min(3, len(lines))))])
    else:
        a, b = narrow(rng, root), narrow(rng, root)
        n = R.add([a, b])
    return n


def gen_dict(rng, n_roots=None, size=36, cross=True):
    """(listed nodes, root nodes, inhibitions, ignored texts)"""
    from ieml.constants import INHIBITABLE_RELATIONS
    roots, used = [], set()
    count = n_roots or rng.choice([1, 2, 3, 4])
    if n_roots is None and rng.random() < .1:
        count, size = rng.randint(5, 9), min(size, 12)
    for _ in range(count):
        for _ in range(20):
            r = gen_root(rng, size)
            if roots and rng.random() < .6:
                # a root made of the scripts of others, for the father relations
                low = [x for x in roots if x.layer < 4 and x.card <= 8]
                if low:
                    o = rng.choice(low)
                    parts = [narrow(rng, o, .4) if rng.random() < .7 else R.null(o.layer) for _ in range(3)]
                    r2 = R.mul(parts)
                    if 1 < r2.card <= size and R.disjoint(r2) and fits(r2):
                        r = r2
            if not r.den & used:
                roots.append(r)
                used |= r.den
                break
    listed = {r.text: r for r in roots}
    for r in roots:
        for _ in range(rng.choice([0, 2, 5, 9])):
            n = gen_inside(rng, r)
            if 1 < n.card <= 360 and R.disjoint(n) and fits(n):
                listed[n.text] = n
    # paradigms that are in no root, or across several
    for _ in range(rng.choice([0, 0, 1, 3])):
        n = gen_root(rng, 12)
        if rng.random() < .4 and cross:
            same = [x for x in roots if x.layer == roots[0].layer]
            if len(same) > 1:
                n = R.add([narrow(rng, x) for x in same[:2]])
        if n.card > 1 and R.disjoint(n) and fits(n):
            listed.setdefault(n.text, n)
    inh = {r.text: set(rng.sample(INHIBITABLE_RELATIONS, rng.randint(1, 4))) for r in roots if rng.random() < .35}
    plural = [t for t in listed]
    ignored = set(rng.sample(sorted(plural), 1)) if rng.random() < .3 else set()
    return list(listed.values()), roots, inh, ignored


def structure_rows(rng, listed, roots, inh, ignored):
    rows = [(r.text, 'is_root', rng.choice(['True', 'true', 'True'])) for r in roots]
    rows += [(t, 'inhibition', x) for t, xs in inh.items() for x in sorted(xs)]
    rows += [(t, 'is_ignored', 'True') for t in ignored]
    rows += [(n.text, rng.choice(['is_root', 'is_ignored']), 'False') for n in listed if n.text not in ignored and all(n != r for r in roots) and rng.random() < .1]
    rng.shuffle(rows)
    return rows
