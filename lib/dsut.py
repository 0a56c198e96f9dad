"""Dictionaries of the code under test and their reference."""
import pandas
import refscript as R
import refdict as D
from ieml.dictionary.dictionary import Dictionary
from ieml.dictionary.script import script
from ieml.ieml_database.ieml_database import Structure


def load(texts, rows):
    return Dictionary(texts, Structure(pandas.DataFrame(rows, columns=['ieml', 'key', 'value'])))


class Case:
    def __init__(self, rng, **kw):
        while True:
            self.listed, self.roots, self.inh, self.ignored = D.gen_dict(rng, **kw)
            if any(r.text not in self.ignored for r in self.roots):
                break
        self.ref = D.Dict(self.listed, self.roots, self.inh, self.ignored)

    def inputs(self, rng):
        texts = [n.text for n in self.listed]
        rng.shuffle(texts)
        return texts, D.structure_rows(rng, self.listed, self.roots, self.inh, self.ignored)

    def load(self, rng, ctx=None):
        texts, rows = self.inputs(rng)
        if ctx is not None:
            ctx.about((texts, rows))
        return load(texts, rows)


def relations(d):
    """{relation: set of pairs} from the matrices"""
    out = {}
    names = [str(s) for s in d.scripts]
    for r, m in d.relations.relations.items():
        c = m.tocoo()
        out[r] = {(names[i], names[j]) for i, j, v in zip(c.row, c.col, c.data) if v}
    return out


def tables(d):
    """{script: (rank, parent script, kind of table, root)}"""
    out = {}
    for s, t in d.tables.tables.items():
        out[str(s)] = (t.rank, None if t.parent is None else str(t.parent.script), t.ndim, str(d.tables.root(s)))
    return out


NDIM = {'cell': 0, '1d': 1, '2d': 2, '3d': 3, 'set': 4}


def ref_tables(ref):
    return {x: (t.rank, None if t.parent is None else t.parent.n.text, NDIM[t.kind], ref.root[x].text) for x, t in ref.t.items()}
