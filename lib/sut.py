"""Access to the code under test used by several checks (public names only)."""
from ieml.dictionary.script import Script, AdditiveScript, MultiplicativeScript, NullScript, factorize, script, m
from ieml.dictionary.script.operator import add as script_add
from ieml.exceptions import CannotParse, TooManySingularSequences, InvalidScript

import refscript as R


def build(rng, n, ctx=None):
    """the same script as the model n, with the constructors instead of the parser"""
    if n.kind == 'null':
        if n.layer and rng.random() < .3:
            return MultiplicativeScript(children=[build(rng, R.null(n.layer - 1)) for _ in range(rng.randint(1, 3))])
        return NullScript(layer=n.layer)
    if n.kind == 'prim':
        return MultiplicativeScript(character=n.text[0])
    if n.kind == 'add':
        if n.layer == 0 and len(n.text) == 2 and rng.random() < .5:
            return AdditiveScript(character=n.text[0])
        ch = [build(rng, c) for c in n.ch]
        rng.shuffle(ch)
        r = rng.random()
        if r < .3:
            res = ch[0]
            for c in ch[1:]:
                res = res + c
            return res
        if r < .5:
            return script_add(ch)
        if r < .7 and len(ch) > 2:
            return AdditiveScript(children=[AdditiveScript(children=ch[:2]), *ch[1:]])
        return AdditiveScript(children=ch)
    if n.layer == 1 and n.text[:-1] in R.REM and rng.random() < .4:
        return MultiplicativeScript(character=n.text[:-1])
    keep = 3
    while keep > 1 and n.ch[keep - 1].empty:
        keep -= 1
    keep = rng.randint(keep, 3)
    ch = [build(rng, c) for c in n.ch[:keep]]
    r = rng.random()
    if r < .35:
        return m(*ch)
    if r < .7:
        return MultiplicativeScript(*ch)
    return MultiplicativeScript(children=ch)


def texts(scripts):
    return [str(s) for s in scripts]


CLASS = {'AUX': 0, 'VERB': 1, 'NOUN': 2}


def script_class(n):
    """reference grammatical class of a script: 0 auxiliary, 1 verb, 2 noun"""
    if n.kind == 'null':
        return 0
    if n.kind == 'prim':
        return 1 if n.text[0] in 'UA' else 2
    if n.kind == 'add':
        return max(script_class(c) for c in n.ch)
    return script_class(n.ch[0])


LAYERS = [0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6]


def variants(rng, n):
    """scripts close to n: one primitive, one role or one addend changed"""
    out = []
    for _ in range(4):
        out.append(_mutate(rng, n))
    return [o for o in out if o.card <= 360]


def _mutate(rng, n):
    if n.kind == 'prim':
        return R.prim(rng.choice(R.PRIM))
    if n.kind == 'null':
        return R.promote(R.prim(rng.choice('UASBT')), n.layer) if rng.random() < .5 else n
    ch = list(n.ch)
    r = rng.random()
    if n.kind == 'add':
        if r < .3 and len(ch) > 1:
            ch.pop(rng.randrange(len(ch)))
            return R.add(ch)
        if r < .5:
            ch.append(R.gen(rng, n.layer, 4))
            return R.add(ch)
        i = rng.randrange(len(ch))
        ch[i] = _mutate(rng, ch[i])
        return R.add(ch)
    if r < .2:
        rng.shuffle(ch)
        return R.mul(ch)
    i = rng.randrange(3)
    ch[i] = _mutate(rng, ch[i])
    return R.mul(ch)
