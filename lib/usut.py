"""Access to usls, with the constructors or with the reader."""
import re
import refscript as R
import refusl as U
from ieml.dictionary.script import script, Script
from ieml.exceptions import CannotParse
from ieml.usl import PolyMorpheme, Word
from ieml.usl.lexeme import Lexeme
from ieml.usl.syntagmatic_function import SyntagmaticFunction, SyntagmaticRole
from ieml.usl.usl import usl, USL
from sut import script_class

_ROLES = []


def roles():
    if not _ROLES:
        _ROLES.append(U.Roles())
    return _ROLES[0]


def ws(t):
    """text without what is meaningless in the spacing"""
    return re.sub(r'\s+', ' ', str(t))


def build_pm(rng, pm):
    c = [script(m) for m in pm[1]]
    gs = [([script(m) for m in g], mu) for g, mu in pm[2]]
    rng.shuffle(c)
    rng.shuffle(gs)
    for g, _ in gs:
        rng.shuffle(g)
    if rng.random() < .2:
        c.append(script(rng.choice(U.EMPTY)))
    for g, _ in gs:
        if rng.random() < .06:
            g.append(script(rng.choice(U.EMPTY)))
    return PolyMorpheme(constant=c, groups=gs)


def build_lex(rng, lex):
    return Lexeme(pm_flexion=build_pm(rng, lex[1]), pm_content=build_pm(rng, lex[2]))


def build_word(rng, w):
    items = [([script(a) for a in addr], build_lex(rng, l)) for addr, l in w[2]]
    rng.shuffle(items)
    ctx, sfun = SyntagmaticFunction.from_list(items)
    return Word(syntagmatic_fun=sfun, role=SyntagmaticRole(constant=[script(a) for a in w[3]]), context_type=ctx)


def gen(rng, kind=None, **kw):
    kind = kind or rng.choice(['pm', 'lex', 'word', 'word'])
    if kind == 'pm':
        pm = U.gen_pm(rng, allow_empty=False, **kw)
        return pm
    if kind == 'lex':
        return U.gen_lex(rng, small=rng.random() < .5)
    return U.gen_word(rng, roles(), **kw)


def text(m):
    return U.txt_pm(m) if m[0] == 'pm' else U.txt_lex(m) if m[0] == 'lex' else U.txt_word(m, roles().order)


def respell(rng, m):
    return U.rs_pm(rng, m) if m[0] == 'pm' else U.rs_lex(rng, m) if m[0] == 'lex' else U.rs_word(rng, m)


def build(rng, m):
    return build_pm(rng, m) if m[0] == 'pm' else build_lex(rng, m) if m[0] == 'lex' else build_word(rng, m)


def single(m):
    """a polymorpheme that is written like a script"""
    return m[0] == 'pm' and not m[2] and len(m[1]) <= 1


def obtain(rng, m):
    """the usl of the model, by one of the ways a user has"""
    r = rng.random()
    if r < .35:
        u = build(rng, m)
    elif r < .75:
        u = usl(respell(rng, m))
    else:
        u = usl(text(m) if text(m) else 'E:')
    return usl(u) if isinstance(u, Script) else u


def pm_class(pm):
    return max([script_class(R.parse(c)) for c in pm[1]], default=0)


def mutate(rng, m):
    """a usl close to m and different from it (or nearly always)"""
    if m[0] == 'pm':
        c, gs = list(m[1]), [(list(g), mu) for g, mu in m[2]]
        r = rng.random()
        new = U.pool(rng, 12)
        new = [x for x in new if x not in c and all(x not in g for g, _ in gs)]
        if r < .3 and c:
            c[rng.randrange(len(c))] = rng.choice(new)
        elif r < .5:
            c.append(rng.choice(new))
        elif r < .6 and len(c) > 1:
            c.pop(rng.randrange(len(c)))
        elif r < .8 and gs:
            k = rng.randrange(len(gs))
            g, mu = gs[k]
            if rng.random() < .5 and len(g) > 1:
                mu = mu % min(3, len(g)) + 1
            elif g:
                g[rng.randrange(len(g))] = rng.choice(new)
            else:
                g.append(rng.choice(new))
            gs[k] = (g, mu)
        elif gs:
            k = rng.randrange(len(gs))
            g, mu = gs[k]
            c.append(g.pop(rng.randrange(len(g))) if g else rng.choice(new))
            if not g:
                gs.pop(k)
            else:
                gs[k] = (g, min(mu, len(g)))
        else:
            c.append(rng.choice(new))
        return 'pm', c, gs
    if m[0] == 'lex':
        if rng.random() < .15:
            return 'lex', m[2], m[1]
        return ('lex', mutate(rng, m[1]), m[2]) if rng.random() < .5 else ('lex', m[1], mutate(rng, m[2]))
    items = list(m[2])
    r = rng.random()
    if r < .2:
        return 'word', m[1], items, U.pick_focus(rng, items, roles().links)
    if r < .35 and len(items) > 1:
        a, b = rng.sample(range(len(items)), 2)
        items[a], items[b] = (items[a][0], items[b][1]), (items[b][0], items[a][1])
        return 'word', m[1], items, m[3]
    if r < .5:
        # another role at the end of an address
        k = rng.randrange(len(items))
        a = items[k][0]
        b = a[:-1] + (rng.choice(roles().order),)
        if rng.random() < .5:
            b = a[:-1] + (rng.choice([roles().dep, roles().ind]),)
        new = items[:k] + [(b, items[k][1])] + items[k + 1:]
        if b != a and U.roles_ok([x for x, _ in new], roles()):
            kind = 'process' if m[1] == 'process' else 'dep' if new[0][0][0] == roles().dep else 'ind'
            return 'word', kind, new, U.pick_focus(rng, new, roles().links)
    k = rng.randrange(len(items))
    items[k] = (items[k][0], mutate(rng, items[k][1]))
    return 'word', m[1], items, m[3]
