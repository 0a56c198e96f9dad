"""Independent reference model of USL text (polymorphemes, lexemes, words) plus random generators and respellers.

Model values:
  PM   : ('pm', [morpheme texts], [([texts], mult), ...])
  LEX  : ('lex', PM flexion, PM content)
  WORD : ('word', kind, [(address tuple of role texts, LEX)], focus address)
Morpheme texts are canonical script texts.
"""
from itertools import combinations, product
import refscript as R
import roles

SIZE_LIMIT = 5


def sk(t):
    """order key of a morpheme text"""
    return R.key(R.parse(t))


def empty_m(t):
    return R.parse(t).empty


# ------------------------------------------------------------------ normal forms

def norm_pm(pm):
    _, const, groups = pm
    c = sorted((m for m in const if not empty_m(m)), key=sk)
    gs = [(sorted((m for m in g if not empty_m(m)), key=sk), mu) for g, mu in groups]
    gs.sort(key=lambda g: ([sk(m) for m in g[0]], g[1]))
    return 'pm', c, gs


def txt_pm(pm):
    _, c, gs = norm_pm(pm)
    return ' '.join(c + ['m%d(%s)' % (mu, ' '.join(g) or 'E:') for g, mu in gs])


def pm_empty(pm):
    _, c, gs = norm_pm(pm)
    return not c and not gs


def txt_lex(lex):
    _, fl, co = lex
    if pm_empty(co):
        return '()' if pm_empty(fl) else '(%s)' % txt_pm(fl)
    return '(%s)(%s)' % (txt_pm(fl), txt_pm(co))


LINKS = set()     # filled by Roles


def marked(w, a):
    """the lexeme at a is marked: it is the focus, or one of the lexemes of the junction that is the focus"""
    f = w[3]
    rest = a[len(f):]
    return a == f or a[:len(f)] == f and len(rest) % 2 == 0 and all(x in LINKS for x in rest[::2]) and all(b != f for b, _ in w[2])


def norm_focus(w):
    """the word with the innermost focus that has the same marked lexemes"""
    ms = [a for a, _ in w[2] if marked(w, a)]
    if len(ms) > 1:
        n = min(k for k, xs in enumerate(zip(*ms)) if len(set(xs)) > 1)
        ms = [ms[0][:n - 1]]
    return w[:3] + (ms[0] if ms else w[3],)


def pick_focus(rng, items, links=()):
    a = rng.choice(items)[0]
    cuts = [k for k, x in enumerate(a) if x in links]
    if cuts and rng.random() < .4:
        a = a[:rng.choice(cuts)]
    return norm_focus(('word', None, items, a))[3]


def txt_word(w, roles):
    _, kind, items, focus = w
    order = {r: i for i, r in enumerate(roles)}
    its = sorted(items, key=lambda it: [order[a] for a in it[0]])
    return '[' + ' > '.join(('! ' if marked(w, a) else '') + ' '.join(a) + ' ' + txt_lex(l) for a, l in its) + ']'


# ------------------------------------------------------------------ singular sequences

def ss_pm(pm):
    """set of canonical texts of the singular sequences"""
    _, c, gs = norm_pm(pm)
    if not gs:
        return {txt_pm(pm)}
    n = len(gs)
    out = set()
    top = min(len(g) for g, _ in gs)
    base = len(set(c)) if c else 1      # a missing constant stands for the empty morpheme, which counts
    for q in range(0, top + 1):
        for extra in product((0, 1), repeat=n):
            if n == sum(extra):
                continue
            ks = [q + e for e in extra]
            if any(k > min(len(g), mu) for k, (g, mu) in zip(ks, gs)):
                continue
            for sel in product(*(combinations(g, k) for k, (g, mu) in zip(ks, gs))):
                ms = {m for s in sel for m in s} | set(c)
                size = len(ms) if c else len(ms) + 1
                if size == 0 or size > SIZE_LIMIT:
                    continue
                out.add(txt_pm(('pm', list(ms), [])))
    return out


def ss_pm_models(pm):
    return [('pm', t.split(' ') if t else [], []) for t in sorted(ss_pm(pm))]


def ss_lex(lex):
    return {txt_lex(('lex', f, c)) for f in ss_pm_models(lex[1]) for c in ss_pm_models(lex[2])}


def ss_lex_models(lex):
    return [('lex', f, c) for f in ss_pm_models(lex[1]) for c in ss_pm_models(lex[2])]


def n_ss_word(w):
    n = 1
    for _, l in w[2]:
        n *= len(ss_pm(l[1])) * len(ss_pm(l[2]))
    return n


def ss_word(w, roles):
    items = w[2]
    out = set()
    for ls in product(*(ss_lex_models(l) for _, l in items)):
        out.add(txt_word(('word', w[1], [(a, l) for (a, _), l in zip(items, ls)], w[3]), roles))
    return out


# ------------------------------------------------------------------ generators

_POOL = ["a.", "b.", "wa.", "y.", "S:", "U:", "T:", "A:", "B:", "l.-", "b.o.-", "t.u.-", "n.i.-", "U:S:.", "E:A:T:.",
         "s.u.-", "k.a.-", "b.i.-b.i.-'", "n.u.-d.u.-d.u.-'", "a.i.-", "i.b.-", "i.f.-", "l.o.-m.o.-s.u.-'",
         "t.o.-m.o.-n.o.-',", "E:.wo.-", "E:S:.-d.u.-'", "E:.U:.h.-", "n.-S:.U:.-'", "b.-S:.U:.-'t.-S:.U:.-',",
         "E:.-',b.-S:.U:.-'y.-'U:.-',_", "E:U:.-t.o.-'", "E:A:.-t.o.-'", "E:.-wa.-t.o.-'", "A:B:S:.", "wo.wo.we.-",
         "E:U:S:.", "E:A:B:.", "t.e.-d.u.-'", "m.-S:.-'", "E:.b.E:S:.-", "E:.b.E:B:.-d.u.-'", "x.t.-"]


def pool(rng, k):
    """k distinct canonical singular morphemes"""
    out = set()
    while len(out) < k:
        if rng.random() < .7:
            t = R.parse(rng.choice(_POOL)).text
        else:
            n = R.gen(rng, rng.choice([0, 1, 1, 2, 2, 3, 4]), budget=1)
            t = n.text
            if n.empty:
                continue
        out.add(t)
    return sorted(out)


EMPTY_GROUPS = 0       # share of the groups that have only empty morphemes: they keep their place, and have no choice (set by C10 and C11)
FULL = False           # polymorphemes whose constant leaves no room for their groups (set by C10 to C13)


def gen_pm(rng, max_groups=3, allow_empty=True, small=False):
    ng = rng.choice([0, 0, 0, 1, 1, 2, 3])
    ng = min(ng, max_groups)
    nc = rng.choice([0, 1, 1, 2, 3]) if (ng or allow_empty) else rng.choice([1, 1, 2, 3])
    if rng.random() < .05:
        nc = rng.randint(4, 9 if FULL or not ng else 4)
    sizes = [rng.randint(1, 3 if small else 5) for _ in range(ng)]
    if sizes and FULL and rng.random() < .05:
        sizes[rng.randrange(ng)] = rng.randint(6, 12)
    ms = pool(rng, nc + sum(sizes))
    rng.shuffle(ms)
    const, i = ms[:nc], nc
    groups = []
    for s in sizes:
        groups.append((ms[i:i + s], rng.randint(1, min(3, s))))
        i += s
        if rng.random() < EMPTY_GROUPS:
            groups[-1] = [], rng.randint(1, 3)
    return 'pm', const, groups


def gen_lex(rng, small=True, p_par=0.3):
    def pm():
        return gen_pm(rng, max_groups=(1 if small else 2) if rng.random() < p_par else 0, small=True)
    return 'lex', pm(), pm()


def members(rng):
    return rng.randint(1, 3) if rng.random() < .85 else rng.randint(4, 12)


def gen_iq(rng, lex, links, idx, depth):
    if depth > 0 and rng.random() < .2:
        link = rng.choice(links)
        return [((link, idx[i]) + a, l) for i in range(members(rng)) for a, l in gen_iq(rng, lex, links, idx, 0)]
    return [((), lex())]


def gen_dq(rng, lex, links, idx, ind, dep, depth):
    if depth > 0 and rng.random() < .2:
        link = rng.choice(links)
        return [((link, idx[i]) + a, l) for i in range(members(rng))
                for a, l in gen_dq(rng, lex, links, idx, ind, dep, depth - 1)]
    out = [((), lex())]
    if depth > 0 and rng.random() < .4:
        out += [((ind,) + a, l) for a, l in gen_iq(rng, lex, links, idx, depth - 1)]
    if depth > 0 and rng.random() < .35:
        out += [((dep,) + a, l) for a, l in gen_dq(rng, lex, links, idx, ind, dep, depth - 1)]
    return out


class Roles:
    """role vocabulary"""

    def __init__(self):
        self.valence, self.actants = roles.VALENCE, roles.ACTANTS
        self.ind, self.dep = roles.INDEPENDANT, roles.DEPENDANT
        self.links, self.idx = roles.LINKS, roles.INDEX
        self.order = roles.ORDER
        LINKS.update(self.links)


def gen_word(rng, roles, kind=None, max_items=None, lex=None, depth=2, max_ss=None):
    lex = lex or (lambda: gen_lex(rng))
    max_items = max_items or (8 if rng.random() < .93 else 14)
    if kind is None and max_ss is None and max_items == 14 and rng.random() < .4:
        # one long junction
        link, n = rng.choice(roles.links), rng.randint(7, len(roles.idx))
        first = (roles.dep,) if rng.random() < .5 else (roles.ind,)
        items = [(first + (link, roles.idx[i]), lex()) for i in range(n)]
        return ('word', 'dep' if first[0] == roles.dep else 'ind', items, pick_focus(rng, items, roles.links))
    if kind is None and max_ss is None and max_items == 14 and rng.random() < .3:
        # one long chain of complements
        n = rng.randint(4, 9)
        items = [((roles.dep,) * (k + 1), lex()) for k in range(n)]
        last = rng.choice([[], [], [roles.ind], [roles.ind, rng.choice(roles.links), roles.idx[0]]])
        if last:
            items.append(((roles.dep,) * n + tuple(last), lex()))
        if rng.random() < .5:
            items = [((roles.valence[0],), lex())] + [((rng.choice(roles.actants),) + a[1:], l) for a, l in items[:1]] + [((None,) + a[1:], l) for a, l in items[1:]]
            items = items[:2] + [((items[1][0][0],) + a[1:], l) for a, l in items[2:]]
        return ('word', 'dep' if items[0][0][0] == roles.dep else 'process', items, pick_focus(rng, items, roles.links))
    for _ in range(200):
        k = kind or rng.choice(['process', 'process', 'dep', 'ind'])
        if k == 'process':
            v = rng.choice(roles.valence)
            items = [((v,), lex())]
            for a in rng.sample(roles.actants, rng.randint(0, 4)):
                items += [((a,) + p, l) for p, l in gen_dq(rng, lex, roles.links, roles.idx, roles.ind, roles.dep, depth)]
        elif k == 'dep':
            items = [((roles.dep,) + p, l) for p, l in
                     gen_dq(rng, lex, roles.links, roles.idx, roles.ind, roles.dep, depth + 1)]
        else:
            items = [((roles.ind,) + p, l) for p, l in gen_iq(rng, lex, roles.links, roles.idx, depth)]
        if len(items) > max_items:
            continue
        w = ('word', k, items, pick_focus(rng, items, roles.links))
        if max_ss is not None and n_ss_word(w) > max_ss:
            continue
        return w
    return gen_word(rng, roles, 'ind', 1, lex, 0)


# ------------------------------------------------------------------ respelling

def rs_m(rng, t):
    """another spelling of one morpheme that stays one token for the USL reader"""
    if rng.random() < .6:
        return t
    return R.respell(rng, R.parse(t), noise=False)


EMPTY = ['E:', 'E:', 'E:', 'E:.', 'E:.-', "E:E:.E:.-E:.-'"]


def rs_pm(rng, pm):
    _, c, gs = pm
    c = [rs_m(rng, m) for m in c]
    if rng.random() < .3:
        c.append(rng.choice(EMPTY))
    gs = [([rs_m(rng, m) for m in g], mu) for g, mu in gs]
    for g, _ in gs:
        if not g or rng.random() < .06:
            g.append(rng.choice(EMPTY))
    rng.shuffle(c)
    rng.shuffle(gs)
    for g, _ in gs:
        rng.shuffle(g)
    sp = lambda: rng.choice([' ', ' ', '  ', '\t', '\n'])
    parts = c + ['m%d%s(%s)' % (mu, rng.choice(['', '', ' ']), sp().join(g)) for g, mu in gs]
    return sp().join(parts)


def rs_lex(rng, lex):
    f, c = rs_pm(rng, lex[1]), rs_pm(rng, lex[2])
    sp = rng.choice(['', '', ' '])
    if rng.random() < (.15 if not lex[1][2] else .3):
        # the older form: the flexion comes before and after the content
        _, fc, fg = lex[1]
        if pm_empty(lex[2]) and not c:
            if f:
                return '()%s()(%s)' % (sp, f)
        elif c:
            k, j = rng.randint(0, len(fc)), rng.randint(0, len(fg))
            a, b = rs_pm(rng, ('pm', fc[:k], fg[:j])), rs_pm(rng, ('pm', fc[k:], fg[j:]))
            if b:
                return '(%s)%s(%s)%s(%s)' % (a, sp, c, sp, b)
    if pm_empty(lex[2]) and not c:
        return '(%s)' % f
    return '(%s)%s(%s)' % (f, sp, c)


def rs_word(rng, w):
    items = list(w[2])
    rng.shuffle(items)
    sp = lambda: rng.choice([' ', ' ', '  ', '\n'])
    return rng.choice(['[', '[ ', '[E:.b.E:S:.- ']) + (sp() + '>' + sp()).join(
        ('!' + sp() if marked(w, a) else '') + sp().join(rs_m(rng, x) for x in a) + sp() + rs_lex(rng, l)
        for a, l in items) + rng.choice([']', ' ]'])


# ------------------------------------------------------------------ rules of the roles

def _iq_ok(l, R):
    if len(l) == 1 and not l[0]:
        return True
    return _junction_ok(l, R, _iq_ok)


def _junction_ok(l, R, inside):
    if any(len(a) < 2 for a in l) or len({a[0] for a in l}) != 1 or l[0][0] not in R.links:
        return False
    if any(a[1] not in R.idx for a in l):
        return False
    groups = {}
    for a in l:
        groups.setdefault(R.idx.index(a[1]), []).append(a[2:])
    return sorted(groups) == list(range(len(groups))) and all(inside(g, R) for g in groups.values())


def _dq_ok(l, R):
    if any(a and a[0] in R.links for a in l):
        return _junction_ok(l, R, _dq_ok)
    own = [a for a in l if not a]
    ind = [a[1:] for a in l if a and a[0] == R.ind]
    dep = [a[1:] for a in l if a and a[0] == R.dep]
    return len(own) == 1 and len(ind) + len(dep) + 1 == len(l) and (not ind or _iq_ok(ind, R)) and (not dep or _dq_ok(dep, R))


def roles_ok(addresses, R):
    """whether lexemes at these places make a word"""
    l = [tuple(a) for a in addresses]
    if not l or any(not a for a in l):
        return False
    if any(a[0] in R.valence for a in l):
        if [len(a) for a in l if a[0] in R.valence] != [1]:
            return False
        actants = {}
        for a in l:
            if a[0] in R.actants:
                if sum(x in R.actants for x in a) > 1:
                    return False
                actants.setdefault(a[0], []).append(a[1:])
            elif a[0] not in R.valence:
                return False
        return all(_dq_ok(g, R) for g in actants.values())
    if len({a[0] for a in l}) != 1:
        return False
    rest = [a[1:] for a in l]
    return _dq_ok(rest, R) if l[0][0] == R.dep else _iq_ok(rest, R) if l[0][0] == R.ind else False


def twist_roles(rng, w, R):
    """the word with some of its places changed"""
    items = [(tuple(a), l) for a, l in w[2]]
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if not items:
            break
        k = rng.randrange(len(items))
        a, l = items[k]
        a = list(a)
        r = rng.random()
        j = rng.randrange(len(a) + 1)
        some = rng.choice([rng.choice(R.links), rng.choice(R.idx), R.ind, R.dep, rng.choice(R.actants), rng.choice(R.valence), rng.choice(_POOL)])
        if r < .2 and a:
            del a[min(j, len(a) - 1)]
        elif r < .35:
            a.insert(j, some)
        elif r < .45 and a:
            a[min(j, len(a) - 1)] = some
        elif r < .55:
            a = a[:j]
        elif r < .65:
            a = a[:j] + [rng.choice(R.links), rng.choice(R.idx[:4])] + a[j:]
        elif r < .75:
            items.append((tuple(a[:j] + [some]), l))
            continue
        elif r < .8 and len(a) > 1:
            x, y = rng.sample(range(len(a)), 2)
            a[x], a[y] = a[y], a[x]
        elif r < .9:
            items.pop(k)
            continue
        else:
            for x, s in enumerate(a):
                if s in R.idx:
                    a[x] = rng.choice(R.idx[:4])
        items[k] = (tuple(a), l)
    focus = w[3] if any(a == w[3] for a, _ in items) else rng.choice(items)[0] if items else w[3]
    return ('word', w[1], items, focus)
