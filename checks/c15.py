"""C15 two-dimensional tables of a paradigm along two of its groups or whole parts."""
from itertools import product
from usut import *
from c14 import flexion_pm
from ieml.usl.decoration.path import path as read_path
from ieml.usl.table import UslTable2D

PROPERTY = 'C15'
RULE = ('a random polymorpheme or word that has at least two groups, in one or two of its contents, is tabulated along two of them (with the same or different roles); the '
        'cells are compared one by one with the combinations of the choices in the two groups, or whole parts (contents, flexions), of an independent model; distinct (usl, row path, column path), '
        'non-trivial when there is more than one row and one column')
ASSUMPTIONS = ['the flexions of the words are made of flexion morphemes (see C14)', 'the usls are small enough that the limit on the number of morphemes of a singular sequence does '
               'not restrict the choices']
REQUIRED = ['tables', 'cells', 'tables along two roles', 'tables with other groups', 'tables along one group', 'tables along whole parts', 'tables along a flexion']


def groups_of(pm, prefix):
    _, c, gs = U.norm_pm(pm)
    return [(prefix, k, g, mu) for k, (g, mu) in enumerate(gs)]


def chosen(pm, picks):
    """the polymorpheme where the groups in picks {index: morphemes} have been replaced by these morphemes"""
    _, c, gs = U.norm_pm(pm)
    return 'pm', c + [x for v in picks.values() for x in v], [g for k, g in enumerate(gs) if k not in picks]


def choices(g, mu):
    """the choices in a group, each a list of morphemes"""
    return [t.split(' ') if t else [] for t in sorted(U.ss_pm(('pm', [], [(g, mu)])))]


def table(ctx, rng, i):
    word = rng.random() < .6
    while True:
        if word:
            m = U.gen_word(rng, roles(), max_items=4)
            m = 'word', m[1], [(a, ('lex', ('pm', l[1][1][:0], []), U.gen_pm(rng, max_groups=2, small=True) if rng.random() < .7 else l[2])) for a, l in m[2]], m[3]
            gs = [g for k, (a, l) in enumerate(m[2]) for g in groups_of(l[2], k)]
        else:
            m = U.gen_pm(rng, small=True)
            gs = groups_of(m, None)
        if 2 <= len(gs) <= 4:
            break
    rng.shuffle(gs)
    (ra, rk, rg, rmu), (ca, ck, cg, cmu) = gs[:2]

    def path_of(a, k, mu):
        p = '>group_%d %d' % (k, mu)
        if a is None:
            return read_path(p)
        addr = m[2][a][0]
        return read_path('>role>' + ('! ' if U.marked(m, addr) else '') + ' '.join(addr) + '>content' + p)
    rp, cp = path_of(ra, rk, rmu), path_of(ca, ck, cmu)
    t = text(m)
    ctx.about((t, str(rp), str(cp)))
    u = obtain(rng, m)
    T = UslTable2D(u, rows=rp, columns=cp)
    steps = [lambda: T.cells, lambda: T.rows, lambda: T.columns]
    rng.shuffle(steps)
    for s in steps:
        s()
    cells, rows, cols = T.cells, T.rows, T.columns
    ctx.event('tables')
    if word and ra != ca:
        ctx.event('tables along two roles')
    if len(gs) > 2:
        ctx.event('tables with other groups')

    def make(picks):
        """the text of the usl once the groups {(position, index): morphemes} are chosen"""
        if not word:
            return text(chosen(m, {k: v for (a, k), v in picks.items()}))
        return text(('word', m[1], [(ad, ('lex', l[1], chosen(l[2], {k: v for (a, k), v in picks.items() if a == j}))) for j, (ad, l) in enumerate(m[2])], m[3]))
    R_, C_ = choices(rg, rmu), choices(cg, cmu)
    want_cell = {make({(ra, rk): r, (ca, ck): c}): (make({(ra, rk): r}), make({(ca, ck): c})) for r in R_ for c in C_}
    ctx.equal((len(cells), [len(x) for x in cells]), (len(R_), [len(C_)] * len(R_)), 'shape of the table of %s' % t)
    got = [[ws(x) for x in row] for row in cells]
    ctx.equal(sorted(x for r in got for x in r), sorted(want_cell), 'cells of the table of %s' % t)
    ctx.event('cells', len(want_cell))
    got_rows, got_cols = [ws(x) for x in rows], [ws(x) for x in cols]
    # a row is the usl where the choice of the row is made
    for gx, cells_x, which in ((got_rows, got, 0), (got_cols, [list(z) for z in zip(*got)], 1)):
        ctx.equal(len(gx), len(cells_x), 'headers of the table of %s' % t)
        for h, xs in zip(gx, cells_x):
            ctx.equal({want_cell[x][which] for x in xs}, {h}, 'cells of the %s %s' % (['row', 'column'][which], h))
    ctx.check(list(rows) == sorted(rows) and list(cols) == sorted(cols), 'the headers of the table of {} are not sorted', t)
    if rng.random() < .15:
        ss = {ws(x) for x in u.singular_sequences}
        for row in cells:
            for x in row:
                if x.is_singular and len(gs) == 2 and rmu == cmu == 1 and not word:
                    ctx.check(ws(x) in ss or not str(x), 'the cell {} is not a singular sequence of {}', x, t)
    if len(R_) > 1 and len(C_) > 1:
        ctx.seen((t, str(rp), str(cp)))


def parts(ctx, rng, i):
    """tables along whole contents or flexions, or along one part with all the others as rows"""
    while True:
        lex = lambda: ('lex', flexion_pm(rng), U.gen_pm(rng, max_groups=2, small=True))
        r = rng.random()
        if r < .4:
            m, its = lex(), None
        elif r < .8:
            m = U.gen_word(rng, roles(), max_items=3)
            m = 'word', m[1], [(a, lex()) for a, _ in m[2]], m[3]
        else:
            m = U.gen_pm(rng, small=True)
        its = [(None, m)] if m[0] != 'word' else [('>role>' + ('! ' if U.marked(m, a) else '') + ' '.join(a), l) for a, l in m[2]]
        # (position, place in the lexeme, path, polymorpheme)
        ps = []
        for k, (pre, l) in enumerate(its):
            if m[0] == 'pm':
                ps.append((0, 0, None, m))
            else:
                ps += [(k, 1, (pre or '') + '>flexion', l[1]), (k, 2, (pre or '') + '>content', l[2])]
        ps = [p for p in ps if p[3][2]]
        if any(U.ss_pm(p[3]) != {U.txt_pm(q) for q in free(p[3])} for p in ps):
            continue             # the limit on the number of morphemes of a singular sequence
        n = 1
        for p in ps:
            n *= len(U.ss_pm(p[3]))
        if n <= 400 and len(ps) >= (1 if m[0] == 'pm' else 2):
            break
    t = text(m)
    rng.shuffle(ps)
    alone = m[0] == 'pm' or rng.random() < .4
    if alone:
        contents = [p for p in ps if p[1] != 1]
        if not contents:
            return
        c = rng.choice(contents)
        k = rng.randrange(len(c[3][2]))
        _, const, gs = U.norm_pm(c[3])
        cp = read_path((c[2] or '') + '>group_%d %d' % (k, gs[k][1]))
        C_ = [{c[:2]: (k, x)} for x in choices(*gs[k])]
        axes = []
        for p in ps:
            left = U.norm_pm(p[3])[2]
            if p is c:
                left = left[:k] + left[k + 1:]
            axes.append([(p[:2], x) for x in sorted(U.ss_pm(('pm', [], left)))])
        R_ = [dict(z) for z in product(*axes)]
        rp = None
        ctx.event('tables along one group')
    else:
        r, c = ps[:2]
        rp, cp = read_path(r[2]), read_path(c[2])
        R_ = [{r[:2]: x} for x in sorted(U.ss_pm(('pm', [], r[3][2])))]
        C_ = [{c[:2]: x} for x in sorted(U.ss_pm(('pm', [], c[3][2])))]
        ctx.event('tables along whole parts')
        if r[1] == 1 or c[1] == 1:
            ctx.event('tables along a flexion')
    ctx.about((t, str(rp), str(cp)))
    u = obtain(rng, m)
    T = UslTable2D(u, rows=rp, columns=cp)
    steps = [lambda: T.cells, lambda: T.rows, lambda: T.columns]
    rng.shuffle(steps)
    for s in steps:
        s()

    def make(row, col):
        """the text of the usl with the choices of a row and of a column, None when the choice is not made"""
        def part(key, pm):
            _, const, gs = U.norm_pm(pm)
            const, left = list(const), dict(enumerate(gs))
            x = (col or {}).get(key)
            if isinstance(x, tuple):
                const += x[1]
                left.pop(x[0])
            elif x is not None:
                const += x.split(' ') if x else []
                left = {}
            if row is not None and key in row:
                const += row[key].split(' ') if row[key] else []
                left = {k: left[k]} if alone and key == c[:2] and k in left else {}
            return 'pm', const, list(left.values())
        def lx(j, l):
            return 'lex', part((j, 1), l[1]), part((j, 2), l[2])
        if m[0] == 'pm':
            return text(part((0, 0), m))
        if m[0] == 'lex':
            return text(lx(0, m))
        return text(('word', m[1], [(a, lx(j, l)) for j, (a, l) in enumerate(m[2])], m[3]))
    want = {make(x, y): (make(x, None), make(None, y)) for x in R_ for y in C_}
    got = [[ws(x) for x in row] for row in T.cells]
    ctx.equal((len(got), {len(x) for x in got}), (len(R_), {len(C_)}), 'shape of the table of %s' % t)
    ctx.equal(sorted(x for z in got for x in z), sorted(want), 'cells of the table of %s' % t)
    ctx.event('cells', len(want))
    for gx, cells_x, which in (([ws(x) for x in T.rows], got, 0), ([ws(x) for x in T.columns], [list(z) for z in zip(*got)], 1)):
        ctx.equal(len(gx), len(cells_x), 'headers of the table of %s' % t)
        for h, xs in zip(gx, cells_x):
            ctx.equal({want[x][which] for x in xs}, {h}, 'cells of the %s %s' % (['row', 'column'][which], h))
    ctx.check(T.rows == sorted(T.rows) and T.columns == sorted(T.columns), 'the headers of the table of {} are not sorted', t)
    if len(R_) > 1 and len(C_) > 1:
        ctx.seen((t, str(rp), str(cp)))


def free(pm):
    """the choices of the groups with the constant added"""
    return [('pm', list(pm[1]) + (x.split(' ') if x else []), []) for x in U.ss_pm(('pm', [], pm[2]))]


KINDS = {'table': (table, 300, 6000), 'parts': (parts, 240, 5000)}
