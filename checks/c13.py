"""C13 decomposition of words into roles, and validation of usls."""
from usut import *

PROPERTY = 'C13'
RULE = ('random words are split into their (role, lexeme) list, shuffled and assembled again; the lexeme of each role is read back; random valid usls are '
        'validated and the same usls with one defect (repeated morpheme, paradigm as a morpheme, multiplicity out of bounds, unknown or misplaced role, missing '
        'lexeme, two lexemes for a role) must be refused; non-trivial when the usl has a defect or several roles')
ASSUMPTIONS = ['a word that has been validated is one that the rules of the reference model accept', 'validation raises ValueError (or CannotParse while reading)']
REQUIRED = ['words split', 'words assembled', 'valid usls', 'defects: repeated morpheme', 'defects: paradigm', 'defects: multiplicity', 'defects: roles', 'defects: lexemes', 'shuffles', 'places accepted', 'places refused']


def split(ctx, rng, i):
    w = U.gen_word(rng, roles())
    ctx.about(text(w))
    u = obtain(rng, w)
    sfun, ctype = u.syntagmatic_fun, u.context_type
    items = sfun.as_list(ctype)
    ctx.event('words split')
    got = {tuple(str(x) for x in a): str(l) for a, l in items}
    ctx.equal(len(got), len(items), 'number of roles of %s' % u)
    ctx.equal(got, {a: U.txt_lex(l) for a, l in w[2]}, 'roles of %s' % u)
    for _ in range(2):
        rng.shuffle(items)
        ct, sf = SyntagmaticFunction.from_list([(list(a), l) for a, l in items])
        ctx.event('shuffles')
        ctx.check(ct == ctype, 'the type of {} changes from {} to {}', u, ctype, ct)
        v = Word(syntagmatic_fun=sf, role=SyntagmaticRole(constant=[script(x) for x in w[3]]), context_type=ct)
        ctx.equal(str(v), str(u), 'word assembled from its roles')
        ctx.check(v == u, 'the word assembled from the roles of {} is different', u)
        ctx.event('words assembled')
    ctx.equal(str(u.role), ' '.join(w[3]), 'focus of %s' % u)
    if len(items) > 1:
        ctx.seen(text(w))


def valid(ctx, rng, i):
    m = gen(rng)
    u = obtain(rng, m)
    ctx.about(text(m))
    u.check()
    ctx.event('valid usls')
    for s in list(u.singular_sequences)[:3] if m[0] == 'pm' else ():
        s.check()


def refused(ctx, f, what, detail):
    try:
        u = f()
        u.check()
    except (ValueError, CannotParse, AssertionError):
        ctx.event('defects: ' + what)
        return
    ctx.fail('%s is accepted: %s (%s)' % (detail, u, what))


def defect(ctx, rng, i):
    r = rng.random()
    if r < .6:
        pm = U.gen_pm(rng, allow_empty=False, small=True)
        c, gs = list(pm[1]), [(list(g), mu) for g, mu in pm[2]]
        kind = rng.choice(['repeated morpheme', 'paradigm', 'multiplicity'])
        if kind == 'repeated morpheme':
            pools = [c] + [g for g, _ in gs]
            src = rng.choice([p for p in pools if p])
            x = rng.choice(src)
            dst = rng.choice(pools)
            dst.append(x)
        elif kind == 'paradigm':
            while True:
                n = R.gen(rng, rng.choice([0, 1, 2]), 4)
                if n.card > 1:
                    break
            rng.choice([c] + [g for g, _ in gs]).append(n.text)
        else:
            if not gs:
                gs = [(U.pool(rng, 2), 1)]
                gs = [([x for x in gs[0][0] if x not in c] or ['wa.'], 1)]
            k = rng.randrange(len(gs))
            gs[k] = (gs[k][0], rng.choice([0, 4, 5, len(gs[k][0]) + 1, 10, 11, 12, 13, 20, 31, 100]))
        bad = 'pm', c, gs
        ctx.about(bad)
        ctx.seen(repr(bad))
        refused(ctx, lambda: build_pm(rng, bad), kind, bad)
        refused(ctx, lambda: usl(U.rs_pm(rng, bad)), kind, bad)
        # inside a lexeme
        l = ('lex', bad, U.gen_lex(rng)[2]) if rng.random() < .5 else ('lex', U.gen_lex(rng)[1], bad)
        ctx.event('defects: lexemes')
        refused(ctx, lambda: build_lex(rng, l), kind, l)
        refused(ctx, lambda: usl(U.rs_lex(rng, l)), kind, l)
        # inside a word
        w = U.gen_word(rng, roles(), max_items=rng.choice([4, 4, 4, 8, 14]))
        k = rng.randrange(len(w[2]))
        a, l = w[2][k]
        l = ('lex', bad, l[2]) if rng.random() < .5 else ('lex', l[1], bad)
        w = ('word', w[1], [(a, l) if j == k else it for j, it in enumerate(w[2])], w[3])
        refused(ctx, lambda: build_word(rng, w), kind, w)
        refused(ctx, lambda: usl(U.rs_word(rng, w)), kind, w)
        return
    w = U.gen_word(rng, roles(), max_items=rng.choice([6, 6, 6, 14]))
    items = list(w[2])
    focus = w[3]
    kind = rng.choice(['twice', 'unknown', 'two processes', 'actant in actant', 'process role inside', 'focus'])
    lex = U.gen_lex(rng)
    RO = roles()
    if kind == 'twice':
        items.append((rng.choice(items)[0], lex))
    elif kind == 'unknown':
        a = list(rng.choice(items)[0])
        a[rng.randrange(len(a))] = rng.choice(U.pool(rng, 1))
        if a[0] in RO.order and a[-1] in RO.order:
            return
        if any(x not in RO.order for x in a):
            try:
                role = SyntagmaticRole(constant=[script(x) for x in a])
                ctx.fail('the role {} is accepted, with a script that is not a role'.format(role))
            except ValueError:
                ctx.event('defects: roles')
        items.append((tuple(a), lex))
    elif kind == 'two processes':
        if w[1] != 'process':
            return
        items.append(((rng.choice(RO.valence),), lex))
    elif kind == 'actant in actant':
        if w[1] != 'process':
            return
        items.append(((rng.choice(RO.actants), rng.choice(RO.actants)), lex))
    elif kind == 'process role inside':
        items.append((items[0][0] + (rng.choice(RO.valence),), lex))
    else:
        # the focus of the other words is read without its first role, whatever this one is
        if w[1] != 'process':
            return
        focus = RO.ind, RO.ind, RO.ind
    bad = ('word', w[1], items, focus)
    ctx.about(bad)
    ctx.seen(repr(bad))
    refused(ctx, lambda: build_word(rng, bad), 'roles', (kind, bad))
    refused(ctx, lambda: usl(U.rs_word(rng, bad)), 'roles', (kind, bad))


def places(ctx, rng, i):
    """a word with twisted roles is accepted when, and only when, its places obey the rules"""
    RO = roles()
    w = U.twist_roles(rng, U.gen_word(rng, RO, max_items=6, depth=rng.choice([1, 2, 2, 3])), RO)
    where = [a for a, _ in w[2]]
    ok = U.roles_ok(where, RO)
    ctx.about((where, w[3]))
    ctx.seen(repr(sorted(where)))
    ctx.event('places accepted' if ok else 'places refused')
    for f in (lambda: build_word(rng, w), lambda: usl(U.rs_word(rng, w))):
        if not w[2]:
            return
        if not ok:
            refused(ctx, f, 'roles', where)
            continue
        u = f()
        u.check()
        ctx.equal({tuple(str(x) for x in a): str(l) for a, l in u.syntagmatic_fun.as_list(u.context_type)}, {a: U.txt_lex(l) for a, l in w[2]}, 'roles of %s' % u)


U.FULL = True
KINDS = {'places': (places, 2000, 30000), 'split': (split, 1500, 20000), 'valid': (valid, 1500, 20000), 'defect': (defect, 2000, 30000)}
