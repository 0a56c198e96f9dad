"""C14 paths in a usl: they designate what they say, they can be written and read, and a usl is rebuilt from its paths."""
from usut import *
import roles as ROLES
from ieml.usl.decoration.parser.parser import PathParser
from ieml.usl.decoration.path import path as read_path, UslPath, RolePath, LexemePath, PolymorphemePath, FlexionPath, DeferenceError, usl_from_path_values

PROPERTY = 'C14'
RULE = ('every path that a random usl lists is followed, written, read again and followed again, and the list is compared with the paths that the structure of an '
        'independent model has; the (path, morpheme) list is shuffled and given to usl(), which must give the usl back (flexions made of flexion morphemes); paths '
        'that are not in the usl must be refused with DeferenceError; non-trivial when the usl has several positions')
ASSUMPTIONS = ['a flexion is rebuilt from its morphemes alone, so the round trip is claimed when the morphemes of its constant come from different flexion paradigms '
               'and those of each group from a same other one with the multiplicity 1', 'the first role of a word that is not a process is not looked at by a path']
REQUIRED = ['paths followed', 'paths read', 'roles named', 'usls rebuilt', 'lists refused', 'paths refused', 'groups', 'junctions', 'flexion groups', 'prefixes', 'not prefixes', 'prefixes removed', 'focus on other roles', 'focus on a junction']


def m_pm(pm):
    """[(suffix, text of the designated)] of a content polymorpheme"""
    _, c, gs = U.norm_pm(pm)
    out = [('>constant', ' '.join(c))] + [('>constant>' + x, x) for x in c or ['E:']]
    for k, (g, mu) in enumerate(gs[:3]):
        out += [('>group_%d %d' % (k, mu), 'm%d(%s)' % (mu, ' '.join(g)))] + [('>group_%d %d>%s' % (k, mu, x), x) for x in g]
    return out


def m_flexion(pm):
    _, c, gs = U.norm_pm(pm)
    return [('>' + x, x) for x in (c or ['E:']) + [x for g, _ in gs for x in g]]


def m_lex(lex):
    return [('>flexion', U.txt_pm(lex[1]))] + [('>flexion' + p, x) for p, x in m_flexion(lex[1])] + \
           [('>content', U.txt_pm(lex[2]))] + [('>content' + p, x) for p, x in m_pm(lex[2])]


def model(m):
    if m[0] == 'pm':
        return m_pm(m)
    if m[0] == 'lex':
        return m_lex(m)
    out = [('>', text(m))]
    for a, l in m[2]:
        r = '>role>' + ('! ' if U.marked(m, a) else '') + ' '.join(a)
        out += [(r, U.txt_lex(l))] + [(r + p, x) for p, x in m_lex(l)]
    return out


def is_morpheme(p):
    last = p.split('>')[-1]
    return not (last.startswith(('constant', 'group_')) or last in ('flexion', 'content', '')) and p.count('>role>') * 2 < p.count('>')


def named(rng, s):
    """the path with names for some of its roles"""
    start, role, *rest = s[1:].split('>')
    names = {}
    for n, x in ROLES.NAMES.items():
        names.setdefault(x, []).append(n)
    role = ' '.join(rng.choice(names[x]) if x in names and rng.random() < .7 else x for x in role.split(' '))
    return '>'.join(['', start, role] + rest)


def follow(ctx, rng, i):
    m = gen(rng)
    u = obtain(rng, m)
    ctx.about(text(m))
    got = [(str(p), ws(x), p, x) for p, x in u.iter_structure_path()]
    want = [(p, ws(x)) for p, x in model(m)]
    ctx.equal(sorted((a, b) for a, b, _, _ in got), sorted(want), 'paths of %s' % text(m))
    if m[0] == 'word' and any(len(a) > 2 for a, _ in m[2]):
        ctx.event('junctions')
    if m[0] == 'word' and len(m[3]) > 1:
        ctx.event('focus on other roles')
    if m[0] == 'word' and all(a != m[3] for a, _ in m[2]):
        ctx.event('focus on a junction')
    if any('group_' in p for p, _ in want):
        ctx.event('groups')
    ms = sorted((str(p), str(x)) for p, x in u.iter_structure_path_by_script_ss())
    ctx.equal(ms, sorted((p, x) for p, x in want if is_morpheme(p)), 'paths of the morphemes of %s' % text(m))
    ctx.equal(sorted((str(p), str(x)) for p, x in u.iter_structure_path_by_type(Script)), ms, 'paths of the scripts of %s' % text(m))
    if len(want) > 2:
        ctx.seen(text(m))
    for s, t, p, x in got:
        ctx.event('paths followed')
        ctx.check(p.contained(u), 'the path {} of {} is not in it', s, text(m))
        ctx.equal(ws(p.deference(u)), t, 'usl at %s in %s' % (s, text(m)))
        q = read_path(s)
        ctx.event('paths read')
        ctx.equal(str(q), s, 'path written and read')
        ctx.check(q == p and p == q and hash(p) == hash(q) and type(q) is type(p), 'the path {} is different once read', s)
        ctx.equal(ws(q.deference(u)), t, 'usl at the path read %s in %s' % (s, text(m)))
        # spaces are not meaningful, in a path
        if rng.random() < .1:
            v = s.replace('>', rng.choice(['> ', ' > ', ' >'])).strip()
            ctx.equal(str(read_path(v)), s, 'path written %r' % v)
        if '>role>' in s and rng.random() < .3:
            v = named(rng, s)
            ctx.equal(str(read_path(v)), s, 'path written %r' % v)
            ctx.event('roles named')
        h, tail = p.split_tail()
        if type(h) is not UslPath:
            ctx.equal(ws(tail.deference(h.deference(u))), t, 'usl at the end of %s in %s' % (s, text(m)))
        ctx.check(str(p.tail) == str(tail) and str(p.clone()) == s, 'the path {} is cloned as {}', s, p.clone())


def names(ctx, rng, i):
    """paths of any roles, written with their scripts or names"""
    s = '>role>' + rng.choice(['', '! ']) + ' '.join(rng.choice(rng.choice([ROLES.ORDER, ROLES.INDEX, ROLES.LINKS])) for _ in range(rng.randint(1, 6))) + \
        rng.choice(['', '>content', '>flexion>a.', '>content>constant>wo.', '>content>group_1 2'])
    v = named(rng, s)
    ctx.about((s, v))
    ctx.seen(v)
    ctx.equal(str(read_path(v)), s, 'path written %r' % v)
    ctx.check(read_path(v) == read_path(s), 'the paths {!r} and {!r} are different', v, s)
    ctx.event('roles named')


def algebra(ctx, rng, i):
    """prefixes, suffixes and the other forms of the paths of a usl, compared with their texts"""
    m = gen(rng)
    u = obtain(rng, m)
    ctx.about(text(m))
    ps = [p for p, _ in u.iter_structure_path()]
    rng.shuffle(ps)
    if rng.random() < .5:
        ps = [read_path(str(p)) for p in ps]
    ctx.seen(text(m), 'algebra')
    others = ps[:8] + [p for p, _ in gen_other(rng, m).iter_structure_path()][:4]
    for p in ps[:10]:
        s = str(p)
        h, t = p.split_tail()
        ctx.equal(str(h.concat(t)), s, 'head and tail of %s together' % s)
        ctx.equal((str(UslPath().concat(p)), str(p.concat(UslPath()))), (s, s), 'the path %s and the empty path' % s)
        group = type(t) is PolymorphemePath and t.morpheme is not None
        if type(p) is not FlexionPath:
            ctx.equal(str(p.without_morpheme()), s[:-len(str(t.morpheme)) - 1] if group or type(t) is FlexionPath else s, 'path of the group of %s' % s)
        ctx.equal(p.is_constant_path, 'group_' not in s and s != '>', 'is_constant_path of %s' % s)
        k = s.find('>group_')
        if k >= 0:
            want = s[:k] + '>constant' + ('>' + str(t.morpheme) if group else '')
            ctx.equal(str(p.as_constant()), want, 'constant path of %s' % s)
            if not group:
                ctx.equal(str(p.as_constant(script('b.'))), want + '>b.', 'constant path of a morpheme at %s' % s)
        elif s != '>' and (group or type(t) is not PolymorphemePath):
            ctx.equal(str(p.as_constant()), s, 'constant path of %s' % s)
        first = p.no_child_clone()
        ctx.check(first.child is None and p.has_prefix(first) and type(first) is type(p), 'the path {} starts with {}', s, first)
        ctx.equal(str(p), s, 'the path after these operations')
        ctx.check(p.has_prefix(None), 'the path {} does not start with nothing', s)
        for q in others:
            if type(q) is UslPath or type(p) is UslPath:
                continue
            z = str(q)
            pre = s == z or s.startswith(z + '>')
            ctx.equal(bool(p.has_prefix(q)), pre, 'has_prefix of %s and %s' % (s, z))
            ctx.event('prefixes' if pre else 'not prefixes')
            if not pre:
                ctx.equal(p.remove_prefix(q), None, '%s without %s that it does not start with' % (s, z))
            elif s != z and type(q.tail) is not PolymorphemePath:
                r = p.remove_prefix(q)
                ctx.equal(str(r), s[len(z):], '%s without %s' % (s, z))
                ctx.equal(str(q.concat(r)), s, '%s and %s together' % (z, r))
                ctx.equal(ws(r.deference(q.deference(u))), ws(p.deference(u)), 'usl at %s and then %s' % (z, r))
                ctx.event('prefixes removed')


def gen_other(rng, m):
    return build(rng, mutate(rng, m) if rng.random() < .6 else gen(rng))


def flexion_pm(rng):
    """a flexion whose morphemes tell the groups they are in"""
    roots = [script(x) for x in rng.sample(ROLES.FLEXIONS, rng.randint(0, 4))]
    c, gs = [], []
    for r in roots:
        ss = [str(x) for x in r.singular_sequences if not x.empty]
        if rng.random() < .35 and len(gs) < 3:
            gs.append((rng.sample(ss, rng.randint(2, min(4, len(ss)))), 1))
        else:
            c.append(rng.choice(ss))
    return 'pm', c, gs


def with_flexions(rng, lex):
    return 'lex', flexion_pm(rng), lex[2]


def rebuild(ctx, rng, i):
    m = gen(rng)
    if m[0] == 'lex':
        m = with_flexions(rng, m)
    elif m[0] == 'word':
        m = 'word', m[1], [(a, with_flexions(rng, l)) for a, l in m[2]], m[3]
    ctx.about(text(m))
    lexs = [m] if m[0] == 'lex' else [l for _, l in m[2]] if m[0] == 'word' else []
    if any(l[1][2] for l in lexs):
        ctx.event('flexion groups')
    u = obtain(rng, m)
    items = list(u.iter_structure_path_by_script_ss())
    for k in range(3):
        rng.shuffle(items)
        if k == 0:
            v = usl(items)
        elif k == 1:
            v = usl_from_path_values([(str(p), str(x)) for p, x in items])
        else:
            # what is given twice counts once
            v = usl(items + rng.sample(items, rng.randint(1, len(items))))
        ctx.event('usls rebuilt')
        ctx.equal(ws(v), ws(u), 'usl rebuilt from the paths of %s' % text(m))
        ctx.check(v == u and type(v) is type(u), 'the usl rebuilt from the paths of {} is different', text(m))
        v.check()
    if len(items) > 2:
        ctx.seen(text(m), 'rebuilt')
    k = rng.randrange(len(items))
    p, x = items[k]
    items[k] = rng.choice([(str(p), x), (p, str(x)), (x, p), (p, None), (None, x), (p, p), (p, 3)])
    try:
        v = usl(items)
    except ValueError:
        ctx.event('lists refused')
    else:
        ctx.fail('the list with {!r} is read as {}'.format(items[k], v))


def refuse(ctx, rng, i):
    m = gen(rng)
    u = obtain(rng, m)
    other = gen(rng, rng.choice([m[0], 'pm', 'lex', 'word']))
    known = {p.replace('! ', '') for p, _ in model(m)}
    paths = [p for p, _ in model(other) + model(mutate(rng, m))]
    ctx.about((text(m), text(other)))
    for p in rng.sample(paths, min(len(paths), 12)):
        if p.replace('! ', '') in known or p == '>':
            continue
        if p.startswith('>role'):
            # a valence stands for any other, the first role of the words that are not processes is not looked at
            if m[0] == 'word':
                role = p.split('>')[2].replace('! ', '').split(' ')
                mine = {a for a, _ in m[2]}
                if m[1] == 'process':
                    if role[0] in roles().valence or role[0] not in roles().actants:
                        continue
                elif role[0] in roles().actants + roles().valence:
                    pass
                else:
                    if any(a[1:] == tuple(role[1:]) for a in mine):
                        continue
                # a junction has no lexeme of its own
                if any(a[:len(role)] == tuple(role) or a[1:len(role)] == tuple(role[1:]) for a in mine if a != tuple(role)):
                    continue
        if p.endswith('>E:'):
            continue
        if 'group_' in p and m[0] != 'pm':
            # the multiplicity written in a path is not compared
            k = p.index('group_')
            if any(q[:k + 7] == p[:k + 7] and q[k + 9:] == p[k + 9:] for q in known):
                continue
        elif 'group_' in p and any(q[:8] == p[:8] and q[10:] == p[10:] for q in known):
            continue
        if p.endswith('>constant') or p.endswith('>flexion') or p.endswith('>content'):
            head = p[:p.rindex('>')]
            if head == '' and m[0] == 'pm' and p == '>constant':
                continue
        q = read_path(p)
        try:
            x = q.deference(u)
        except DeferenceError:
            ctx.event('paths refused')
            ctx.check(not q.contained(u), 'the path {} is said to be in {}', p, text(m))
            continue
        ctx.fail('the path {} gives {} in {} that does not have it'.format(p, x, text(m)))


KINDS = {'names': (names, 400, 4000), 'follow': (follow, 700, 10000), 'rebuild': (rebuild, 500, 8000), 'refuse': (refuse, 700, 10000), 'algebra': (algebra, 500, 8000)}
