"""C07 reading any text gives a normalised object or the documented error, and leaves the readers usable."""
import random
import re
import refscript as R
import refusl as U
from sut import *
from ieml.usl.usl import usl, USL
from ieml.usl.parser import IEMLParser
from ieml.usl.decoration.parser.parser import PathParser
from ieml.usl.decoration.path import UslPath

PROPERTY = 'C07'
RULE = ('texts obtained by mutating valid scripts, polymorphemes, lexemes, words and decorated usls (characters and tokens '
        'deleted, inserted, swapped, repeated, truncated, nested), random token sequences and random unicode; after a '
        'rejected text a valid one, or the valid one it was made from, is read with the same reader; readers with a dictionary refuse the morphemes it does not have; non-trivial when the text is rejected')
ASSUMPTIONS = ['for scripts the acceptance is decided by an independent parser of the grammar when all characters are '
               'legal; characters outside of the alphabet are outside of the comparison',
               'a reading that takes more than 60 s is a hang']
REQUIRED = ['scripts accepted', 'scripts rejected', 'usls accepted', 'usls rejected', 'paths rejected', 'paths accepted',
            'valid texts read after a rejection', 'texts like the rejected one', 'texts with unknown morphemes rejected', 'texts with known morphemes read',
            'texts with unknown morphemes read by another reader']
CASE_LIMIT = 60
ALPHA = "EUASBTOMFIwoayeuijgsbthckmnpxdfl:.-',_;+ "
TOKENS = ['(', ')', '[', ']', '>', '!', 'm1', 'm2', 'm0', 'm9', 'a.', 'b.', 'U:', 'E:', 'E:A:.', 'E:.n.-', 'E:U:.wa.-', 'I:', 'E:.b.E:S:.-',
          '"x"', '[> "y"]', '()', '(a.)', ' ', '#', '#lit#', '\\', '"', '/', 'S:.', 'E:T:.p.-', 'E:S:.j.-', 'E:.-', '{', '}', ':', '+',
          '>role', '>content', '>flexion', '>constant', 'é', '\u2019', 'E:A:.t.-', 'a.-', "a.-'", ';', '\n', '\r', '0']
DOC = (CannotParse, TooManySingularSequences)


def INIT(ctx):
    global ROLES
    ROLES = U.Roles()


def mutate(rng, t, alphabet, tokens):
    t = list(t)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        r = rng.random()
        k = rng.randrange(len(t) + 1)
        if r < .25 and t:
            del t[min(k, len(t) - 1)]
        elif r < .4:
            t.insert(k, rng.choice(alphabet))
        elif r < .55:
            t.insert(k, rng.choice(tokens))
        elif r < .7 and t:
            t[min(k, len(t) - 1)] = rng.choice(alphabet)
        elif r < .8:
            j = rng.randrange(len(t) + 1)
            a, b = min(j, k), max(j, k)
            t = t[:a] + t[b:]
        elif r < .9:
            j = rng.randrange(len(t) + 1)
            a, b = min(j, k), max(j, k)
            t = t[:b] + t[a:b][:20] + t[b:]
        elif len(t) > 1:
            j = rng.randrange(len(t))
            k = min(k, len(t) - 1)
            t[j], t[k] = t[k], t[j]
    return ''.join(t)


def scripts(ctx, rng, i):
    r = rng.random()
    source = None
    if r < .7:
        n = R.gen(rng, rng.choice(LAYERS), 10, disj=False)
        source = R.respell(rng, n), n.text
        text = mutate(rng, source[0], ALPHA, [c + ':' for c in 'EUASBTOMFI'] + ['wa.', '+', '.', '-']) if rng.random() < .85 else spaced(rng, source[0])
    elif r < .95:
        text = ''.join(rng.choice(ALPHA) for _ in range(rng.randint(1, 14)))
    else:
        text = ''.join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(160, 0x3000), rng.randrange(0, 32)])) for _ in range(rng.randint(1, 20)))
    # a w is only legal before o, a, u, e; illegal characters are skipped
    legal = all(c in ALPHA + '\t\n\u2019' for c in text) and not re.search('w(?![oaue])', text)
    ctx.about(text)
    try:
        want = R.parse(text).text if legal else None
    except (R.RefError, IndexError):
        want = None
    try:
        s = script(text)
    except DOC:
        ctx.event('scripts rejected')
        ctx.seen(text)
        if legal and want is not None:
            ctx.check(R.parse(text).card > 360, 'the script {!r} is rejected', text)
        if source and rng.random() < .5:
            ctx.equal(str(script(source[0])), source[1], 'the script %r read after the rejected %r' % (source[0], text))
            ctx.event('texts like the rejected one')
        probe(ctx, rng)
        return
    ctx.check(isinstance(s, Script), '{!r} is read as {!r}', text, s)
    ctx.event('scripts accepted')
    if legal:
        ctx.check(want is not None, '{!r} is not a script but is read as {}', text, s)
        ctx.equal(str(s), want, 'text of the script read from %r' % text)
    ctx.equal(str(script(str(s))), str(s), 'second reading')


def probe(ctx, rng):
    """a valid text read after a rejection"""
    n = R.gen(rng, rng.choice([0, 1, 2, 3]), 6, disj=False)
    ctx.equal(str(script(R.respell(rng, n))), n.text, 'a valid script read after a rejected text')
    ctx.event('valid texts read after a rejection')


def ws(t):
    return re.sub(r'\s+', ' ', str(t))


def spaced(rng, t):
    """a text that differs only by its spaces"""
    r = rng.random()
    if r < .2:
        return ''.join(t.split())
    t = list(t)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        blanks = [k for k, c in enumerate(t) if c == ' ']
        if blanks and rng.random() < .5:
            del t[rng.choice(blanks)]
        else:
            t.insert(rng.randrange(len(t) + 1), ' ')
    return ''.join(t)


def valid(rng):
    """a valid text and its canonical text (None when it is decorated)"""
    r = rng.random()
    if r < .25:
        pm = U.gen_pm(rng, allow_empty=False)
        return U.rs_pm(rng, pm), U.txt_pm(pm)
    if r < .5:
        lex = U.gen_lex(rng, small=False)
        return U.rs_lex(rng, lex), U.txt_lex(lex)
    w = U.gen_word(rng, ROLES)
    t = U.rs_word(rng, w)
    if r < .75:
        return t, U.txt_word(w, ROLES.order)
    return t + rng.choice([' [> "x"]', ' [> "a \\" b"]', ' [>! "z"] [> "y"]', ' [>! :content "q"]', ' [>! content "q"]']), None


PARSER = []


def usls(ctx, rng, i):
    r = rng.random()
    source = None
    if r < .3:
        w = U.twist_roles(rng, U.gen_word(rng, ROLES, max_items=6), ROLES)
        if not w[2]:
            return
        text = U.rs_word(rng, w)
        if rng.random() < .1:
            text = text.replace('!', rng.choice(['', '! !', '>']), 1)
    elif r < .75:
        source = valid(rng)
        text = mutate(rng, source[0], ALPHA + '()[]!><"\\#{}m0123', TOKENS) if rng.random() < .8 else spaced(rng, source[0])
    elif r < .95:
        text = rng.choice(['', ' ']).join(rng.choice(TOKENS) for _ in range(rng.randint(1, 14)))
    else:
        text = ''.join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(160, 0x3000), rng.randrange(0, 32)])) for _ in range(rng.randint(1, 20)))
    if not PARSER:
        PARSER.append(IEMLParser())
    parser = PARSER[0] if rng.random() < .9 else IEMLParser()
    ctx.about(text)
    try:
        u = parser.parse(text)
    except DOC as e:
        ctx.event('usls rejected')
        ctx.seen(text)
        str(e)
        if source and source[1] is not None and rng.random() < .5:
            # the valid text that is the most like the rejected one
            ctx.equal(ws(parser.parse(source[0])), ws(source[1]), 'the usl %r read after the rejected %r' % (source[0], text))
            ctx.event('texts like the rejected one')
        k = U.gen_word(rng, ROLES) if rng.random() < .3 else None
        if k is not None:
            want = U.txt_word(k, ROLES.order)
            got = ws(parser.parse(U.rs_word(rng, k)))
        else:
            k = U.gen_lex(rng)
            want = U.txt_lex(k)
            got = ws(parser.parse(U.rs_lex(rng, k)))
        ctx.equal(got, ws(want), 'a valid usl read after a rejected text')
        ctx.event('valid texts read after a rejection')
        return
    ctx.event('usls accepted')
    ctx.check(isinstance(u, (USL, Script)), '{!r} is read as {!r}', text, u)
    if str(u).lstrip().startswith('[>'):
        return                                       # a decorated empty polymorpheme has no text of its own
    again = parser.parse(str(u)) if str(u) else u
    ctx.check(str(again) == str(u) and (again == u or type(again) != type(u)), 'second reading of {!r}: {} then {}', text, u, again)
    ctx.sample('accepted %r' % text)


PTOKENS = ['>', ':', 'role', 'content', 'flexion', 'constant', 'group_0', 'group_1', 'group_0 2', 'a.', 'E:A:.', '!', 'E:.n.-', '0', '1', '>>', ' ', '-',
           'm1', '/', 'S:', '>!', '_', 'junction', 'group', '*', ')', '(']


def paths(ctx, rng, i):
    from ieml.usl.decoration.parser.parser import PathParser
    w = U.gen_word(rng, ROLES)
    u = usl(U.txt_word(w, ROLES.order))
    real = [str(p) for p, _ in u.iter_structure_path()]
    source = t = rng.choice(real)
    if rng.random() < .8:
        t = mutate(rng, t, ALPHA + '>!0123:', PTOKENS) if rng.random() < .8 else rng.choice([t, spaced(rng, t)])
    else:
        t = rng.choice(['', ' ']).join(rng.choice(PTOKENS) for _ in range(rng.randint(1, 8)))
    ctx.about(t)
    p = PathParser()
    try:
        r = p.parse(t)
    except DOC:
        ctx.event('paths rejected')
        ctx.seen(('path', t))
        ctx.equal(str(p.parse(source)), source, 'the path %r read after the rejected %r' % (source, t))
        ctx.event('texts like the rejected one')
    else:
        ctx.event('paths accepted')
        ctx.check(isinstance(r, UslPath), '{!r} is read as {!r}', t, r)
        ctx.equal(str(p.parse(str(r))), str(r), 'second reading of the path %r' % t)
    ok = rng.choice(real)
    ctx.equal(str(p.parse(ok)), ok, 'a valid path read after %r' % t)
    ctx.event('valid texts read after a rejection')


def dictionary(ctx, rng, i):
    """a reader that only knows the morphemes of a dictionary refuses the others; a reader without a dictionary does not"""
    if not DICT:
        import dsut
        c = dsut.Case(random.Random(4))
        d = dsut.load(*c.inputs(random.Random(5)))
        DICT.extend([d, IEMLParser(dictionary=d), sorted(str(x) for x in d.scripts if len(x) == 1 and not x.empty)])
    d, reader, known = DICT
    other = IEMLParser()
    for _ in range(4):
        ms = rng.sample(known, min(len(known), rng.randint(1, 3)))
        bad = rng.random() < .5
        if bad:
            ms.append(next(x for x in U.pool(rng, 30) if x not in d))
        ms = sorted(set(ms))
        rng.shuffle(ms)
        pm = 'pm', ms, []
        m = pm if len(ms) > 1 and rng.random() < .4 else ('lex', ('pm', [], []), pm)
        t = U.txt_pm(m) if m[0] == 'pm' else U.txt_lex(m)
        ctx.about(t)
        for p in rng.sample([reader, other], 2):
            try:
                u = p.parse(t)
            except CannotParse:
                ctx.check(bad and p is reader, '{!r} is rejected', t)
                ctx.event('texts with unknown morphemes rejected')
                ctx.seen(('dictionary', t))
            else:
                ctx.check(not bad or p is other, '{!r} has a morpheme that is not in the dictionary and is read', t)
                ctx.equal(ws(u), ws(t), 'text of the usl read from %r' % t)
                ctx.event('texts with known morphemes read' if not bad else 'texts with unknown morphemes read by another reader')


DICT = []
KINDS = {'dictionary': (dictionary, 150, 3000), 'scripts': (scripts, 3000, 60000), 'usls': (usls, 3000, 60000), 'paths': (paths, 600, 8000)}
