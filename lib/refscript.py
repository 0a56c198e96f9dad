"""Independent reference model of IEML scripts (no import of the code under test).

A script of layer L denotes a set of primitive strings of length 3**L over EUASBT.  The model keeps the
syntax tree (sum / product) because the normal form is syntactic, and computes from it: the denoted set, the
canonical text, the documented ordering and the cardinal.
"""
from itertools import product as _product

MARKS = ":.-',_;"
PRIM = 'EUASBT'
VAL = {'E': 1, 'U': 2, 'A': 4, 'S': 8, 'B': 16, 'T': 32}
SUMS = {'O': 'UA', 'M': 'SBT', 'F': 'UASBT', 'I': 'EUASBT'}
REM = {
    'wo': 'UU', 'wa': 'UA', 'y': 'US', 'o': 'UB', 'e': 'UT',
    'wu': 'AU', 'we': 'AA', 'u': 'AS', 'a': 'AB', 'i': 'AT',
    'j': 'SU', 'g': 'SA', 's': 'SS', 'b': 'SB', 't': 'ST',
    'h': 'BU', 'c': 'BA', 'k': 'BS', 'm': 'BB', 'n': 'BT',
    'p': 'TU', 'x': 'TA', 'd': 'TS', 'f': 'TB', 'l': 'TT'}
REM_INV = {v: k for k, v in REM.items()}
MAX_SS = 360


class RefError(Exception):
    pass


class N:
    """normalised node: kind in prim/null/add/mul"""
    __slots__ = ('kind', 'layer', 'ch', 'text', 'card', 'canon', '_key', '_den')

    def __init__(self, kind, layer, ch, text, card, canon):
        self.kind, self.layer, self.ch, self.text, self.card, self.canon = kind, layer, ch, text, card, canon
        self._key = None
        self._den = None

    def __eq__(self, o):
        return isinstance(o, N) and self.text == o.text

    def __hash__(self):
        return hash(self.text)

    def __repr__(self):
        return 'N(%s)' % self.text

    @property
    def empty(self):
        return self.kind == 'null'

    @property
    def den(self):
        """frozenset of primitive strings denoted"""
        if self._den is None:
            if self.kind in ('prim', 'null'):
                self._den = frozenset([leaf(self)])
            elif self.kind == 'add':
                self._den = frozenset().union(*(c.den for c in self.ch))
            else:
                self._den = frozenset(a + b + c for a, b, c in _product(*(k.den for k in self.ch)))
        return self._den


def leaf(n):
    return n.text[0] if n.kind == 'prim' else 'E' * 3 ** n.layer


def null(layer):
    return N('null', layer, (), 'E' + MARKS[:layer + 1], 1, bytes([1] * 3 ** layer))


def prim(c):
    return null(0) if c == 'E' else N('prim', 0, (), c + ':', 1, bytes([VAL[c]]))


def key(n):
    """documented order: layer, empty first, number of singular sequences, canonical form, then children"""
    if n._key is None:
        n._key = (n.layer, 0 if n.empty else 1, n.card, n.canon, 0 if n.kind in ('mul', 'prim', 'null') else 1,
                  tuple(key(c) for c in n.ch))
    return n._key


def add(children):
    flat = []
    for c in children:
        flat.extend(c.ch if c.kind == 'add' else [c])
    layer = flat[0].layer
    if any(c.layer != layer for c in flat):
        raise RefError('layers')
    uniq = sorted({c.text: c for c in flat}.values(), key=key)
    if len(uniq) == 1:
        return uniq[0]
    if layer == 0:
        chars = ''.join(c.text[0] for c in uniq)
        text = '+'.join(c.text for c in uniq)
        for k, v in SUMS.items():
            if sorted(v) == sorted(chars):
                text = k + ':'
        canon = bytes([sum(VAL[c] for c in chars)])
    else:
        text = '+'.join(c.text for c in uniq)
        canon = b''.join(c.canon for c in uniq)
    card = sum(c.card for c in uniq)
    return N('add', layer, tuple(uniq), text, card, canon)


def mul(children):
    children = list(children)
    layer = children[0].layer + 1
    while len(children) < 3:
        children.append(null(layer - 1))
    if any(c.layer != layer - 1 for c in children):
        raise RefError('layers')
    if all(c.empty for c in children):
        return null(layer)
    ch = tuple(children)
    keep = 3
    while keep > 1 and ch[keep - 1].empty:
        keep -= 1
    text = ''.join(c.text for c in ch[:keep])
    if layer == 1 and keep == 2 and all(c.kind == 'prim' for c in ch[:2]):
        text = REM_INV[ch[0].text[0] + ch[1].text[0]]
    card = ch[0].card * ch[1].card * ch[2].card
    return N('mul', layer, ch, text + MARKS[layer], card, b''.join(c.canon for c in ch))


def sums(c):
    return add([prim(x) for x in SUMS[c]])


def rem(c):
    return mul([prim(x) for x in REM[c]])


def parse(s):
    """reference parser; raises RefError on anything that is not a script (blanks between tokens are ignored)"""
    s = s.replace(' ', '').replace('\t', '').replace('\n', '').replace('\u2019', "'")
    stack = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c in PRIM or c in SUMS:
            if i + 1 >= n or s[i + 1] != ':':
                raise RefError('primitive without mark')
            _push(stack, prim(c) if c in PRIM else sums(c))
            i += 2
        elif c == '+':
            if not stack or stack[-1] == '+':
                raise RefError('plus')
            stack.append('+')
            i += 1
        elif c in MARKS[1:]:
            layer = MARKS.index(c)
            factors = []
            while stack and stack[-1] != '+' and stack[-1].layer == layer - 1:
                terms = [stack.pop()]
                while len(stack) >= 2 and stack[-1] == '+' and stack[-2] != '+' and stack[-2].layer == layer - 1:
                    stack.pop()
                    terms.append(stack.pop())
                factors.append(add(terms))
            if not 1 <= len(factors) <= 3:
                raise RefError('factors')
            _push(stack, mul(factors[::-1]))
            i += 1
        else:
            two = s[i:i + 2]
            r = two if two in REM else (c if c in REM else None)
            if r is None or s[i + len(r):i + len(r) + 1] != '.':
                raise RefError('char %r' % c)
            _push(stack, rem(r))
            i += len(r) + 1
    if not stack or stack[-1] == '+':
        raise RefError('eof')
    terms = [stack.pop()]
    while stack:
        if stack[-1] != '+' or len(stack) < 2 or stack[-2] == '+':
            raise RefError('juxtaposed')
        stack.pop()
        terms.append(stack.pop())
    return add(terms)


def _push(stack, node):
    stack.append(node)


def singular_text(prims):
    """canonical text of the singular sequence made of these primitives (length 3**L)"""
    return from_prims(prims).text


_CACHE = {}


def from_prims(p):
    r = _CACHE.get(p)
    if r is None:
        r = prim(p) if len(p) == 1 else mul([from_prims(p[i * len(p) // 3:(i + 1) * len(p) // 3]) for i in range(3)])
        if len(_CACHE) < 200000:
            _CACHE[p] = r
    return r


def expand(n):
    """ordered list of texts of the singular sequences denoted by n"""
    return [x.text for x in sorted((from_prims(p) for p in n.den), key=key)]


def disjoint(n):
    """True when no sum in n has overlapping terms (then card == number of singular sequences)"""
    return len(n.den) == n.card


# ---------------------------------------------------------------- random scripts and spellings

def gen(rng, layer, budget=24, p_sum=0.35, empties=0.35, disj=True):
    """random normalised script of the given layer with card <= budget"""
    for _ in range(50):
        n = _gen(rng, layer, budget, p_sum, empties)
        if n.card <= budget and (not disj or disjoint(n)):
            return n
    return rng.choice([null(layer), promote(prim(rng.choice(PRIM)), layer)])


def promote(n, layer):
    while n.layer < layer:
        n = mul([n])
    return n


def _gen(rng, layer, budget, p_sum, empties):
    if budget < 1:
        budget = 1
    if layer == 0:
        r = rng.random()
        if budget >= 2 and r < 0.25:
            c = [k for k in SUMS if len(SUMS[k]) <= budget]
            return sums(rng.choice(c))
        if budget >= 2 and r < 0.25 + p_sum * 0.6:
            k = rng.randint(2, min(5, budget))
            return add([prim(c) for c in rng.sample(PRIM, k)])
        return prim(rng.choice('UASBT' if rng.random() > empties * .5 else PRIM))
    if budget >= 2 and rng.random() < p_sum:
        k = rng.randint(2, 4)
        b = budget
        terms = []
        for i in range(k):
            t = _gen(rng, layer, max(1, b // 2 if i < k - 1 else b), p_sum * 0.4, empties)
            if t.card <= b:
                terms.append(t)
                b -= t.card
            if b <= 0:
                break
        if terms:
            return add(terms)
    r = rng.random()
    if layer >= 1 and r < 0.12:
        n = rem(rng.choice(list(REM)))
        return promote(n, layer)
    if r < 0.17:
        return null(layer)
    out = []
    b = budget
    for i in range(3):
        if (i > 0 and rng.random() < empties) or (i == 0 and rng.random() < empties * .3):
            out.append(null(layer - 1))
            continue
        t = _gen(rng, layer - 1, b if rng.random() < .6 else 1, p_sum * 0.8, empties)
        if t.card > b:
            t = promote(prim(rng.choice('UASBT')), layer - 1)
        out.append(t)
        b //= t.card
    return mul(out)


def respell(rng, n, noise=True):
    """random other spelling of the same normal form"""
    ws = (lambda: rng.choice(['', '', '', ' ', '\t', '\n', '  '])) if noise else (lambda: '')
    if n.kind == 'prim':
        return n.text[0] + ws() + ':'
    if n.kind == 'null':
        if n.layer == 0:
            return 'E' + ws() + ':'
        k = rng.randint(1, 3) if rng.random() < .5 else 1
        return ws().join(respell(rng, null(n.layer - 1), noise) for _ in range(k)) + ws() + MARKS[n.layer]
    if n.kind == 'add':
        if n.layer == 0 and len(n.text) == 2 and rng.random() < .5:
            return n.text[0] + ws() + ':'
        ch = list(n.ch)
        rng.shuffle(ch)
        if rng.random() < .4:
            ch.insert(rng.randrange(len(ch) + 1), rng.choice(ch))
        if n.layer == 0 and rng.random() < .4:   # replace a subset by its remarkable sum
            have = {c.text[0] for c in ch}
            cand = [k for k, v in SUMS.items() if set(v) <= have]
            if cand:
                k = rng.choice(cand)
                rest = [c for c in ch if c.text[0] not in SUMS[k] or rng.random() < .3]
                parts = [k + ':'] + [respell(rng, c, noise) for c in rest]
                rng.shuffle(parts)
                return (ws() + '+' + ws()).join(parts)
        return (ws() + '+' + ws()).join(respell(rng, c, noise) for c in ch)
    mark = MARKS[n.layer]
    if n.layer == 3 and rng.random() < .3:
        mark = '\u2019'
    if n.layer == 1 and n.text[0] in 'wyoeuaijgsbthckmnpxdfl' and rng.random() < .5:
        return n.text[:-1] + ws() + mark
    keep = 3
    while keep > 1 and n.ch[keep - 1].empty:
        keep -= 1
    keep = rng.randint(keep, 3) if rng.random() < .4 else keep
    return ws().join(respell(rng, c, noise) for c in n.ch[:keep]) + ws() + mark
