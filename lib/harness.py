"""Worker side of the monitors: case scheduling, event counters, verdicts.

A check module (in /verif/checks) has PROPERTY, RULE, ASSUMPTIONS, REQUIRED (events that must have been observed) and
either KINDS = {kind: (function(ctx, rng, i), quick_count, thorough_count)} and optionally FINISH(results) or INIT(ctx).
Each case gets a generator seeded by (VERIF_SEED, property, kind, i), so it can be replayed alone.
"""
import hashlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback


class Violation(Exception):
    """the oracle rejects what was observed"""


class KnownFinding(Exception):
    """what was observed is one of the findings of known-findings.txt"""


class Skip(Exception):
    """the case is trivial or outside of the property"""


class Hang(BaseException):
    pass


def h(*parts):
    return hashlib.sha1(repr(parts).encode('utf8')).hexdigest()


class Ctx:
    def __init__(self, prop, tier, seed, shard=0, nshards=1, scratch=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.shard, self.nshards = shard, nshards
        self.scratch = scratch
        self.events = {}
        self.distinct = {}
        self.digests = {}
        self.samples = []
        self.evaluations = 0
        self.known = {}
        self.violations = []
        self.case = None
        self.note = None

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def rng(self, *key):
        return random.Random(int(h(self.seed, self.prop, *key), 16))

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def seen(self, key, name='case'):
        self.distinct.setdefault(name, set()).add(h(key)[:16])

    def sample(self, s, every=1):
        if len(self.samples) < 6:
            self.samples.append(s)

    def digest(self, key, value):
        """value that every worker (other hash seed) must also find for this key"""
        self.digests[key] = h(value)[:20] if not isinstance(value, str) or len(value) > 60 else value

    def about(self, note):
        """what the current case is doing, for the report of a violation"""
        self.note = note

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg, *args):
        self.event('assertions')
        if not cond:
            raise Violation(msg.format(*args) if args else msg)

    def equal(self, got, want, what):
        self.event('assertions')
        if got != want:
            raise Violation('{}: got {!r:.600} expected {!r:.600}'.format(what, got, want))

    def known_finding(self, key, detail):
        self.known.setdefault(key, detail)
        self.event('known finding ' + key)


def _alarm(sig, frame):
    raise Hang()


def run_case(ctx, kind, fn, i, limit):
    """one case; records a violation when the oracle rejects or the code under test raises what it must not"""
    ctx.case = (kind, i)
    ctx.note = None
    rng = ctx.rng(kind, i)
    ctx.evaluations += 1
    ctx.event('cases ' + kind)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        fn(ctx, rng, i)
    except Skip:
        ctx.event('skipped ' + kind)
    except Violation as e:
        _record(ctx, kind, i, str(e))
    except KnownFinding as e:
        ctx.known_finding(*e.args)
    except Hang:
        _record(ctx, kind, i, 'no answer within {} s\n{}'.format(limit, traceback.format_exc()[-1500:]))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        text = traceback.format_exc()[-2500:]
        where = 'unexpected exception' if any(f.filename.startswith('/repo/') for f in tb) else \
            'what the library gives can not be used as specified, exception of the monitor'
        _record(ctx, kind, i, '{} {!r:.300}\n{}'.format(where, e, text))
    finally:
        signal.alarm(0)
        if ctx.note is not None and len(ctx.samples) < 3:
            ctx.sample(repr(ctx.note)[:600])


def _record(ctx, kind, i, msg):
    ctx.violations.append({
        'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'kind': kind, 'index': i, 'message': msg,
        'case': repr(ctx.note)[:4000], 'hashseed': os.environ.get('PYTHONHASHSEED')})


def run_shard(mod, ctx, deadline, only=None):
    limit = getattr(mod, 'CASE_LIMIT', 120)
    if hasattr(mod, 'INIT'):
        mod.INIT(ctx)
    shared = getattr(mod, 'SHARED', ())      # kinds that every worker runs entirely
    if only is not None:
        kind, i = only
        run_case(ctx, kind, mod.KINDS[kind][0], i, limit)
        return
    plan = []
    for kind, (fn, quick, thorough) in mod.KINDS.items():
        n = thorough if ctx.thorough else quick
        idx = range(n) if kind in shared else range(ctx.shard, n, ctx.nshards)
        plan.append([kind, fn, iter(idx), len(idx), 0])
    # interleave the kinds so that a deadline cuts all of them evenly
    while plan:
        plan.sort(key=lambda p: p[4] / max(1, p[3]))
        p = plan[0]
        try:
            i = next(p[2])
        except StopIteration:
            plan.pop(0)
            continue
        p[4] += 1
        run_case(ctx, p[0], p[1], i, limit)
        if len(ctx.violations) >= 3:
            break
        if time.time() > deadline:
            ctx.event('deadline reached')
            break


def main():
    # worker.py property tier seed shard nshards scratch out deadline [kind index]
    prop, tier, seed, shard, nshards, scratch, out, deadline = sys.argv[1:9]
    ctx = Ctx(prop, tier, int(seed), int(shard), int(nshards), scratch)
    only = (sys.argv[9], int(sys.argv[10])) if len(sys.argv) > 9 else None
    res = {'error': None}
    # code that runs away is stopped by an exception, which is a violation, and not by the system
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    try:
        import instrument
        instrument.install()
        mod = __import__('c' + prop[1:])
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith('/repo/') for f in tb):
            _record(ctx, 'import', 0, 'the library can not be imported: ' + traceback.format_exc()[-2500:])
            mod = None
        else:
            raise
    if mod is not None:
        run_shard(mod, ctx, float(deadline), only)
    res.update(events=ctx.events, distinct={k: sorted(v) for k, v in ctx.distinct.items()}, digests=ctx.digests,
               samples=ctx.samples, evaluations=ctx.evaluations, known=ctx.known, violations=ctx.violations)
    with open(out, 'w') as fp:
        json.dump(res, fp)


if __name__ == '__main__':
    try:
        main()
    except BaseException:
        sys.__stderr__.write(traceback.format_exc())
        raise
