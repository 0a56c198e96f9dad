"""C08 reading in several threads or processes gives what a single reader gives."""
import json
import os
import pickle
import random
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

import refscript as R
import refusl as U
from dbkit import scratch
from sut import *
from ieml.usl.usl import usl
from ieml.usl.parser import IEMLParser
from ieml.usl.decoration.parser.parser import PathParser

PROPERTY = 'C08'
RULE = ('2 to 8 threads read random valid and invalid scripts, usls and paths with shared and private readers and expand shared paradigms, with a switch '
        'interval of 1 us and forced switches at random lines of the library and of ply; processes started together on an empty cache of parser tables, '
        'killed while they write it, or given damaged tables; each answer is compared with the one of an independent model; non-trivial when the answers of '
        'at least two threads were interleaved; distinct = order in which the threads finished their reads')
ASSUMPTIONS = ['CPython threads with the GIL', 'a process can be killed at any time but a file renamed is renamed as a whole']
REQUIRED = ['concurrent reads', 'forced switches', 'cold processes', 'damaged tables', 'processes killed', 'errors raised concurrently', 'interleaved runs', 'sums that are factorized']
CASE_LIMIT = 240
HERE = os.path.dirname(os.path.abspath(__file__))


def INIT(ctx):
    global ROLES, PARSER, PATHS
    ROLES = U.Roles()
    PARSER = IEMLParser()
    PATHS = PathParser()


def ws(t):
    return re.sub(r'\s+', ' ', str(t))


def job(rng):
    """(how, text, expected canonical text or None when it must be rejected)"""
    r = rng.random()
    if r < .12:
        # a sum written in full, which is read as it is or factorized
        n = R.gen(rng, rng.choice([1, 2]), 8)
        t = '+'.join(R.expand(n))
        return 'factorized', t, '?'
    if r < .17:
        n = R.gen(rng, rng.choice([1, 2]), 8)
        t = '+'.join(R.expand(n))
        return 'usl', t, R.parse(t).text
    if r < .25:
        n = R.gen(rng, rng.choice([1, 2, 3, 4]), 8)
        return 'script', R.respell(rng, n), n.text
    if r < .33:
        n = R.gen(rng, rng.choice([1, 2, 3]), 8)
        return 'script', n.text + rng.choice([':', '+', '.-', 'a', ")"]) + rng.choice(['+', ':', 'U']), None
    if r < .5:
        lex = U.gen_lex(rng)
        return 'usl', U.rs_lex(rng, lex), U.txt_lex(lex)
    if r < .72:
        w = U.gen_word(rng, ROLES, max_items=4)
        return 'usl', U.rs_word(rng, w), U.txt_word(w, ROLES.order)
    if r < .8:
        w = U.gen_word(rng, ROLES, max_items=3)
        return 'usl', U.txt_word(w, ROLES.order)[:-rng.randint(1, 5)], None
    p = rng.choice([">", ">role>%s" % rng.choice(ROLES.actants), ">E:A:.", ">role>E:A:.>content>constant>%s" % rng.choice(U.pool(rng, 1)), ">content"])
    return 'path', p, '?'


def read(how, text, shared, rng):
    if how == 'script':
        return script(text)
    if how == 'factorized':
        return (PARSER if shared else IEMLParser()).parse(text, factorize_script=True) if rng.random() < .7 else script(text, factorize=True)
    if how == 'path':
        return (PATHS if shared else PathParser()).parse(text)
    if shared:
        return PARSER.parse(text)
    return usl(text) if rng.random() < .5 else IEMLParser().parse(text)


def threads(ctx, rng, i):
    nt = rng.choice([2, 4, 4, 8])
    jobs = [[job(rng) for _ in range(6)] for _ in range(nt)]
    # what a single reader says of the paths
    for js in jobs:
        for k, (how, text, want) in enumerate(js):
            if want == '?':
                try:
                    js[k] = (how, text, str(PATHS.parse(text) if how == 'path' else PARSER.parse(text, factorize_script=True)))
                    if how == 'factorized' and js[k][2] != str(PARSER.parse(text)):
                        ctx.event('sums that are factorized')
                except CannotParse:
                    js[k] = (how, text, None)
    common = R.gen(rng, 3, 24)
    common_script = build(rng, common)
    want_common = R.expand(common)
    ctx.about(jobs)
    results, order, crashes = [], [], []
    barrier = threading.Barrier(nt)
    traced = rng.random() < .6
    seeds = [rng.random() for _ in range(nt)]
    shared = rng.random() < .8
    switches = [0] * nt

    def work(k):
        r = random.Random(seeds[k])
        p = r.choice([.002, .01, .05])

        def tracer(frame, event, arg):
            f = frame.f_code.co_filename
            if '/repo/' not in f and '/ply/' not in f:
                return None
            if r.random() < p:
                switches[k] += 1
                time.sleep(0)
            return tracer
        barrier.wait()
        if traced:
            sys.settrace(tracer)
        try:
            for n, (how, text, want) in enumerate(jobs[k]):
                try:
                    got = str(read(how, text, shared, r))
                except CannotParse:
                    got = None
                results.append((k, how, text, want, got))
                order.append(k)
                if n == 2:
                    results.append((k, 'expand', common.text, want_common, texts(common_script.singular_sequences)))
        except BaseException as e:
            import traceback
            crashes.append(traceback.format_exc()[-1500:])
        finally:
            sys.settrace(None)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(nt)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(100)
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in ts):
        ctx.fail('a thread does not end')
    if crashes:
        ctx.fail('a thread raised ' + crashes[0])
    for k, how, text, want, got in results:
        ctx.event('concurrent reads')
        if want is None:
            ctx.check(got is None, 'thread {}: {!r} was read as {!r}', k, text, got)
            ctx.event('errors raised concurrently')
        elif how == 'expand':
            ctx.equal(got, want, 'singular sequences of %s' % text)
        else:
            ctx.check(got is not None and ws(got) == ws(want), 'thread {}: {} {!r} was read as {!r} instead of {!r}', k, how, text, got, want)
    ctx.event('forced switches', sum(switches))
    if any(a != b for a, b in zip(order, sorted(order))):
        ctx.event('interleaved runs')
        ctx.seen(order)
    # the readers are still usable
    n = R.gen(rng, 2, 6)
    ctx.equal(str(script(R.respell(rng, n))), n.text, 'a script read after the threads')


def some_jobs(rng):
    out = []
    while len(out) < 4:
        how, text, want = job(rng)
        if want != '?':
            out.append((how, text, want))
    out.append(('usl', '[! E:A:. (a.)] [> "x"]', '[! E:A:. (a.)] [> "x"]'))
    return out


def cold(cache, jobs, hashseed, timeout=100, popen=False):
    env = dict(os.environ, XDG_CACHE_HOME=cache, PYTHONHASHSEED=str(hashseed))
    p = subprocess.Popen([sys.executable, os.path.join(HERE, '..', 'lib', 'cold.py')], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True)
    return p


def send(p, jobs):
    p.stdin.write(json.dumps([j[:2] for j in jobs]))
    p.stdin.close()
    p.stdin = None


def judge(ctx, p, jobs, what):
    out, err = p.communicate(timeout=150)
    if p.returncode != 0:
        ctx.fail('%s: the process ends with %s: %s' % (what, p.returncode, err[-1500:]))
    for (how, text, want), got in zip(jobs, json.loads(out)):
        ctx.event('concurrent reads')
        if want is None:
            ctx.check(got == 'error CannotParse', '{}: {!r} gives {!r}', what, text, got)
        else:
            ctx.check(ws(got) == ws(want), '{}: {!r} gives {!r} instead of {!r}', what, text, got, want)


def start(ctx, rng, i):
    """processes started together on an empty cache"""
    with scratch(ctx) as d:
        jobs = [some_jobs(rng) for _ in range(rng.choice([2, 3, 4]))]
        ctx.about(jobs)
        ps = []
        for k, j in enumerate(jobs):
            ps.append(cold(d, j, k))
            if rng.random() < .3:
                time.sleep(rng.random() * .5)
        for p, j in zip(ps, jobs):
            send(p, j)
        for p, j in zip(ps, jobs):
            judge(ctx, p, j, 'process started on an empty cache')
            ctx.event('cold processes')
        p = cold(d, jobs[0], 9)
        send(p, jobs[0])
        judge(ctx, p, jobs[0], 'process started on the cache they left')
        ctx.seen(repr(jobs), 'cold')


def tables(cache):
    out = []
    for base, _, files in os.walk(cache):
        out += [os.path.join(base, f) for f in files]
    return sorted(out)


def damage(ctx, rng, i):
    with scratch(ctx) as d:
        shutil.copytree(os.environ['XDG_CACHE_HOME'], d + '/c')
        files = tables(d + '/c')
        if not files:
            return
        how = ['truncate', 'truncate', 'empty', 'garbage', 'flip', 'other', 'swap', 'remove', 'zero'][i % 9]
        for f in rng.sample(files, rng.randint(1, len(files))):
            data = open(f, 'rb').read()
            if how == 'truncate':
                data = data[:rng.randrange(len(data) + 1)]
            elif how == 'empty':
                data = b''
            elif how == 'garbage':
                data = rng.randbytes(rng.randint(1, 4000))
            elif how == 'flip':
                # a damage at the beginning, which is not a valid pickle of the tables any more
                data = bytes([data[0] ^ 0xff]) + data[1:]
            elif how == 'other':
                data = pickle.dumps(rng.choice([None, {}, 42, [], 'x', ('a', 'b')]))
            elif how == 'swap':
                data = open(rng.choice(files), 'rb').read()
            elif how == 'zero':
                data = data[:rng.randrange(len(data))].ljust(len(data), b'\0')
            if how == 'remove':
                os.remove(f)
            else:
                with open(f, 'wb') as fp:
                    fp.write(data)
        jobs = some_jobs(rng)
        ctx.about((how, jobs))
        ctx.event('damaged tables')
        for turn in range(2):
            p = cold(d + '/c', jobs, turn)
            send(p, jobs)
            judge(ctx, p, jobs, 'tables damaged (%s), process %d' % (how, turn))
        ctx.seen((how, jobs), 'damage')


def killed(ctx, rng, i):
    with scratch(ctx) as d:
        jobs = some_jobs(rng)
        ctx.about(jobs)
        for _ in range(rng.randint(1, 3)):
            p = cold(d, jobs, 0)
            send(p, jobs)
            delay = rng.random() * 2.5
            try:
                p.wait(timeout=delay)
            except subprocess.TimeoutExpired:
                p.send_signal(signal.SIGKILL)
                ctx.event('processes killed')
                ctx.seen(round(delay, 2), 'kill delays')
            p.communicate()
        p = cold(d, jobs, 1)
        send(p, jobs)
        judge(ctx, p, jobs, 'after killed processes')


KINDS = {'threads': (threads, 400, 8000), 'start': (start, 12, 160), 'damage': (damage, 36, 400), 'killed': (killed, 24, 300)}
