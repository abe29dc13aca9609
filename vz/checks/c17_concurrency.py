"""C17: HammingDb histories from threads and processes, and after kills"""
import hashlib
import itertools
import json
import os
import random
import signal
import sys
import threading
import time
import traceback

from ..core import Check
from ..gen import *
from ..perturb import Perturb
from .c16_hammingdb import Shrunk, close, distance
from zounds.index.hammingdb import HammingDb

CHECK = Check(
    'C17',
    'Call/return histories recorded at the client boundary while threads and processes append and search '
    'under random hand-overs at source lines, judged offline for visibility, nearest-ness and exactly-once; '
    'processes killed at random lines and instants, judged by what was acknowledged.',
    technique='offline history checking of perturbed concurrent executions and SIGKILL fault injection',
    require=['overlapping append/search pairs', 'searches judged', 'kills in flight', 'kills by line',
             'kills by timer', 'cross-process searches'],
    soft_quick=420)

FILES = ('zounds/index/hammingdb.py', 'zounds/nputil/npx.py')


def overlap(events):
    n = 0
    searches = [e for e in events if e[0] == 'search']
    appends = [e for e in events if e[0] == 'append']
    for s in searches:
        n += sum(1 for a in appends if a[1] < s[2] and s[1] < a[2])
    return n


def judge(ctx, events, base, key):
    """events: (kind, invoked, returned, *payload); base: entries there beforehand.
    All entries are {value: code}, values unique."""
    known = {v: (c, -1, -1) for v, c in base.items()}
    for e in events:
        if e[0] == 'append':
            known[e[4]] = (e[3], e[1], e[2])
    for e in events:
        if e[0] == 'search':
            _, t0, t1, query, n, ordered, got = e
            ctx.count('searches judged')
            ctx.eq(len(set(got)), len(got), key + ':once')
            for v in got:
                ctx.expect(v in known, key + ':stored', v)
                ctx.expect(known[v][1] < t1, key + ':future', v)
            d = [distance(known[v][0], query) for v in got]
            ctx.expect(len(got) <= n, key + ':count')
            must = {v: distance(c, query) for v, (c, a, b) in known.items() if b < t0}
            ctx.expect(len(got) >= min(n, len(must)), key + ':count', len(got), 'of', n, 'with', len(must))
            missing = [m for v, m in must.items() if v not in got]
            if missing and n:
                ctx.expect(len(got) == n and min(missing) >= max(d), key + ':nearest',
                           'missed', min(missing), 'returned', sorted(d))
            elif n:
                ctx.count('judged:' + key + ':nearest')
            if ordered:
                ctx.eq(d, sorted(d), key + ':order')
        elif e[0] == 'len':
            _, t0, t1, n = e
            lo = sum(1 for c, a, b in known.values() if b < t0)
            hi = sum(1 for c, a, b in known.values() if a < t1)
            ctx.expect(lo <= n <= hi, key + ':len', n, 'not in', (lo, hi))
        elif e[0] == 'get':
            _, t0, t1, got = e
            # one writer, increasing values: a regular register
            done = [w[3] for w in events if w[0] == 'set' and w[2] < t0]
            begun = [w[3] for w in events if w[0] == 'set' and w[1] < t1]
            ctx.expect(max(done or [0]) <= got <= max(begun or [0]), key + ':metadata', got, done, begun)
    return known


def perform(db, plan, tick, out, size):
    for step in plan:
        kind = step[0]
        t0 = tick()
        if kind == 'append':
            db.append(step[1], step[2])
            out.append(('append', t0, tick(), step[1], step[2]))
        elif kind == 'search':
            got = list(db.search(step[1], step[2], multithreaded=step[4], sort=step[3]))
            out.append(('search', t0, tick(), step[1], step[2], step[3], [bytes(v) for v in got]))
        elif kind == 'len':
            n = len(db)
            out.append(('len', t0, tick(), n))
        elif kind == 'get':
            v = int(db.get_metadata(b'counter') or b'0')
            out.append(('get', t0, tick(), v))
        elif kind == 'set':
            db.set_metadata(b'counter', b'%d' % step[1])
            out.append(('set', t0, tick(), step[1]))
        elif kind == 'pause':
            time.sleep(step[1])


def plans(ctx, size, who, steps, role=None):
    """per-client list of steps"""
    role = role or ctx.choice(['writer', 'reader', 'both', 'both'])
    out, k = [], 0
    for i in range(steps):
        kind = {'writer': 'append', 'reader': 'search'}.get(role) or ctx.choice(['append', 'search'])
        if ctx.coin(.12):
            kind = ctx.choice(['len', 'get'])
        if kind == 'append':
            # distances from one another spread widely, so that a mixed-up code shows
            c = bytearray(ctx.rng.bytes(size))
            if ctx.coin(.3):
                c = bytearray(size)
                c[ctx.integer(0, size - 1)] = 1 << ctx.integer(0, 7)
            out.append(('append', bytes(c), ('%s.%d' % (who, i)).encode()))
        elif kind == 'search':
            q = ctx.choice([b'\0' * size, b'\xff' * size, ctx.rng.bytes(size), ctx.rng.bytes(size)])
            out.append(('search', q, ctx.choice([1, 1, 2, 5, 1000]), ctx.coin(.7), ctx.coin(.2)))
        elif who in ('0', 'p0') and ctx.coin():
            k += 1
            out.append(('set', k))
        else:
            out.append((kind,))
        if ctx.coin(.1):
            out.append(('pause', .001 * ctx.rng.random()))
    return out


def threads_run(ctx, db, client_plans, tick, size):
    outs, errors, ts = [[] for _ in client_plans], [], []
    gate = threading.Barrier(len(client_plans))

    def go(plan, out):
        try:
            gate.wait(30)
            perform(db, plan, tick, out, size)
        except BaseException as e:
            errors.append((e, traceback.format_exc()))
    for plan, out in zip(client_plans, outs):
        t = threading.Thread(target=go, args=(plan, out), daemon=True)
        t.start()
        ts.append(t)
    end = time.monotonic() + 120
    for t in ts:
        t.join(max(0, end - time.monotonic()))
    return [e for o in outs for e in o], errors, any(t.is_alive() for t in ts)


def contents(ctx, db, size, known, key):
    """every acknowledged entry exactly once, nothing else, under its own code"""
    ctx.eq(len(db), len(known), key + ':len')
    q = ctx.rng.bytes(size)
    got = list(db.search(q, len(known) + 5, sort=True))
    ctx.eq(sorted(got), sorted(known), key + ':contents')
    d = [distance(known[v], q) for v in got]
    ctx.eq(d, sorted(d), key + ':contents')
    for v in list(known)[:5]:
        first = list(db.search(known[v], 1))
        ctx.expect(known[first[0]] == known[v], key + ':contents')


@CHECK.family(60, 900, cpu=240, need=['threads:nearest', 'threads:order', 'threads:contents'])
def threads(ctx):
    size = ctx.choice([8, 8, 16, 40])
    path = os.path.join(ctx.scratch(), 'db')
    rows = ctx.choice([1, 3, 10 ** 6])
    n_threads = ctx.integer(2, 6)
    ticks = itertools.count()
    tick = lambda: next(ticks)
    base = {b'base %d' % i: ctx.rng.bytes(size) for i in range(ctx.choice([0, 1, 4, 30]))}
    client = [plans(ctx, size, str(t), ctx.integer(5, 30), 'writer' if t == 1 else None) for t in range(n_threads)]
    seed = ctx.integer(0, 2 ** 31)
    p = ctx.choice([0, .05, .2, .5])
    with Shrunk(rows), Perturb(FILES, seed, p) as pert:
        db = HammingDb(path, code_size=size)
        for v, c in base.items():
            db.append(c, v)
        fresh = ctx.coin(.3)
        if fresh:
            # the table has to be caught up with while others search and append
            close(db)
            db = HammingDb(path, code_size=size)
        events, errors, stuck = threads_run(ctx, db, client, tick, size)
    ctx.say('%d threads, code size %d, %d rows, perturbation %.2f, %d events, order %s' % (
        n_threads, size, rows, p, len(events),
        hashlib.sha1(repr([e[:1] + e[1:3] for e in events]).encode()).hexdigest()[:10]))
    ctx.expect(not stuck, 'threads:progress')
    if errors:
        ctx.fail('threads:error', errors[0][1])
    ctx.count('overlapping append/search pairs', overlap(events))
    ctx.count('hand-over points seen', len(pert.points))
    known = judge(ctx, events, base, 'threads')
    known = {v: c for v, (c, _, _) in known.items()}
    contents(ctx, db, size, known, 'threads')
    close(db)
    db = HammingDb(path, code_size=size)
    contents(ctx, db, size, known, 'threads:reopened')
    close(db)


def child(body):
    """run body(write) in another process; returns pid and the reading end"""
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, os.fdopen(r, 'rb')
    code = 1
    try:
        sys.settrace(None)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.close(r)
        body(lambda rec: os.write(w, (json.dumps(rec) + '\n').encode()))
        code = 0
    except BaseException:
        os.write(w, (json.dumps(['error', traceback.format_exc()]) + '\n').encode())
    finally:
        os._exit(code)


def records(data):
    out = []
    for line in data.split(b'\n'):
        if line:
            try:
                out.append(json.loads(line))
            except ValueError:
                pass  # cut off by a kill
    return out


def enc(e):
    return [x.hex() if isinstance(x, bytes) else [v.hex() for v in x] if isinstance(x, list) else x for x in e]


def dec(e):
    e = list(e)
    if e[0] == 'append':
        e[3:] = [bytes.fromhex(x) for x in e[3:]]
    elif e[0] == 'search':
        e[3] = bytes.fromhex(e[3])
        e[6] = [bytes.fromhex(x) for x in e[6]]
    return tuple(e)


@CHECK.family(30, 400, cpu=240, need=['processes:nearest', 'processes:contents'])
def processes(ctx):
    """each process has its own handle (and perhaps several threads)"""
    size = ctx.choice([8, 16, 40])
    path = os.path.join(ctx.scratch(), 'db')
    rows = ctx.choice([1, 3, 10 ** 6])
    base = {b'base %d' % i: ctx.rng.bytes(size) for i in range(ctx.choice([0, 1, 4, 30]))}
    pre = bool(base) or ctx.coin()
    if pre:
        db = HammingDb(path, code_size=size)
        for v, c in base.items():
            db.append(c, v)
        close(db)
    n_procs = ctx.integer(2, 4)
    per = ctx.choice([1, 1, 2])
    jobs = [[plans(ctx, size, 'p%d.%d' % (k, t) if (k, t) != (0, 0) else 'p0', ctx.integer(5, 25))
             for t in range(per)] for k in range(n_procs)]
    seeds = [ctx.integer(0, 2 ** 31) for _ in jobs]
    p = ctx.choice([0, .05, .2])
    tick = time.monotonic_ns  # one clock for every process of the machine

    def body(k):
        def run(write):
            with Shrunk(rows), Perturb(FILES, seeds[k], p):
                db = HammingDb(path, code_size=size)
                events, errors, stuck = threads_run(ctx, db, jobs[k], tick, size)
            for e in events:
                write(enc(e))
            if errors:
                write(['error', errors[0][1]])
            if stuck:
                write(['error', 'no progress'])
        return run
    kids = [child(body(k)) for k in range(n_procs)]
    events = []
    for pid, f in kids:
        data = f.read()
        f.close()
        _, st = os.waitpid(pid, 0)
        got = records(data)
        for e in got:
            if e[0] == 'error':
                ctx.fail('processes:error', e[1])
        ctx.expect(st == 0, 'processes:error', 'status', st)
        events += [dec(e) for e in got]
    ctx.count('cross-process searches', sum(1 for e in events if e[0] == 'search'))
    ctx.count('overlapping append/search pairs', overlap(events))
    order = [e[0] for e in sorted(events, key=lambda e: e[1])]
    ctx.say('%d processes x %d threads, code size %d, %d events, order %s' % (
        n_procs, per, size, len(events), hashlib.sha1(repr(order).encode()).hexdigest()[:10]))
    known = judge(ctx, events, base, 'processes')
    known = {v: c for v, (c, _, _) in known.items()}
    db = HammingDb(path, code_size=size)
    contents(ctx, db, size, known, 'processes')
    close(db)


@CHECK.family(60, 700, cpu=240, need=['kill:contents', 'kill:survivor'])
def kills(ctx):
    size = ctx.choice([8, 16])
    path = os.path.join(ctx.scratch(), 'db')
    known = {}
    rounds = ctx.integer(2, 4)
    count = 0
    for rnd in range(rounds):
        by_line = ctx.coin(.6)
        kill_at = int(ctx.rng.exponential(120)) + 1 if by_line else None
        delay = float(ctx.rng.exponential(.006))
        batch = [(ctx.rng.bytes(size), b'%d.%d' % (rnd, i) + b'x' * ctx.choice([0, 0, 3000]))
                 for i in range(400)]
        seed = ctx.integer(0, 2 ** 31)
        search_too = ctx.coin(.3)
        survivor = ctx.coin(.4) and rnd > 0
        if not by_line and not os.path.exists(path):
            # LMDB does not create its files atomically: kills in mid-creation are out of scope
            close(HammingDb(path, code_size=size))

        def body(write):
            write(['start'])
            with Perturb(FILES, seed, p=0, kill_at=kill_at) if by_line else _Plain():
                db = HammingDb(path, code_size=size)
                for i, (c, v) in enumerate(batch):
                    write(['invoke', i])
                    db.append(c, v)
                    write(['ack', i])
                    if search_too and i % 7 == 0:
                        list(db.search(c, 3))

        db = None
        pid, f = child(body)
        if survivor:
            # a handle of this process stays open across the other's death
            db = HammingDb(path, code_size=size)
        f.readline()
        if not by_line:
            time.sleep(delay)
            os.kill(pid, signal.SIGKILL)
        data = f.read()
        f.close()
        os.waitpid(pid, 0)
        got = records(data)
        for e in got:
            if e[0] == 'error':
                ctx.fail('kill:error', e[1])
        acked = [e[1] for e in got if e[0] == 'ack']
        flying = [e[1] for e in got if e[0] == 'invoke' and e[1] not in acked]
        ctx.count('kills by line' if by_line else 'kills by timer')
        ctx.count('kills in flight', len(flying))
        ctx.count('acknowledged before a kill', len(acked))
        ctx.say('round %d: killed %s after %d acknowledged, %d in flight%s' % (
            rnd, 'at line %d' % kill_at if by_line else 'after %.1f ms' % (delay * 1e3), len(acked), len(flying),
            ', survivor' if survivor else ''))
        for i in acked:
            known[batch[i][1]] = batch[i][0]
        if db is None:
            db = HammingDb(path, code_size=size)
        n = len(db)
        ctx.expect(len(known) <= n <= len(known) + len(flying), 'kill:len', n, 'stored', len(known), 'acknowledged')
        q = ctx.rng.bytes(size)
        found = list(db.search(q, n + 10, sort=True))
        maybe = {batch[i][1]: batch[i][0] for i in flying}
        ctx.eq(len(set(found)), len(found), 'kill:once')
        ctx.expect(set(known) <= set(found), 'kill:contents', 'acknowledged values are gone',
                   sorted(set(known) - set(found))[:3])
        ctx.expect(set(found) <= set(known) | set(maybe), 'kill:contents', 'values nobody stored')
        for v in found:
            if v in maybe:
                known[v] = maybe[v]
                ctx.count('unacknowledged appends that survived')
        d = [distance(known[v], q) for v in found]
        ctx.eq(d, sorted(d), 'kill:contents')
        # life goes on
        for _ in range(ctx.integer(1, 4)):
            c, v = ctx.rng.bytes(size), b'after %d' % count
            count += 1
            db.append(c, v)
            known[v] = c
        # LMDB lets handles that were open all along see what a killed writer had
        # just committed only once somebody writes again
        for v in db.search(q, len(db) + 10):
            if v in maybe and v not in known:
                known[v] = maybe[v]
                ctx.count('unacknowledged appends that survived')
        contents(ctx, db, size, known, 'kill:survivor' if survivor else 'kill')
        close(db)
        if survivor:
            ctx.count('judged:kill:survivor')


class _Plain(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass
