"""C33: histories of requests to the web apps"""
import base64
import contextlib
import io
import json
import os
import socket
import sys
import threading
import time
import urllib.parse

import featureflow as ff

from ..core import Check
from ..gen import *
from ..perturb import Perturb
from ..web import Port, Site, WebSocket
from .c18_index import Docs, observed
from .c32_ranges import Store, judge_picture, model, url, whole
from zounds.index import HammingIndex
from zounds.learn.trainer import Trainer
from zounds.persistence import ArrayWithUnitsFeature
from zounds.soundfile import OggVorbisFeature
from zounds.ui import (
    GanTrainingMonitorApp, SupervisedTrainingMonitorApp, TrainingMonitorApp, TripletEmbeddingMonitorApp, ZoundsApp, ZoundsSearch)
from zounds.ui.featureparser import FeatureParser

CHECK = Check(
    'C33',
    'Several clients, logged in or not, send histories of requests (features, statements, results, logins, forged cookies, '
    'unknown paths, broken HTTP) to a running app; a model of documents, cookies, the interpreter\'s variables and the '
    'results handed out says what each answer must be. Monitors watch real training loops through websockets.',
    technique='model-based runtime monitoring of request histories',
    require=['requests', 'refused', 'logins', 'statements', 'expressions', 'statement errors', 'temporary results', 'unknown',
             'broken requests', 'searches', 'queries repeated', 'websocket messages', 'clients leaving', 'graphs', 'restarts',
             'concurrent requests'])

MARK = 'zq7marker'


class Client(object):
    """a browser: keeps its cookie"""

    def __init__(self, site):
        self.site, self.cookie = site, None

    def send(self, method, path, headers=None, body=None):
        headers = dict(headers or {})
        if self.cookie:
            headers['Cookie'] = self.cookie
        answer = self.site.request(method, path, headers, body)
        return answer


def statements(ctx, names):
    """what somebody would type; (text, kind)"""
    v = ctx.choice(names)
    w = ctx.choice(names)
    k = ctx.integer(0, 99)
    return ctx.choice([
        '%s = %d' % (v, k), '%s = %d' % (v, k), '%s = [%d, "%s"]' % (v, k, w), '%s += %d' % (v, k), '%d + %d' % (k, k + 1),
        '%s' % v, '%s, %s' % (v, w), 'print(%d)' % k, 'print("a\\nb", %s)' % v, 'for i in range(3):\n    print(i * %d)' % k,
        'len(calls)', 'calls.append(%d)' % k, '[calls.append(%d), 7][1]' % k, '1 / 0', 'nothing_called_this', '%s = = 3' % v, 'def',
        'import math\n%s = math.floor(%d.5)' % (v, k), 'raise ValueError(%d)' % k, 'raise SystemExit()', '  %d' % k, '"ü" * 3',
        'calls.append(1) or eval("1 +")', 'def helper(n):\n    return n * 2', 'helper(%d)' % k, 'def offset(n):\n    return n, %s' % v, 'offset(%d)' % k, 'def offset(n):\n    return n, len(calls)',
        'offset(%d)' % k, '[%s for _ in range(2)]' % v, '%s = lambda: calls' % w, '%s()' % w, 'del %s' % v, 'None', '', 'print("said") or %d' % k, '(print(%d), "%s")' % (k, v),
        '"%s"' % MARK, '{"a": %s}' % v, '# just a comment', 'lambda: 1', '%s if %d > 50 else %s' % (v, k, w)])


def mirror(statement, g, l):
    """what an interpreter would answer: ('value', text printed, value) | ('done', text printed) | ('error',)"""
    out = io.StringIO()
    text = statement.strip()
    try:
        with contextlib.redirect_stdout(out):
            try:
                code = compile(text, 'x', 'eval')
            except SyntaxError:
                exec(compile(text, 'x', 'exec'), g, l)
                return 'done', out.getvalue(), None
            value = eval(code, g, l)
            return 'value', out.getvalue(), value
    except BaseException:
        return 'error', None, None


def plain(ns):
    return {k: v for k, v in ns.items() if isinstance(v, (int, str, list, tuple, dict)) and not k.startswith('__')}


def judge_statement(ctx, answer, statement, expected, key='repl'):
    kind, printed, value = expected
    what = (statement, answer, answer.body[:300])
    ctx.eq(answer.header('Content-Type'), 'application/json', key + ':type', *what)
    output = json.loads(answer.body)
    ctx.count('statements')
    if kind == 'error':
        ctx.expect(answer.status == 400 and 'error' in output, key + ':error', *what)
        ctx.count('statement errors')
        return output
    ctx.expect(answer.status == 200 and 'error' not in output, key + ':status', *what)
    if kind == 'done':
        ctx.expect(output['result'] == printed, key + ':printed', *what)
        return output
    text = str(value)
    if ' at 0x' in text:
        return output
    if value is None and printed:
        ctx.expect(printed in output['result'], key + ':printed', *what)
    else:
        ctx.expect(output['result'].endswith(text), key + ':value', text, *what)
        if printed:
            # what has been printed comes before the value
            ctx.expect(output['result'] == printed + text, key + ':printed', text, *what)
        else:
            ctx.expect(output['result'] == text, key + ':value', text, *what)
    ctx.count('expressions')
    return output


def refused(ctx, answer, contents, key, *what):
    """nothing of the site is shown, and the way to the login page is"""
    ctx.expect(answer.status in (302, 401, 403, 404, 405), key, answer, *what)
    if answer.status == 302:
        ctx.expect(answer.header('Location').split('?')[0] == '/zounds/login', key, answer.header('Location'), *what)
    ctx.expect(MARK.encode() not in answer.body and answer.body not in contents, key, 'shown', answer, *what)
    ctx.count('refused')


def broken(ctx, site):
    """not quite HTTP; whatever the answer is, the app has to survive it"""
    junk = ctx.choice([
        b'GET\r\n\r\n', b'\x00\xff\xfe\r\n\r\n', b'GET / HTTP/9.9\r\n\r\n', b'POST /zounds/repl HTTP/1.1\r\nContent-Length: 10\r\n\r\nabc',
        b'GET /zounds/%zz/%ff HTTP/1.1\r\nHost: x\r\n\r\n', b'GET / HTTP/1.1\r\nHost', b'POST /zounds/repl HTTP/1.1\r\nContent-Length: -5\r\n\r\n',
        b'GET /' + b'a' * 70000 + b' HTTP/1.1\r\n\r\n', b'', b'POST /zounds/repl HTTP/1.1\r\nHost: x\r\nContent-Length: 2\r\n\r\n\xff\xfe'])
    with contextlib.closing(socket.create_connection(('127.0.0.1', site.port), 10)) as s:
        s.settimeout(.2)
        try:
            s.sendall(junk)
            if ctx.coin():
                s.recv(1000)
        except OSError:
            pass
    ctx.count('broken requests')


class World(object):
    """a running app's documents, and what they contain"""

    def __init__(self, ctx, secret):
        self.ctx, self.secret = ctx, secret
        self.Doc = model(ctx, 'memory', json=ff.JSONFeature(Store, store=True), ogg=OggVorbisFeature(Store, store=True),
                         arr=ArrayWithUnitsFeature(Store, store=True), hidden=ff.Feature(Store, store=True, encoder=ff.IdentityEncoder))
        self.ids = ctx.rng.permutation(['login', 'a', 'http://x.y/z?w=1', 'repl2', 'ünï', 'b c', '%41'])[:ctx.integer(1, 4)].tolist()
        self.contents, self.arrays = {}, {}
        for i in self.ids:
            value, blob = [MARK, i, int(ctx.integer(0, 10 ** 6))], MARK.encode() + ctx.rng.bytes(ctx.integer(1, 300))
            arr = ArrayWithUnits(ctx.rng.normal(size=(ctx.integer(2, 6), ctx.integer(2, 6))), [TimeDimension(Seconds(1)), IdentityDimension()])
            self.Doc.process(_id=i, json=value, ogg=blob, arr=arr, hidden=MARK.encode())
            self.contents[i, 'json'] = json.dumps(value).encode()
            self.contents[i, 'ogg'] = blob
            self.arrays[i] = arr
        docs = {'doc%d' % k: self.Doc(i) for k, i in enumerate(self.ids)}
        self.doc_names = {'doc%d' % k: i for k, i in enumerate(self.ids)}
        both = ctx.coin()
        self.locals = dict(docs, calls=[])
        self.globals = self.locals if both else {}
        self.l2 = dict(docs, calls=[])
        self.g2 = self.l2 if both else {}
        self.app = ZoundsApp(model=self.Doc, globals=self.globals, locals=self.locals, secret=secret)
        self.temp = {}
        self.stdout = sys.stdout

    def shown(self):
        return set(self.contents.values())


def visit(ctx, world, client, allowed):
    """one request, judged"""
    what = ctx.choice(['page', 'feature', 'feature', 'feature', 'array', 'unknown document', 'unknown feature', 'unserializable',
                       'nowhere', 'method', 'statement', 'statement', 'statement', 'document statement', 'document statement', 'temp', 'temp', 'no temp',
                       'login page', 'login', 'broken', 'forged'])
    shown = world.shown()
    gate = lambda a, key, *m: refused(ctx, a, shown, key, *m)
    ctx.count('requests')
    if what == 'page':
        a = client.send('GET', '/')
        if not allowed:
            return gate(a, 'gate:page')
        ctx.expect(a.status == 200 and b'<html' in a.body and a.header('Content-Type').startswith('text/html'), 'page', a)
    elif what == 'feature':
        (i, f), raw = ctx.choice(sorted(world.contents.items()))
        path = url(i, f) + ctx.choice(['', '', '/'])
        a = client.send('GET', path)
        if not allowed:
            return gate(a, 'gate:feature', path)
        whole(ctx, a, raw, dict(json='application/json', ogg='audio/ogg')[f], path)
    elif what == 'array':
        i = ctx.choice(world.ids)
        a = client.send('GET', url(i, 'arr'))
        if not allowed:
            return gate(a, 'gate:feature', i)
        ctx.expect(a.status == 200 and a.header('Content-Type') == 'image/png', 'array', a)
        judge_picture(ctx, a.body, world.arrays[i], 'array')
    elif what in ('unknown document', 'unknown feature', 'unserializable'):
        i = ctx.choice(world.ids)
        path = dict([('unknown document', url(ctx.choice(['nobody', 'A', 'json', '..', 'a:json', '*', 'a%00']), ctx.choice(['json', 'ogg', 'arr']))),
                     ('unknown feature', url(i, ctx.choice(['nothing', 'JSON', 'json2', '__class__', 'database', 'features', 'json:', '%2e%2e']))),
                     ('unserializable', url(i, 'hidden'))])[what]
        a = client.send('GET', path)
        if not allowed:
            return gate(a, 'gate:feature', path)
        ctx.expect(a.status >= 400 and MARK.encode() not in a.body, 'unknown', path, a)
        ctx.count('unknown')
    elif what == 'nowhere':
        path = ctx.choice(['/zounds', '/x', '/zounds/', '/zounds/a', '/index.html', '/zounds.js', '/../setup.py', '/static/zounds.js', '//', '/login',
                           '/zounds/logi', '/zounds/training2', '/baseapp.py', '/zounds/replx', '/zounds/search'])
        a = client.send(ctx.choice(['GET', 'POST']), path, body=None)
        ctx.expect(a.status in (404, 405, 302, 403) and MARK.encode() not in a.body, 'nowhere', path, a)
        if a.status == 302:
            ctx.expect(not allowed, 'nowhere', path, a)
    elif what == 'method':
        path = ctx.choice(['/', url(world.ids[0], 'json'), '/zounds/temp/abc'])
        method = ctx.choice(['POST', 'PUT', 'DELETE', 'HEAD', 'OPTIONS'])
        a = client.send(method, path, body='x=1' if method in ('POST', 'PUT') else None)
        if not allowed:
            return gate(a, 'gate:method', method, path)
        ctx.expect(a.status == 405, 'method', method, path, a)
    elif what in ('statement', 'document statement'):
        if what == 'statement':
            text = statements(ctx, ['x', 'y', 'z'])
        else:
            name = ctx.choice(sorted(world.doc_names))
            text = name
            if ctx.coin() and allowed:
                # the same words mean another document now than they did a while ago
                text = 'current'
                b = client.send('POST', '/zounds/repl', body=('current = ' + name).encode())
                ctx.eq(b.status, 200, 'repl:status', name, b)
                mirror('current = ' + name, world.g2, world.l2)
                ctx.count('renamed documents')
            text += ctx.choice(['.json', '.json', '.ogg', '.arr', '.arr', '.json[0]', '._id', ' .json'] if text == name else ['.json', '.json', '.json', '.ogg', '.arr'])
        a = client.send('POST', '/zounds/repl' + ctx.choice(['', '/']), body=text.encode())
        if not allowed:
            gate(a, 'gate:repl', text)
            same_state(ctx, world, text)
            return
        ctx.expect(wait(lambda: sys.stdout is world.stdout), 'repl:stdout', text)
        expected = mirror(text, world.g2, world.l2)
        output = judge_statement(ctx, a, text, expected)
        same_state(ctx, world, text)
        if what == 'document statement' and expected[0] == 'value':
            i, f = world.doc_names[name], text.split('.')[-1]
            if f in ('json', 'ogg', 'arr'):
                kind = dict(json='application/json', ogg='audio/ogg', arr='image/png')[f]
                now = kind, world.arrays[i] if f == 'arr' else world.contents[i, f]
                if f != 'arr':
                    ctx.eq(output['contentType'], kind, 'repl:temp')
                before = world.temp.get(output['url'])
                # an address that has been handed out goes on showing what it was handed out for
                ctx.expect(before is None or before[0] == kind and before[1] is now[1], 'repl:address', text, output)
                world.temp[output['url']] = now
            else:
                ctx.expect('url' not in output, 'repl:temp', text, output)
    elif what == 'temp' and world.temp:
        path, (kind, data) = ctx.choice(list(world.temp.items()))
        a = client.send('GET', path)
        if not allowed:
            return gate(a, 'gate:temp')
        ctx.expect(a.status == 200 and a.header('Content-Type') == kind, 'temp', a)
        if kind == 'image/png':
            judge_picture(ctx, a.body, data, 'temp')
        else:
            ctx.expect(a.body == data, 'temp', a)
        ctx.count('temporary results')
    elif what == 'no temp':
        a = client.send('GET', '/zounds/temp/' + ctx.choice(['x', '0' * 32, '..']))
        if not allowed:
            return gate(a, 'gate:temp')
        ctx.eq(a.status, 404, 'unknown', 'temp', a)
    elif what == 'login page':
        a = client.send('GET', '/zounds/login' + ctx.choice(['', '/']))
        ctx.expect(a.status == 200 and b'name="secret"' in a.body, 'login:page', a)
        a = client.send('POST', '/zounds/login', {'Content-Type': 'application/x-www-form-urlencoded'}, 'secret=not+this+one')
        # the form is there for another try
        ctx.expect(a.status == 401 and b'name="secret"' in a.body, 'login:page', a)
    elif what == 'login':
        word = ctx.choice(['', 'wrong', 'None', (world.secret or 'x') + ' x', (world.secret or 'x').upper() + 'X', (world.secret or 'x').upper() if (world.secret or 'x').upper() != world.secret else 'y', (world.secret or 'xx')[:-1], None])
        body = urllib.parse.urlencode(dict(secret=word)) if word is not None else 'other=1'
        a = client.send('POST', '/zounds/login', {'Content-Type': 'application/x-www-form-urlencoded'}, body)
        ctx.expect(a.status in (400, 401) and a.header('Set-Cookie') is None, 'login:wrong', word, a)
        ctx.count('logins')
    elif what == 'forged' and world.secret:
        real = world.forged
        value = ctx.choice(real)
        a = client.site.request('GET', ctx.choice(['/', url(*ctx.choice(sorted(world.contents)))]), {'Cookie': 'user=' + value})
        gate(a, 'gate:forged', value)
    elif what == 'broken':
        broken(ctx, client.site)


def same_state(ctx, world, text):
    ctx.expect(repr(plain(world.locals)) == repr(plain(world.l2)), 'repl:state', text, plain(world.locals), plain(world.l2))
    if world.globals is not world.locals:
        ctx.expect(repr(plain(world.globals)) == repr(plain(world.g2)), 'repl:state', 'globals', text)


def login(ctx, client, secret):
    a = client.send('POST', '/zounds/login', {'Content-Type': 'application/x-www-form-urlencoded'}, urllib.parse.urlencode(dict(secret=secret)))
    ctx.expect(a.status == 302 and a.header('Location') == '/' and a.header('Set-Cookie'), 'login:right', a)
    client.cookie = a.header('Set-Cookie').split(';')[0]
    ctx.count('logins')


SECRETS = ['s3cret', 'with space & sign=%', 'ünïcode', 'x']


@CHECK.family(120, 4000, need=['repl:state', 'whole:payload'])
def histories(ctx):
    """clients use an app"""
    secret = ctx.choice([None, ctx.choice(SECRETS)])
    world = World(ctx, secret)
    ctx.say(secret, world.ids)
    with Site(world.app) as site:
        clients = [Client(site) for _ in range(3)]
        if secret:
            login(ctx, clients[0], secret)
            # cookies nobody was given, or that were given by somebody else
            from tornado.web import create_signed_value
            cookie = clients[0].cookie.split('=', 1)[1].strip('"')
            other = create_signed_value('0' * 32, 'user', secret).decode()
            world.forged = [other, secret.encode('unicode_escape').decode().replace(' ', ''), 'x', '', cookie[:-1] + ('0' if cookie[-1] != '0' else '1'),
                            base64.b64encode(secret.encode()).decode(), cookie.replace('user', 'usex')]
        for _ in range(14):
            k = ctx.integer(0, 2)
            visit(ctx, world, clients[k], not secret or k == 0)
        if ctx.coin(.25):
            # a long session, at the end of which everything it has been given is still there
            k = ctx.integer(0, 9)
            for text in ('x = %d' % k, 'def later(n):\n    return n, x', 'later(1)', 'x = %d' % (k + 1), 'later(2)', 'x += 5', '[x for _ in later(3)]',
                         'def later2():\n    return later(x)', 'later2()', 'import math', 'later2() + (math.floor(2.5),)'):
                if text.startswith('def') and ctx.coin(.2):
                    continue
                a = clients[ctx.choice([0, 0 if secret else 1])].send('POST', '/zounds/repl', body=text.encode())
                judge_statement(ctx, a, text, mirror(text, world.g2, world.l2))
                same_state(ctx, world, text)
            for _ in range(ctx.integer(10, 60)):
                text = ctx.choice(sorted(world.doc_names)) + '.json'
                if text.split('.')[0] not in world.l2:
                    continue
                a = clients[0].send('POST', '/zounds/repl', body=text.encode())
                output = judge_statement(ctx, a, text, mirror(text, world.g2, world.l2))
                world.temp.setdefault(output['url'], ('application/json', world.contents[world.doc_names[text.split('.')[0]], 'json']))
            for path, (kind, data) in world.temp.items():
                a = clients[0].send('GET', path)
                ctx.expect(a.status == 200 and a.header('Content-Type') == kind, 'temp', 'after a while', a)
                ctx.expect(kind == 'image/png' or a.body == data, 'temp', 'after a while', a)
                ctx.count('temporary results')


@CHECK.family(40, 1200, need=['repl:state', 'whole:payload'])
def crowds(ctx):
    """clients use an app at the same time, and each gets its own answers"""
    secret = ctx.choice([None, None, ctx.choice(SECRETS)])
    world = World(ctx, secret)
    failures = []
    with Site(world.app) as site:
        plans = []
        for k in range(ctx.integer(2, 5)):
            c = Client(site)
            if secret:
                login(ctx, c, secret)
            plans.append((c, [ctx.choice(sorted(world.contents.items())) for _ in range(8)], 'v%d' % k))

        def go(c, features, name):
            try:
                for n, ((i, f), raw) in enumerate(features):
                    a = c.send('GET', url(i, f))
                    if (a.status, a.body) != (200, raw):
                        failures.append((i, f, a))
                    a = c.send('POST', '/zounds/repl', body=('%s = %d\nprint("%s", %s)' % (name, n, name, name)).encode())
                    if json.loads(a.body) != {'result': '%s %d\n' % (name, n)}:
                        failures.append((name, n, a.body))
                    a = c.send('POST', '/zounds/repl', body=('%s * 100' % name).encode())
                    if json.loads(a.body) != {'result': str(n * 100)}:
                        failures.append((name, n, a.body))
            except BaseException as e:
                failures.append(e)
        threads = [threading.Thread(target=go, args=p) for p in plans]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        ctx.expect(not failures, 'crowd', failures[:3])
        for c, features, name in plans:
            ctx.count('concurrent requests', 3 * len(features))
            ctx.eq(world.locals[name], len(features) - 1, 'repl:state')
        whole(ctx, plans[0][0].send('GET', url(*plans[0][1][0][0])), plans[0][1][0][1], dict(json='application/json', ogg='audio/ogg')[plans[0][1][0][0][1]])


# -- pages ---------------------------------------------------------------------------------------------------------

@CHECK.family(12, 100, need=['page'])
def pages(ctx):
    """pages contain the scripts they refer to"""
    import zounds.ui
    folder = os.path.dirname(zounds.ui.__file__)
    Doc = model(ctx, 'memory', json=ff.JSONFeature(Store, store=True))
    kind = ctx.choice(['repl', 'search', 'training'])
    if kind == 'repl':
        app, name = ZoundsApp(model=Doc, globals={}, locals={}), 'index.html'
    elif kind == 'search':
        app, name = ZoundsSearch(model=Doc, search=None), 'search.html'
    else:
        app, name = TrainingMonitorApp(Quick(1, 1), ('e',), model=Doc, globals={}, locals={}), 'training_monitor.html'
    with open(os.path.join(folder, name)) as f:
        source = f.read()
    with Site(app) as site:
        page = site.get('/').body.decode()
    ctx.expect('<script src="/' not in page, 'page', 'script left')
    n = 0
    for script in os.listdir(folder):
        if script.endswith('.js') and 'src="/%s"' % script in source:
            with open(os.path.join(folder, script)) as f:
                ctx.expect(f.read() in page, 'page', script)
            n += 1
    ctx.expect(n > 0, 'page', 'no scripts')


# -- searches --------------------------------------------------------------------------------------------------------

@CHECK.family(40, 1500, need=['search'])
def searches(ctx):
    """the search app answers with what the index finds"""
    docs = Docs(ctx, 8 * ctx.integer(1, 2), ctx.choice(['uint8', 'uint64']))
    for _ in range(ctx.integer(1, 4)):
        docs.new()
    extra = {} if ctx.coin() else dict(name=lambda doc, ts: 'doc ' + str(doc._id))
    index = HammingIndex(docs.Document, docs.Document.bits, path=ctx.scratch(), db_size_bytes=10 ** 7, **extra)
    index.add_all()
    most = ctx.choice([1, 3, 10, 100])
    app = ZoundsSearch(model=docs.Document, visualization_feature=docs.Document.other, audio_feature=docs.Document.bits, search=index, n_results=most)
    total = sum(len(c) for _, c in docs.series.values())
    keep = ['name'] if extra else None

    def parsed(answer):
        ctx.expect(answer.status == 200 and answer.header('Content-Type') == 'application/vnd.zounds.searchresults+json', 'search', answer)
        out = json.loads(answer.body)
        rows = []
        for r in out['results']:
            a, v = r['audio'].split('/'), r['visualization'].split('/')
            ctx.expect(a[:2] == ['', 'zounds'] and a[3] == 'bits' and v[3] == 'other' and a[2] == v[2], 'search', 'links', r)
            rows.append((urllib.parse.unquote(a[2]), r['slice']['start'], r['slice']['duration']))
        return out['query'], rows

    def wanted(code):
        return [(i, s / 1e12, d / 1e12) for i, s, d, _ in
                (observed(r, keep) for r in index.search(code, n_results=most))]

    def judge(rows, code, *what):
        want = wanted(code)
        ctx.expect(len(rows) == len(want) == min(most, total), 'search', len(rows), len(want), *what)
        for got, exp in zip(sorted(rows), sorted(want)):
            ctx.expect(got[0] == exp[0] and abs(got[1] - exp[1]) < 1e-9 and abs(got[2] - exp[2]) < 1e-9, 'search', got, exp, *what)
        ctx.count('searches')

    with Site(app) as site:
        for _ in range(4):
            query, rows = parsed(site.get('/zounds/search'))
            code = base64.b64decode(query)
            ctx.expect(any(code in c for _, c in docs.series.values()), 'search', 'a random query is one of the codes')
            judge(rows, code, 'random')
            code = ctx.choice([code, ctx.choice(ctx.choice(list(docs.series.values()))[1]), ctx.rng.bytes(len(code))])
            text = base64.b64encode(code).decode()
            q = urllib.parse.quote(text, safe='')
            if ctx.coin():
                q = urllib.parse.quote(q, safe='')          # the page does this
            query, rows = parsed(site.get('/zounds/search?query=' + q))
            ctx.expect(base64.b64decode(query) == code, 'search', 'query', query, text)
            judge(rows, code, 'repeated')
            ctx.count('queries repeated')
            if ctx.coin(.3):
                a = site.get('/zounds/search?query=' + ctx.choice(['x', 'AAAA', '%25%25', 'ü'.encode().hex()]))
                ctx.expect(a.status >= 400, 'search', 'not a query', a)
    index.close() if hasattr(index, 'close') else None


# -- training monitors -------------------------------------------------------------------------------------------------

class Quick(Trainer):
    """a training loop without a network"""

    def __init__(self, epochs, batch_size, keys=('e',), pause=0.):
        super(Quick, self).__init__(epochs, batch_size, epochs)
        self.keys, self.pause = keys, pause

    def _training_step(self, epoch, batch, data):
        if self.pause:
            time.sleep(self.pause)
        return {k: epoch * 1000. + batch + i / 8. for i, k in enumerate(self.keys)}


MONITORS = [(SupervisedTrainingMonitorApp, ('train_error', 'test_error')), (GanTrainingMonitorApp, ('generator_score', 'real_score', 'critic_loss')),
            (TripletEmbeddingMonitorApp, ('error',)), (TrainingMonitorApp, ('alpha', 'beta'))]


@CHECK.family(40, 1200, cpu=200, need=['monitor:messages', 'monitor:history'])
def monitors(ctx):
    """clients watching a training loop see its batches, and never disturb it"""
    cls, keys = ctx.choice(MONITORS)
    reported = keys[:ctx.integer(1, len(keys))]
    size, n, epochs = ctx.integer(1, 4), ctx.integer(4, 20), ctx.integer(2, 12)
    every = ctx.choice([1, 1, 2, 3, 10])
    points = ctx.integer(1, 60)
    trainer = Quick(epochs, size, reported + ('other',), ctx.choice([0, .0003, .001]))
    kw = dict(batch_frequency=every, n_training_points=points, globals={}, locals={}, secret=ctx.choice([None, None, 'pw']))
    if cls is TrainingMonitorApp:
        kw['keys_to_graph'] = keys
    app = cls(trainer, **kw)
    expected = [dict({k: e * 1000. + b + i / 8. for i, k in enumerate(reported)}, epoch=e, batch=b)
                for e in range(epochs) for b in range(0, n, size) if b % every == 0]
    ctx.say(cls.__name__, reported, n, size, epochs, every, points)
    trouble, before = [], len(trainer._batch_complete_callbacks) if hasattr(trainer, '_batch_complete_callbacks') else None
    with Site(app) as site, Perturb(('ui/training_monitor.py', 'learn/trainer.py'), ctx.integer(0, 10 ** 6), p=.05, longest=5e-4):
        headers = {}
        if kw['secret']:
            ws = WebSocket(site, '/zounds/training')
            ctx.expect(not ws.accepted, 'monitor:gate', ws.status)
            ws.close(False)
            a = site.get('/zounds/graph')
            ctx.expect(a.status == 302, 'monitor:gate', a)
            ctx.count('refused', 2)
            c = Client(site)
            login(ctx, c, kw['secret'])
            headers = {'Cookie': c.cookie}
        ctx.eq(site.request('GET', '/zounds/training', headers).status, 400, 'monitor:plain')
        first = [WebSocket(site, '/zounds/training', headers) for _ in range(ctx.integer(1, 2))]
        ctx.expect(all(w.accepted for w in first), 'monitor:accept', [w.status for w in first])
        wait(lambda: len(trainer._batch_complete_callbacks) == before + len(first))

        def train():
            try:
                trainer.train(list(range(n)))
            except BaseException as e:
                trouble.append(e)

        def listen(w, out):
            try:
                while True:
                    m = w.message(20)
                    if m is None:
                        return
                    out.append(json.loads(m))
                    if expected and out[-1] == expected[-1]:
                        return
            except BaseException as e:
                trouble.append(e)

        def come_and_go(seed, out):
            rnd = np.random.default_rng(seed)
            try:
                while loop.is_alive():
                    w = WebSocket(site, '/zounds/training', headers)
                    got = []
                    for _ in range(int(rnd.integers(0, 6))):
                        m = w.message(.05)
                        if m is None:
                            break
                        got.append(json.loads(m))
                    w.close(rnd.random() < .5)
                    out.append(got)
            except ConnectionError:
                pass
            except BaseException as e:
                trouble.append(e)

        logs = [[] for _ in first]
        visits = []
        loop = threading.Thread(target=train)
        others = [threading.Thread(target=come_and_go, args=(ctx.integer(0, 10 ** 6), visits)) for _ in range(ctx.integer(0, 3))]
        listeners = [threading.Thread(target=listen, args=x) for x in zip(first, logs)]
        for t in listeners + [loop] + others:
            t.start()
        graphs = []
        while loop.is_alive() and ctx.coin(.7):
            graphs.append(site.request('GET', '/zounds/graph', headers))
        for t in [loop] + listeners + others:
            t.join()
        ctx.expect(not trouble, 'monitor:training', trouble[:3])
        ctx.eq(trainer._current_epoch, epochs, 'monitor:training')
        for log in logs:
            ctx.expect(log == expected, 'monitor:messages', len(log), len(expected), log[:3], expected[:3])
            ctx.count('websocket messages', len(log))
        for got in visits:
            ctx.count('clients leaving')
            if got:
                at = expected.index(got[0]) if got[0] in expected else -1
                ctx.expect(at >= 0 and got == expected[at:at + len(got)], 'monitor:messages', 'late', got[:3])
        graphs.append(site.request('GET', '/zounds/graph', headers))
        for a in graphs:
            ctx.expect(a.status == 200 and a.header('Content-Type') == 'image/png' and a.body[:4] == b'\x89PNG', 'monitor:graph', a)
            ctx.count('graphs')
        for w in first:
            w.close(ctx.coin())
        # those who left aren't told any more
        ctx.expect(wait(lambda: len(trainer._batch_complete_callbacks) == before), 'monitor:left', len(trainer._batch_complete_callbacks), before)
    for k in keys:
        history = list(app.training_history[k])
        want = [x[k] for x in expected if k in x]
        ctx.expect(history == want[len(want) - len(history):] and (len(history) >= min(points, len(want))) and len(history) <= points + 1,
                   'monitor:history', k, len(history), points, len(want))


def wait(condition, seconds=20):
    end = time.time() + seconds
    while not condition():
        if time.time() > end:
            return False
        time.sleep(.005)
    return True


# -- starting and stopping -----------------------------------------------------------------------------------------------

@CHECK.family(25, 800, need=['restart'])
def restarts(ctx):
    """apps come and go on the same port, each with its own documents"""
    reserved = Port()
    port = int(reserved)
    for turn in range(ctx.integer(2, 4)):
        Doc = model(ctx, 'memory', json=ff.JSONFeature(Store, store=True))
        Doc.process(_id='x', json=[MARK, turn])
        if turn and ctx.coin(.3):
            Doc.process(_id='y', json=[turn])
        app = ZoundsApp(model=Doc, globals={}, locals={'turn': turn}, secret=None)
        site = Site(app)
        site.port = port
        early = ctx.coin(.4)
        with contextlib.redirect_stdout(io.StringIO()):
            running = app.start_in_thread(port)
        if app.server is None and not app.thread.is_alive():
            return          # somebody else took the port
        ctx.expect(running is app, 'restart', 'start_in_thread does not return the app')
        with running:
            if not early:
                end = time.time() + 20
                while time.time() < end:
                    try:
                        a = site.get(url('x', 'json'))
                        break
                    except ConnectionError:
                        time.sleep(.01)
                ctx.expect(a.status == 200 and json.loads(a.body) == [MARK, turn], 'restart', a, turn)
                a = site.request('POST', '/zounds/repl', body=b'turn')
                ctx.expect(json.loads(a.body) == {'result': str(turn)}, 'restart', a.body)
        ctx.expect(not app.thread.is_alive(), 'restart', 'still running')
        try:
            socket.create_connection(('127.0.0.1', port), 1).close()
            ctx.fail('restart', 'still listening')
        except OSError:
            pass
        ctx.count('restarts')
    reserved.release()


# -- statements that name features ---------------------------------------------------------------------------------------

@CHECK.family(400, 10000, need=['parser'])
def parser(ctx):
    """a statement refers to a feature if, and only if, it is one document's feature and nothing else"""
    Doc = model(ctx, 'memory', json=ff.JSONFeature(Store, store=True), bark=ff.JSONFeature(Store, store=True))
    Other = model(ctx, 'memory', json=ff.JSONFeature(Store, store=True))
    Doc.process(_id='a', json=1, bark=2)
    Doc.process(_id='b', json=1, bark=2)
    a, b = Doc('a'), Doc('b')
    names = dict(a=a, b=b, n=7, Doc=Doc, other=Other('x'), l=[a])
    doc, feature = ctx.choice(['a', 'b']), ctx.choice(['json', 'bark'])
    hit = ctx.coin()
    if hit:
        text = ctx.choice(['%s.%s', ' %s.%s'.strip(), '(%s.%s)', '%s . %s', '%s.%s  # comment', '%s.%s\n']) % (doc, feature)
    else:
        text = ctx.choice(['%s', '%s.{f}.x', '%s.{f}[0]', 'n', 'n.real', 'Doc.{f}', 'other.{f}', 'missing.{f}', 'l[0].{f}', 'str(%s.{f})', '%s.{f} + 1', '-%s.{f}',
                           '%s.nothing', '%s._id', '%s.{f}()', '[%s.{f}]', 'x = %s.{f}', '%s.{f} if n else n', 'lambda: %s.{f}', '{f}', '%s.{f}.{f}'])
        text = (text % doc if '%s' in text else text).replace('{f}', feature)
    got = FeatureParser(Doc, names).parse_feature(ctx.choice([text, text.encode()]))
    want = (names[doc], Doc.features[feature]) if hit else (None, None)
    ctx.expect(got[0] is want[0] and got[1] is want[1], 'parser', text, got)
    got = FeatureParser(None, names).parse_feature(text)
    ctx.expect(got == (None, None), 'parser', 'no model', text)
