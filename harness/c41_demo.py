"""C41: the demo server's uploads, downloads and HTTP actions."""
import gzip
import http
import io
import itertools
import os
import socket
import sys
import uuid
import warnings

warnings.simplefilter('ignore')
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'common'))
import mcpy
import mcpysched
import pystage

mcpysched.patch()

P = 'fcp/protos/federatedcompute/'
OUT = pystage.stage('c41', ['http_actions', 'media'],
                    [P + x + '.proto' for x in ('common', 'eligibility_eval_tasks', 'aggregations',
                                                'task_assignments')])

# names: distinct in every part, the same in every execution
_count = [0]


def _uuid4():
    _count[0] += 1
    return uuid.UUID(int=(_count[0] * 0x9E3779B97F4A7C15F39CC0605CEDC835) % (1 << 128))


uuid.uuid4 = _uuid4

from absl import logging
from fcp.demo import http_actions
from fcp.demo import media
from fcp.protos.federatedcompute import aggregations_pb2
from fcp.protos.federatedcompute import common_pb2
from fcp.protos.federatedcompute import eligibility_eval_tasks_pb2
from fcp.protos.federatedcompute import task_assignments_pb2
from google.longrunning import operations_pb2

logging.set_verbosity(logging.FATAL)
FILES = [media.__file__]


class Sock:
    """One connection: gives the request, takes the response."""

    def __init__(self, data):
        self.data = data
        self.out = []

    def makefile(self, mode, size=None):
        return io.BytesIO(self.data)

    def sendall(self, b):
        self.out.append(bytes(b))

    def fileno(self):
        return -1


def quiet(handler):
    class Quiet(handler):
        def log_message(self, *a):
            pass

        # the same text whenever it runs
        def date_time_string(self, timestamp=None):
            return 'now'
    return Quiet


def exchange(handler, method, path, headers, body, ctx):
    """-> (status, headers, body)"""
    req = '%s %s HTTP/1.1\r\n' % (method, path)
    for k, v in headers:
        req += '%s: %s\r\n' % (k, v)
    s = Sock(req.encode('latin-1') + b'\r\n' + body)
    try:
        handler(s, ('client', 1), None)
    except (mcpy.Violation, mcpy.Pruned):
        raise
    except Exception as e:
        raise mcpy.Violation('%s %s %r: no answer, the handler failed with %r' % (
            method, path, headers, e))
    data = b''.join(s.out)
    head, sep, rest = data.partition(b'\r\n\r\n')
    if not sep:
        raise mcpy.Violation('%s %s: not a response: %r' % (method, path, data[:200]))
    lines = head.decode('latin-1').split('\r\n')
    hs = [tuple(l.split(': ', 1)) for l in lines[1:]]
    told = [v for k, v in hs if k == 'Content-Length']
    ctx.check(not told or int(told[0]) == len(rest), '%s %s: %d bytes follow a header that promises %s' % (
        method, path, len(rest), told))
    return int(lines[0].split(' ')[1]), hs, rest


def post(handler, path, body, ctx, extra=()):
    return exchange(handler, 'POST', path, [('Content-Length', str(len(body)))] + list(extra), body, ctx)


PREFIX = 'https://media.example/'


def service():
    _count[0] = 0
    with mcpysched.objects():
        m = media.Service(lambda: common_pb2.ForwardingInfo(target_uri_prefix=PREFIX))
    return m, quiet(http_actions.create_handler(m))


def upload(handler, name, body, ctx, extra=()):
    return post(handler, '/upload/v1/media/%s?upload_protocol=raw' % name, body, ctx, extra)


# ---------------------------------------------------------------- uploads
@mcpy.scenario()
def uploads(ctx):
    """All sequences of register, upload and finalize."""
    m, h = service()
    names = []
    model = {}          # name -> None or bytes, while registered
    for step in range(7 if ctx.thorough else 6):
        known = list(range(len(names))) + ['x']
        ops = ([('register', 0)] if len(names) < 2 else []) + [
            (k, i) for i in known for k in ('upload', 'upload empty', 'upload gzip', 'finalize')]
        op, i = ctx.pick(ops, 'operation')
        ctx.step('%s %s' % (op, i))
        name = names[i] if i != 'x' and op != 'register' else '00000000-0000-0000-0000-000000000000'
        if op == 'register':
            n = m.register_upload()
            ctx.check(isinstance(n, str) and n and n not in names, 'register_upload gave %r after %r' % (n, names))
            names.append(n)
            model[n] = None
        elif op == 'finalize':
            try:
                r = (True, m.finalize_upload(name))
            except KeyError:
                r = (False, None)
            ctx.eq(r, (name in model, model.get(name)), 'finalize_upload %s' % i)
            model.pop(name, None)
        else:
            body = b'' if op == 'upload empty' else b'data%d' % step
            if op == 'upload gzip':
                st, hs, b = upload(h, name, gzip.compress(body, mtime=0), ctx, [('Content-Encoding', 'gzip')])
            else:
                st, hs, b = upload(h, name, body, ctx)
            ok = name in model and model[name] is None
            ctx.eq(st, 200 if ok else 401, 'status of %s %s' % (op, i))
            if ok:
                ctx.eq(b, b'', 'body of the answer to an upload')
                model[name] = body
    # what is left is what was uploaded
    for i, n in enumerate(names):
        try:
            r = (True, m.finalize_upload(n))
        except KeyError:
            r = (False, None)
        ctx.eq(r, (n in model, model.get(n)), 'finalize_upload %d at the end' % i)
    ctx.state(tuple((n in model, model.get(n)) for n in names))
    ctx.outcome((len(names), len(model), sum(v is not None for v in model.values())))


class Failure(Exception):
    pass


# ---------------------------------------------------------------- downloads
DATA = [b'', b'some data', b'\x00\xff\r\n\r\n']


@mcpy.scenario()
def downloads(ctx):
    """All sequences of opening and closing groups and adding files; after each
    operation, every name is asked for in every group."""
    m, h = service()
    groups = []         # (context manager, DownloadGroup, open?)
    model = {}          # (group, name) -> (data, type)
    fnames = ['f', 'g']
    for step in range(7 if ctx.thorough else 6):
        ops = [('open', 0, 0)] if len(groups) < 2 else []
        for i, g in enumerate(groups):
            if g[2]:
                ops += [('close', i, 0), ('close failing', i, 0)]
            ops += [('add', i, n) for n in fnames]
        op, i, n = ctx.pick(ops, 'operation')
        ctx.step('%s %s %s' % (op, i, n))
        if op == 'open':
            cm = m.create_download_group()
            g = cm.__enter__()
            ctx.check(g.prefix.startswith(PREFIX + 'data/') and g.prefix.endswith('/'), 'prefix %r' % g.prefix)
            ctx.check(all(g.prefix != x[1].prefix for x in groups), 'two groups share the prefix %r' % g.prefix)
            groups.append([cm, g, True])
        elif op == 'add':
            data = DATA[step % 3]
            ctype = [None, 'application/x-a', 'text/x-b+gzip'][step % 3]
            g = groups[i]
            want = g[2] and (i, n) not in model
            try:
                r = g[1].add(n, data) if ctype is None else g[1].add(n, data, content_type=ctype)
                ctx.check(want, 'a second file %s was added to group %d' % (n, i))
                ctx.eq(r, g[1].prefix + n, 'path of the new file')
                model[i, n] = (data, ctype or 'application/octet-stream')
            except KeyError:
                ctx.check(not want, 'a new file %s was refused' % n)
        else:
            cm = groups[i][0]
            if op == 'close':
                ctx.check(not cm.__exit__(None, None, None), 'closing a group')
            else:
                e = Failure()
                try:
                    kept = cm.__exit__(Failure, e, None)
                    ctx.check(not kept, 'a failure inside a group was swallowed')
                except Failure:
                    pass
            groups[i][2] = False
            for f in fnames:
                model.pop((i, f), None)
        for k, g in enumerate(groups):
            for f in fnames:
                url = g[1].prefix + f
                st, hs, b = exchange(h, 'GET', url[len(PREFIX) - 1:], [], b'', ctx)
                want = model.get((k, f))
                ctx.eq(st, 200 if want else 404, 'status of a download of %s from group %d' % (f, k))
                if want:
                    ctx.eq(b, want[0], 'downloaded data')
                    hd = dict(hs)
                    ctx.eq((hd.get('Content-Length'), hd.get('Content-Type')),
                           (str(len(want[0])), want[1]), 'headers of a download')
    st, hs, b = exchange(h, 'GET', '/data/other/f', [], b'', ctx)
    ctx.eq(st, 404, 'download from a group that never was')
    ctx.state((tuple(sorted(model.items())), tuple(g[2] for g in groups)))
    ctx.outcome((len(model), tuple(g[2] for g in groups)))


# ---------------------------------------------------------------- schedules
def record(log, op, f):
    b = mcpysched.tick()
    r = f()
    log.append((b, mcpysched.tick(), op, r))


@mcpy.scenario(bound=3, bound_thorough=4)
def concurrent_uploads(ctx):
    """Two or three clients and the server on the same upload, all schedules: the
    answers are those of some order of the operations."""
    m, h = service()
    n = m.register_upload()
    log = []

    def up(body):
        return lambda: record(log, ('upload', body), lambda: upload(h, n, body, ctx)[0])

    def fin():
        def f():
            try:
                return ('got', m.finalize_upload(n))
            except KeyError:
                return ('KeyError',)
        return record(log, ('finalize',), f)

    kind = ctx.choose(4, 'operations')
    if kind == 0:
        bodies = [up(b'a'), up(b'bb')]
    elif kind == 1:
        bodies = [up(b'a'), fin]
    elif kind == 2:
        bodies = [fin, fin]
    else:
        bodies = [up(b'a'), lambda: (up(b'bb')(), fin())]
    mcpysched.run(ctx, bodies, FILES)

    def apply(state, op):
        if op[0] == 'upload':
            return (op[1], 200) if state is None else (state, 401)
        if state == 'gone':
            return state, ('KeyError',)
        return 'gone', ('got', state)
    ctx.check(mcpysched.linearizable(log, None, apply), 'no order of the operations explains %r' % (log,))
    if not any(x[2][0] == 'finalize' for x in log):
        kept = m.finalize_upload(n)
        won = [x[2][1] for x in log if x[3] == 200]
        ctx.eq([kept], won, 'upload kept')
    ctx.outcome((kind, sorted(str(x[2:]) for x in log)))


@mcpy.scenario(bound=3, bound_thorough=4)
def concurrent_groups(ctx):
    """Adding, downloading and closing at once."""
    m, h = service()
    cm = m.create_download_group()
    g = cm.__enter__()
    log = []

    def add(name, data):
        def f():
            try:
                g.add(name, data)
                return 'added'
            except KeyError:
                return 'KeyError'
        return lambda: record(log, ('add', name, data), f)

    def get(name):
        def f():
            st, _, b = exchange(h, 'GET', (g.prefix + name)[len(PREFIX) - 1:], [], b'', ctx)
            return (st, b if st == 200 else None)
        return lambda: record(log, ('get', name), f)

    def close():
        record(log, ('close',), lambda: bool(cm.__exit__(None, None, None)))

    bodies = ctx.pick([
        [add('f', b'1'), add('f', b'22')],
        [add('f', b'1'), get('f')],
        [add('f', b'1'), close],
        [lambda: (add('f', b'1')(), close()), get('f')],
        [m.register_upload, m.register_upload],
    ], 'operations')
    names = mcpysched.run(ctx, bodies, FILES)
    if log:
        def apply(state, op):
            d = dict(state[1])
            if op[0] == 'close':
                return (False, ()), False
            if op[0] == 'get':
                return state, (200, d[op[1]]) if op[1] in d else (404, None)
            if not state[0] or op[1] in d:
                return state, 'KeyError'
            d[op[1]] = op[2]
            return (True, tuple(sorted(d.items()))), 'added'
        ctx.check(mcpysched.linearizable(log, (True, ()), apply),
                  'no order of the operations explains %r' % (log,))
    else:
        ctx.check(names[0] != names[1], 'two uploads have one name')
        for x in names:
            ctx.eq(m.finalize_upload(x), None, 'a fresh upload')
    ctx.outcome(sorted(str(x[2:]) for x in log))


@mcpy.scenario(bound=1, bound_thorough=2)
def concurrent_requests(ctx):
    """Requests served at the same time do not mix."""
    m, h = service()
    with m.create_download_group() as g:
        g.add('f', b'1')
        g.add('g', b'22')
        n = m.register_upload()
        path = g.prefix[len(PREFIX) - 1:]
        get = lambda x: lambda: exchange(h, 'GET', path + x, [], b'', ctx)
        bodies = ctx.pick([[get('f'), get('g')], [get('f'), get('x')],
                           [lambda: upload(h, n, b'body', ctx), get('g')]], 'requests')
        r = mcpysched.run(ctx, bodies, [media.__file__, http_actions.__file__], mcpysched.MUTATE)
        got = [(x[0], x[2] if x[0] == 200 else None) for x in r]
        ctx.check(got in ([(200, b'1'), (200, b'22')], [(200, b'1'), (404, None)],
                          [(200, b''), (200, b'22')]), 'answers %r' % (got,))
        kept = m.finalize_upload(n)
        ctx.eq(kept, b'body' if got[0][1] == b'' else None, 'upload')
        ctx.outcome(got)


# ---------------------------------------------------------------- HTTP actions
S = 'google.internal.federatedcompute.v1.'


class Actions:
    """Records what it is called with; answers as told."""

    def __init__(self):
        self.calls = []
        self.answer = None

    def call(self, *a):
        self.calls.append(a)
        if isinstance(self.answer, Exception):
            raise self.answer
        return self.answer

    @http_actions.proto_action(service=S + 'EligibilityEvalTasks', method='RequestEligibilityEvalTask')
    def eet(self, request):
        return self.call('eet', request)

    @http_actions.proto_action(service=S + 'EligibilityEvalTasks', method='ReportEligibilityEvalTaskResult')
    def report(self, request):
        return self.call('report', request)

    @http_actions.proto_action(service=S + 'Aggregations', method='StartAggregationDataUpload')
    def start(self, request):
        return self.call('start', request)

    @http_actions.http_action(method='get', pattern='/get/{arg1}/{arg2}')
    def get(self, body, **kw):
        return self.call('get', body, kw)

    @http_actions.http_action(method='GET', pattern='/v1.0/fixed')
    def fixed(self, body, **kw):
        return self.call('fixed', body, kw)


class More(Actions):
    eet = report = start = get = fixed = None

    @http_actions.http_action(method='POST', pattern='/post/{arg1}:do?mode={mode}')
    def post(self, body, **kw):
        return self.call('post', body, kw)

    @http_actions.http_action(method='post', pattern='/get/{a}/{b}')
    def post_get(self, body, **kw):
        return self.call('post_get', body, kw)

    @http_actions.proto_action(service=S + 'TaskAssignments', method='ReportTaskResult')
    def task_report(self, request):
        return self.call('task_report', request)


# name -> (method, literal parts around the variables, variables, proto request, proto response)
ROUTES = {
    'eet': ('POST', ['/v1/eligibilityevaltasks/', ':request?%24alt=proto'], ['population_name'],
            eligibility_eval_tasks_pb2.EligibilityEvalTaskRequest,
            eligibility_eval_tasks_pb2.EligibilityEvalTaskResponse(session_id='s')),
    'report': ('POST', ['/v1/populations/', '/eligibilityevaltasks/', ':reportresult?%24alt=proto'],
               ['population_name', 'session_id'],
               eligibility_eval_tasks_pb2.ReportEligibilityEvalTaskResultRequest,
               eligibility_eval_tasks_pb2.ReportEligibilityEvalTaskResultResponse()),
    'start': ('POST', ['/v1/aggregations/', '/clients/', ':startdataupload?%24alt=proto'],
              ['aggregation_id', 'authorization_token'],
              aggregations_pb2.StartAggregationDataUploadRequest,
              operations_pb2.Operation(name='operations/1', done=True)),
    'task_report': ('POST', ['/v1/populations/', '/taskassignments/', ':reportresult?%24alt=proto'],
                    ['population_name', 'session_id'], task_assignments_pb2.ReportTaskResultRequest,
                    task_assignments_pb2.ReportTaskResultResponse()),
    'get': ('GET', ['/get/', '/', ''], ['arg1', 'arg2'], None, None),
    'fixed': ('GET', ['/v1.0/fixed'], [], None, None),
    'post': ('POST', ['/post/', ':do?mode=', ''], ['arg1', 'mode'], None, None),
    'post_get': ('POST', ['/get/', '/', ''], ['a', 'b'], None, None),
}


def unescape(s):
    """Percent-decoding of UTF-8; None when it is not UTF-8."""
    out = bytearray()
    i = 0
    b = s.encode('utf-8')
    hexd = b'0123456789abcdefABCDEF'
    while i < len(b):
        if b[i:i + 1] == b'%' and i + 2 < len(b) + 0 and b[i + 1] in hexd and b[i + 2] in hexd:
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    try:
        return out.decode('utf-8')
    except UnicodeDecodeError:
        return None


def match(parts, path):
    """All ways to read path as part0 value part1 value ...; values without / and ?"""
    def go(i, rest):
        if i == len(parts) - 1:
            return [[]] if rest == '' else []
        out = []
        nxt = parts[i + 1]
        for k in range(len(rest) + 1):
            v = rest[:k]
            if '/' in v or '?' in v:
                break
            if rest[k:k + len(nxt)] == nxt:
                out += [[v] + x for x in go(i + 1, rest[k + len(nxt):])]
        return out
    if not path.startswith(parts[0]):
        return []
    return go(0, path[len(parts[0]):])


ARGS = ['a', '', 'a%2Fb', 'x.y', '%C3%A9', '%FF', 'a+b', '%', '%3F', 'a:do', 'a:request', 'A-_~*', 'a%25b']
ODD = ['', '/', '/v1.0/fixed', '/v1x0/fixed', '/v1.0/fixed/', '/v1.0/fixed?', '/V1.0/fixed', '/get/a',
       '/get/a/b/c', '/get/a/b?c', '/xget/a/b', '/get//', '/post/a:do?mode=', '/post/a:do', '/post/a:doxmode=1',
       '/post/a:do?mode=x&y=1', '/v1/eligibilityevaltasks/p:request', '/v1/eligibilityevaltasks/p:request?alt=proto',
       '/v1/eligibilityevaltasks/p:request?%24alt=json', '/v1/eligibilityevaltasks/p:request?$alt=proto',
       '/v1/eligibilityevaltasks/p/q:request?%24alt=proto', '/v1/eligibilityevaltasks/p:request?%24alt=proto&x',
       '/v1/eligibilityevaltasks/p:requestx%24alt=proto', '/get/a/b/', 'get/a/b', '/*']

ENCODINGS = [None, 'gzip', 'gzip empty', 'gzip two members', 'gzip truncated', 'gzip short', 'gzip garbage',
             'gzip bad checksum', 'gzip bad data', 'gzip no data', 'compress', 'identity', 'GZIP', 'gzip, gzip']

REQ = eligibility_eval_tasks_pb2.EligibilityEvalTaskRequest(
    client_version=common_pb2.ClientVersion(version_code='v1'))


def encode(body, enc):
    """-> (header, bytes, the body seen by the action or None when refused)"""
    z = gzip.compress(body, mtime=0)
    return {
        None: (None, body, body),
        'gzip': ('gzip', z, body),
        'gzip empty': ('gzip', gzip.compress(b'', mtime=0), b''),
        'gzip two members': ('gzip', z + gzip.compress(b'', mtime=0), body),
        'gzip truncated': ('gzip', z[:-9], None),
        'gzip short': ('gzip', z[:5], None),
        'gzip garbage': ('gzip', b'garbage', None),
        'gzip bad checksum': ('gzip', z[:-8] + bytes([z[-8] ^ 1]) + z[-7:], None),
        'gzip bad data': ('gzip', z[:10] + b'\xff' + z[11:], None),
        'gzip no data': ('gzip', b'', b''),
        'compress': ('compress', body, None),
        'identity': ('identity', body, None),
        'GZIP': ('GZIP', z, None),
        'gzip, gzip': ('gzip, gzip', gzip.compress(z, mtime=0), None),
    }[enc]


def actions():
    a, b = Actions(), More()
    return a, b, quiet(http_actions.create_handler(a, b))


def request(ctx, method, path, encoding, body, answer):
    a, b, h = actions()
    # a decoded request that the proto actions give
    hits = []
    for r, (m, parts, args, req, resp) in ROUTES.items():
        if m == method:
            ways = match(parts, path)
            if ways:
                hits.append((r, ways))
    ctx.check(len(hits) <= 1 and all(len(w) == 1 for _, w in hits), 'the harness has ambiguous routes: ' + path)
    header, raw, seen = encode(body, encoding)
    if method == 'GET':
        seen = b''
    headers = [('Content-Length', str(len(raw)))] if method == 'POST' else []
    if header and method == 'POST':
        headers.append(('Content-Encoding', header))
    route = hits[0][0] if hits else None
    for x in (a, b):
        if isinstance(answer, Exception) or route is None:
            x.answer = answer
        else:
            x.answer = ROUTES[route][4] if ROUTES[route][3] else answer
    st, hs, got = exchange(h, method, path, headers, raw if method == 'POST' else b'', ctx)
    calls = a.calls + b.calls
    what = '%s %s %s' % (method, path, encoding)
    if route is None:
        ctx.eq((st, calls), (404, []), 'answer to %s' % what)
        ctx.outcome('404')
        return
    _, parts, names, req, resp = ROUTES[route]
    values = [unescape(v) for v in hits[0][1][0]]
    bad = seen is None or None in values
    message = None
    if not bad and req is not None:
        message = req()
        try:
            message.ParseFromString(seen)
        except Exception:
            bad = True
        else:
            for n, v in zip(names, values):
                setattr(message, n, v)
    if bad:
        ctx.eq((st, calls), (400, []), 'answer to the malformed request %s' % what)
        ctx.outcome('400')
        return
    ctx.eq(calls, [(route, message) if req else (route, seen, dict(zip(names, values)))], 'calls made for %s' % what)
    ctx.check(route in ('post', 'post_get', 'task_report') or not b.calls, 'the wrong service was called')
    if isinstance(answer, Exception):
        ctx.eq(st, int(answer.code), 'status of the refused %s' % what)
        ctx.outcome('error')
        return
    if req:
        want = resp.SerializeToString()
        wanth = {'Content-Length': str(len(want)), 'Content-Type': 'application/x-protobuf'}
    else:
        want, wanth = answer.body, {k: str(v) for k, v in answer.headers.items()}
    ctx.eq((st, got), (200, want), 'answer to %s' % what)
    for k, v in wanth.items():
        ctx.eq([x for y, x in hs if y == k], [v], 'header %s of the answer to %s' % (k, what))
    ctx.outcome('200 ' + route)


OK = http_actions.HttpResponse(body=b'body\r\n\r\nmore', headers={'Content-Length': 12, 'X-Test': 'a: b'})


@mcpy.scenario()
def dispatch(ctx):
    """Every path made of a route and arguments, and odd ones."""
    if ctx.flip('odd path'):
        method = ctx.pick(['GET', 'POST'], 'method')
        path = ctx.pick([p for p in ODD if p and ' ' not in p], 'path')
    else:
        r = ctx.pick(sorted(ROUTES), 'route')
        m, parts, names, _, _ = ROUTES[r]
        method = m if not ctx.flip('other method') else {'GET': 'POST', 'POST': 'GET'}[m]
        path = parts[0]
        for p in parts[1:]:
            path += ctx.pick(ARGS, 'argument') + p
    ctx.step('%s %s' % (method, path))
    request(ctx, method, path, None, REQ.SerializeToString() if 'eligibilityevaltasks/' in path[:25] else b'', OK)


@mcpy.scenario()
def bodies(ctx):
    """Every encoding and body, every answer of the action."""
    r = ctx.pick([x for x in sorted(ROUTES)], 'route')
    m, parts, names, req, _ = ROUTES[r]
    path = parts[0] + ''.join('v%d' % i + p for i, p in enumerate(parts[1:]))
    body = ctx.pick([b'', REQ.SerializeToString(), b'invalid', b'\x00' * 3000], 'body') if m == 'POST' else b''
    enc = ctx.pick(ENCODINGS, 'encoding') if m == 'POST' else None
    codes = [http.HTTPStatus.UNAUTHORIZED, http.HTTPStatus.NOT_FOUND, http.HTTPStatus.BAD_REQUEST,
             http.HTTPStatus.INTERNAL_SERVER_ERROR, http.HTTPStatus.FORBIDDEN]
    answer = ctx.pick([OK, http_actions.HttpResponse(body=b''),
                       http_actions.HttpResponse(body=b'x' * 5000, headers={'Content-Length': 5000})] +
                      [http_actions.HttpError(code=c) for c in codes], 'answer')
    ctx.step('%s %s %s' % (r, enc, answer))
    request(ctx, m, path, enc, body, answer)


@mcpy.scenario()
def path_overrides_body(ctx):
    """What the path says wins over what the body says; the rest of the body stays."""
    a, b, h = actions()
    a.answer = ROUTES['report'][4]
    inp = ctx.pick(['', 'body'], 'population in the body')
    ins = ctx.pick(['', 'body'], 'session in the body')
    code = ctx.pick([0, 13], 'status')
    msg = eligibility_eval_tasks_pb2.ReportEligibilityEvalTaskResultRequest(
        population_name=inp, session_id=ins, status_code=code)
    p, s = ctx.pick(ARGS, 'population'), ctx.pick(ARGS, 'session')
    ctx.step()
    st, _, _ = post(h, '/v1/populations/%s/eligibilityevaltasks/%s:reportresult?%%24alt=proto' % (p, s),
                    msg.SerializeToString(), ctx)
    up, us = unescape(p), unescape(s)
    if up is None or us is None:
        ctx.eq((st, a.calls), (400, []), 'answer to arguments that are not UTF-8')
        return
    msg.population_name, msg.session_id = up, us
    ctx.eq((st, a.calls), (200, [('report', msg)]), 'call made')


@mcpy.scenario()
def declarations(ctx):
    """Declarations that cannot be served are refused when declared."""
    kind = ctx.choose(4, 'declaration')
    ctx.step()
    try:
        if kind == 0:
            http_actions.http_action(method=ctx.pick(['PUT', 'DELETE', '', 'HEAD'], 'method'), pattern='/x')
        elif kind == 1:
            http_actions.proto_action(service=S + 'Nothing', method='Nothing')
        elif kind == 2:
            http_actions.proto_action(service=S + 'Aggregations', method='Nothing')
        else:
            http_actions.http_action(method='GET', pattern=ctx.pick(['/{a.b}', '/{a}/{a}', '/{1}'], 'pattern'))
        ctx.fail('a declaration that cannot be served was accepted (%d)' % kind)
    except ValueError:
        pass


mcpy.rule('Uploads: every sequence of 6 operations (7 thorough) of register, upload (plain, empty, gzip) and '
          'finalize over two registered names and an unknown one. Downloads: every sequence of 6 (7) openings, '
          'closings (normal or by an exception) and additions over two groups and two names, with every name '
          'asked for after each operation. Concurrent uploads, finalizations, additions, downloads and closings: '
          'all schedules with up to 3 (4) preemptions at lock operations, lines and instructions that touch '
          'shared data, judged by linearizability. HTTP actions: all routes x 13 x 13 path arguments, 25 odd '
          'paths, both methods; 4 bodies x 14 encodings x 8 answers.')
mcpy.assumption('Requests reach the handler through the real request parser of http.server over an in-memory '
                'connection, with a Content-Length header that tells the truth; sockets are not exercised.')

if __name__ == '__main__':
    sys.exit(mcpy.main())
