"""C40: the demo server's aggregation sessions and task assignment."""
import asyncio
import dataclasses
import enum
import http
import os
import sys
import types
import uuid
import warnings

warnings.simplefilter('ignore')
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'common'))
import mcpy
import mcpysched
import pystage

mcpysched.patch()
P = 'fcp/protos/federatedcompute/'
OUT = pystage.stage('c40', ['http_actions', 'media', 'aggregations', 'task_assignments', 'eligibility_eval_tasks'],
                    ['fcp/protos/plan.proto', 'fcp/protos/population_eligibility_spec.proto'] +
                    [P + x + '.proto' for x in ('common', 'eligibility_eval_tasks', 'aggregations', 'task_assignments')])

_count = [0]


def _uuid4():
    _count[0] += 1
    return uuid.UUID(int=(_count[0] * 0x9E3779B97F4A7C15F39CC0605CEDC835) % (1 << 128))


uuid.uuid4 = _uuid4


# ------------------------------------------------- stand-ins for what is not here
def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    parent, _, leaf = name.rpartition('.')
    if parent:
        if parent not in sys.modules:
            module(parent, __path__=[])
        setattr(sys.modules[parent], leaf, m)
    return m


class Code(enum.Enum):
    OK = 0
    CANCELLED = 1
    UNKNOWN = 2
    INVALID_ARGUMENT = 3
    NOT_FOUND = 5
    FAILED_PRECONDITION = 9
    ABORTED = 10
    INTERNAL = 13


class Status:
    def __init__(self, code, message):
        self._code, self._message = code, message

    def ok(self):
        return self._code == Code.OK

    def code(self):
        return self._code

    def raw_code(self):
        return self._code.value

    def message(self):
        return self._message

    @staticmethod
    def OkStatus():
        return Status(Code.OK, '')


class StatusNotOk(Exception):
    def __init__(self, status):
        self.status = status


module('pybind11_abseil', __path__=[])
module('pybind11_abseil.status', Status=Status, StatusCode=Code, StatusNotOk=StatusNotOk,
       StatusCodeFromInt=Code, invalid_argument_error=lambda m: Status(Code.INVALID_ARGUMENT, m),
       internal_error=lambda m: Status(Code.INTERNAL, m))


class Bag:
    """Stands in for the messages of the aggregation library."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


T = 'tensorflow_federated.cc.core.impl.aggregation.'
bag = lambda: type('Message', (Bag,), {})
Configuration = bag()
Configuration.IntrinsicConfig = bag()
Configuration.IntrinsicConfig.IntrinsicArg = bag()
ClientMessage = bag()
ClientMessage.SimpleAggregation = bag()


class TensorSpec:
    def __init__(self, name):
        self.name, self.dtype, self.shape = name, None, Bag(dim_sizes=[])


module(T + 'core.tensor_pb2', TensorSpecProto=TensorSpec, DataType=Bag(
    DT_FLOAT='FLOAT', DT_DOUBLE='DOUBLE', DT_INT32='INT32', DT_STRING='STRING', DT_INT64='INT64', DT_UINT64='UINT64'))
module(T + 'protocol.configuration_pb2', Configuration=Configuration)
module(T + 'protocol.aggregation_protocol_messages_pb2', ClientMessage=ClientMessage, ClientResource=bag())
module('tensorflow', __path__=[OUT + '/tensorflow'], dtypes=Bag(as_dtype=lambda d: d),
       float32=1, double=2, int32=3, string=7, int64=9, uint64=23, float64=2)


class Protocol:
    """The aggregation protocol as its documentation has it; the input 'bad' does not parse."""

    def __init__(self):
        self.state = 'CREATED'
        self.clients = []          # 'pending', 'completed', 'failed', 'aborted'
        self.messages = {}
        self.inputs = []
        self.discarded = 0
        self.fail_complete = False

    def _need(self, state='STARTED'):
        if self.state != state:
            raise StatusNotOk(Status(Code.FAILED_PRECONDITION, 'protocol is ' + self.state))

    def _point(self):
        if mcpysched.controlled():
            mcpysched._sched.point('protocol')

    def Start(self, n):
        self._need('CREATED')
        self.state = 'STARTED'
        return self.AddClients(n)

    def AddClients(self, n):
        self._point()
        self._need()
        first = len(self.clients)
        self.clients += ['pending'] * n
        return first

    def _close(self, i, state, code):
        self.clients[i] = state
        self.messages[i] = Bag(simple_aggregation=Bag(close_message=Bag(code=code)))

    def ReceiveClientMessage(self, i, message):
        self._point()
        self._need()
        if self.clients[i] != 'pending':
            return
        data = message.simple_aggregation.input.inline_bytes
        if data.startswith(b'bad'):
            self._close(i, 'failed', Code.INVALID_ARGUMENT.value)
        else:
            self.inputs.append(data)
            self._close(i, 'completed', 0)

    def CloseClient(self, i, message, code):
        self._point()
        self._need()
        if self.clients[i] == 'pending':
            self.clients[i] = 'failed' if code else 'discarded'

    def PollServerMessage(self, i):
        self._point()
        return self.messages.pop(i, None)

    def _end(self, state):
        for i, c in enumerate(self.clients):
            if c == 'pending':
                self._close(i, 'aborted', Code.ABORTED.value)
        self.state = state

    def Complete(self):
        self._point()
        self._need()
        if self.fail_complete:
            self.discarded, self.inputs = len(self.inputs), []
            self._end('ABORTED')
            raise StatusNotOk(Status(Code.UNKNOWN, 'failed'))
        self._end('COMPLETED')

    def Abort(self):
        self._point()
        self._need()
        self.discarded, self.inputs = len(self.inputs), []
        self._end('ABORTED')

    def GetResult(self):
        self._point()
        self._need('COMPLETED')
        return b'+'.join(sorted(self.inputs))

    def GetStatus(self):
        n = self.clients.count
        return Bag(num_clients_completed=n('completed'), num_clients_failed=n('failed'),
                   num_clients_pending=n('pending'), num_clients_aborted=n('aborted'),
                   num_inputs_aggregated_and_included=len(self.inputs),
                   num_inputs_aggregated_and_pending=0, num_inputs_discarded=self.discarded)


_protocols = []


def _create(config):
    p = Protocol()
    p.config = config
    _protocols.append(p)
    return p


module(T + 'protocol.python.aggregation_protocol', AggregationProtocol=Protocol)
module(T + 'tensorflow.python.aggregation_protocols', create_simple_aggregation_protocol=_create)

from absl import logging
from fcp.demo import aggregations
from fcp.demo import eligibility_eval_tasks
from fcp.demo import http_actions
from fcp.demo import media
from fcp.demo import task_assignments
from fcp.protos import plan_pb2
from fcp.protos import population_eligibility_spec_pb2
from fcp.protos.federatedcompute import aggregations_pb2
from fcp.protos.federatedcompute import common_pb2
from fcp.protos.federatedcompute import eligibility_eval_tasks_pb2
from fcp.protos.federatedcompute import task_assignments_pb2

logging.set_verbosity(logging.FATAL)
AS = aggregations.AggregationStatus
PREFIX = 'https://server.example/'
FILES = [aggregations.__file__]
info = lambda: common_pb2.ForwardingInfo(target_uri_prefix=PREFIX)


class Media(media.Service):
    """Remembers every upload that was registered."""

    def __init__(self):
        super().__init__(info)
        self.names = []

    def register_upload(self):
        n = super().register_upload()
        self.names.append(n)
        return n


def plan():
    return plan_pb2.Plan(phase=[plan_pb2.Plan.Phase(server_phase_v2=plan_pb2.ServerPhaseV2(
        aggregations=[plan_pb2.ServerAggregationConfig(intrinsic_uri='federated_sum')]))])


def world():
    _count[0] = 0
    del _protocols[:]
    with mcpysched.objects():
        m = Media()
        s = aggregations.Service(info, m)
    return m, s


def new_session(s, minimum):
    return s.create_session(aggregations.AggregationRequirements(
        minimum_clients_in_server_published_aggregate=minimum, plan=plan()))


def call(f, *a):
    """-> ('ok', value) or the HTTP status or 'KeyError'"""
    try:
        return 'ok', f(*a)
    except http_actions.HttpError as e:
        return int(e.code), None
    except KeyError:
        return 'KeyError', None


def start(s, sid, token):
    r, op = call(s.start_aggregation_data_upload, aggregations_pb2.StartAggregationDataUploadRequest(
        aggregation_id=sid, authorization_token=token))
    if r != 'ok':
        return r, None
    if not op.done:
        raise mcpy.Violation('the operation is not done')
    resp = aggregations_pb2.StartAggregationDataUploadResponse()
    if not op.response.Unpack(resp):
        raise mcpy.Violation('no response in the operation')
    return 'ok', resp


def submit(s, sid, token, name):
    return call(s.submit_aggregation_result, aggregations_pb2.SubmitAggregationResultRequest(
        aggregation_id=sid, client_token=token, resource_name=name))[0]


def leave(s, sid, token, code=1):
    req = aggregations_pb2.AbortAggregationRequest(aggregation_id=sid, client_token=token)
    req.status.code = code
    return call(s.abort_aggregation, req)[0]


def left_over(m):
    """The uploads that still take a body."""
    out = []
    for n in m.names:
        try:
            m.upload(b'late', n)
            out.append(n)
        except http_actions.HttpError:
            pass
    return out


def as_tuple(st):
    return dataclasses.astuple(st)


class Client:
    def __init__(self, session, token):
        self.session, self.token = session, token
        self.state = 'token'
        self.body = None
        self.client_token = self.name = None


class Model:
    def __init__(self, minimum):
        self.minimum = minimum
        self.status = AS.PENDING
        self.completed = self.failed = self.aborted = self.pending = self.dropped = 0
        self.inputs = []
        self.discarded = 0

    def expect(self):
        return (self.status, self.completed, self.failed, self.pending, self.aborted,
                len(self.inputs), 0, self.discarded)

    def end(self, status):
        self.status = status
        self.aborted += self.pending
        self.pending = 0
        if status != AS.COMPLETED:
            self.discarded, self.inputs = len(self.inputs), []


@mcpy.scenario()
def histories(ctx):
    """All histories of two sessions and two clients."""
    m, s = world()
    minimum = ctx.pick([1, 2], 'clients needed')
    failing = ctx.flip('completion fails', 0) if ctx.thorough else False
    sids = [new_session(s, minimum)]
    models = [Model(minimum)]
    _protocols[0].fail_complete = failing
    clients = []
    over = []
    depth = 8 if ctx.thorough else 7
    for step in range(depth):
        ops = []
        if len(sids) < 2 and clients:
            ops.append(('second session',))
        for k in range(len(sids)):
            if len(clients) < 2:
                ops.append(('authorize', k))
            if k not in over or step == depth - 1:
                ops += [('complete', k), ('abort session', k)]
        for i, c in enumerate(clients):
            if c.state == 'token':
                ops += [('start', i)]
                if len(sids) > 1:
                    ops += [('start elsewhere', i)]
            elif c.state == 'started':
                ops += [('submit', i), ('leave', i), ('submit wrong name', i)]
                if c.body is None:
                    ops += [('upload', i, b'in%d' % i), ('upload', i, b'bad%d' % i)]
                if len(sids) > 1:
                    ops += [('submit elsewhere', i)]
            elif step == depth - 1:
                ops += [('start', i), ('submit', i), ('leave', i)]
        op = ctx.pick(ops, 'operation')
        ctx.step(str(op))
        k = op[1] if len(op) > 1 else None
        if op[0] == 'second session':
            sids.append(new_session(s, minimum))
            models.append(Model(minimum))
            ctx.check(sids[0] != sids[1], 'two sessions share an id')
        elif op[0] == 'authorize':
            r, t = call(s.pre_authorize_clients, sids[k], 1)
            ctx.eq(r, 'KeyError' if k in over else 'ok', 'pre-authorization')
            if r == 'ok':
                ctx.eq(len(t), 1, 'tokens')
                clients.append(Client(k, t[0]))
        elif op[0] in ('complete', 'abort session'):
            md = models[k]
            if op[0] == 'complete':
                r, v = call(s.complete_session, sids[k])
            else:
                r, v = call(s.abort_session, sids[k])
            if k in over:
                ctx.eq(r, 'KeyError', 'ending a session that is over')
            else:
                ctx.eq(r, 'ok', 'ending a session')
                over.append(k)
                for c in clients:
                    if c.session == k:
                        c.state = 'over'
                if op[0] == 'abort session':
                    md.end(AS.ABORTED)
                    ctx.eq(as_tuple(v), md.expect(), 'status of the aborted session')
                else:
                    data = b'+'.join(sorted(md.inputs))
                    good = len(md.inputs) >= md.minimum and not (failing and k == 0)
                    md.end(AS.COMPLETED if good else AS.FAILED)
                    ctx.eq((as_tuple(v[0]), v[1]), (md.expect(), data if good else None), 'completed session')
        elif op[0].startswith('start'):
            c = clients[k]
            sid = sids[1 - c.session] if 'elsewhere' in op[0] else sids[c.session]
            gone = (1 - c.session if 'elsewhere' in op[0] else c.session) in over
            r, resp = start(s, sid, c.token)
            want = 404 if gone else (401 if 'elsewhere' in op[0] or c.state != 'token' else 'ok')
            ctx.eq(r, want, 'start')
            if r == 'ok':
                c.state = 'started'
                c.client_token, c.name = resp.client_token, resp.resource.resource_name
                models[c.session].pending += 1
                ctx.check(c.name in m.names and c.client_token and c.client_token != c.token, 'start response')
                ctx.check(all(o is c or (o.name != c.name and o.client_token != c.client_token) for o in clients),
                          'clients share names')
                ctx.eq((resp.aggregation_protocol_forwarding_info.target_uri_prefix,
                        resp.resource.data_upload_forwarding_info.target_uri_prefix), (PREFIX, PREFIX), 'forwarding')
        elif op[0] == 'upload':
            c = clients[k]
            c.body = op[2]
            ctx.eq(call(m.upload, c.body, c.name)[0], 'ok', 'upload')
        else:
            c = clients[k]
            elsewhere = 'elsewhere' in op[0]
            gone = (1 - c.session if elsewhere else c.session) in over
            sid = sids[1 - c.session] if elsewhere else sids[c.session]
            token, name = c.client_token or 'none', c.name or 'none'
            md = models[c.session]
            if op[0] == 'leave':
                r = leave(s, sid, token)
            else:
                r = submit(s, sid, token, 'other' if 'wrong' in op[0] else name)
            if gone or elsewhere or c.state != 'started':
                ctx.eq(r, 404 if gone else 401, op[0])
            elif op[0] == 'leave':
                ctx.eq(r, 'ok', 'leave')
                c.state = 'left'
                md.pending -= 1
                md.failed += 1
            elif 'wrong' in op[0]:
                ctx.eq(r, 400, 'submission of a resource of somebody else')
            elif c.body is None or c.body.startswith(b'bad'):
                ctx.eq(r, 400, 'submission without a readable upload')
                c.state = 'failed'
                md.pending -= 1
                md.failed += 1
            else:
                ctx.eq(r, 'ok', 'submission')
                c.state = 'done'
                md.pending -= 1
                md.completed += 1
                md.inputs.append(c.body)
        for k, sid in enumerate(sids):
            r, v = call(s.get_session_status, sid)
            if k in over:
                ctx.eq(r, 'KeyError', 'status of a session that is over')
            else:
                ctx.eq(as_tuple(v), models[k].expect(), 'status of session %d' % k)
    for k, sid in enumerate(sids):
        if k not in over:
            s.abort_session(sid)
    ctx.eq(left_over(m), [], 'uploads that still wait for data although all sessions are over')
    ctx.state((tuple(x.expect() for x in models), tuple(c.state for c in clients)))
    ctx.outcome(tuple(str(x.expect()[0]) + str(x.expect()[1:]) for x in models))


# ---------------------------------------------------------------- waits
class Loop:
    """Collects what it is asked to run."""

    def __init__(self):
        self.queue = []

    def get_debug(self):
        return False

    def call_soon(self, f, *a, context=None):
        self.queue.append((f, a))

    call_soon_threadsafe = call_soon

    def is_running(self):
        return True

    def call_exception_handler(self, c):
        pass

    def run(self):
        while self.queue:
            f, a = self.queue.pop(0)
            f(*a)


class Wait:
    """One call of wait()."""

    def __init__(self, loop, s, sid, n):
        self.loop, self.n = loop, n
        self.result = None
        self.coro = s.wait(sid, n)
        self.go()

    def go(self):
        asyncio._set_running_loop(self.loop)
        try:
            self.future = self.coro.send(None)
        except StopIteration as e:
            self.result = ('ok', e.value)
        except KeyError:
            self.result = ('KeyError', None)
        finally:
            asyncio._set_running_loop(None)

    def poll(self):
        """The loop runs what it was given; did the call return?"""
        self.loop.run()
        if self.result is None and self.future.done():
            self.go()
        return self.result


def joined(m, s, sid, body):
    t = s.pre_authorize_clients(sid, 1)[0]
    _, resp = start(s, sid, t)
    m.upload(body, resp.resource.resource_name)
    return resp.client_token, resp.resource.resource_name


@mcpy.scenario()
def waits(ctx):
    """Every order of submissions, waits and an end of the session."""
    m, s = world()
    sid = new_session(s, 1)
    loop = Loop()
    waits = []
    done = 0
    over = None
    failed = 0
    for step in range(6 if ctx.thorough else 5):
        op = ctx.pick(['submit', 'submit bad', 'wait 1', 'wait 2', 'wait None', 'complete', 'abort'], 'operation')
        ctx.step(op)
        if op.startswith('submit'):
            if over:
                ctx.prune()
            bad = 'bad' in op
            ctx.eq(submit(s, sid, *joined(m, s, sid, b'bad' if bad else b'x')), 400 if bad else 'ok', 'submission')
            failed += bad
            done += not bad
        elif op.startswith('wait'):
            n = {'1': 1, '2': 2, 'N': None}[op[5]]
            w = Wait(loop, s, sid, n)
            w.want = None
            waits.append(w)
            if over:
                w.want = 'KeyError'
        elif over:
            ctx.prune()
        elif op == 'complete':
            over = s.complete_session(sid)[0]
        else:
            over = s.abort_session(sid)
        for w in waits:
            if w.want is None:
                if over is not None:
                    w.want = over
                elif w.n is None or done >= w.n:
                    w.want = s.get_session_status(sid)
            r = w.poll()
            if w.want is None:
                ctx.check(r is None, 'a wait for %r returned %r after %d inputs' % (w.n, r, done))
            elif w.want == 'KeyError':
                ctx.eq(r, ('KeyError', None), 'wait for a session that is over')
            else:
                ctx.check(r is not None and r[0] == 'ok', 'a wait for %r did not return after %d inputs' % (w.n, done))
                ctx.eq(as_tuple(r[1]), as_tuple(w.want), 'what a wait returned')
    for w in waits:
        w.coro.close()
    ctx.outcome((done, failed, str(over and over.status), len(waits)))


# ---------------------------------------------------------------- schedules
def attempt(f):
    """The answer; an error of the aggregation protocol that escapes counts as a refusal."""
    try:
        return f()
    except StatusNotOk as e:
        return 500


@mcpy.scenario(bound=2, bound_thorough=3)
def concurrent_requests(ctx):
    """Two requests at a time, all schedules."""
    m, s = world()
    sid = new_session(s, 1)
    loop = Loop()
    a = joined(m, s, sid, b'a')
    b = joined(m, s, sid, b'b')
    token = s.pre_authorize_clients(sid, 1)[0]
    kind = ctx.pick(['submit submit', 'submit twice', 'submit leave', 'start start', 'submit complete',
                     'submit abort', 'start complete', 'start abort', 'leave complete', 'complete abort',
                     'wait submit', 'wait complete'], 'requests')
    w = None
    names = {'submit': lambda: attempt(lambda: submit(s, sid, *a)),
             'leave': lambda: attempt(lambda: leave(s, sid, a[0])),
             'start': lambda: attempt(lambda: start(s, sid, token)[0]),
             'twice': lambda: attempt(lambda: submit(s, sid, *a)),
             'complete': lambda: call(s.complete_session, sid),
             'abort': lambda: call(s.abort_session, sid)}
    x, y = kind.split(' ')
    if x == 'wait':
        w = Wait(loop, s, sid, 1)
        ctx.check(w.poll() is None, 'a wait returned too early')
        if y == 'complete':
            bodies = [names['submit'], names['complete']]
        else:
            bodies = [names['submit'], lambda: attempt(lambda: submit(s, sid, *b))]
    elif kind == 'submit submit':
        bodies = [names['submit'], lambda: attempt(lambda: submit(s, sid, *b))]
    else:
        bodies = [names[x], names[y]]
    r = mcpysched.run(ctx, bodies, FILES, mcpysched.MUTATE if ctx.thorough else ())
    result = None
    for v in r:
        if isinstance(v, tuple) and v[0] == 'ok' and isinstance(v[1], tuple):
            result = v[1]
    show = [v[0] if isinstance(v, tuple) else v for v in r]
    if kind == 'submit submit' or kind == 'wait submit':
        ctx.eq(show, ['ok', 'ok'], kind)
    elif kind in ('submit twice', 'start start'):
        ctx.eq(sorted(show, key=str), [401, 'ok'], kind)
    elif kind == 'submit leave':
        ctx.eq(sorted(show, key=str), [401, 'ok'], kind)
    elif kind == 'complete abort':
        ctx.eq(sorted(show), ['KeyError', 'ok'], kind)
    else:
        ctx.check(show[1] == 'ok' and show[0] in ('ok', 404, 500, 400), '%s: %r' % (kind, show))
    over = not call(s.get_session_status, sid)[0] == 'ok'
    if not over:
        result = s.complete_session(sid)
    if result is not None:
        status, data = result
        ctx.eq(data is None, status.status != AS.COMPLETED, 'a result without completion or the reverse')
        inputs = [] if not data else data.split(b'+')
        want = []
        if kind in ('submit submit', 'wait submit'):
            want = [b'a', b'b']
        elif x == 'submit' and show[0] == 'ok' or y == 'twice' or (w and show[0] == 'ok'):
            want = [b'a']
        if kind == 'submit leave':
            want = [b'a'] if r[0] == 'ok' else []
        if data is None:        # (given up for want of inputs, before or after ours)
            want = []
        ctx.eq(inputs, want, '%s %r: what was aggregated' % (kind, show))
        ctx.eq(status.num_inputs_aggregated_and_included, len(inputs), 'inputs counted')
    if w:
        try:
            got = w.poll()
        except asyncio.InvalidStateError:
            ctx.fail('a wait was told its result twice')
        ctx.check(got is not None and got[0] == 'ok', 'a wait never returned (%s)' % kind)
        w.coro.close()
    ctx.eq(left_over(m), [], '%s %r: uploads that still wait for data although the session is over' % (kind, show))
    ctx.outcome((kind, show))


# ---------------------------------------------------------------- tasks
Mode = population_eligibility_spec_pb2.PopulationEligibilitySpec.TaskInfo.TaskAssignmentMode
SINGLE, MULTI = Mode.TASK_ASSIGNMENT_MODE_SINGLE, Mode.TASK_ASSIGNMENT_MODE_MULTIPLE


@mcpy.scenario()
def tasks(ctx):
    """All histories of adding and removing tasks; after each, what clients are given."""
    m, s = world()
    ta = task_assignments.Service('pop', info, s)
    ee = eligibility_eval_tasks.Service('pop', info)
    live = []            # (name, mode, session)
    n = 0
    for step in range(6 if ctx.thorough else 5):
        ops = [('add', x, mode) for x in ('t0', 't1') for mode in (SINGLE, MULTI) if all(l[0] != x for l in live)]
        ops += [('remove', i, 0) for i in range(len(live))] + [('remove unknown', 0, 0), ('add unspecified', 0, 0)]
        op, i, mode = ctx.pick(ops, 'operation')
        ctx.step('%s %s' % (op, i))
        res = lambda kind: common_pb2.Resource(uri='%s%d' % (kind, n))
        if op == 'add':
            sid = new_session(s, 1)
            ta.add_task(i, mode, sid, res('plan'), res('checkpoint'), 'template%d' % n)
            ee.add_task(i, mode)
            live.append((i, mode, sid, n))
            n += 1
        elif op == 'remove':
            ta.remove_task(live[i][2])
            ee.remove_task(live[i][0])
            del live[i]
        elif op == 'remove unknown':
            ctx.eq(call(ta.remove_task, 'none')[0], 'KeyError', 'removing an unknown task')
            ctx.eq(call(ee.remove_task, 'none')[0], 'KeyError', 'removing an unknown task')
        else:
            try:
                ta.add_task('t', Mode.TASK_ASSIGNMENT_MODE_UNSPECIFIED, 'x', res('p'), res('c'), '')
                ctx.fail('a task without a mode was accepted')
            except ValueError:
                pass

        def is_assignment(a, task, session):
            ctx.eq((a.session_id, a.aggregation_id, a.task_name, a.plan.uri, a.init_checkpoint.uri,
                    a.federated_select_uri_info.uri_template, a.aggregation_data_forwarding_info.target_uri_prefix,
                    a.WhichOneof('aggregation_type')),
                   (session, task[2], task[0], 'plan%d' % task[3], 'checkpoint%d' % task[3], 'template%d' % task[3],
                    PREFIX, 'aggregation_info'), 'assignment')
            # the authorization is good exactly once
            ctx.eq((start(s, task[2], a.authorization_token)[0], start(s, task[2], a.authorization_token)[0]),
                   ('ok', 401), 'authorization token')

        # what single-assignment clients get: the oldest such task
        r, op_ = call(ta.start_task_assignment, task_assignments_pb2.StartTaskAssignmentRequest(
            population_name='pop', session_id='s%d' % step))
        ctx.check(r == 'ok' and op_.done, 'start_task_assignment')
        resp = task_assignments_pb2.StartTaskAssignmentResponse()
        op_.response.Unpack(resp)
        singles = [l for l in live if l[1] == SINGLE]
        if singles:
            ctx.eq(resp.WhichOneof('result'), 'task_assignment', 'result of the assignment')
            is_assignment(resp.task_assignment, singles[0], 's%d' % step)
        else:
            ctx.eq(resp.WhichOneof('result'), 'rejection_info', 'result of the assignment')
        # what multiple-assignment clients get: those of the named tasks that exist
        for asked in ([], ['t0'], ['t1', 't0'], ['t0', 'none']):
            r, resp = call(ta.perform_multiple_task_assignments, task_assignments_pb2.
                           PerformMultipleTaskAssignmentsRequest(population_name='pop', session_id='m',
                                                                 task_names=asked))
            ctx.eq(r, 'ok', 'perform_multiple_task_assignments')
            want = [l for l in live if l[1] == MULTI and l[0] in asked]
            ctx.eq([a.task_name for a in resp.task_assignments], [l[0] for l in want], 'tasks assigned')
            for a, l in zip(resp.task_assignments, want):
                is_assignment(a, l, 'm')
        # what clients are told exists
        for multiple in (False, True):
            req = eligibility_eval_tasks_pb2.EligibilityEvalTaskRequest(population_name='pop')
            req.eligibility_eval_task_capabilities.supports_multiple_task_assignment = multiple
            r, resp = call(ee.request_eligibility_eval_task, req)
            ctx.eq(r, 'ok', 'request_eligibility_eval_task')
            ctx.check(resp.session_id and resp.task_assignment_forwarding_info.target_uri_prefix == PREFIX, 'response')
            if not multiple:
                ctx.eq(resp.WhichOneof('result'), 'no_eligibility_eval_configured', 'eligibility result')
            else:
                spec = population_eligibility_spec_pb2.PopulationEligibilitySpec.FromString(
                    resp.eligibility_eval_task.population_eligibility_spec.inline_resource.data)
                ctx.eq(sorted((t.task_name, t.task_assignment_mode) for t in spec.task_info),
                       sorted((l[0], l[1]) for l in live), 'tasks announced')
    for f, req in ((ta.start_task_assignment, task_assignments_pb2.StartTaskAssignmentRequest),
                   (ta.perform_multiple_task_assignments, task_assignments_pb2.PerformMultipleTaskAssignmentsRequest),
                   (ta.report_task_result, task_assignments_pb2.ReportTaskResultRequest),
                   (ee.request_eligibility_eval_task, eligibility_eval_tasks_pb2.EligibilityEvalTaskRequest),
                   (ee.report_eligibility_eval_task_result,
                    eligibility_eval_tasks_pb2.ReportEligibilityEvalTaskResultRequest)):
        ctx.eq(call(f, req(population_name='other'))[0], 404, 'request for another population')
    ctx.state(tuple(l[:2] for l in live))
    ctx.outcome([l[:2] for l in live])


TYPES = {1: 'FLOAT', 2: 'DOUBLE', 3: 'INT32', 7: 'STRING', 9: 'INT64', 23: 'UINT64'}


@mcpy.scenario()
def configuration(ctx):
    """The aggregations of a plan reach the protocol as they are; other plans are refused."""
    m, s = world()
    kind = ctx.pick(['good', 'no phase', 'two phases', 'old phase', 'nested', 'state', 'type'], 'plan')
    p = plan_pb2.Plan()
    want = []
    for k in range(ctx.choose(3, 'aggregations') if kind == 'good' else 1):
        if not p.phase:
            p.phase.add()
        c = p.phase[0].server_phase_v2.aggregations.add(intrinsic_uri='uri%d' % k)
        specs = []
        for which in ('in', 'out'):
            t = c.intrinsic_args.add().input_tensor if which == 'in' else c.output_tensors.add()
            t.name = which + str(k)
            t.dtype = ctx.pick(sorted(TYPES), 'type') if k == 0 else 3
            for d in ctx.pick([[], [3], [2, 4]], 'shape') if k == 0 else [7]:
                t.shape.dim.add(size=d)
            specs.append((t.name, TYPES[t.dtype], [d.size for d in t.shape.dim]))
        want.append(('uri%d' % k, specs[:1], specs[1:]))
    if not p.phase:
        p.phase.add().server_phase_v2.SetInParent()
    if kind == 'no phase':
        del p.phase[:]
    elif kind == 'two phases':
        p.phase.add().CopyFrom(p.phase[0])
    elif kind == 'old phase':
        p.phase[0].ClearField('server_phase_v2')
    elif kind == 'nested':
        p.phase[0].server_phase_v2.aggregations[0].inner_aggregations.add()
    elif kind == 'state':
        p.phase[0].server_phase_v2.aggregations[0].intrinsic_args[0].state_tensor.SetInParent()
    elif kind == 'type':
        p.phase[0].server_phase_v2.aggregations[0].output_tensors[0].dtype = 10
    ctx.step(kind)
    try:
        s.create_session(aggregations.AggregationRequirements(1, p))
        ctx.check(kind == 'good', 'a plan was accepted: ' + kind)
    except (ValueError, AssertionError) as e:
        ctx.check(kind != 'good', 'a good plan was refused: %r' % e)
        ctx.outcome(kind)
        return
    spec = lambda t: (t.name, t.dtype, list(t.shape.dim_sizes))
    ctx.eq([(c.intrinsic_uri, [spec(a.input_tensor) for a in c.intrinsic_args], [spec(o) for o in c.output_tensors])
            for c in _protocols[0].config.intrinsic_configs], want, 'aggregations of the protocol')
    ctx.outcome(len(want))


mcpy.rule('Sessions: every history of 7 operations (8 thorough) of two sessions and two clients, with good, unreadable '
          'and missing uploads, wrong names and tokens, 1 or 2 clients needed. Waits: every sequence of 5 (6) '
          'submissions, waits and ends. Schedules: 12 pairs of requests, all schedules with up to 2 (3) preemptions at '
          'lock and protocol operations, lines and instructions that touch shared data. Tasks: every history of 5 (6) '
          'additions and removals of two tasks in both modes, with every kind of request after each.')
mcpy.assumption('The aggregation protocol (TensorFlow Federated) is a stand-in that follows its documented behaviour; '
                'the event loop runs what it is given in order.')

if __name__ == '__main__':
    sys.exit(mcpy.main())
