"""The web service: continuation typestate over the asynchronous handlers, response contents, escaping exceptions.

A handler is the closure passed to an asynchronous operation.  Every path of a handler is a sequence of
abstract operations on the worker's objects (socket, buffer, parser, timer, response, serializer); the
states of these objects are propagated from the operation that starts a handler to the handler's paths
until nothing changes."""
from ir import program
from absint import *
from build import AnalysisBroken
from g_queue import truth, LOCKS, UNLOCKS

T = 'pwned-server!web'
OPS = (('accept', re.compile(r'::async_accept$')), ('read', re.compile(r'::async_(read|read_some|read_header|receive|read_until)$')),
       ('write', re.compile(r'::async_(write|write_some|write_header|send)$')), ('wait', re.compile(r'basic_waitable_timer::async_wait$|basic_deadline_timer::async_wait$')),
       ('post', re.compile(r'^boost::asio::(post|dispatch|defer)$')))
WORD = {'accept': 'waiting for the next connection', 'read': 'reading a request', 'write': 'sending a response', 'wait': 'waiting for the timeout', 'post': 'a posted function'}
EC = 'boost::system::error_code'

def dull(m): return bool(re.search(r'::~|allocator|_Facet|^std::chrono::(duration|time_point|_V2)::?(duration|time_point|count|time_since_epoch)?$|_S_|c_str$|^llvm', m)) and not re.search(UNLOCKS, m)
class H: pass
_memo = {}
def model(R):
    if 'm' in _memo: return _memo['m']
    p = program(T); m = H(); m.p = p; m.handlers = {}; m.skipped = []; m.start = []
    m.closures = {}
    for f in p.funcs.values():
        if f.proj and '::operator()' in f.dem:
            c = f.dem.rsplit('::operator()', 1)[0]; m.closures.setdefault(re.sub(r'^(auto|void) ', '', c), f)
    called = {}
    for f in p.funcs.values():
        if not f.proj or not f.rel.startswith('pwned-server'): continue
        for i in f.calls():
            k = kind(i.model or '')
            if k: called.setdefault(f.name, []).append((k, i, handler(m, i)))
    if not called: raise AnalysisBroken('the web service starts no asynchronous operation')
    entries = {}
    for fn, l in called.items():
        for k, i, h in l:
            if h is not None: entries.setdefault(h.name, h)
    m.entries = entries; m.called = called
    # a public member function that starts operations and is no handler begins a connection
    direct = {i.fn for f in p.funcs.values() for i in f.calls() if i.fn}
    m.R = R; m.an = {}
    _memo['m'] = m
    return m
def kind(mod):
    for k, rx in OPS:
        if rx.search(mod): return k
def handler(m, i):
    d = m.p.dem(i.fn); best = None
    for c, f in m.closures.items():
        k = d.find(c)
        while k >= 0:
            e = k + len(c)
            if not (e < len(d) and (d[e].isalnum() or d[e:e + 2] == '::')):
                if best is None or len(c) > len(best[0]): best = (c, f)
                break
            k = d.find(c, k + 1)
    return best[1] if best else None

def paths(m, f):
    """paths of a handler or of an initial function, with their abstract operations"""
    if f.name in m.an: return m.an[f.name]
    e = Engine(f, keep=lambda ev: (ev.kind in ('call', 'ind') and not dull(ev.model)) or ev.kind == 'store', exact=True, models=getters(m.p))
    try: ps = e.run()
    except TooBig as t:
        m.an[f.name] = None; m.skipped.append((f, str(t))); return None
    m.R.saw('handlers', f.dem[:200]); m.R.saw('paths', *('%s:%d' % (f.model, k) for k in range(len(ps))))
    out = []
    for x in ps:
        y = H(); y.x = x; y.e = e; y.f = f; y.evs = x.events(); y.facts = x.facts; y.end = x.end
        y.imp = any(q[0] != 'hull' for q in x.imp)
        y.ec = failed(m, f, y)
        y.ops = [(kind(ev.model), ev) for ev in y.evs if ev.kind == 'call' and kind(ev.model)]
        out.append(y)
    m.an[f.name] = out
    return out

def getters(p):
    """member functions that only return the address of a member: calls to them get that address"""
    if hasattr(p, '_getters'): return p._getters
    p._getters = {}; off = {}
    for f in p.funcs.values():
        if not f.proj or len(f.params) != 1 or f.ret != 'ptr' or len(f.load().blocks) != 1 or any(True for _ in f.calls()): continue
        ps = Engine(f, keep=lambda ev: ev.kind == 'store', exact=True).run()
        if len(ps) == 1 and ps[0].end == 'ret' and not ps[0].events() and isp(ps[0].val) and ps[0].val[1] == ('arg', 0): off.setdefault(f.model, set()).add(ps[0].val[2])
    def h(o):
        def g(s, i, st, args, m):
            r = padd(args[0], o); st.env[i.d] = r
            s.tr(st, Ev('call', i, m, args, r, (('c', s.obj(st, r)),))); return None
        return g
    p._getters = {n: h(next(iter(o))) for n, o in off.items() if len(o) == 1}
    return p._getters

def failed(m, f, y):
    """what the path knows about the error code the handler was given: True failed, False succeeded, None nothing"""
    k = next((j for j, t in enumerate(f.ptypes) if 'error_code' in t), None)
    if k is None: return None
    me = ('p', ('arg', k + 1), 0)
    for ev in y.evs:
        if ev.kind != 'call' or me not in ev.args: continue
        s = ev.model.rsplit('::', 1)[-1]
        if ev.ret is not None and not isp(ev.ret):
            t = truth(y.facts, ev.ret)
            if s in ('operator bool', 'failed', 'value'):
                if t is not None: return t
            elif s == 'operator!':
                if t is not None: return not t
            elif s == 'operator==' and t: return True
            elif s == 'operator!=' and t is False: return True
            continue
        if s not in ('message', 'category', 'what', 'to_string') and 'operator<<' not in s: return None
    return None

def root(y, a):
    """the worker's own object behind an address: offset, or None"""
    if not isp(a) or a[1] is None: return None
    b = a[1]
    n = 0
    while b[0] == 'fn' and n < 8:
        d = y.e.defs[b[1]]; n += 1
        if not isinstance(d[0], str): return None
        if re.search(r'(optional::(operator\*|operator->|get|value)|unique_ptr::(operator\*|operator->|get)|__shared_ptr_access::(operator\*|operator->))$', d[0]):
            # the definition holds contents only: look the call up
            ev = next((v for v in y.evs if v.kind == 'call' and v.ret == ('p', b, 0)), None)
            if ev is None or not ev.args: return None
            a = ev.args[0]
            if not isp(a) or a[1] is None: return None
            b = a[1]; continue
        return None
    if b[0] == 'alloca': return ('local', b[1], a[2])
    if b[0] == 'arg' and b[1] == 0: return ('this', a[2])
    if b[0] == 'init' and b[1] == ('arg', 0): return ('this', a[2])
    if b[0] == 'glob' or b[0] == 'g': return ('global', b[1])
    return None

def steps(m, y):
    """[(op, object, ev)] abstract operations of a path"""
    out = []
    for ev in y.evs:
        if ev.kind != 'call': continue
        s = ev.model; l = s.rsplit('::', 1)[-1]; a = ev.args
        k = kind(s)
        if k: out.append((k, None, ev)); continue
        first = 1 if ev.inst.pa.get(0, (None,))[0] == 'sret' else 0
        o = a[first] if len(a) > first else None
        if re.search(r'basic_(socket|stream_socket|stream)::(close|release)$', s): out.append(('close', root(y, o), ev))
        elif re.search(r'basic_(stream_socket|socket)::operator=$', s): out.append(('close', root(y, o), ev))
        elif re.search(r'basic_(stream_socket|socket)::shutdown$', s) and any(isc(q) and width(q) <= 32 and q[2] in (1, 2) for q in a): out.append(('shutdown', root(y, o), ev))
        elif re.search(r'(flat_buffer|multi_buffer|basic_streambuf|flat_static_buffer|dynamic_string_buffer)::(clear|operator=)$', s): out.append(('empty', root(y, o), ev))
        elif re.search(r'(flat_buffer|multi_buffer|basic_streambuf|flat_static_buffer)::consume$', s):
            d = y.e.defn(a[-1]); n = y.facts.const(a[-1])
            if d and isinstance(d[0], str) and d[0].endswith('::size') or (n is not None and n >= 1 << 31): out.append(('empty', root(y, o), ev))
        elif re.search(r'optional::emplace$|unique_ptr::operator=$|optional::operator=$', s): out.append(('new', root(y, o), ev))
        elif re.search(r'optional(_detail::optional_base)?::reset$', s): out.append(('reset', root(y, o), ev))
        elif re.search(r'timer::expires_(after|at|from_now)$|(tcp_stream|basic_stream)::expires_(after|at)$', s): out.append(('arm', root(y, o), ev))
        elif l in ('prepare_payload', 'content_length', 'chunked'): out.append(('length', root(y, o), ev))
        elif l in ('operator=', 'append', 'operator+=', 'assign', 'insert', 'push_back', 'clear', 'erase', 'swap', 'resize', 'replace') and isp(o) and o[1] is not None and o[1][0] == 'fn':
            d = y.e.defs[o[1][1]]
            if isinstance(d[0], str) and d[0].endswith('message::body'): out.append(('body', None, ev))
    return out

def uses(m, y, ev):
    """(role, origin) of the objects an asynchronous operation works on"""
    d = m.p.dem(ev.inst.fn); out = {}
    pts = m.p.ptypes(ev.inst.fn)
    first = 0 if len(pts) == len(ev.args) else 1
    for k, a in enumerate(ev.args[first:]):
        t = pts[k] if k < len(pts) else ''
        if '$_' in t or 'lambda' in t: continue
        r = ('parser' if re.match(r'.*http::(basic_parser|request_parser|parser|response_parser)<', t) else 'serializer' if re.match(r'.*serializer<', t)
             else 'buffer' if 'buffer' in t.split('<')[0] else 'socket' if re.search(r'basic_(stream_)?socket<', t.split('<')[0] + '<') else
             'message' if re.match(r'.*http::(message|response|request)<', t) else None)
        if r: out[r] = (root(y, a), a)
    return out

# ------------------------------------------------------------------ the continuation typestate
def connections(R):
    """each handler passes the connection on exactly once, in a state the next operation needs"""
    m = model(R)
    hs = list(m.entries.values())
    begin = [f for f in m.p.funcs.values() if f.proj and f.name in m.called and f.name not in m.entries and f.model.endswith('::start')]
    if not begin:
        # whatever a function outside the handlers calls
        begin = [f for f in m.p.funcs.values() if f.proj and f.name in m.called and f.name not in m.entries and not f.model.endswith('main')
                 and {'accept', 'wait'} <= {k for k, _, _ in m.called[f.name]}]
    waits_in_handlers = any(k == 'wait' and f in hs_accept(m) for f in hs for k, _, _ in m.called.get(f.name, []))
    for f in hs: passing(R, m, f, roles_of(m, f), waits_in_handlers)
    for f in begin:
        R.saw('initial functions', f.dem)
        for y in paths(m, f) or []:
            if y.end != 'ret': continue
            n = [k for k, _ in y.ops if k in ('accept', 'read', 'write')]
            R.ob('one-continuation', f.model, len(n) == 1 or (None if y.imp else False), f.rel + ':%s' % f.line,
                 'a worker is started with %d operations under way instead of one' % len(n))
            if any(k == 'wait' for fn, l in m.called.items() for k, _, _ in l) and not waits_in_handlers:
                w = [k for k, _ in y.ops if k == 'wait']
                R.ob('timeout-armed', f.model, len(w) == 1 or (None if y.imp else False), f.rel + ':%s' % f.line,
                     'a worker is started with %d timeout waits under way instead of one: %s' % (len(w), 'no connection would ever time out' if not w else 'two waits on one timer'))
    flow(R, m, begin)
    for f in hs: timeouts(R, m, f)
    for f, t in m.skipped: R.ob('one-continuation', f.model, None, '', t)

def hs_accept(m): return {h.name and h for fn, l in m.called.items() for k, _, h in l if k == 'accept' and h is not None}
def roles_of(m, f): return {k for fn, l in m.called.items() for k, _, h in l if h is f}

def passing(R, m, f, roles, waits_in_handlers):
    ps = paths(m, f)
    if ps is None: return
    conn = roles & {'accept', 'read', 'write', 'post'}
    unknown = any(h is None for k, i, h in m.called.get(f.name, ()))
    for y in ps:
        if y.end != 'ret': continue
        R.saw('handler paths', '%s:%s' % (f.model, id(y)))
        n = [(k, ev) for k, ev in y.ops if k in ('accept', 'read', 'write', 'post')]
        w = [(k, ev) for k, ev in y.ops if k == 'wait']
        at = '%s:%s' % (f.rel, f.line)
        tag = {True: ' after an error', False: ' after success', None: ''}[y.ec]
        if conn:
            if len(n) == 1: R.ob('one-continuation', f.model + tag, True, at)
            elif not n: R.ob('one-continuation', f.model + tag, None if y.imp else False, at,
                             'a path ends without starting another operation: the worker never accepts a connection again')
            else: R.ob('one-continuation', f.model + tag, None if y.imp else False, n[1][1].loc(),
                       'a path starts %d operations (%s) on one connection' % (len(n), ', '.join(WORD[k] for k, _ in n)))
        if 'wait' in roles and not conn and not waits_in_handlers:
            if len(w) == 1: R.ob('timeout-armed', f.model + tag, True, at)
            else: R.ob('timeout-armed', f.model + tag, None if y.imp else False, at,
                       'the timeout handler %s' % ('does not wait again: later connections never time out' if not w else 'waits %d times' % len(w)))
        # what the handler answers
        if len(n) == 1 and n[0][0] != 'post':
            k, ev = n[0]
            if roles == {'read'} and y.ec is False:
                R.ob('one-response', f.model, k == 'write' or (None if y.imp else False), ev.loc(), 'a request that was read is not answered: the path goes on with ' + WORD[k])
            elif roles == {'read'} and y.ec is True:
                R.ob('back-to-accept', f.model, k in ('accept', 'write') or (None if y.imp else False), ev.loc(), 'after a read error the worker goes on with ' + WORD[k] + ' on the broken connection')
            elif roles == {'accept'} and y.ec is False:
                R.ob('back-to-accept', f.model, k == 'read' or (None if y.imp else False), ev.loc(), 'an accepted connection is followed by ' + WORD[k])
            elif roles == {'accept'} and y.ec is True:
                R.ob('back-to-accept', f.model, k == 'accept' or (None if y.imp else False), ev.loc(), 'a failed accept is followed by ' + WORD[k])
            elif roles == {'write'}:
                R.ob('back-to-accept', f.model, k in ('accept', 'read') and not (k == 'read' and y.ec is True) or (None if y.imp else False), ev.loc(), 'after a response the worker goes on with ' + WORD[k])
        lifetimes(R, m, f, y)

def lifetimes(R, m, f, y):
    """nothing an operation under way works on ends with the handler, or is replaced while it runs"""
    started = []
    st = steps(m, y)
    for k, o, ev in st:
        if kind(ev.model):
            us = uses(m, y, ev)
            for r, (org, a) in us.items():
                R.ob('lives-long-enough', '%s: %s' % (f.model, r), not (org and org[0] == 'local'), ev.loc(),
                     'the %s of an operation under way is a local object of %s, which ends before the operation does' % (r, f.model))
            if k != 'wait': started.append((ev, us))
        elif k in ('new', 'reset', 'empty') and o is not None:
            for sev, us in started:
                hit = [r for r, (org, _) in us.items() if org == o and r in ('parser', 'serializer', 'buffer')]
                # a response the serializer refers to
                R.ob('lives-long-enough', '%s: %s' % (f.model, 'objects of ' + WORD[kind(sev.model)]), not hit or (None if y.imp else False), ev.loc(),
                     'the %s is replaced while %s is under way' % (hit[0] if hit else '', WORD[kind(sev.model)]))
    # closures that keep the address of a local object
    cl = {}
    for ev in y.evs:
        if ev.kind == 'store' and isp(ev.args[0]) and ev.args[0][1] is not None and ev.args[0][1][0] == 'alloca' and isp(ev.args[1]) and ev.args[1][1] is not None and ev.args[1][1][0] == 'alloca':
            cl.setdefault(ev.args[0][1], []).append(ev)
    for k, ev in y.ops:
        a = ev.args[-1]
        if isp(a) and a[1] in cl and isp(a):
            R.ob('lives-long-enough', f.model + ': captures', None if y.imp else False, ev.loc(), 'the handler of an asynchronous operation keeps a reference to a local object of ' + f.model)

INIT = (('sock', 'closed'), ('dirty', False), ('armed', False))
def flow(R, m, begin):
    """states of the worker's objects at every operation"""
    seen = set(); todo = []
    def run(f, st, fail):
        for y in paths(m, f) or []:
            if y.end != 'ret': continue
            if fail is not None and y.ec is not None and y.ec != fail: continue
            s = dict(st); bodies = None; length = None
            for k, o, ev in steps(m, y):
                if k == 'close': s['sock'] = 'closed'; s['shut'] = False
                elif k == 'shutdown': s['shut'] = True
                elif k == 'empty': s['dirty'] = False; s['rest'] = False
                elif k == 'arm': s['armed'] = True
                elif k == 'new': s['slot', o] = 'fresh'
                elif k == 'reset': s['slot', o] = 'none'
                elif k == 'body': bodies = ev; length = None
                elif k == 'length': length = ev
                elif k in ('accept', 'read', 'write', 'post'):
                    us = uses(m, y, ev); n = dict(s); at = ev.loc()
                    if k == 'accept':
                        if 'socket' in us:
                            R.ob('closed-before-accept', f.model, s['sock'] == 'closed' or (None if y.imp else False), at,
                                 'the next connection is accepted into a socket that is still open: that fails at once, forever')
                        n['sock'] = 'closed'; n['armed'] = False
                        if n['dirty']: n['rest'] = True
                    if k in ('read', 'write'):
                        R.ob('answerable', f.model + ': ' + k, not s.get('shut') or (None if y.imp else False), at,
                             'the connection was shut down for sending: %s' % ('a request that is read now cannot be answered' if k == 'read' else 'the response cannot be sent'))
                    if k == 'read':
                        R.ob('deadline', f.model, s['armed'] or (None if y.imp or 'wait' not in kinds(m) and not stream_timeouts(m) else False), at,
                             'a request is read without a deadline: a client that sends nothing holds the worker forever')
                        if 'buffer' in us:
                            R.ob('fresh-buffer', f.model, not s.get('rest') or (None if y.imp else False), at,
                                 'bytes an earlier connection sent are still in the buffer when the request of a new connection is read')
                        if 'parser' in us and us['parser'][0] and us['parser'][0][0] == 'this' and optional_slot(m, y, us['parser'][1]):
                            v = s.get(('slot', us['parser'][0]), 'none')
                            R.ob('fresh-parser', f.model, v == 'fresh' or (None if y.imp else False), at,
                                 'a request is read with %s' % ('a parser that was used for another request' if v == 'used' else 'a parser that does not exist'))
                            n['slot', us['parser'][0]] = 'used'
                        n['dirty'] = True
                    if k == 'write':
                        if bodies is not None or length is not None or 'serializer' in us:
                            R.ob('content-length', f.model, length is not None or (None if y.imp else False), at,
                                 'the response is sent %s' % ('with a length computed before its body was set' if bodies is not None and any(q[0] == 'length' for q in steps(m, y)) else 'without its length being set'))
                        if 'serializer' in us and us['serializer'][0] and us['serializer'][0][0] == 'this' and optional_slot(m, y, us['serializer'][1]):
                            v = s.get(('slot', us['serializer'][0]), 'none')
                            R.ob('fresh-serializer', f.model, v == 'fresh' or (None if y.imp else False), at,
                                 'the response is sent with %s' % ('a serializer that already sent another one' if v == 'used' else 'a serializer that does not exist'))
                            n['slot', us['serializer'][0]] = 'used'
                    h = handler(m, ev.inst)
                    if h is not None:
                        for fl in ((False, True)):
                            q = dict(n)
                            if k == 'accept' and not fl: q['sock'] = 'open'
                            key = (h.name, tuple(sorted(q.items(), key=repr)), fl)
                            if key not in seen and len(seen) < 4000: seen.add(key); todo.append((h, q, fl))
    for f in begin: run(f, dict(INIT), None)
    while todo:
        h, q, fl = todo.pop(); run(h, q, fl)
    R.saw('handler states', *map(repr, seen))
def kinds(m): return {k for l in m.called.values() for k, _, _ in l}
def stream_timeouts(m): return any('stream::expires_' in (i.model or '') for fn in m.called for i in m.p.funcs[fn].calls())
def optional_slot(m, y, a):
    return isp(a) and a[1] is not None and a[1][0] == 'fn'

def timeouts(R, m, f):
    """the deadline closes the connection, and only when it has passed"""
    if roles_of(m, f) != {'wait'}: return
    for y in paths(m, f) or []:
        if y.end != 'ret': continue
        exp = None
        for ev in y.evs:
            if ev.kind != 'call' or not re.search(r'^std::chrono::operator(<=|<|>=|>)$', ev.model) or len(ev.args) != 2: continue
            who = []
            for c in ev.info[:2]:
                d = y.e.defn(c[2]) if isinstance(c, tuple) and len(c) > 2 and c[2] is not None else None
                if d is None and isinstance(c, tuple) and c and c[0] == 'c' and c[1]: d = y.e.defn(c[1])
                who.append(d[0].rsplit('::', 1)[-1] if d and isinstance(d[0], str) else None)
            if sorted(map(str, who)) != ['expiry', 'now']: continue
            t = truth(y.facts, ev.ret)
            if t is None: continue
            o = ev.model[len('std::chrono::operator'):]
            less = o in ('<=', '<')          # left before right
            exp = (t == less) if who[0] == 'expiry' else (t != less)
        st = steps(m, y); closed = [ev for k, o, ev in st if k == 'close'] + [ev for ev in y.evs if ev.kind == 'call' and re.search(r'basic_(stream_)?socket::(cancel|shutdown)$', ev.model)]
        armed = [ev for k, o, ev in st if k == 'arm']
        at = '%s:%s' % (f.rel, f.line)
        if exp is True:
            R.ob('timeout', f.model + ': deadline passed', bool(closed) or (None if y.imp else False), at, 'the deadline has passed and the connection is not closed: an idle client holds the worker forever')
            if any(k == 'wait' for k, _ in y.ops):
                R.ob('timeout', f.model + ': next deadline', bool(armed) or (None if y.imp else False), at, 'the timer waits again for a deadline that has passed: the handler runs without end and closes every connection')
        elif exp is False:
            R.ob('timeout', f.model + ': deadline ahead', not closed or (None if y.imp else False), closed[0].loc() if closed else at, 'the connection is closed although its deadline has not passed')

# ------------------------------------------------------------------ what a response says
class Strs:
    """contents of strings, streams and property trees along one path, as lists of pieces: literals and symbolic values"""
    def __init__(s, m, y):
        s.m = m; s.y = y; s.e = y.e; s.c = {}; s.status = {}; s.eqs = []; s.lookups = []; s.valid = []; s.method = None; s.at = []; s.finds = {}; s.sizes = []; s.bodies = []; s.inserted = {}
        s.glob = global_strings(m)
        s.final = None
        for ev in y.evs:
            if ev.kind == 'call':
                s.ev(ev)
                if kind(ev.model) in ('write',): s.final = (ev, list(s.bodies), dict(s.status))
    def key(s, a): return (a[1], a[2]) if isp(a) and a[1] is not None else None
    def get(s, a):
        k = s.key(a)
        if k is None: return [('?',)]
        if k in s.c: return s.c[k]
        if k[0][0] == 'glob':
            l = s.e.obj_lit(a)
            if l is not None: return [('lit', l)]
            if k[0][1] in s.glob: return [('lit', s.glob[k[0][1]])]
        if k[0][0] == 'cstr': 
            return s.bycontent(k[0][1])
        r = root(s.y, a)
        if r and r[0] == 'this': return [('field', r[1])]
        return [('?',)]
    def bycontent(s, c):
        if c and c[0] == 'lit': return [('lit', c[1])]
        return [('?',)]
    def put(s, a, v):
        k = s.key(a)
        if k is not None: s.c[k] = v
    def ev(s, ev):
        a = ev.args; mo = ev.model; l = mo.rsplit('::', 1)[-1]
        sret = ev.inst.pa.get(0, (None,))[0] == 'sret'
        pts = s.m.p.ptypes(ev.inst.fn)
        S = 'std::__cxx11::basic_string::'
        if mo == S + 'basic_string':
            if len(a) == 1: s.put(a[0], [('lit', '')])
            elif isp(a[1]): s.put(a[0], list(s.get(a[1])))
            else: s.put(a[0], [('?',)])
        elif mo == S + 'operator=' or mo == S + 'assign' and len(a) == 2 or mo == S + 'swap':
            v = list(s.get(a[1])) if isp(a[1]) else [('?',)]
            s.put(a[0], v); s.body(a[0], v, ev)
        elif mo in (S + 'append', S + 'operator+=', S + 'push_back'):
            v = s.get(a[0]) + (list(s.get(a[1])) if len(a) == 2 and isp(a[1]) else [('lit', chr(a[1][2]))] if len(a) == 2 and isc(a[1]) and width(a[1]) == 8 else [('?',)])
            s.put(a[0], v); s.body(a[0], v, ev)
        elif mo == 'std::operator+' and sret:
            s.put(a[0], s.arg(a[1]) + s.arg(a[2]))
        elif mo in ('std::__cxx11::to_string', 'std::to_string') and sret: s.put(a[0], [('num', a[1], width(a[1]))])
        elif mo in ('std::operator<<', 'std::ostream::operator<<') and not sret and len(a) == 2 and isp(a[0]):
            if isp(a[1]) and a[1][1] is not None and a[1][1][0] == 'glob' and ('endl' in a[1][1][1] or 'flush' in a[1][1][1]): v = [('lit', '\n')]
            elif isp(a[1]): v = s.get(a[1])
            elif isc(a[1]) and width(a[1]) == 8: v = [('lit', chr(a[1][2]))]
            else: v = [('num', a[1], width(a[1]))]
            s.put(a[0], s.stream(a[0]) + v)
        elif re.search(r'basic_(o|string|ostring)stream::basic_(o|string|ostring)stream$', mo): s.put(a[0], [])
        elif re.search(r'basic_o?stringstream::str$', mo) and sret: s.put(a[0], list(s.stream(a[1])))
        elif mo.endswith('basic_ptree::basic_ptree') and len(a) == 1: s.put(a[0], [('tree', ())])
        elif re.search(r'basic_ptree::(put|add|put_child|add_child)$', mo) and len(a) >= 3:
            t = s.get(a[0]); k = s.get(a[1])
            if len(t) == 1 and t[0][0] == 'tree' and len(k) == 1 and k[0][0] == 'lit':
                if isp(a[2]):
                    v = s.get(a[2])
                    if v == [('?',)] and ev.info and len(ev.info) > 2 and isinstance(ev.info[2], tuple) and len(ev.info[2]) > 2 and ev.info[2][2] is not None and not isp(ev.info[2][2]): v = [('num', ev.info[2][2], width(ev.info[2][2]))]
                else: v = [('num', a[2], width(a[2]))]
                s.put(a[0], [('tree', tuple(x for x in t[0][1] if x[0] != k[0][1] or not l.startswith('put')) + ((k[0][1], tuple(v)),))])
            else: s.put(a[0], [('?',)])
        elif mo.endswith('string_path::string_path') and len(a) >= 2: s.put(a[0], list(s.get(a[1])))
        elif mo.endswith('::write_json') and len(a) >= 2:
            t = s.get(a[1])
            if len(t) == 1 and t[0][0] == 'tree':
                v = [('lit', '{')]
                for j, (k, x) in enumerate(t[0][1]): v += [('lit', (',' if j else '') + '"%s":"' % k)] + list(x) + [('lit', '"')]
                s.put(a[0], s.stream(a[0]) + v + [('lit', '}\n')])
            else: s.put(a[0], [('?',)])
        elif re.search(r'algorithm::(replace_all|replace_first|replace_last|ierase_all|erase_all)$', mo):
            s.put(a[0], replaced(s.get(a[0]), s.get(a[1]), s.get(a[2]) if len(a) > 2 else []))
            s.body(a[0], s.get(a[0]), ev)
        elif mo == 'std::move' or l == 'forward': pass
        elif re.search(r'^boost::(core::)?basic_string_view::basic_string_view$|^std::basic_string_view::basic_string_view$', mo) and len(a) > 1: s.put(a[0], list(s.get(a[1])))
        elif mo == 'URI::path' and ev.ret is not None: s.put(ev.ret, [('uripath',)])
        elif mo == 'URI::path' and sret: s.put(a[0], [('uripath',)])
        elif mo == 'pwned::Hash::toString' and sret: s.put(a[0], [('hashtext', s.key(a[1]))])
        elif re.search(r'map::(at|operator\[\])$', mo) and len(a) == 2:
            k = s.get(a[1]); s.put(ev.ret, [('query', k[0][1] if len(k) == 1 and k[0][0] == 'lit' else None)]); s.at.append((ev, k))
        elif re.search(r'map::(find|count|contains)$', mo) and len(a) == 2: s.finds[ev.ret] = s.get(a[1])
        elif re.search(r'map::c?begin$', mo) and ev.ret is not None: s.finds[ev.ret] = [('lit', '(whichever comes first)')]
        elif re.search(r'_Rb_tree_(const_)?iterator::operator(->|\*)$', mo) and isp(ev.ret):
            k = s.finds.get(pointee(ev, 0))
            if k is not None:
                k = norm(k); s.put(ev.ret, k); s.put(('p', ev.ret[1], ev.ret[2] + 32), [('query', k[0][1] if len(k) == 1 and k[0][0] == 'lit' else None)])
        elif re.search(r'^std::operator(==|!=)$', mo) and len(a) == 2 and ev.ret is not None and not isp(ev.ret):
            t = truth(s.y.facts, ev.ret)
            if t is not None: s.eqs.append((s.get(a[0]), s.get(a[1]), t == mo.endswith('=='), ev))
        elif mo == S + 'compare' and ev.ret is not None and len(a) == 2:
            z = s.y.facts.decide(icmp('eq', ev.ret, I(width(ev.ret), 0)))
            if z is not None: s.eqs.append((s.get(a[0]), s.get(a[1]), z, ev))
        elif mo == 'pwned::Hash::fromHex' and sret: s.put(a[0], [('hash', tuple(s.get(a[1])), ev)])
        elif mo.startswith('pwned::Hash::') and l in ('operator=', 'Hash') and len(a) == 2: s.put(a[0], list(s.get(a[1])))
        elif mo.startswith('pwned::PasswordInspector::') and any('Hash' in t for t in pts):
            h = a[(2 if sret else 1)]
            s.lookups.append((ev, h, a[0] if sret else None, a[1 if sret else 0]))
        elif mo == 'pwned::PasswordInspector::size' and ev.ret is not None: s.sizes.append((ev.ret, a[0]))
        elif mo.endswith('header::method') and ev.ret is not None and not isp(ev.ret): s.method = ev.ret
        elif mo.endswith('header::method_string'): s.method = s.method or 'text'
        elif mo.endswith('header::result') and len(a) == 2 and not isp(a[1]): s.status['code'] = (a[1], ev)
        elif mo.endswith('header::result_int') and len(a) == 2: s.status['code'] = (a[1], ev)
        elif mo.endswith('http::message::message') and len(a) >= 2 and not isp(a[1]): s.status['code'] = (a[1], ev)
        elif mo.endswith('optional::emplace') and len(a) >= 2 and not isp(a[1]): s.status['code'] = (a[1], ev)
        else:
            if sret: s.c.pop(s.key(a[0]), None)
            if re.search(r'~basic_string$', mo) and a: s.c.pop(s.key(a[0]), None)
    def stream(s, a):
        k = s.key(a); return s.c.get(k, [])
    def arg(s, a):
        if isp(a): return list(s.get(a))
        if isc(a) and width(a) == 8: return [('lit', chr(a[2]))]
        return [('?',)]
    def body(s, a, v, ev):
        if isp(a) and a[1] is not None and a[1][0] == 'fn':
            d = s.e.defs[a[1][1]]
            if isinstance(d[0], str) and d[0].endswith('message::body'): s.bodies.append((v, ev))

def replaced(text, frm, to):
    if any(x[0] != 'lit' for x in frm): return [('?',)]
    f = ''.join(x[1] for x in frm)
    # literals next to each other are one text
    out = []
    for x in norm(text):
        if x[0] != 'lit' or not f or f not in x[1]: out.append(x); continue
        ps = x[1].split(f)
        for j, q in enumerate(ps):
            if j: out += list(to)
            out.append(('lit', q))
    return out
def norm(t):
    out = []
    for x in t:
        if x[0] == 'lit' and out and out[-1][0] == 'lit': out[-1] = ('lit', out[-1][1] + x[1])
        else: out.append(x)
    return [x for x in out if x != ('lit', '')]

def global_strings(m):
    if hasattr(m, 'gs'): return m.gs
    m.gs = {}
    for f in m.p.funcs.values():
        if not f.model.startswith('__cxx_global_var_init'): continue
        for i in f.calls():
            if i.model == 'std::__cxx11::basic_string::basic_string' and len(i.a) >= 2 and i.a[0][0] == 'g' and i.a[1][0] == 'g':
                g = m.p.globals.get(i.a[1][1])
                if g and 'hex' in g: m.gs[i.a[0][1]] = bytes.fromhex(g['hex']).split(b'\0')[0].decode('latin1')
    return m.gs

def json_of(pieces):
    """(object, [pieces]) or None if the text cannot be told, False if it is no JSON object"""
    import json
    txt = ''; tab = []; ins = False; esc = False
    for x in norm(pieces):
        if x[0] == 'lit':
            for c in x[1]:
                if ins:
                    if esc: esc = False
                    elif c == '\\': esc = True
                    elif c == '"': ins = False
                elif c == '"': ins = True
                txt += c
        else:
            tab.append(x)
            if x[0] == '?' and not ins: return None
            if x[0] in ('tree',): return None
            txt += ('\u27e6%d\u27e7' if ins else '"\u27e6#%d\u27e7"') % (len(tab) - 1)
    try: o = json.loads(txt)
    except ValueError: return None if any(x[0] == '?' for x in tab) else False
    return (o, tab) if isinstance(o, dict) else False

def answers(R):
    """which requests reach a lookup, and what each answer contains"""
    m = model(R); p = m.p
    hs = [f for f in m.entries.values() if 'read' in roles_of(m, f)]
    if not hs: raise AnalysisBroken('no handler of a request found')
    voff = next((x[1] for x in p.di.get('pwned::Hash', {'mem': []})['mem'] if x[0] == 'isValid'), None)
    coff = next((x[1] for x in p.di.get('pwned::PasswordHashAndCount', {'mem': []})['mem'] if x[0] == 'count'), None)
    upd = updated_fields(m)
    for f in hs:
        reach = set()
        ps = paths(m, f)
        if ps is None: R.ob('routing', f.model, None, '', 'too many paths'); continue
        S = [(y, Strs(m, y)) for y in ps if y.end == 'ret' and y.ec is not True]
        S = [(y, s) for y, s in S if s.final]
        if not S: continue
        anymethod = any(s.method is not None for y, s in S)
        for y, s in S:
            ev, bodies, status = s.final; at = ev.loc(); bad = (None if y.imp else False)
            code = status.get('code'); cs = y.facts.range(code[0]) if code else ((200, 200),)
            ok200 = cs and all(a == b == 200 for a, b in cs); err = cs and all(a >= 400 for a, b in cs)
            R.saw('request paths', '%d' % id(y))
            where = code[1].loc() if code else at
            path = [(o, t, ev2) for o, t, ev2 in route(s)]
            yes = [o for o, t, _ in path if t]
            # the request method
            if s.method is None: get = None if anymethod else False
            elif s.method == 'text': get = None
            else:
                r = y.facts.range(s.method)
                get = True if r and all(a == b == 2 for a, b in r) else False if not any(a <= 2 <= b for a, b in r) else 'any'
            if get in (False, 'any') and not err and (ok200 or s.lookups):
                R.ob('method', f.model, bad, where, 'a request that is no GET request gets a result')
            elif get is False and err: R.ob('method', f.model, True, where)
            # a lookup
            for lev, h, res, insp in s.lookups:
                k = s.key(h)
                hv = s.get(h)
                R.ob('route', f.model + ': lookup', True if '/lookup' in yes else bad if loose(s) or not path and not s.eqs else None, lev.loc(),
                     'a hash is looked up without the path being exactly <base>/lookup')
                if len(hv) == 1 and hv[0][0] == 'hash':
                    src = norm(hv[0][1])
                    R.ob('hash-parameter', f.model, True if src == [('query', 'hash')] else bad if len(src) == 1 and src[0][0] == 'query' and src[0][1] else None, hv[0][2].loc(),
                         "the hash looked up is taken from the parameter '%s'" % (src[0][1] if src and src[0][0] == 'query' else '?'))
                t = validity(y, h, voff)
                R.ob('valid-hash', f.model, True if t else bad, lev.loc(), 'a text that is no hash (isValid %s) is looked up' % ('false' if t is False else 'not tested'))
            if s.lookups:
                R.ob('status', f.model + ': lookup', True if ok200 else bad if cs and not any(a <= 200 <= b for a, b in cs) else None, where, 'the result of a lookup is sent with status %s' % (cs,))
                content(R, m, f, y, s, bodies, bad, s.lookups[-1], coff)
            elif '/info' in yes and not err:
                R.ob('status', f.model + ': info', True if ok200 else bad if cs and not any(a <= 200 <= b for a, b in cs) else None, where, 'the database information is sent with status %s' % (cs,))
                info(R, m, f, y, s, bodies, bad, upd)
            else:
                # no lookup and no information: an error
                inv = any(validity(y, k, voff) is False for k in hashes(s))
                what = 'a hash that is not valid' if inv else 'a method other than GET' if get is False else 'a request without a known path' if path and not yes else 'a request without lookup and information'
                R.ob('status', f.model + ': ' + what, True if err else bad if cs and all(b < 400 for a, b in cs) else None, where, '%s is answered with status %s' % (what, ', '.join(str(a) for a, b in cs)))
            if '/lookup' in yes and get in (True, None) and not s.lookups and has_hash(y, s):
                v = [validity(y, k, voff) for k in hashes(s)]
                R.ob('lookup-done', f.model, False if True in v and not y.imp else None if not v else True, at, 'a valid hash is not looked up')
            if s.lookups and get is not False: reach.add('/lookup')
            if '/info' in yes and get is not False and not err: reach.add('/info')
        if S and not any(y.imp for y, s in S):
            texts = {o for y, s in S for o, t, _ in route(s)}
            for r in ('/lookup', '/info'):
                R.ob('route', f.model + ': ' + r, True if r in reach else False if any(route(s) for y, s in S) and r not in texts and not loose_any(S) else None, '%s:%s' % (f.rel, f.line),
                     'no path is answered for <base>%s' % r)
def loose_any(S): return any(loose(s) for y, s in S)
def loose(s):
    """the path is compared in a way other than equality"""
    for ev in s.y.evs:
        if ev.kind == 'call' and re.search(r'(basic_string::(find|rfind|starts_with|ends_with|contains|compare)|algorithm::(starts_with|ends_with|contains|istarts_with|iequals|icontains))$', ev.model):
            if any(isp(a) and ('uripath',) in s.get(a) for a in ev.args): return True
    return False
def route(s):
    """comparisons of the request's path with <base> + text"""
    out = []
    for a, b, t, ev in s.eqs:
        for x, z in ((a, b), (b, a)):
            if x == [('uripath',)]:
                n = norm(z)
                if len(n) == 2 and n[0][0] == 'field' and n[1][0] == 'lit': out.append((n[1][1], t, ev))
                elif len(n) == 1 and n[0][0] == 'field': out.append(('', t, ev))
                elif len(n) == 1 and n[0][0] == 'lit': out.append((('!' if n[0][1] in ('/lookup', '/info') else '') + n[0][1], t, ev))
                break
    return out
def validity(y, h, voff):
    if voff is None or not isp(h): return True
    for ev in y.evs: pass
    a = ('p', h[1], h[2] + voff) if isinstance(h[2], int) else None
    if a is None: return None
    k = (h[1], h[2])
    # the value the path decided on: a one byte field read from there
    for t in list(y.facts.known) + list(y.facts.rng):
        for q in symbols(t):
            if q[0] == 's' and isinstance(q[2], tuple) and q[2][0] == 'init' and q[2][1] == h[1] and q[2][2] == a[2]:
                d = y.facts.decide(trunc(q, 1))
                if d is None: d = truth(y.facts, q)
                if d is not None: return d
    return None
def hashes(s): return [('p', k[0], k[1]) for k, v in s.c.items() if len(v) == 1 and v[0][0] == 'hash']
def has_hash(y, s): return bool(hashes(s))

def content(R, m, f, y, s, bodies, bad, look, coff):
    lev, h, res, insp = look; hk = s.key(h)
    if not bodies: R.ob('answer', f.model, None, lev.loc(), 'the body of the answer is not recognised'); return
    pcs, bev = bodies[-1]; j = json_of(pcs)
    if j is None: R.ob('answer', f.model + ': lookup', None, bev.loc(), 'the body of the answer is not understood'); return
    if j is False: R.ob('answer', f.model + ': lookup', bad, bev.loc(), 'the answer to a lookup is no JSON object'); return
    o, tab = j
    def val(k):
        v = o.get(k)
        if isinstance(v, str) and re.fullmatch('\u27e6#?\\d+\u27e7', v): return tab[int(re.sub(r'\D', '', v))], '#' in v
        return (v, None) if k in o else (None, 'missing')
    v, q = val('hash')
    R.ob('answer', f.model + ': hash', True if isinstance(v, tuple) and v[0] == 'hashtext' and v[1] == hk else bad if q == 'missing' or isinstance(v, tuple) and v[0] in ('hashtext', 'query', 'num') and v != ('query', 'hash') or isinstance(v, str) else None, bev.loc(),
         "the answer to a lookup has no member 'hash' with the hash asked for")
    v, q = val('found')
    isnum = isinstance(v, tuple) and v[0] == 'num'
    good = isnum and res is not None and from_field(v[1], res, coff)
    R.ob('answer', f.model + ': found', True if good and q else None if isinstance(v, tuple) and v[0] == '?' or isnum and derived(y, v[1]) else bad, bev.loc(),
         "the answer to a lookup has no member 'found' with the count as a number" if not good else "the count is sent as a text instead of a number")
    v, q = val('lookup-time-ms')
    R.ob('answer', f.model + ': lookup-time-ms', True if isinstance(v, tuple) and v[0] == 'num' and q else None if isinstance(v, tuple) and v[0] == '?' else bad, bev.loc(),
         "the answer to a lookup has no member 'lookup-time-ms' with a number")
def from_field(t, res, off):
    for q in symbols(t):
        if q[0] == 's' and isinstance(q[2], tuple) and q[2][0] == 'init' and q[2][1] == res[1] and q[2][2] == res[2] + off: return t == q or t[0] == 'x' and t[2] in ('zext',)
    return False
def derived(y, t):
    """a value that depends on something the analysis does not follow"""
    return False
def info(R, m, f, y, s, bodies, bad, upd):
    if not bodies: R.ob('answer', f.model + ': info', None, '', 'the body of the answer is not recognised'); return
    pcs, bev = bodies[-1]; j = json_of(pcs)
    if j is None: R.ob('answer', f.model + ': info', None, bev.loc(), 'the body of the answer is not understood'); return
    if j is False: R.ob('answer', f.model + ': info', bad, bev.loc(), 'the database information is no JSON object'); return
    o, tab = j
    for k in ('count', 'last-update'):
        v = o.get(k)
        if isinstance(v, str) and re.fullmatch('\u27e6#\\d+\u27e7', v):
            pc = tab[int(re.sub(r'\D', '', v))]
            if pc[0] != 'num': R.ob('answer', f.model + ': ' + k, None, bev.loc(), 'the value of %s is not understood' % k); continue
            t = pc[1]
            if k == 'count':
                R.ob('answer', f.model + ': ' + k, True if any(t == r for r, _ in s.sizes) else None if symbols(t) & set() else (bad if mentions_field(t) or any(d for d in [y.e.defn(t)] if d) else None), bev.loc(),
                     "'count' is not the number of records of the database")
            else:
                o2 = field_of(t)
                R.ob('answer', f.model + ': ' + k, True if o2 is not None and o2 in upd else (bad if upd and (any(t == r for r, _ in s.sizes) or o2 is not None) else None), bev.loc(),
                     "'last-update' is not the time the database file was last written")
        else:
            R.ob('answer', f.model + ': ' + k, None if isinstance(v, str) and '\u27e6' in v and tab[int(re.sub(r'\D', '', v) or 0)][0] == '?' else bad, bev.loc(),
                 "the database information has no member '%s' with a number" % k)
def field_of(t):
    if t[0] == 's' and isinstance(t[2], tuple) and t[2][0] == 'init' and t[2][1] and t[2][1][0] == 'init' and t[2][1][1] == ('arg', 0): return t[2][2]
    return None
def mentions_field(t): return field_of(t) is not None
def updated_fields(m):
    """offsets in the worker that hold the time its input file was written"""
    out = set()
    for f in m.p.funcs.values():
        if f.proj and re.search(r'(\w+)::\1$', f.model) and any(i.model == 'boost::filesystem::last_write_time' for i in f.calls()):
            e = Engine(f, keep=lambda ev: ev.kind == 'store' or ev.kind == 'call' and ev.model == 'boost::filesystem::last_write_time', exact=True)
            try: ps = e.run()
            except TooBig: continue
            for x in ps:
                evs = x.events(); r = {ev.ret for ev in evs if ev.kind == 'call'}
                for ev in evs:
                    if ev.kind == 'store' and ev.args[1] in r and ev.args[0][1] == ('arg', 0): out.add(ev.args[0][2])
    return out

# ------------------------------------------------------------------ what a client can break
CONVERT = re.compile(r'^std::(__cxx11::)?(stoi|stol|stoll|stoul|stoull|stof|stod|stold)$|^boost::lexical_cast$|^boost::(any_cast|get)$|^boost::algorithm::unhex$')
SOCK = re.compile(r'basic_(stream_)?socket::(remote_endpoint|local_endpoint|shutdown|close|receive|send|read_some|write_some|available|connect)$')
SYNC = re.compile(r'^boost::(asio|beast::http)::(read|write|read_until|read_header|write_header)$')
EXC = {'': ('_ZTISt9exception',)}

def client_facing(m):
    """handlers, and the functions of the project they call (transitively)"""
    out = {}; todo = list(m.entries.values())
    for f in todo: out[f.name] = f
    while todo:
        f = todo.pop()
        for i in f.calls():
            g = m.p.funcs.get(i.fn)
            if g is None or not g.proj or g.name in out: continue
            if g.model.startswith('pwned::PasswordInspector::'): continue
            out[g.name] = g; todo.append(g)
    return list(out.values())

def escapes(f, i, types):
    from g_queue import raised
    if i.op == 'call': return True
    r = raised(f, i, types)
    return True if r == 'escapes' else False if r == 'caught' else True if r == 'terminate' else None

STD = ('_ZTISt9exception',)
OOR = ('_ZTISt12out_of_range', '_ZTISt11logic_error', '_ZTISt9exception')
INV = ('_ZTISt16invalid_argument', '_ZTISt11logic_error', '_ZTISt9exception')
SYS = ('_ZTIN5boost6system12system_errorE', '_ZTISt13runtime_error', '_ZTISt9exception')
def crashing(R):
    m = model(R); p = m.p
    todo = client_facing(m)
    for f in todo:
        R.saw('client-facing functions', f.dem[:160])
        sites = {}
        # 1. constructs that throw whatever the arguments
        for i in f.calls():
            mo = i.model or ''
            if mo == '__cxa_throw':
                ty = i.a[1][1] if len(i.a) > 1 and i.a[1][0] == 'g' else None
                esc = escapes(f, i, bases(ty))
                R.ob('no-exception', '%s: throw' % f.model, False if esc else True if esc is False else None, i.loc(), '%s throws, and nothing between the request and the event loop catches it' % f.model)
            elif CONVERT.search(mo):
                esc = escapes(f, i, INV)
                if mo.endswith('any_cast') or mo.endswith('::get') and not re.search('optional|variant', p.dem(i.fn)): continue
                g = guarded_number(m, f, i)
                R.ob('no-exception', '%s: %s' % (f.model, mo.rsplit('::', 1)[-1]), False if esc and g is False else True if esc is False or g else None, i.loc(),
                     '%s of a text a client chose throws for a text that is no number' % mo.rsplit('::', 1)[-1])
            elif SOCK.search(mo) or SYNC.search(mo):
                if any('error_code' in t for t in p.ptypes(i.fn)): R.ob('no-exception', '%s: %s' % (f.model, mo.rsplit('::', 1)[-1]), True, i.loc()); continue
                esc = escapes(f, i, SYS)
                R.ob('no-exception', '%s: %s' % (f.model, mo.rsplit('::', 1)[-1]), False if esc else True if esc is False else None, i.loc(),
                     '%s without an error code throws when the client has disconnected' % mo.rsplit('::', 1)[-1])
            elif mo == 'boost::asio::ip::make_address' and not any('error_code' in t for t in p.ptypes(i.fn)):
                esc = escapes(f, i, SYS)
                R.ob('no-exception', '%s: make_address' % f.model, False if esc else None, i.loc(), 'make_address without an error code throws for an invalid text')
        # 2. accesses whose bounds must be known
        ps = paths(m, f) if f.name in m.entries else bounded(m, f)
        if ps is None: R.ob('bounds', f.model, None, '', 'too many paths'); continue
        for y in ps:
            if y.end not in ('ret', 'back'): continue
            access(R, m, f, y)
    shared(R, m); logging(R, m)

def bases(ty):
    if ty is None: return STD
    out = [ty]
    if 'out_of_range' in ty or 'invalid_argument' in ty or 'domain_error' in ty or 'length_error' in ty: out.append('_ZTISt11logic_error')
    if ty.startswith('_ZTISt') and ('runtime' in ty or 'range_error' in ty or 'overflow' in ty): out.append('_ZTISt13runtime_error')
    out.append('_ZTISt9exception'); return tuple(out)

def bounded(m, f):
    if f.name in m.an: return m.an[f.name]
    e = Engine(f, keep=lambda ev: (ev.kind in ('call', 'ind') and not dull(ev.model)), exact=True, models=getters(m.p))
    try: ps = e.run()
    except TooBig as t: m.an[f.name] = None; return None
    out = []
    for x in ps:
        y = H(); y.x = x; y.e = e; y.f = f; y.evs = x.events(); y.facts = x.facts; y.end = x.end; y.imp = any(q[0] != 'hull' for q in x.imp); y.ec = None
        out.append(y)
    m.an[f.name] = out
    return out

def guarded_number(m, f, i):
    """a conversion of a text a regular expression restricts to digits (checked with the URI rules)"""
    return None if f.model.startswith('URI::') else False

VEC = re.compile(r'^std::(__cxx11::)?(vector|deque|basic_string)::(at|operator\[\])$')
def access(R, m, f, y):
    p = m.p; est = {}
    for ev in y.evs:
        if ev.kind != 'call': continue
        mo = ev.model; l = mo.rsplit('::', 1)[-1]
        if re.search(r'^std::(vector|deque)::(at|operator\[\])$', mo) and len(ev.args) == 2 and ev.info:
            c = ev.info[0]; n = y.facts.const(ev.args[1])
            if n is None: continue
            lo, src = size_of(y, ev, c)
            if src is None: continue
            R.ob('bounds', '%s: element %d' % (f.model, n), True if lo > n else (None if y.imp else False), ev.loc(),
                 'element %d of the parts of a text is used, but the text may have only %d' % (n, max(lo, 1)))
        elif re.search(r'map::at$', mo) and len(ev.args) == 2:
            ok = established(m, y, ev, ev.args[0], ev.args[1])
            R.ob('bounds', '%s: map::at' % f.model, True if ok else None if ok is None or y.imp or not escapes(f, ev.inst, OOR) else False, ev.loc(),
                 'map::at throws when the key is missing, and nothing on this path makes sure that it exists')
        elif re.search(r'_Rb_tree_(const_)?iterator::operator(->|\*)$', mo):
            ok = found(m, y, ev)
            R.ob('bounds', '%s: found element' % f.model, True if ok else None if ok is None or y.imp else False, ev.loc(), 'the result of a search is used on a path where nothing was found')
        elif mo == 'std::__cxx11::basic_string::substr' and len(ev.args) >= 3:
            pos = ev.args[2]; n = y.facts.const(pos)
            d = y.e.defn(pos)
            if d and isinstance(d[0], str) and re.search(r'basic_string::r?find(_first_of|_last_of)?$', d[0]):
                dec = y.facts.decide(icmp('eq', pos, I(64, 2**64 - 1)))
                R.ob('bounds', '%s: substr' % f.model, True if dec is False else None if y.imp or not escapes(f, ev.inst, OOR) else False, ev.loc(), 'substr throws when the character searched for is missing')

def size_of(y, ev, c):
    """(least size, where it comes from) of a vector known to hold the parts of a text"""
    cont = c[1] if isinstance(c, tuple) and c and c[0] == 'c' else None
    d = y.e.defn(cont) if cont is not None else None
    # how the content came about: the call that last changed it
    src = None; lo = 0
    if d and isinstance(d[0], str) and d[0] == 'st':
        k = y.e.defs[d[1]] if isinstance(d[1], int) else None
        if k and isinstance(k[0], str) and re.search(r'algorithm::(split|iter_split)$|find_all$', k[0]): src = 'split'; lo = 1
    if src is None: return 0, None
    for e2 in y.evs:
        if e2.kind == 'call' and e2.model.endswith('::size') and e2.info and e2.info[0][:2] == c[:2] and e2.ret is not None:
            r = y.facts.range(e2.ret)
            if r: lo = max(lo, r[0][0])
        if e2.kind == 'call' and e2.model.endswith('::empty') and e2.info and e2.info[0][:2] == c[:2] and e2.ret is not None:
            if truth(y.facts, e2.ret) is False: lo = max(lo, 1)
    return lo, src

def samekey(m, y, a, b):
    return a == b
def content_of(ev, k):
    c = ev.info[k] if ev.info and k < len(ev.info) else None
    return c[1] if isinstance(c, tuple) and c and c[0] == 'c' and len(c) > 1 else c
def established(m, y, ev, mp, key):
    """does the path know that the map has the key"""
    kc = content_of(ev, 1); mc = content_of(ev, 0)
    finds = {}; ends = set(); unknown = False
    for e2 in y.evs:
        if e2 is ev: break
        if e2.kind != 'call': continue
        mo = e2.model
        if re.search(r'map::find$', mo): finds[e2.ret] = content_of(e2, 1)
        elif re.search(r'map::c?end$', mo): ends.add(e2.ret)
        elif re.search(r'map::(count|contains)$', mo) and content_of(e2, 1) == kc:
            t = truth(y.facts, e2.ret)
            if t is not None: return t
        elif re.search(r'^std::operator(!=|==)$', mo) and len(e2.args) == 2:
            vals = [pointee(e2, j) for j in (0, 1)]
            fk = [finds[v] for v in vals if v in finds]
            if fk and any(v in ends for v in vals):
                t = truth(y.facts, e2.ret)
                if t is None: continue
                if fk[0] == kc: return t == mo.endswith('!=')
        elif re.search(r'map::(operator\[\]|emplace|insert|insert_or_assign|try_emplace)$', mo): unknown = True
    return None if unknown else False
def pointee(ev, j):
    c = ev.info[j] if ev.info and j < len(ev.info) else None
    if isinstance(c, tuple) and c and c[0] == 'c' and len(c) > 2: return c[2]
    return None
def found(m, y, ev):
    v = pointee(ev, 0)
    if v is None: return None
    isfind = False; ends = set()
    for e2 in y.evs:
        if e2 is ev: break
        if e2.kind != 'call': continue
        if re.search(r'map::find$', e2.model) and e2.ret == v: isfind = True
        elif re.search(r'map::c?end$', e2.model): ends.add(e2.ret)
        elif re.search(r'^std::operator(!=|==)$', e2.model) and len(e2.args) == 2:
            vs = [pointee(e2, j) for j in (0, 1)]
            if v in vs and any(q in ends for q in vs):
                t = truth(y.facts, e2.ret)
                if t is not None: return t == e2.model.endswith('!=')
    return False if isfind else None

def locks(y, p):
    """lock set at every event"""
    held = []; out = []; deferred = {}
    for ev in y.evs:
        out.append(tuple(held))
        if ev.kind != 'call': continue
        if LOCKS.search(ev.model) and len(ev.args) > 1:
            pt = str(p.ptypes(ev.inst.fn))
            if 'defer_lock' in pt: deferred[ev.args[0]] = ev.args[1]
            elif 'try_to_lock' in pt:
                if any(v.kind == 'call' and v.model.endswith(('::owns_lock', '_lock::operator bool')) and v.args and v.args[0] == ev.args[0] and truth(y.facts, v.ret) is True for v in y.evs): held.append((ev.args[0], ev.args[1]))
            else: held.append((ev.args[0], ev.args[1]))
        elif ev.model.endswith('_lock::lock') and ev.args and ev.args[0] in deferred: held.append((ev.args[0], deferred[ev.args[0]]))
        elif UNLOCKS.search(ev.model): held = [h for h in held if h[0] != ev.args[0]]
        elif ev.model.endswith('mutex::lock'): held.append((ev.args[0], ev.args[0]))
        elif ev.model.endswith(('mutex::unlock', '_lock::unlock')): held = [h for h in held if h[0] != ev.args[0]]
    return out
ONERESULT = re.compile(r'^(std::)?(localtime|gmtime|ctime|asctime|strtok|getenv_s|inet_ntoa|gethostbyname|getpwnam|getpwuid|setlocale)$')
def shared(R, m):
    """handlers change nothing that other workers use, other than under a lock; one handler of a worker at a time"""
    p = m.p
    par = threads(m)
    for f in m.entries.values():
        for y in paths(m, f) or []:
            lk = locks(y, p)
            for ev, held in zip(y.evs, lk):
                if ev.kind == 'store' and isp(ev.args[0]) and ev.args[0][1] is not None and ev.args[0][1][0] == 'glob' and own_global(m, ev.args[0][1][1]):
                    R.ob('no-shared-state', '%s: %s' % (f.model, gname(m, ev.args[0][1][1])), bool(held) or (None if not par else False), ev.loc(), "the variable %s is changed by the handlers of all workers without a lock" % gname(m, ev.args[0][1][1]))
                if ev.kind != 'call': continue
                if ONERESULT.search(ev.model): R.ob('no-shared-state', '%s: %s' % (f.model, ev.model), bool(held) or (None if not par or y.imp else False), ev.loc(), 'the result of %s is one object that all workers use at the same time' % ev.model)
                for k, a in enumerate(ev.args):
                    if isp(a) and a[1] is not None and a[1][0] == 'glob' and own_global(m, a[1][1]) and changes(m, ev, k):
                        R.ob('no-shared-state', '%s: %s' % (f.model, gname(m, a[1][1])), bool(held) or (None if not par else False), ev.loc(), "the object %s is used by the handlers of all workers without a lock" % gname(m, a[1][1]))
                if ev.model.startswith('pwned::PasswordInspector::') and ev.args:
                    a = ev.args[1] if ev.inst.pa.get(0, (None,))[0] == 'sret' else ev.args[0]
                    own = owner(m, f, y, a)
                    R.ob('own-inspector', f.model, None if own is None else own == 'own' or bool(held) or (None if not par else False), ev.loc(),
                         'requests served at the same time use one database object (%s), whose lookups change its position' % own)
    strands(R, m, par)

def gname(m, n):
    g = m.p.globals.get(n); return (g or {}).get('dem', n)
def own_global(m, n):
    g = m.p.globals.get(n)
    if g is None or g.get('const') or g.get('tls'): return False
    d = g.get('dem', n)
    return not (n.startswith(('_ZSt', '_ZNSt', '_ZGV', '.str', '_ZTV', '_ZTI', '_ZTS')) or d.startswith(('std::', 'boost::', 'guard variable', 'vtable', '__')))
def changes(m, ev, k):
    pts = m.p.ptypes(ev.inst.fn); d = m.p.dem(ev.inst.fn)
    first = 1 if ev.inst.pa.get(0, (None,))[0] == 'sret' else 0
    method = len(ev.args) - first == len(pts) + 1
    if method and k == first: return not (d.endswith(' const') or ACCESSOR.search(ev.model) and not ACCESSOR_NOT.search(ev.model) or '::~' in d)
    j = k - first - (1 if method else 0)
    t = pts[j] if 0 <= j < len(pts) else ''
    return bool(t) and t[-1] in '&*' and 'const&' not in t and 'const*' not in t
def owner(m, f, y, a):
    r = root(y, a)
    if r and r[0] == 'this': return 'own'
    if r and r[0] == 'global': return 'the global ' + gname(m, r[1])
    if r and r[0] == 'local': return 'own'
    b = a[1] if isp(a) else None
    if b and b[0] == 'init' and b[1] and b[1][0] == 'init' and b[1][1] == ('arg', 0):
        # a pointer or reference the worker holds: where does its constructor get it from?
        off = b[2]
        for c in m.p.funcs.values():
            if not (c.proj and re.search(r'(\w+)::\1$', c.model) and any('basic_stream_socket' in (i.model or '') for i in c.calls())): continue
            e = Engine(c, keep=lambda ev: ev.kind == 'store', exact=True)
            try: ps = e.run()
            except TooBig: return None
            for x in ps:
                for ev in x.events():
                    if ev.args[0][1] == ('arg', 0) and ev.args[0][2] == off and isp(ev.args[1]) and ev.args[1][1] is not None:
                        if ev.args[1][1][0] == 'arg': return 'one handed to every worker'
                        if ev.args[1][1][0] == 'glob': return 'a global'
    return None
def threads(m):
    """is the event loop run by more than one thread?"""
    return any(i.model == 'std::thread::thread' for f in m.p.funcs.values() if f.proj for i in f.calls()) or \
        any('thread' in m.p.dem(i.fn) and 'emplace_back' in (i.model or '') for f in m.p.funcs.values() if f.proj for i in f.calls() if i.fn)

def strands(R, m, par):
    p = m.p
    bound = any('strand' in p.dem(i.fn) for fn, l in m.called.items() for k, i, h in l)
    for c in p.funcs.values():
        if not (c.proj and re.search(r'(\w+)::\1$', c.model) and any((i.model or '').endswith('basic_stream_socket::basic_stream_socket') for i in c.calls())): continue
        e = Engine(c, keep=lambda ev: ev.kind == 'call' and re.search(r'strand|executor|basic_stream_socket::basic_stream_socket|timer::basic_waitable_timer', ev.model), exact=True)
        try: ps = e.run()
        except TooBig: continue
        for x in ps:
            if x.end != 'ret': continue
            S = set(); P = set()
            for ev in x.events():
                mo = ev.model; a = ev.args
                sret = ev.inst.pa.get(0, (None,))[0] == 'sret'
                dst = a[0] if sret else ev.ret
                if re.search(r'make_strand$|strand::strand$', mo): S.add(a[0])
                elif mo.endswith('::get_executor'):
                    o = a[1] if sret else a[0]
                    (S if o in S else P if o in P or 'acceptor' in mo or 'io_context' in mo else set()).add(dst)
                elif mo.endswith('any_io_executor::any_io_executor') and len(a) >= 2: (S if a[1] in S else P if a[1] in P else set()).add(a[0])
                elif re.search(r'basic_stream_socket::basic_stream_socket$|basic_waitable_timer::basic_waitable_timer$', mo) and len(a) >= 2:
                    t = p.ptypes(ev.inst.fn)
                    cl = 'strand' if a[1] in S else 'plain' if a[1] in P or 'io_context' in (t[0] if t else '') else None
                    (S if cl == 'strand' else P if cl == 'plain' else set()).add(a[0])
                    what = 'socket' if 'socket' in mo else 'timer'
                    R.ob('one-handler-at-a-time', '%s: %s' % (c.model, what), True if cl == 'strand' or bound or not par else None if cl is None else False, ev.loc(),
                         'the handlers of the %s run on the plain event loop, which several threads run: handlers of one worker can run at the same time' % what)

def logging(R, m):
    """lines of the log are written one at a time"""
    p = m.p; par = threads(m)
    cl = [f for f in p.funcs.values() if f.proj and f.rel.startswith('pwned-server') and '::operator()' in f.dem and f.name not in m.entries and any('basic_string' in t for t in f.ptypes)]
    for f in list(m.entries.values()) + cl:
        for y in (paths(m, f) if f.name in m.entries else bounded(m, f)) or []:
            outs = [(ev, h) for ev, h in zip(y.evs, locks(y, p)) if ev.kind == 'call' and ev.args and isp(ev.args[0]) and ev.args[0][1] is not None and ev.args[0][1][0] == 'glob'
                    and re.match(r'_ZSt4(cout|cerr|clog)$', ev.args[0][1][1]) and re.search(r'operator<<$|::(write|put)$', ev.model)]
            for ev, h in outs:
                good = [q for q in h if not (isp(q[1]) and q[1][1] is not None and q[1][1][0] == 'alloca')]
                R.ob('log-lock', f.model, bool(good) or (None if not par or y.imp else False), ev.loc(), 'a log line is written without a lock that all threads share')
            secs = {q for ev, h in outs for q in h}
            if len(outs) > 1 and all(h for _, h in outs):
                R.ob('log-lock', f.model + ': one line', len(secs) == 1 or (None if y.imp else False), outs[0][0].loc(), 'the lock is given up in the middle of a log line')
