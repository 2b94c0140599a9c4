"""The operation queue, the operation and the semaphore: lockset, wait/notify and typestate rules.

Thread contexts: A any thread (add, pause, resume, cancel, size and the queries), O the thread that
owns the queue (execute, waitFor..., reset), S the scheduler thread, W a worker thread.  Two accesses of
the contexts S-W, S-A, S-O, W-W, W-A, W-O, A-A and A-O can happen at the same time; an O access behind
a join cannot coincide with S."""
from ir import program
from absint import *
from build import AnalysisBroken

T = 'probe:queue'
Q, OP, SEM = 'pwned::OperationQueue', 'pwned::Operation', 'pwned::Semaphore'
API = {'add': 'A', 'cancel': 'A', 'pause': 'A', 'resume': 'A', 'size': 'A', 'isRunning': 'A', 'isCancelled': 'A', 'hasFailed': 'A', 'operationWait': 'A',
       'reset': 'O', 'execute': 'O', 'waitForScheduled': 'O', 'waitForFinished': 'O', '~OperationQueue': 'D', 'OperationQueue': 'D'}
OPAPI = {'start': 'W', 'cancel': 'A', 'pause': 'A', 'hasFailed': 'A', 'setQueue': 'D', '~Operation': 'D'}
LOCKS = re.compile(r'^std::(lock_guard|unique_lock|scoped_lock|shared_lock)::(lock_guard|unique_lock|scoped_lock|shared_lock)$')
UNLOCKS = re.compile(r'^std::(lock_guard|unique_lock|scoped_lock|shared_lock)::~')
CONST = {'empty', 'size', 'top', 'front', 'back', 'begin', 'end', 'cbegin', 'cend', 'count', 'find', 'rbegin', 'rend', 'at', 'operator[]'}
CONT = re.compile(r'^std::(__cxx11::)?(priority_queue|queue|list|vector|deque|set|map|stack|forward_list|unordered_set|unordered_map|multiset)::([^:]+)$')

def truth(f, t):
    if t is None or isp(t): return None
    for q in (t, trunc(t, 1), icmp('ne', t, I(width(t), 0))):
        d = f.decide(q)
        if d is not None: return d
    return None
def short(ev): return ev.model.rsplit('::', 1)[-1]

class Model: pass
_memo = {}
def model(R):
    if 'm' in _memo: return _memo['m']
    p = program(T); m = _memo['m'] = Model(); m.p = p; m.roots = {}; m.skipped = []
    m.q = next((n for n in p.di if n.startswith('pwned::OperationQueue<probe::Op>') and 'lambda' not in n and not n.endswith('::')), None)
    if m.q is None: raise AnalysisBroken('no layout of the operation queue')
    m.flat = {'Q': flatten(p, m.q), 'OP': flatten(p, OP), 'SEM': flatten(p, SEM)}
    vt = p.globals.get('_ZTVN5pwned9OperationE'); m.slots = {}
    if vt and vt.get('init'):
        try:
            for k, x in enumerate(vt['init'][1][0][1][2:]):
                m.slots[8 * k] = 'pure' if x[1] == '__cxa_pure_virtual' else 'del' if x[1].endswith('D0Ev') else p.model(x[1]).rsplit('::', 1)[-1]
        except Exception: pass
    thr = thread_closures(p)
    for f in p.funcs.values():
        if not f.proj: continue
        c, _, n = f.model.rpartition('::')
        kind = None
        if c == Q and n in API and '<probe::Op>' in f.dem: kind = (API[n], n)
        elif c == OP and n in OPAPI: kind = (OPAPI[n], 'op.' + n)
        elif c == 'probe': kind = ('X', n)
        elif n == 'operator()' and f.name in thr: kind = ('T', f.model)
        if kind is None: continue
        for fu in ('normal',):
            e = Engine(f, keep=lambda ev: True, exact=True)
            try: ps = e.run()
            except TooBig as t: m.skipped.append((kind, str(t))); continue
        R.saw('functions', f.dem); R.saw('paths', *('%s:%d' % (kind[1], k) for k in range(len(ps))))
        m.roots[kind[1] if kind[1] not in m.roots else f.name] = Root(m, f, e, ps, *kind)
    for r in m.roots.values():
        if r.ctx == 'T': r.ctx = 'S' if any(ev.kind == 'call' and ev.model == 'std::thread::thread' for x in r.paths for ev in x.evs) else 'W'
    roles(m)
    return m

def thread_closures(p):
    out = set(); cl = set()
    for f in p.funcs.values():
        for i in f.calls():
            if i.model == 'std::thread::thread' and i.fn:
                d = p.dem(i.fn); k = d.find('thread<')
                if k < 0: continue
                d = d[k + 7:]; n = 0
                for j, c in enumerate(d):
                    if c in '<({': n += 1
                    elif c in '>)}':
                        n -= 1
                        if n < 0: break
                    elif c == ',' and n == 0: break
                cl.add(d[:j].strip())
    for f in p.funcs.values():
        if '::operator()' in f.dem:
            c = f.dem.rsplit('::operator()', 1)[0]
            if c in cl: out.add(f.name)
    return out

def flatten(p, cls, base=0, pre=''):
    out = {}
    for n, off, size, ty, *_ in p.di.get(cls, {'mem': []})['mem']:
        if n == '<base>' and ty.startswith('pwned::'): out.update(flatten(p, ty, base + off, pre))
        elif n.startswith('<') or n.startswith('_vptr'): continue
        elif ty.startswith('pwned::') and ty in p.di and '*' not in ty and p.di[ty]['mem']: out.update(flatten(p, ty, base + off, pre + n + '.'))
        else: out[base + off] = (pre + n, ty, size)
    return out

class X: pass
class Root:
    def __init__(s, m, f, e, ps, ctx, name):
        s.m = m; s.f = f; s.e = e; s.ctx = ctx; s.name = name; s.paths = []
        s.cls = {}   # memory base -> class
        own = f.model.rpartition('::')[0]
        if own == Q: s.cls[('arg', 0)] = 'Q'
        elif own == OP: s.cls[('arg', 0)] = 'OP'
        elif own == 'probe': s.cls[('arg', 0)] = 'SEM'
        raw = []
        for x in ps:
            y = X(); y.x = x; y.evs = x.events(); y.root = s; raw.append(y)
        for y in raw:
            for ev in y.evs:
                if ev.kind == 'call' and ev.args:
                    ty = ('std::mutex', 'std::recursive_mutex') if LOCKS.search(ev.model) else None
                    a = ev.args[1] if ty and len(ev.args) > 1 else ev.args[0]
                    if CONT.search(ev.model): ty = (ev.model.rsplit('::', 1)[0],)
                    if ev.model.startswith('std::condition_variable::'): ty = ('std::condition_variable',)
                    if ty and isp(a) and a[1] is not None and a[1] not in s.cls and a[1][0] == 'init':
                        for c in ('Q', 'OP'):
                            t = m.flat[c].get(a[2])
                            if t and t[1].startswith(ty): s.cls[a[1]] = c; break
                if ev.kind == 'ind' and ev.args and isp(ev.args[0]) and ev.args[0][1] not in s.cls and ev.args[0][2] == 0: s.cls[ev.args[0][1]] = 'OP'
        for y in raw: s.paths.append(prepare(s, y))
    def where(s, ev=None): return ev.loc() if ev is not None else '%s:%s' % (s.f.rel, s.f.line)

def prepare(r, y):
    """events with the locks held, and role names"""
    held = {}; y.held = []; y.heads = []
    for ev in y.evs:
        y.held.append(frozenset(q for v in held.values() for q in v))
        if ev.kind == 'loop': y.heads.append((len(y.held) - 1, ev.args[0][2], y.held[-1]))
        if ev.kind != 'call': continue
        if LOCKS.search(ev.model):
            ms = [a[1:] for a in ev.args[1:] if isp(a) and a[1] is not None]
            pt = str(r.m.p.ptypes(ev.inst.fn))
            if 'defer_lock' in pt: held[ev.args[0]] = ()
            elif 'try_to_lock' in pt: held[ev.args[0]] = tuple(ms) if any(v.kind == 'call' and v.model.endswith(('::owns_lock', '_lock::operator bool')) and v.args and v.args[0] == ev.args[0] and truth(y.x.facts, v.ret) is True for v in y.evs) else ()
            else: held[ev.args[0]] = tuple(ms)
        elif UNLOCKS.search(ev.model): held.pop(ev.args[0], None)
        elif ev.model.endswith('mutex::lock'): held[ev.args[0]] = (ev.args[0][1:],)
        elif ev.model.endswith('mutex::unlock'): held.pop(ev.args[0], None)
        elif ev.model.endswith('_lock::unlock'): held['rel', ev.args[0]] = (); held[ev.args[0]] = (); y.odd = True
        elif ev.model.endswith('_lock::lock'): y.odd = True
    y.end_held = frozenset(q for v in held.values() for q in v)
    if not hasattr(y, 'odd'): y.odd = False
    y.end = y.x.end; y.facts = y.x.facts
    y.imp = any(q[0] != 'hull' for q in y.x.imp)
    return y

def loc(r, ptr):
    """(class, offset) of a pointer, or None"""
    if not isp(ptr) or not isinstance(ptr[2], int): return None
    c = r.cls.get(ptr[1]); return (c, ptr[2]) if c else None
def nm(m, l):
    if l is None: return '?'
    t = m.flat.get(l[0], {}).get(l[1]); return {'Q': 'queue.', 'OP': 'operation.', 'SEM': 'semaphore.'}[l[0]] + (t[0] if t else '+%d' % l[1])
def slot(r, y, k):
    """which virtual function the indirect call k calls"""
    fp = y.evs[k].info
    if not isp(fp) or not (isinstance(fp[1], tuple) and fp[1][0] == 'init'): return None
    return r.m.slots.get(fp[1][2])

def access(r, y):
    """(index, location, 'r'/'w', atomic) of every access to a member"""
    for k, ev in enumerate(y.evs):
        if ev.kind in ('load', 'store', 'aload', 'astore', 'rmw'):
            l = loc(r, ev.args[0])
            if l: yield k, l, 'r' if ev.kind in ('load', 'aload') else 'w', ev.kind in ('aload', 'astore', 'rmw')
        elif ev.kind == 'call' and ev.args:
            c = CONT.search(ev.model)
            if c:
                l = loc(r, ev.args[0])
                if l: yield k, l, 'r' if c.group(3) in CONST else 'w', False
            elif ev.model.startswith('std::thread::') and short(ev) in ('operator=', 'join', 'joinable', 'detach', 'swap'):
                l = loc(r, ev.args[0])
                if l: yield k, l, 'r' if short(ev) == 'joinable' else 'w', False

def roles(m):
    """which member plays which part, from what the code does with it"""
    m.waits = []   # (root, path, index, cv location, mutex location)
    for r in m.roots.values():
        for y in r.paths:
            for k, ev in enumerate(y.evs):
                if ev.kind == 'call' and ev.model.startswith('std::condition_variable') and short(ev).startswith('wait'):
                    cv = loc(r, ev.args[0]); mu = None
                    for j in range(k - 1, -1, -1):
                        q = y.evs[j]
                        if q.kind == 'call' and LOCKS.search(q.model) and q.args[0] == ev.args[1]: mu = loc(r, q.args[1]) if len(q.args) > 1 else None; break
                    m.waits.append((r, y, k, cv, mu))
    # the condition a wait is repeated for: location -> when it sleeps
    m.pred = {}    # cv -> {location: [(path, symbol)]}
    m.cvmu = {}
    for r, y, k, cv, mu in m.waits:
        if cv is None: continue
        m.cvmu.setdefault(cv, set()).add(mu)
        hs = [h for j, h, _ in y.heads if j < k]
        if y.end != 'back' or y.x.head not in hs: continue
        j0 = max(j for j, h, _ in y.heads if h == y.x.head)
        for j in range(j0, k):
            ev = y.evs[j]
            if ev.kind in ('load', 'aload'):
                l = loc(r, ev.args[0])
                if l and ev.ret is not None and not isp(ev.ret) and m.flat[l[0]].get(l[1], ('', '', 9))[2] <= 8: m.pred.setdefault(cv, {}).setdefault(l, []).append((y, ev.ret))
    m.cancel = set(); m.opcancel = set()
    for n, s in (('cancel', m.cancel), ('op.cancel', m.opcancel)):
        r = m.roots.get(n)
        if not r: continue
        for y in r.paths:
            for ev in y.evs:
                if ev.kind in ('astore', 'store') and isc(ev.args[1]) and ev.args[1][2] == 1:
                    l = loc(r, ev.args[0])
                    if l and l[0] == ('Q' if n == 'cancel' else 'OP'): s.add(l)
    m.pending = None
    r = m.roots.get('add')
    if r:
        for y in r.paths:
            for ev in y.evs:
                if ev.kind == 'call' and CONT.search(ev.model) and short(ev) in ('push', 'push_back', 'emplace', 'emplace_back', 'push_front', 'insert'):
                    l = loc(r, ev.args[0])
                    if l and l[0] == 'Q': m.pending = l
    m.ops = None; m.threads = None
    for off, (n, ty, sz) in m.flat['Q'].items():
        if CONT.search(ty.split('<')[0] + '::x') and ('Q', off) != m.pending and 'Op *' in ty and 'thread' not in ty: m.ops = ('Q', off)
        if CONT.search(ty.split('<')[0] + '::x') and 'std::thread' in ty: m.threads = ('Q', off)

def sleeps(m, cv, l, v):
    """may a thread sleep on cv while location l holds v"""
    return any(y.facts.consistent({s: v}) for y, s in m.pred[cv][l])

def writes(m, r, y, l):
    """(index, old symbol, new term) of the stores to l"""
    for k, ev in enumerate(y.evs):
        if ev.kind in ('store', 'astore') and loc(r, ev.args[0]) == l and not isp(ev.args[1]): yield k, ev.args[1]
def enabling(m, cv, l, y, new):
    """some old value sleeps, the new one does not"""
    w = width(new)
    if isc(new): return sleeps(m, cv, l, 0 if new[2] else 1) and not sleeps(m, cv, l, new[2]) or (not sleeps(m, cv, l, new[2]) and any(sleeps(m, cv, l, v) for v in (0, 1, 2)))
    sy = symbols(new)
    if len(sy) != 1: return None
    (o,) = sy
    for v in (0, 1, 2, 7):
        if not y.facts.consistent({o: v}): continue
        n = evalterm(new, {o: v})
        if n is not None and sleeps(m, cv, l, v) and not sleeps(m, cv, l, n): return True
    return False

# ------------------------------------------------------------------ C15
PAIRS = {frozenset(x) for x in (('S', 'W'), ('S', 'A'), ('S', 'O'), ('W',), ('W', 'A'), ('W', 'O'), ('A',), ('A', 'O'))}
def sharing(R):
    m = model(R)
    for k, t in m.skipped: R.ob('lockset', k[1], None, T, t)
    races(R, m); released(R, m); waiting(R, m); wakers(R, m); order(R, m); resuming(R, m); thread_ends(R, m)

def members(m):
    out = {}
    for r in m.roots.values():
        if r.ctx not in 'ASWO': continue
        for y in r.paths:
            joined = len(y.evs)
            for k, ev in enumerate(y.evs):
                if ev.kind == 'call' and ev.model in ('std::thread::join', 'std::thread::joinable') and loc(r, ev.args[0]): joined = k; break
            handed = None
            if r.name == 'add':
                handed = next((k for k, ev in enumerate(y.evs) if ev.kind == 'call' and CONT.search(ev.model) and loc(r, ev.args[0]) == m.pending), None)
            for k, l, rw, atomic in access(r, y):
                if atomic: continue
                if l[0] == 'OP' and handed is not None and k < handed: continue
                t = m.flat.get(l[0], {}).get(l[1])
                if t is None or 'mutex' in t[1] or 'condition_variable' in t[1] or 'atomic' in t[1]: continue
                h = frozenset(loc(r, ('p',) + q) for q in y.held[k])
                ctx = r.ctx
                if r.name.startswith('op.'): ctx = 'W' if r.name == 'op.start' else 'A'
                out.setdefault(l, set()).add((ctx, ctx == 'O' and k > joined, rw, h, r.name, y.evs[k].loc(), y.odd))
    return out

def races(R, m):
    for l, acc in sorted(members(m).items()):
        bad = None
        acc = sorted(acc, key=str)
        for a in acc:
            for b in acc:
                if a is b and (a[0] == 'S' or a[0] == 'O'): continue
                if 'w' not in (a[2], b[2]) or frozenset((a[0], b[0])) not in PAIRS: continue
                if 'S' in (a[0], b[0]) and (a[1] or b[1]): continue
                if a[3] & b[3] - {None}: continue
                if None in a[3] or None in b[3] or a[6] or b[6]: bad = bad or (None, a, b)
                elif not bad or bad[0] is None: bad = (False, a, b)
        if bad is None: R.ob('lockset', nm(m, l), True)
        else: R.ob('lockset', nm(m, l), bad[0], bad[1][5], '%s in %s and %s in %s (%s) hold no common lock' % (({'r': 'read', 'w': 'write'}[bad[1][2]], bad[1][4], {'r': 'read', 'w': 'write'}[bad[2][2]], bad[2][4], bad[2][5])))

def released(R, m):
    for r in m.roots.values():
        bad = None
        for y in r.paths:
            if y.odd: continue
            if y.end == 'ret' and y.end_held: bad = (y, 'returns')
            if y.end == 'back':
                hh = [h for j, g, h in y.heads if g == y.x.head]
                if hh and hh[-1] != y.end_held: bad = (y, 'repeats its loop')
        R.ob('released', r.name, None if bad and bad[0].imp else not bad, r.where(), 'the function %s with a lock held' % bad[1] if bad else '')

def waiting(R, m):
    for r, y, k, cv, mu in m.waits:
        if short(y.evs[k]) != 'wait' or cv is None: continue
        at = y.evs[k].loc(); sub = '%s: wait on %s' % (r.name, nm(m, cv))
        rest = [ev for ev in y.evs[k + 1:] if not (ev.kind in ('load', 'aload'))]
        hs = [h for j, h, _ in y.heads if j < k]
        ok = y.end == 'back' and y.x.head in hs and not [ev for ev in rest if ev.kind in ('store', 'astore', 'call', 'ind')]
        ok = ok or y.end in ('throw', 'unreach')
        R.ob('wait loop', sub, None if not ok and y.imp else ok, at, 'what is waited for is not checked again after waking up')
        other = {loc(r, ('p',) + q) for q in y.held[k]} - {mu}
        if other and None not in other:
            # every thread that could wake this one needs a lock held here
            W = [(q, z, j) for q in m.roots.values() if q is not r and q.ctx != 'X' and q.ctx != 'D' for z in q.paths for j, ev in enumerate(z.evs) if ev.kind == 'call' and ev.model.startswith('std::condition_variable::notify') and loc(q, ev.args[0]) == cv and z.end == 'ret']
            if W:
                free = [w for w in W if not any(ev.kind == 'call' and LOCKS.search(ev.model) and len(ev.args) > 1 and loc(w[0], ev.args[1]) in other for ev in w[1].evs[:w[2]])]
                R.ob('lock order', sub, bool(free), at, 'sleeps holding %s, which every thread that would wake it needs first' % ', '.join(nm(m, o) for o in other))

def wakers(R, m):
    for cv, ls in m.pred.items():
        mus = m.cvmu[cv]
        for l in ls:
            n = 0
            for r in m.roots.values():
                if r.name == 'OperationQueue': continue
                for y in r.paths:
                    if y.end not in ('ret', 'back'): continue
                    for k, new in writes(m, r, y, l):
                        en = enabling(m, cv, l, y, new)
                        if not en: continue
                        at = y.evs[k].loc(); sub = '%s: %s wakes %s' % (r.name, nm(m, l), nm(m, cv)); n += 1
                        h = {loc(r, ('p',) + q) for q in y.held[k]}
                        und = y.imp or y.odd
                        if None not in mus and len(mus) == 1: R.ob('wake-up', sub + ' (lock)', True if mus <= h else None if und else False, at, 'the condition is set without the lock of the waiting side: the wake-up can be lost')
                        no = [ev for ev in y.evs[k:] if ev.kind == 'call' and ev.model.startswith('std::condition_variable::notify') and loc(r, ev.args[0]) == cv]
                        if not no and y.end == 'back': continue
                        R.ob('wake-up', sub + ' (notify)', True if no else None if und else False, at, 'no thread that waits for this is notified')
                        if no and isc(new) and all(short(ev) == 'notify_one' for ev in no) and any(wr.name == 'operationWait' for wr, _, _, c2, _ in m.waits if c2 == cv):
                            R.ob('wake-up', sub + ' (all)', None if und else False, at, 'several operations can wait for this, but only one is woken')
            R.ob('wake-up', '%s is set by someone' % nm(m, l), n > 0, T, 'nothing ends the wait on %s' % nm(m, cv))

def order(R, m):
    E = {}
    for r in m.roots.values():
        for y in r.paths:
            for k, ev in enumerate(y.evs):
                if ev.kind == 'call' and LOCKS.search(ev.model) and len(ev.args) > 1:
                    b = loc(r, ev.args[1])
                    for q in y.held[k]:
                        a = loc(r, ('p',) + q)
                        if a and b: E.setdefault(a, {}).setdefault(b, (r.name, ev.loc()))
                if ev.kind == 'call' and ev.model == 'std::thread::join' and y.held[k]:
                    hold = {loc(r, ('p',) + q) for q in y.held[k]} - {None}
                    for t in m.roots.values():
                        if t.ctx in 'SW' and not t.name.startswith('op.') and any(e2.kind == 'call' and LOCKS.search(e2.model) and len(e2.args) > 1 and loc(t, e2.args[1]) in hold for z in t.paths for e2 in z.evs):
                            R.ob('lock order', r.name + ': join', False, ev.loc(), 'waits for the end of a thread while holding a lock that thread needs')
    for a in E:
        seen = {}; todo = [(a, None)]
        while todo:
            x, via = todo.pop()
            for b, w in E.get(x, {}).items():
                if b not in seen: seen[b] = via or w; todo.append((b, via or w))
        R.ob('lock order', nm(m, a), a not in seen, seen[a][1] if a in seen else '', 'locks are taken in a circle' if E.get(a, {}).get(a) is None else 'a lock is taken that is held already')

def state_after(r, y):
    """what a path leaves in the members it looked at or changed: location -> value"""
    out = {}
    for ev in y.evs:
        if ev.kind in ('load', 'aload') and ev.ret is not None and not isp(ev.ret):
            l = loc(r, ev.args[0])
            if l and l not in out:
                v = [b for b in (0, 1) if y.facts.consistent({ev.ret: b})]
                if len(v) == 1: out[l] = v[0]
        if ev.kind in ('store', 'astore'):
            l = loc(r, ev.args[0])
            if l: out[l] = ev.args[1][2] if not isp(ev.args[1]) and isc(ev.args[1]) else None
    return out

def resuming(R, m):
    P, Z = m.roots.get('pause'), m.roots.get('resume')
    if not P or not Z: return
    for cv, ls in m.pred.items():
        if not any(w[0].name == 'operationWait' and w[3] == cv for w in m.waits): continue
        for l in ls:
            for y in P.paths:
                if y.end != 'ret': continue
                st = state_after(P, y)
                if st.get(l) is None or not sleeps(m, cv, l, st[l]): continue
                bad = None; good = False
                for z in Z.paths:
                    if z.end != 'ret': continue
                    if any(enabling(m, cv, l, z, new) for _, new in writes(m, Z, z, l)): good = True; continue
                    if feasible(Z, z, st): bad = z
                R.ob('resume', 'resume ends a pause', True if good and not bad else None if y.imp or bad and bad.imp else False, Z.where(), 'after pause() a call of resume() does not wake the operations')
                # the operations that are not yet waiting wait as soon as they ask

def feasible(r, z, st):
    env = {}; done = set()
    for ev in z.evs:
        if ev.kind in ('load', 'aload'):
            l = loc(r, ev.args[0])
            if l in st and st[l] is not None and l not in done and ev.ret is not None and not isp(ev.ret) and ev.ret[0] == 's': env[ev.ret] = st[l]
        if ev.kind in ('store', 'astore'): done.add(loc(r, ev.args[0]))
    return z.facts.consistent(env)

def thread_ends(R, m):
    """whoever waits for the end of the queue waits for every thread"""
    r = m.roots.get('waitForFinished')
    if not r: return
    ok = any(ev.kind == 'call' and ev.model == 'std::thread::join' and loc(r, ev.args[0]) is None for y in r.paths for ev in y.evs)
    R.ob('join', 'waitForFinished joins every worker', ok, r.where(), 'the worker threads are not waited for')
    for y in r.paths:
        if y.end != 'ret': continue
        cl = [k for k, l, rw, _ in access(r, y) if l == m.threads and rw == 'w']
        jn = [k for k, ev in enumerate(y.evs) if ev.kind == 'call' and short(ev) in ('joinable', 'join') and ev.model.startswith('std::thread')]
        R.ob('join', 'waitForFinished: the scheduler has ended before its list of threads is used', True if jn and (not cl or min(jn) < min(cl)) else None if y.imp else False, r.where(), 'the scheduler thread is not waited for')

# ------------------------------------------------------------------ C14
def lifecycle(R):
    m = model(R)
    scheduler(R, m); worker(R, m); adding(R, m); dropping(R, m); semaphore(R, m); starting(R, m)

def slotsof(m):
    """the counter the scheduler waits for"""
    return {l for r, y, k, cv, mu in m.waits if r.ctx == 'S' and cv for l in m.pred.get(cv, {})}
def delta(r, y, l, k0=0, k1=None):
    """sum of the changes of a counter, or None"""
    d = 0
    for k, ev in enumerate(y.evs):
        if k < k0 or k1 is not None and k >= k1: continue
        if ev.kind == 'store' and loc(r, ev.args[0]) == l:
            cur = None
            for j in range(k - 1, -1, -1):
                q = y.evs[j]
                if q.kind == 'load' and q.args[0] == ev.args[0]: cur = q.ret; break
            if cur is None: return None
            t = sub(ev.args[1], cur)
            if not isc(t): return None
            d += sval(t)
        if ev.kind == 'rmw' and loc(r, ev.args[0]) == l: return None
    return d

def ptrval(y, k):
    """the pointer kept in the variable whose address is passed"""
    a = y.evs[k].args[1] if len(y.evs[k].args) > 1 else None
    if a is None: return None
    for j in range(k - 1, -1, -1):
        ev = y.evs[j]
        if ev.kind == 'store' and ev.args[0] == a: return ev.args[1]
    return a

def scheduler(R, m):
    for r in [r for r in m.roots.values() if r.ctx == 'S']:
        sl = slotsof(m); sub = 'scheduler'
        for y in r.paths:
            started = [k for k, ev in enumerate(y.evs) if ev.kind == 'call' and ev.model == 'std::thread::thread']
            waits = any(ev.kind == 'call' and ev.model.startswith('std::condition_variable') and short(ev) == 'wait' for ev in y.evs)
            if waits and y.end == 'back' and not started: continue
            if y.end not in ('back', 'ret'): continue
            und = y.imp or y.odd
            def ob(s, ok, msg, ev=None): R.ob('scheduler', s, ok if ok else None if und else ok, r.where(ev), msg)
            pops = [(k, ev) for k, ev in enumerate(y.evs) if ev.kind == 'call' and CONT.search(ev.model) and loc(r, ev.args[0]) == m.pending and short(ev) in ('pop', 'pop_back', 'pop_front', 'erase', 'clear')]
            tops = [(k, ev) for k, ev in enumerate(y.evs) if ev.kind == 'call' and CONT.search(ev.model) and loc(r, ev.args[0]) == m.pending and short(ev) in ('top', 'front', 'back')]
            known = {}
            for ev in y.evs:
                if ev.kind == 'call' and CONT.search(ev.model) and loc(r, ev.args[0]) == m.pending and ev.ret is not None and not isp(ev.ret):
                    d = truth(y.facts, ev.ret) if short(ev) == 'empty' else y.facts.decide(icmp('eq', ev.ret, I(width(ev.ret), 0))) if short(ev) == 'size' else None
                    if d is not None: known['empty'] = d
                if ev.kind == 'aload' and loc(r, ev.args[0]) in m.cancel and ev.ret is not None:
                    d = truth(y.facts, ev.ret)
                    if d is not None: known['cancelled'] = d
            for l in sl:
                d = delta(r, y, l)
                if d is None: continue
                if started: ob('one slot is taken per operation', d == -1, 'an operation is started after taking %d slots' % -d, y.evs[started[0]])
                elif y.end == 'ret': ob('the scheduler gives back the slot it does not use', d >= 0, 'a slot is lost when the scheduler ends')
                if started:
                    tk = [k for k, ev in enumerate(y.evs) if ev.kind == 'store' and loc(r, ev.args[0]) == l]
                    ob('a slot is taken before an operation is started', bool(tk) and tk[0] < started[0], 'the operation runs before a slot was free', y.evs[started[0]])
            if m.pending is None: continue
            if len(started) > 1: ob('an operation is started once', False, 'two threads are started in one round', y.evs[started[1]])
            if started:
                k0 = started[0]
                vals = {t[1].ret for t in tops}
                # what the thread is given
                op = None
                clo = y.evs[k0].args[1] if len(y.evs[k0].args) > 1 else None
                if clo is not None and isp(clo):
                    for ev in y.evs[:k0]:
                        if ev.kind == 'store' and isp(ev.args[0]) and ev.args[0][1] == clo[1] and isp(ev.args[1]) and ev.args[1][1] and ev.args[1][1][0] == 'init' and any(isp(v) and ev.args[1][1][1] == v[1] for v in vals): op = ev.args[1]
                if vals and clo is not None: ob('the operation taken from the queue is the one started', op is not None or None, '')
                pk = [k for k, ev in pops]
                ob('an operation started leaves the pending ones', len(pops) == 1, 'the operation stays pending and would be started again' if not pops else 'more than one operation is taken off, only one started', y.evs[k0])
                if known.get('empty') is not False and tops: ob('an operation is taken only when one is pending', False, 'the queue may be empty here', tops[0][1])
                if tops and pops:
                    ob('the operation taken off is the one looked at', all(k < pops[0][0] for k, _ in tops[:1]), 'the operation is looked at after it was taken off', tops[0][1])
                    a, b = y.held[tops[0][0]], y.held[pops[0][0]]
                    ob('looking at and taking off are one step', bool(a & b), 'another thread can come in between', pops[0][1])
                    un = [ev for ev in y.evs[tops[0][0]:pops[0][0]] if ev.kind == 'call' and UNLOCKS.search(ev.model)]
                    if m.ops:
                        pu = [(k, ev) for k, ev in enumerate(y.evs) if ev.kind == 'call' and CONT.search(ev.model) and loc(r, ev.args[0]) == m.ops and short(ev).startswith(('push', 'emplace', 'insert'))]
                        ob('an operation started is among the running ones', len(pu) == 1, 'the operation is entered %d times among the running ones' % len(pu), y.evs[k0])
                        if len(pu) == 1: ob('an operation is among the running ones in the same step', bool(y.held[pu[0][0]] & b), 'between being taken off and being entered as running the operation is in neither list', pu[0][1])
            elif pops: ob('an operation taken off is started', False, 'the operation is taken off but not started', pops[0][1])
            if y.end == 'ret' and not started:
                if known.get('empty') is True or known.get('cancelled') is True: ob('the scheduler ends only when there is nothing to start', True, '')
                else: ob('the scheduler ends only when there is nothing to start', False if known.get('empty') is False else None, 'the scheduler ends although operations are pending')
            if started and known.get('cancelled') is not False and m.cancel: R.ob('no start after cancel', 'scheduler', None if und else False, y.evs[started[0]].loc(), 'an operation is started without a look at the cancel flag')
            elif started: R.ob('no start after cancel', 'scheduler', True)

def worker(R, m):
    for r in [r for r in m.roots.values() if r.ctx == 'W' and not r.name.startswith('op.')]:
        for y in r.paths:
            if y.end != 'ret': continue
            und = y.imp or y.odd
            def ob(s, ok, msg, ev=None): R.ob('worker', s, ok if ok else None if und else ok, r.where(ev), msg)
            ind = [(k, ev, slot(r, y, k)) for k, ev in enumerate(y.evs) if ev.kind == 'ind']
            st = [(k, ev) for k, ev, s in ind if s == 'start'] + [(k, ev) for k, ev in enumerate(y.evs) if ev.kind == 'call' and ev.model.endswith('Operation::start')]
            de = [(k, ev) for k, ev, s in ind if s == 'del']
            ob('an operation runs once', len(st) == 1, 'the operation is started %d times' % len(st), st[1][1] if len(st) > 1 else None)
            null = any(y.facts.decide(icmp('eq', ev.args[0], NULL)) for k, ev in st) if st else False
            if st:
                o = st[0][1].args[0]
                if not null:
                    ob('an operation is freed once', len(de) == 1, 'the operation is never freed' if not de else 'the operation is freed twice', de[1][1] if len(de) > 1 else None)
                if de:
                    ob('an operation is freed after it ran', all(k > st[0][0] for k, _ in de), 'the operation is freed before it ran', de[0][1])
                    later = [ev for ev in y.evs[de[0][0] + 1:] if ev.args and any(isp(a) and a[1] == o[1] and a[1][0] != 'alloca' for a in ev.args[:1]) and ev.kind in ('load', 'aload', 'store', 'astore', 'ind')]
                    ob('a freed operation is not used', not later, 'the operation is used after it was freed', later[0] if later else None)
                rm = [(k, ev) for k, ev in enumerate(y.evs) if ev.kind == 'call' and CONT.search(ev.model) and m.ops and loc(r, ev.args[0]) == m.ops and short(ev) in ('remove', 'erase', 'remove_if', 'pop_front', 'clear')]
                if m.ops:
                    ob('an operation that ended is no longer among the running ones', len(rm) >= 1, 'the operation stays among the running ones after it was freed', None)
                    if rm and de:
                        a, b = rm[0][0], de[0][0]
                        same = y.held[a] & y.held[b]
                        ob('no other thread sees a freed operation', a < b or bool(same), 'the operation is freed while it is among the running ones', de[0][1])
                    if rm: ob('an operation stays among the running ones while it runs', rm[0][0] > st[0][0], 'a running operation cannot be found by cancel', rm[0][1])
            for l in slotsof(m):
                d = delta(r, y, l)
                if d is not None: ob('an ended operation gives its slot back', d == 1, 'the worker gives back %d slots' % d)
                tk = [k for k, ev in enumerate(y.evs) if ev.kind == 'store' and loc(r, ev.args[0]) == l]
                if st and tk: ob('the slot is given back after the operation ended', tk[0] > st[0][0], 'more operations than slots can run', y.evs[tk[0]])

def adding(R, m):
    r = m.roots.get('add')
    if not r: return
    for y in r.paths:
        if y.end != 'ret': continue
        pu = [ev for ev in y.evs if ev.kind == 'call' and CONT.search(ev.model) and loc(r, ev.args[0]) == m.pending and short(ev).startswith(('push', 'emplace', 'insert'))]
        R.ob('add', 'an operation added becomes pending once', len(pu) == 1 if not y.imp else (len(pu) == 1 or None), r.where(), 'the operation is entered %d times' % len(pu))
        if m.flat['OP'] and any(loc(r, ev.args[0]) is None and ev.kind == 'store' and isp(ev.args[0]) and ev.args[0][1] == ('arg', 1) for ev in y.evs): R.ob('add', 'an operation added knows its queue', True)

def dropping(R, m):
    for n in ('cancel', '~OperationQueue'):
        r = m.roots.get(n)
        if not r or m.pending is None: continue
        emptied = False; drained = False
        for y in r.paths:
            if y.end == 'ret':
                known = None
                for ev in y.evs:
                    if ev.kind == 'call' and CONT.search(ev.model) and loc(r, ev.args[0]) == m.pending and ev.ret is not None and not isp(ev.ret):
                        if short(ev) == 'empty': known = truth(y.facts, ev.ret)
                        if short(ev) == 'size': known = y.facts.decide(icmp('eq', ev.ret, I(width(ev.ret), 0)))
                gone = [ev for ev in y.evs if ev.kind == 'call' and CONT.search(ev.model) and loc(r, ev.args[0]) == m.pending and short(ev) in ('clear', 'swap', 'operator=')]
                R.ob('drop', '%s: no operation stays behind' % n, True if known or gone else False if not y.imp and known is False or not any(ev.kind == 'loop' for ev in y.evs) and not y.imp and known is None else None, r.where(), 'pending operations are left behind without being freed')
            if y.end != 'back': continue
            ks = [k for k, h, _ in y.heads if h == y.x.head]
            if not ks: continue
            seg = range(ks[-1], len(y.evs))
            pops = [k for k in seg if y.evs[k].kind == 'call' and CONT.search(y.evs[k].model) and loc(r, y.evs[k].args[0]) == m.pending and short(y.evs[k]) in ('pop', 'pop_back', 'pop_front')]
            tops = [k for k in seg if y.evs[k].kind == 'call' and CONT.search(y.evs[k].model) and loc(r, y.evs[k].args[0]) == m.pending and short(y.evs[k]) in ('top', 'front', 'back')]
            de = [k for k in seg if y.evs[k].kind == 'ind' and slot(r, y, k) == 'del']
            if not pops and not de and not tops: continue
            und = y.imp
            null = any(y.facts.order(v.args[0] if False else ('p', ('init', y.evs[t].ret[1], y.evs[t].ret[2], 8), 0), NULL) == EQ for t in tops if isp(y.evs[t].ret) for v in (y.evs[t],))
            if not de and tops and pops:
                ld = [ev.ret for ev in y.evs[tops[0]:] if ev.kind == 'load' and ev.args[0] == y.evs[tops[0]].ret]
                null = null or any(isp(v) and y.facts.decide(icmp('eq', v, NULL)) is True for v in ld)
            def ob(s, ok, msg, k=None): R.ob('drop', '%s: %s' % (n, s), ok if ok else None if und else ok, y.evs[k].loc() if k is not None else r.where(), msg)
            if not null: ob('a dropped operation is freed once', len(de) == 1 or (len(de) == len(pops) and len(pops) > 0), 'an operation is taken off and not freed' if len(de) < max(1, len(pops)) else 'an operation is freed twice', (pops or de)[0])
            ob('a freed operation leaves the queue', len(pops) >= 1, 'a freed operation stays pending', (de or tops)[0])
            if tops and pops and de and tops[0] > pops[0]: ob('the operation freed is the one taken off', False, 'the operation is looked at after another one was taken off', tops[0])
            if pops and de:
                d = y.evs[de[0]].args[0]
                later = [ev for ev in y.evs[de[0] + 1:] if ev.args and isp(ev.args[0]) and ev.args[0][1] == d[1] and ev.kind in ('load', 'aload', 'store', 'astore', 'ind')]
                ob('a freed operation is not used', not later, 'the operation is used after it was freed', de[0])

def semaphore(R, m):
    w, n = m.roots.get('sem_wait'), m.roots.get('sem_notify')
    fl = flatten(m.p, SEM)
    for r, want in ((w, -1), (n, 1)):
        if not r: continue
        for y in r.paths:
            if y.end != 'ret': continue
            d = None; seen = False
            for k, ev in enumerate(y.evs):
                if ev.kind == 'store' and isp(ev.args[0]) and ev.args[0][1] == ('arg', 0):
                    seen = True; cur = None
                    for j in range(k - 1, -1, -1):
                        if y.evs[j].kind == 'load' and y.evs[j].args[0] == ev.args[0]: cur = y.evs[j].ret; break
                    if cur is None: continue
                    t = sub(ev.args[1], cur)
                    if isc(t): d = (d or 0) + sval(t)
                    if want == -1 and isc(t): R.ob('semaphore', 'a slot is taken only when one is free', y.facts.decide(icmp('eq', cur, I(width(cur), 0))) is False or (None if y.imp else False), ev.loc(), 'the count can be zero here')
                    R.ob('semaphore', 'the count is changed under the lock', bool(y.held[k]) or None if y.odd else bool(y.held[k]), ev.loc(), 'no lock is held')
            if not seen: d = 0
            if d is not None: R.ob('semaphore', '%s changes the count by %d' % (r.name, want), d == want or (None if y.imp else False), r.where(), 'it changes by %d' % d)

def starting(R, m):
    r = m.roots.get('op.start')
    if not r: return
    for y in r.paths:
        if y.end != 'ret': continue
        ex = [ev for k, ev in enumerate(y.evs) if ev.kind == 'ind' and slot(r, y, k) in ('pure', 'execute')]
        canc = None
        for ev in y.evs:
            if ev.kind == 'aload' and loc(r, ev.args[0]) in m.opcancel and ev.ret is not None: canc = truth(y.facts, ev.ret); break
        if len(ex) > 1: R.ob('start', 'an operation executes once', None if y.imp else False, ex[1].loc(), 'execute is called twice')
        elif not ex: R.ob('start', 'an operation that was not cancelled executes', canc is True or (None if y.imp or canc is None and len(r.paths) > 2 else False), r.where(), 'execute is not called')
        else: R.ob('start', 'an operation executes once', True)
    for i in {ev.inst for y in r.paths for k, ev in enumerate(y.evs) if ev.kind == 'ind' and slot(r, y, k) in ('pure', 'execute')}:
        if i.op == 'invoke':
            w = raised(r.f, i)
            R.ob('start', 'an exception in execute does not end the program', None if w is None else w == 'caught', i.loc(), 'an exception derived from std::exception is not caught')
        elif i.op == 'call':
            R.ob('start', 'an exception in execute does not end the program', False, i.loc(), 'exceptions are not caught')

def raised(f, i, types=('_ZTISt9exception',)):
    """where an exception of (a base in) types goes that leaves the invoke i: caught / terminate / escapes"""
    b = i.bb[1]; seen = set()
    lp = next((q for q in f.blocks[b] if q.op == 'landingpad'), None)
    while lp is None and b not in seen:
        seen.add(b); t = f.blocks[b][-1]
        if t.op != 'br' or len(t.bb) != 1: return None
        b = t.bb[0]; lp = next((q for q in f.blocks[b] if q.op == 'landingpad'), None)
    if lp is None: return None
    if any(t in (lp.cl or ()) for t in types): return 'caught'
    if 'all' in (lp.cl or ()):
        # catch (...) or the end of a noexcept function
        ty = {}
        for q in f.insts():
            if q.model and q.model.startswith('llvm.eh.typeid.for') and q.a and q.a[0][0] == 'g': ty[q.d] = q.a[0][1]
        cmps = {q.d: ty[a[1]] for q in f.insts() if q.op == 'icmp' for a in q.a if a[0] == 'v' and a[1] in ty}
        seen = set(); todo = [b]; term = False
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            for q in f.blocks[x]:
                if q.model in ('__clang_call_terminate', 'std::terminate'): term = True
                if q.model == '__cxa_begin_catch': return 'caught'
            t = f.blocks[x][-1]
            if t.op == 'br' and len(t.bb) == 2 and t.a and t.a[0][0] == 'v' and t.a[0][1] in cmps and cmps[t.a[0][1]] not in types: todo.append(t.bb[1])
            else: todo += list(t.bb or ())
        return 'terminate' if term else None
    return 'escapes'

# ------------------------------------------------------------------ C16
def cancelling(R):
    m = model(R)
    # who takes the cancel flag back
    for r in m.roots.values():
        for y in r.paths:
            if y.end not in ('ret', 'back'): continue
            for k, ev in enumerate(y.evs):
                if ev.kind in ('store', 'astore') and loc(r, ev.args[0]) in m.cancel | m.opcancel and (not isc(ev.args[1]) or ev.args[1][2] == 0):
                    if loc(r, ev.args[0]) in m.cancel: R.ob('cancel stays', r.name, r.name in ('reset', 'OperationQueue') or (None if not isc(ev.args[1]) else False), ev.loc(), 'the cancelled state is taken back without a reset')
                    elif r.name != 'op.~Operation': R.ob('cancel stays', r.name, None if not isc(ev.args[1]) else False, ev.loc(), 'a cancelled operation is no longer marked so')
    for n, fl in (('cancel', m.cancel), ('op.cancel', m.opcancel)):
        r = m.roots.get(n)
        if not r: continue
        R.ob('cancel', n + ' marks the cancellation', bool(fl), r.where(), 'nothing records that it was cancelled')
        for y in r.paths:
            if y.end not in ('ret', 'back') or not fl: continue
            st = [k for k, ev in enumerate(y.evs) if ev.kind in ('store', 'astore') and loc(r, ev.args[0]) in fl and isc(ev.args[1]) and ev.args[1][2] == 1]
            wt = [k for k, ev in enumerate(y.evs) if ev.kind == 'call' and ev.model.startswith('std::condition_variable') and short(ev).startswith('wait')]
            # checking what to wait for also counts: it may sleep from there
            R.ob('cancel', n + ' marks the cancellation on every path', bool(st) or (None if y.imp else False), r.where(), 'a path through %s does not mark it' % n)
            if wt and st: R.ob('cancel', n + ' marks the cancellation before it waits', st[0] < wt[0], y.evs[wt[0]].loc(), 'waits for an operation that was not yet told to stop')
    r = m.roots.get('cancel')
    if r:
        told = False; paused = False
        for y in r.paths:
            seg = None
            for k, ev in enumerate(y.evs):
                if ev.kind in ('astore', 'store') and loc(r, ev.args[0]) in m.opcancel: told = True
        R.ob('cancel', 'cancel tells the running operations', told, r.where(), 'operations are not marked cancelled')
        # every running operation: the loop over the running ones marks each
        for y in r.paths:
            if y.end != 'back' or not m.ops: continue
            ks = [k for k, h, _ in y.heads if h == y.x.head]
            if not ks: continue
            seg = y.evs[ks[-1]:]
            if any(ev.kind == 'call' and ev.model.startswith('std::condition_variable') for ev in seg): continue
            it = any(ev.kind == 'call' and re.search(r'_iterator::operator(\+\+|\*)$|operator!=$', ev.model) for ev in seg)
            if not it or any(ev.kind == 'call' and CONT.search(ev.model) and loc(r, ev.args[0]) == m.pending for ev in seg): continue
            R.ob('cancel', 'cancel tells every running operation', any(ev.kind in ('astore', 'store') and ev.args[1] == I(width(ev.args[1]), 1) and (loc(r, ev.args[0]) in m.opcancel or isp(ev.args[0]) and ev.args[0][2] in {l[1] for l in m.opcancel}) for ev in seg) or any(ev.kind == 'call' and ev.model.endswith('Operation::cancel') for ev in seg) or (None if y.imp else False), seg[0].loc(), 'a running operation is not told to stop')
        # whatever the state of the queue, the running operations are gone through
        for y in r.paths:
            if y.end != 'ret' or not m.ops: continue
            R.ob('cancel', 'cancel goes through the running operations on every path', any(ev.kind in ('call', 'load') and ev.args and isp(ev.args[0]) and loc(r, ev.args[0]) == m.ops for ev in y.evs) or (None if y.imp else False), r.where(), 'a path through cancel passes the running operations over')
        # all of them are told to stop before one of them is waited for
        def pauses(ev): return ev.kind == 'call' and ev.model.startswith('std::condition_variable') and short(ev).startswith('wait') or ev.kind in ('aload', 'load') and loc(r, ev.args[0]) and any(loc(r, ev.args[0]) in ls for cv, ls in m.pred.items() if any(w[3] == cv and w[0].name in ('op.cancel', 'cancel') for w in m.waits)) and loc(r, ev.args[0])[0] == 'OP'
        def tells(ev): return ev.kind in ('astore', 'store') and isc(ev.args[1]) and ev.args[1][2] == 1 and (loc(r, ev.args[0]) in m.opcancel or isp(ev.args[0]) and ev.args[0][2] in {l[1] for l in m.opcancel} and ev.args[0][1] != ('arg', 0))
        rounds = {}
        for y in r.paths:
            if y.end != 'back': continue
            ks = [k for k, h, _ in y.heads if h == y.x.head]
            if ks: rounds.setdefault(y.x.head, []).append((y, y.evs[ks[-1]:], ks[-1]))
        first = {h for h, l in rounds.items() if all(any(tells(ev) for ev in seg) and not any(pauses(ev) for ev in seg) for y, seg, k in l)}
        for h, l in rounds.items():
            for y, seg, k in l:
                a = next((j for j, ev in enumerate(seg) if tells(ev)), None)
                if a is None or not any(pauses(ev) for ev in seg[a:]): continue
                R.ob('cancel', 'cancel tells all running operations before it waits for one', any(g in first for j, g, _ in y.heads if j < k) or (None if y.imp else False), seg[a].loc(), 'an operation is told to stop only when the one before it has ended')
        # paused operations must wake up before anybody waits for them
        for cv, ls in m.pred.items():
            if not any(w[0].name == 'operationWait' and w[3] == cv for w in m.waits): continue
            for y in r.paths:
                if y.end not in ('ret', 'back'): continue
                wt = [k for k, ev in enumerate(y.evs) if ev.kind == 'call' and ev.model.startswith('std::condition_variable') and short(ev).startswith('wait') or ev.kind == 'aload' and loc(r, ev.args[0]) and any(loc(r, ev.args[0]) in p2 for c2, p2 in m.pred.items() if c2 != cv)]
                en = [k for l in ls for k, new in writes(m, r, y, l) if enabling(m, cv, l, y, new)]
                if y.end == 'ret' or wt: R.ob('cancel', 'cancel ends a pause before it waits', bool(en) and (not wt or min(en) < min(wt)) or (None if y.imp else False), r.where(), 'paused operations never come to their end')
    # nobody waits for an operation that never started or has ended
    w = m.roots.get('op.cancel'); s = m.roots.get('op.start')
    if w and s:
        for cv, ls in m.pred.items():
            if not any(x[0] is w and x[3] == cv for x in m.waits): continue
            for l in ls:
                R.ob('no waiting', 'an operation that never started', not sleeps(m, cv, l, 0) if initial(m, l) in (0, None) else not sleeps(m, cv, l, initial(m, l)), w.where(), 'cancel waits for the end of an operation that did not start')
                for y in s.paths:
                    if y.end != 'ret': continue
                    ws = list(writes(m, s, y, l))
                    if ws and isc(ws[-1][1]): R.ob('no waiting', 'an operation that ended', not sleeps(m, cv, l, ws[-1][1][2]) or (None if y.imp else False), y.evs[ws[-1][0]].loc(), 'cancel waits for an operation that has ended')
                    elif not ws: R.ob('no waiting', 'an operation that ended', True if initial(m, l) is None or not sleeps(m, cv, l, initial(m, l)) else False, s.where(), 'cancel waits for an operation that ended at once')
    # the queue: no operation starts after cancel
    lifecycle_start(R, m)
    # started operations look at their flag
    if s:
        for y in s.paths:
            ex = [k for k, ev in enumerate(y.evs) if ev.kind == 'ind' and slot(s, y, k) in ('pure', 'execute')]
            if not ex: continue
            look = [truth(y.facts, ev.ret) for ev in y.evs[:ex[0]] if ev.kind == 'aload' and loc(s, ev.args[0]) in m.opcancel and ev.ret is not None]
            R.ob('no start after cancel', 'a cancelled operation does not execute', False in look or (None if y.imp else False), y.evs[ex[0]].loc(), 'execute is called although the operation may have been cancelled')
            for ev in y.evs[:ex[0]]: pass

def lifecycle_start(R, m):
    for r in [r for r in m.roots.values() if r.ctx == 'S']:
        for y in r.paths:
            st = [k for k, ev in enumerate(y.evs) if ev.kind == 'call' and ev.model == 'std::thread::thread']
            if not st or not m.cancel: continue
            lk = [(k, truth(y.facts, ev.ret) if ev.ret is not None else None) for k, ev in enumerate(y.evs[:st[0]]) if ev.kind in ('aload', 'load') and loc(r, ev.args[0]) in m.cancel]
            ok = [k for k, v in lk if v is False]
            und = y.imp or y.odd
            R.ob('no start after cancel', 'no operation is started once the queue was cancelled', bool(ok) or (None if und else False), y.evs[st[0]].loc(), 'an operation is started without a look at the cancel flag')
            if ok:
                # between the look and the entry among the running operations cancel must not come in
                c = m.roots.get('cancel'); ch = None
                if c:
                    for z in c.paths:
                        for k, ev in enumerate(z.evs):
                            if ev.kind in ('astore', 'store') and loc(c, ev.args[0]) in m.cancel: ch = {loc(c, ('p',) + q) for q in z.held[k]}
                pu = [k for k, ev in enumerate(y.evs) if ev.kind == 'call' and CONT.search(ev.model) and m.ops and loc(r, ev.args[0]) == m.ops and short(ev).startswith(('push', 'emplace', 'insert'))]
                if pu and ch is not None:
                    a, b = ({loc(r, ('p',) + q) for q in y.held[k]} for k in (ok[-1], pu[0]))
                    un = [ev for ev in y.evs[ok[-1]:pu[0]] if ev.kind == 'call' and UNLOCKS.search(ev.model)]
                    R.ob('no start after cancel', 'looking at the cancel flag and entering the operation are one step', bool(a & b & ch) or (None if und else False), y.evs[ok[-1]].loc(), 'a cancel in between reaches neither the flag nor the operation')

def initial(m, l):
    """what the constructor stores at l"""
    return _init(m).get(l)
def _init(m):
    if not hasattr(m, 'init'):
        m.init = {}
        for n, c in (('OperationQueue', 'Q'),):
            r = m.roots.get(n)
            if r:
                for y in r.paths:
                    for ev in y.evs:
                        if ev.kind in ('store', 'astore') and isc(ev.args[1]) and loc(r, ev.args[0]): m.init[loc(r, ev.args[0])] = ev.args[1][2]
    return m.init

# ------------------------------------------------------------------ what runs in the queue
OPEN = re.compile(r'^std::(basic_)?[oi]?fstream::(open|basic_ofstream|ofstream|basic_fstream|fstream)$')
def flagged(y, isflag, lo, hi):
    """the looks at a flag among the events lo..hi: [(index, value)]"""
    return [(k, truth(y.facts, y.evs[k].ret)) for k in range(lo, hi) if isflag(y.evs[k])]

def guarded(R, e, paths, isflag, isact, rule, sub, msg, since=None, at=''):
    """every action is preceded by a look at the flag that found it clear: since the last round began, or since `since`"""
    ys = []
    for x in paths:
        y = X(); y.x = x; y.evs = x.events(); y.facts = x.facts; y.imp = any(q[0] != 'hull' for q in x.imp); ys.append(y)
    todo = {}   # head -> action without a look in its round
    n = 0
    for y in ys:
        if y.x.end not in ('ret', 'back'): continue
        for k, ev in enumerate(y.evs):
            if not isact(ev): continue
            n += 1
            lk = flagged(y, isflag, 0, k)
            if lk and lk[-1][1] is True: R.ob(rule, sub, None if y.imp else False, ev.loc(), msg + ' after the flag was found set'); continue
            hs = [j for j in range(k) if y.evs[j].kind == 'loop' and (since is None or since(y.evs[j].args[0][2]))]
            inside = [j for j in hs if since is not None or ev_in(e, y.evs[j].args[0][2], ev)]
            if not inside:
                if since is None: continue
                inside = hs
            if not inside: continue
            j = inside[-1]
            if any(v is False for q, v in lk if q > j): R.ob(rule, sub, True); continue
            if lk and any(q > j and v is None for q, v in lk): R.ob(rule, sub, None, ev.loc(), 'what the look at the flag found is not known'); continue
            todo.setdefault(y.evs[j].args[0][2], []).append((y, k))
    for h, acts in todo.items():
        back = [y for y in ys if y.x.end == 'back' and y.x.head == h]
        ok = since is None and bool(back)
        for y in back:
            ks = [k for k, ev in enumerate(y.evs) if isact(ev)]; last = ks[-1] if ks else max(j for j, ev in enumerate(y.evs) if ev.kind == 'loop' and ev.args[0][2] == h)
            vs = [v for q, v in flagged(y, isflag, last, len(y.evs))]
            if False not in vs: ok = None if ok is not False and vs and y.imp else False
        y, k = acts[0]
        looked = any(isflag(ev) and ev_in(e, h, ev) for z in ys for ev in z.evs)
        R.ob(rule, sub, ok if ok is not False else None if looked and all(z.imp for z, _ in acts) else False, y.evs[k].loc(), msg + ' without a look at the flag')
    return n

def lastlook(isflag):
    """states in which the last look at the flag found different things are kept apart"""
    def part(st):
        t = st.trace
        while t:
            if isflag(t[1]): return truth(st.facts, t[1].ret)
            t = t[0]
    return part

def ev_in(e, h, ev):
    b = ev.inst.block
    return b in e.loop[h]

def converting(R):
    import g_convert
    p = program(g_convert.T); f = p.one('ConvertOperation::execute'); fl = g_convert.cancel_flags(p)
    R.saw('functions', f.dem)
    flag = lambda ev: ev.kind in ('aload', 'load') and isp(ev.args[0]) and ev.args[0][1] == ('arg', 0) and ev.args[0][2] in fl
    def kp(ev): return flag(ev) if ev.kind in ('aload', 'load') else ev.kind == 'call' and (ev.model == 'std::getline' or bool(OPEN.search(ev.model)))
    e = Engine(f, keep=kp, max_states=160000, models={m: waits for m in WAIT}, exact=True); e.quiet = waitloops(e); e.cut = outermost(e); e.partition = lastlook(flag)
    try: ps = e.run()
    except TooBig as t: R.ob('polling', f.model, None, T, str(t)); return
    H = {h for h, b in e.loop.items() if any(i.model == 'std::getline' for k in b for i in e.f.blocks[k])}
    H = {h for h in H if not any(g != h and g in e.loop[h] for g in H)}
    n = guarded(R, e, ps, flag, lambda ev: ev.kind == 'call' and OPEN.search(ev.model) and ev.args and isp(ev.args[0]), 'polling', 'ConvertOperation::execute: no output file after a cancel', 'an output file is started', since=lambda h: h in H)
    if not n: R.ob('polling', 'ConvertOperation::execute', None, f.rel, 'no output file is opened')

WAIT = ('std::condition_variable::wait', 'std::condition_variable::wait_for')
def waits(s, i, st, args, m): s.blind.add(args[0][1]); return 'default'
def outermost(e): return {h for h in e.heads if not any(h in b for g, b in e.loop.items() if g != h)}
def waitloops(e):
    return {h for h, b in e.loop.items() if any(i.op in ('call', 'invoke') and getattr(i, 'model', None) in WAIT for k in b if not any(g != h and k in c and g in b for g, c in e.loop.items()) for i in e.f.blocks[k])}

def merging(R):
    import g_convert
    p = program('pwned-merger-cli'); f = p.one('merger::MergeOperation::execute'); fl = g_convert.cancel_flags(p)
    R.saw('functions', f.dem)
    flag = lambda ev: ev.kind in ('aload', 'load') and isp(ev.args[0]) and ev.args[0][1] == ('arg', 0) and ev.args[0][2] in fl
    def kp(ev): return flag(ev) if ev.kind in ('aload', 'load') else ev.kind == 'call' and ev.model in ('std::ostream::write', 'std::basic_ostream::write')
    e = Engine(f, keep=kp, max_states=60000, width=64, models={m: waits for m in WAIT}, exact=True); e.quiet = waitloops(e); e.cut = outermost(e); e.partition = lastlook(flag)
    try: ps = e.run()
    except TooBig as t: R.ob('polling', f.model, None, T, str(t)); return
    n = guarded(R, e, ps, flag, lambda ev: ev.kind == 'call', 'polling', 'MergeOperation::execute: no record after a cancel', 'a record is written')
    if not n: R.ob('polling', 'MergeOperation::execute', None, f.rel, 'no record is written')

def merge_steps(R):
    m = model(R); off = {l[1] for l in m.cancel}
    p = program('pwned-merger-cli'); f = p.one('main')
    R.saw('functions', 'pwned-merger: main')
    flag = lambda ev: ev.kind == 'aload' and isp(ev.args[0]) and isinstance(ev.args[0][1], tuple) and ev.args[0][1][0] == 'alloca' and ev.args[0][2] in off
    qs = set()
    def kp(ev):
        if ev.kind == 'aload': return flag(ev)
        if ev.kind == 'astore': return isc(ev.args[1]) and ev.args[1][2] == 0 and isp(ev.args[0]) and isinstance(ev.args[0][1], tuple) and ev.args[0][1][0] == 'alloca' and ev.args[0][2] in off
        return ev.kind == 'call' and (ev.model == 'std::thread::join' or ev.model.startswith('std::priority_queue::push'))
    e = Engine(f, keep=kp, max_states=60000, width=32, exact=True, models={m: waits for m in WAIT}); e.quiet = waitloops(e)
    H = {h for h, b in e.loop.items() if any((i.model or '').startswith('std::priority_queue::push') for k in b for i in e.f.blocks[k])}
    e.cut = {h for h in e.heads if not any(h in b for g, b in e.loop.items() if g != h)}; e.partition = lastlook(flag)
    try: ps = e.run()
    except TooBig as t: R.ob('polling', 'pwned-merger: main', None, T, str(t)); return
    n = guarded(R, e, ps, flag, lambda ev: ev.kind == 'call' and ev.model.startswith('std::priority_queue::push') and isp(ev.args[0]) and isinstance(ev.args[0][1], tuple) and ev.args[0][1][0] == 'alloca', 'polling', 'pwned-merger: no further step after a cancel', 'the next step is started')
    if not n: R.ob('polling', 'pwned-merger: main', None, f.rel, 'no step was recognised')
    # the flag is not taken back between a step and the look that decides about the next one
    for x in ps:
        evs = x.events()
        for k, ev in enumerate(evs):
            if ev.kind != 'astore': continue
            pu = [j for j in range(k) if evs[j].kind == 'call' and evs[j].model.startswith('std::priority_queue::push')]
            if not pu or any(flag(v) for v in evs[pu[-1]:k]): continue
            R.ob('cancel stays', 'pwned-merger: main', None if any(q[0] != 'hull' for q in x.imp) else False, ev.inst.loc(), 'the cancelled state is taken back after a step before anyone looked at it')
    for t in ('pwned-merger-cli', 'pwned-converter-cli'):
        p = program(t)
        for g in p.funcs.values():
            if not g.proj or not re.search(r'(^|\s)main(\(.*?\))?::.*operator\(\)', g.dem): continue
            e = Engine(g, keep=lambda ev: ev.kind == 'astore' and isp(ev.args[0]) and ev.args[0][2] in off and isc(ev.args[1]) and ev.args[1][2] == 0, models={m: waits for m in WAIT}, max_states=60000)
            try: bad = [ev.inst.loc() for x in e.run() for ev in x.events() if ev.kind == 'astore']
            except TooBig as q: R.ob('cancel stays', t + ': threads started by main', None, '%s:%s' % (g.rel, g.line), str(q)); continue
            R.ob('cancel stays', t + ': threads started by main', not bad, bad[0] if bad else '%s:%s' % (g.rel, g.line), 'the thread that reads the keys takes the cancelled state back: the main thread goes on with the next step')
