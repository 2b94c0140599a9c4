"""Files and streams of the tools: failing opens, failing reads, files that are destroyed."""
import re
import build
from ir import program
import absint
from absint import *
from report import where, AnalysisBroken
from g_reader import length_env

SKIP = re.compile(r'^test_')
def tools(): return [t for t in build.targets() if not SKIP.match(t)]

READ = re.compile(r'^std::(getline|operator>>)$|^std::(basic_)?istream::(read|get|getline|peek|ignore|readsome|operator>>)$|^(getchar|fgetc|getc|fgets|getline|fread|fscanf|scanf|getchar_unlocked)$')
QUEUE = re.compile(r'^std::(priority_queue|queue|stack|vector|list|deque|map|unordered_map|set|unordered_set)::(push|pop|emplace|insert|erase|clear|push_back|pop_back|push_front|pop_front|emplace_back|emplace_front|resize|swap|assign|operator=|operator\[\])$')
CREAD = re.compile(r'^[a-z_]+$')
IOS = re.compile(r'^std::basic_ios::(clear|setstate|eof|fail|bad|good|operator bool|operator!|rdstate|exceptions)$|^std::(basic_)?[io]f?stream::|^std::basic_[io]?fstream::|^std::(ws|getline|operator>>)$')
STRM = re.compile(r'basic_string::|basic_regex|regex_(match|search|replace)|^std::(remove|find|all_of|any_of|none_of|count)$|^is(x?digit|alpha|alnum|space|lower|upper)$|^to(lower|upper)$|^std::operator(==|!=|<|>)$|sub_match|match_results')
def short(ev): return ev.model.rsplit('::', 1)[-1]

# ---------------------------------------------------------------- C13: loops on streams that do not deliver any more
STEADY = {'a stream that was never opened': (0, 1, 0), 'a stream at its end': (1, 1, 0), 'a stream with a read error': (0, 1, 1)}

_seen = {}
def reading_functions():
    """every function of the tools with a loop that reads from a stream: [(program, function, target)]"""
    if 'x' in _seen: return _seen['x']
    out = []; have = set()
    for t in tools():
        p = program(t)
        for f in p.funcs.values():
            if not f.proj: continue
            key = (f.dem, f.rel, f.line)
            if key in have: continue
            if not any(i.model and READ.search(i.model) for i in f.calls()): continue
            e = Engine(f)
            if not any(i.op in ('call', 'invoke') and i.model and READ.search(i.model) for b in e.loop.values() for k in b for i in e.f.blocks[k]): continue
            if f.model != 'main': have.add(key)
            out.append((p, f, t))
    _seen['x'] = out
    return out

def KEEP(ev): return ev.kind == 'loop' or ev.kind == 'call' and bool(READ.search(ev.model) or IOS.search(ev.model) or QUEUE.search(ev.model) or ev.model == 'std::basic_ifstream::is_open' or re.search(r'basic_string::(basic_string|clear|operator\+?=|assign|erase|append|push_back|resize|replace|insert|swap)$', ev.model))

def stream_of(e, ev):
    if ev.model == 'std::getline' or ev.model.startswith('std::'): return e.ident(ev.args[0]) if ev.args and isp(ev.args[0]) else None
    return ('stdio', 'stdin') if not any(isp(a) for a in ev.args) else ('stdio', str(ev.args[-1]))

def loops(R):
    n = 0
    for p, f, t in reading_functions():
        R.saw('functions', '%s: %s' % (t, f.dem[:100]))
        r = None
        for kw in (dict(exact=True, max_states=8000), dict(max_states=24000), dict(max_states=60000, cut=True)):
            cut = kw.pop('cut', False)
            e = Engine(f, keep=KEEP, width=4, **kw)
            e.record = True
            if cut: e.cut = {h for h in e.heads if not any(h in b for g, b in e.loop.items() if g != h)}
            try: r = e.run(); break
            except TooBig as x: why = str(x)
        if r is None: R.ob('loops', f.model, None, where(f), why); continue
        R.saw('paths', *('%s/%s:%d' % (t, f.model, k) for k in range(len(r))))
        heads = {}
        for x in r:
            if x.end != 'back': continue
            evs = x.events(); ks = [k for k, ev in enumerate(evs) if ev.kind == 'loop' and ev.args[0][2] == x.head]
            if not ks: continue
            seg = evs[ks[-1]:]
            for s in ({stream_of(e, ev) for ev in seg if ev.kind == 'call' and READ.search(ev.model)} | asked(e, x)) - {None}:
                heads.setdefault((x.head, s), []).append((x, seg, evs[:ks[-1]]))
        for (h, s), l in sorted(heads.items(), key=str):
            at = next((ev for x, seg, _ in l for ev in seg if ev.kind == 'call' and READ.search(ev.model) and stream_of(e, ev) == s), None)
            if at is None: continue
            n += 1
            for name, fl in STEADY.items():
                bad = None
                for x, seg, before in l:
                    b = keeps_on(e, x, h, s, seg, before, fl)
                    if b is True: bad = (x, seg); break
                    if b is None: bad = bad or ()
                if bad == () and fl != (0, 1, 0):
                    bad = closer(f, h, {id(ev.inst) for x, seg, _ in l for ev in seg if ev.kind == 'call' and READ.search(ev.model) and stream_of(e, ev) == s}, fl)
                ok = None if bad == () else bad is None
                R.ob('loops', '%s: the loop that reads a stream ends on %s' % (f.model, name), ok, at.loc(), '' if ok else 'the loop repeats without reading anything and without a way out' if bad else 'not settled')
    if not n: raise AnalysisBroken('no loop that reads a stream was found')

_closer = {}
def closer(f, h, insts, fl):
    """one loop alone, with every path through a round kept apart: None (ends), a path that repeats for ever, or () (not settled)"""
    k = (f.prog.target, f.name, h)
    if k not in _closer:
        e = Engine(f, keep=KEEP, width=64, max_states=20000)
        e.record = True; e.cut = {g for g in e.heads if (h in e.loop[g] or g not in e.loop[h]) and not any(g in c and k != g for k, c in e.loop.items())}; e.exact = set(e.loop[h])
        try: _closer[k] = (e, e.run())
        except TooBig: _closer[k] = None
    if _closer[k] is None: return ()
    e, r = _closer[k]; res = None; n = 0
    streams = {stream_of(e, ev) for x in r if x.end == 'back' and x.head == h for ev in x.events() if ev.kind == 'call' and id(ev.inst) in insts}
    for x in r:
        if x.end != 'back' or x.head != h: continue
        seg = x.events()
        for t in {stream_of(e, ev) for ev in seg if ev.kind == 'call' and id(ev.inst) in insts} | (asked(e, x) & streams):
            n += 1
            b = keeps_on(e, x, h, t, seg, [], fl)
            if b is True: return (x, seg)
            if b is None: res = ()
    if not n: return ()
    return res

def steady(seg, e, s, fl):
    """flags after each read of a round that starts with fl: ([(event, flags)], flags at the end) or None"""
    cur = fl; out = []
    for ev in seg:
        if ev.kind != 'call': continue
        m = ev.model
        if READ.search(m):
            if stream_of(e, ev) != s: continue
            if cur == (0, 0, 0): cur = (0, 1, 1) if fl[2] else (1, 1, 0)
            else: cur = (cur[0], 1, cur[2])
            out.append((ev, cur))
        elif ev.args and isp(ev.args[0]) and e.ident(ev.args[0]) == s:
            n = short(ev)
            if n == 'clear':
                if len(ev.args) > 1 and not (isc(ev.args[1]) and ev.args[1][2] == 0): return None
                cur = (0, 0, 0)
            elif n in ('open', 'close', 'setstate', 'swap', 'operator=', 'rdbuf', 'exceptions', 'basic_ifstream', '~basic_ifstream', 'seekg', 'unget', 'putback', 'sync'):
                if n == 'seekg' and cur[1]: cur = (0, 1, cur[2])
                else: return None
    return out, cur

def keeps_on(e, x, h, s, seg, before, fl):
    """can round x of loop h repeat for ever while stream s is in state fl?  True / False / None"""
    start = fl
    for _ in range(3):
        q = steady(seg, e, s, start)
        if q is None: return False
        if q[1] == start: break
        start = q[1]
    else: return None
    reads, _ = q
    if fl[1] and not fl[0] and not fl[2]:
        # the file is known to be open
        for ev in before + seg:
            if ev.kind == 'call' and ev.model.endswith('fstream::is_open') and ev.ret is not None and e.ident(ev.args[0]) == s and truth(x.facts, ev.ret) is True: return False
        if s[0] == ('glob', '_ZSt3cin') or s[0] == 'stdio': return False
    env = {}
    rids = {}
    for k, d in enumerate(e.defs):
        if d[0] in ('read', 'getline', 'io', 'seek') and len(d) > 1: rids.setdefault(d[1], []).append(k)
    names = ('ioeof', 'iofail', 'iobad')
    for ev, g in reads:
        for k in rids.get(id(ev.inst), []):
            for nm, v in zip(names, g):
                for kk in (k, ('fn', k)): env[S(1, (nm, kk))] = v
            env[S(64, ('gcount', k))] = 0
        if ev.ret is not None and not isp(ev.ret) and isc(ev.ret) is False: env[ev.ret] = (1 << width(ev.ret)) - 1
    # texts: unchanged, or empty if the string is new (or was emptied) in this round
    free = set(); changed = False
    for ev, g in reads:
        if ev.model not in ('std::getline', 'std::operator>>') or len(ev.args) < 2 or not isp(ev.args[1]): continue
        ln = e.ident(ev.args[1]); fresh = g == (1, 1, 0) and start == (0, 0, 0)
        for o in seg[:seg.index(ev)]:
            if o.kind == 'call' and 'basic_string::' in o.model and o.args and e.ident(o.args[0]) == ln:
                if short(o) in ('basic_string', 'clear'): fresh = True
                elif short(o) in ('operator=', 'assign', 'erase', 'append', 'operator+=', 'push_back', 'resize', 'replace', 'insert', 'swap'): fresh = False; changed = True
        for j, d in enumerate(e.defs):
            if d[0] == 'line' and len(d) > 1 and d[1] in rids.get(id(ev.inst), ()) or d[0] == 'st' and len(d) > 2 and d[2] == 1 and e.defs[d[1]][0] == ev.model and e.defs[d[1]][-1] == id(ev.inst):
                if fresh: env.update(length_env(e, S(64, ('fn', j)), 0))
                else: free.add(j)
    # the flags at the heads of this loop and the ones inside
    for t in flagsyms(x.facts):
        nm = t[2]
        if nm[0] == 'lc' and len(nm) == 5 and isinstance(nm[3], tuple) and nm[3][0] == 'io' and (nm[2], nm[3][1]) == s and (nm[1] == h or nm[1] in e.loop[h]):
            env[t] = start[('eof', 'fail', 'bad').index(nm[4])]
    if not x.facts.consistent(env): return False
    hull = any(m[0] != 'hull' for m in x.imp) or any(m[0] == 'hull' and m[1] in e.loop[h] for m in x.imp)
    # another way out of the loop that is reached one day
    for br, c, v, q in e.exits(h):
        k = progress(e, c, h, s, set(), x, seg)
        if k: return False
    if hull: return None
    if free and depends(e, x, free):
        # a text that stays as it is
        if changed: return None
        for j in free: env.update(length_env(e, S(64, ('fn', j)), 5))
        if not x.facts.consistent(env): return False
        if any(evalterm(q, env) is None for t in list(x.facts.known) + list(x.facts.rng) for q in symbols(t) if mentions(e, q, free, set())): return None
    return True

def asked(e, x):
    """streams whose state a round looks at on entry"""
    return {(t[2][2], t[2][3][1]) for t in flagsyms(x.facts) if t[2][0] == 'lc' and t[2][1] == x.head and len(t[2]) == 5 and isinstance(t[2][3], tuple) and t[2][3][0] == 'io'}

def truth(f, t):
    if width(t) == 1: return f.decide(t)
    return f.decide(icmp('ne', t, I(width(t), 0)))

def flagsyms(f):
    out = set()
    for t in list(f.known) + list(f.rng): out |= {q for q in symbols(t) if q[1] == 1 and isinstance(q[2], tuple)}
    return out

def depends(e, x, free):
    if not free: return False
    for t in list(x.facts.known) + list(x.facts.rng):
        for q in symbols(t):
            if mentions(e, q, free, set()): return True
    return False
def mentions(e, t, js, seen):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'fn' and isinstance(t[1], int):
            if t[1] in js: return True
            if t[1] in seen: return False
            seen.add(t[1]); return mentions(e, e.defs[t[1]], js, seen)
        return any(mentions(e, q, js, seen) for q in t)
    return False

CONT = re.compile(r'^std::(priority_queue|queue|stack|vector|list|deque|map|unordered_map|set|unordered_set)::(empty|size)$')
def progress(e, t, h, s, seen, x, seg):
    """can a condition change from round to round although stream s delivers nothing?"""
    if not isinstance(t, tuple) or not t: return False
    if t[0] == 'iter' and t[1] == h: return True
    if t[0] in ('phi', 'lc') and len(t) > 2:
        if t[1] != h: return t[1] in e.loop[h] and not (t[0] == 'lc' and isinstance(t[3], tuple) and t[3][0] == 'io')
        if t[0] == 'lc' and (isinstance(t[3], tuple) and t[3][0] in ('io', 'st', 'gc') and (t[2], t[3][1]) == s): return False
        return True
    if t[0] in ('lver',): return True
    if t[0] == 'fn' and len(t) == 2 and isinstance(t[1], int):
        if t[1] in seen: return False
        seen.add(t[1]); d = e.defs[t[1]]
        if isinstance(d[0], str) and CONT.search(d[0]) and len(d) > 1 and isinstance(d[1], tuple) and len(d[1]) == 1:
            # the size of a container: what this round does to it
            n = grown(e, h, seg, d[1][0])
            if n is not None: return n != 0
        if d[0] in ('aload', 'read', 'getline', 'line', 'io', 'seek', 'rd'): return False
        if isinstance(d[0], str) and not (STRM.search(d[0]) or IOS.search(d[0]) or READ.search(d[0])) and d[0] not in ('val', 'st', 'nochr', 'ver', 'out', 'sret'):
            return True
        return any(progress(e, q, h, s, seen, x, seg) for q in d[1:])
    return any(progress(e, q, h, s, seen, x, seg) for q in t)

def grown(e, h, seg, c):
    """how much longer the container with content c is after a round, None if that is not known"""
    def cell(t):
        if isinstance(t, tuple):
            if t[0] == 'lc' and len(t) > 3 and isinstance(t[3], tuple) and t[3][0] == 'st': return (t[2], t[3][1]) if t[1] in e.loop[h] else ()
            if t[0] == 'st0': return ()
            for q in t:
                r = cell(q)
                if r is not None: return r
            if len(t) == 2 and t[0] == 'fn' and isinstance(t[1], int) and e.defs[t[1]][0] == 'st': return cell(e.defs[e.defs[t[1]][1]])
        return None
    w = cell(c)
    if w is None: return None
    if w == (): return 0     # looked at before the loop
    n = 0
    for ev in seg:
        if ev.kind == 'call' and QUEUE.search(ev.model) and ev.args and isp(ev.args[0]) and e.ident(ev.args[0]) == w:
            k = short(ev)
            if k in ('push', 'push_back', 'push_front', 'emplace_back', 'emplace_front'): n += 1
            elif k in ('pop', 'pop_back', 'pop_front'): n -= 1
            else: return None
    return n

# ---------------------------------------------------------------- C12: files that cannot be opened
FS = re.compile(r'^std::basic_[io]?fstream::(basic_[io]?fstream|open)$')
OUTFS = re.compile(r'^std::basic_o?fstream::')
USE = re.compile(r'^std::(getline|operator>>)$|^std::(basic_)?[io]stream::(read|get|getline|peek|ignore|readsome|operator>>|seekg|tellg|seekp|tellp|write|put|operator<<)$|^f(read|write|gets|puts|printf|getc)$')
TEST = {'is_open': True, 'operator bool': True, 'good': True, 'operator!': False, 'fail': False}
TESTRX = re.compile(r'^std::basic_([io]?fstream::is_open|ios::(operator bool|good|operator!|fail))$')
STD = re.compile(r'^(perror|fprintf|fputs|fwrite|dprintf|syslog)$')
ERR = ('_ZSt4cerr', '_ZSt4clog', 'stderr')
FLAG = re.compile(r'basic_string::(operator=|assign|basic_string|append|operator\+=|push_back|empty|size|length)$|^std::vector::(push_back|emplace_back|empty|size)$')

def opens_by_name(ev):
    if ev.kind != 'call': return False
    if ev.model == 'fopen': return True
    return bool(FS.search(ev.model)) and len(ev.args) >= 2 and isp(ev.args[1])

def keep_files(ev):
    if ev.kind == 'loop': return True
    if ev.kind == 'store': return isp(ev.args[0]) and ev.args[0][1] is not None and ev.args[0][1][0] not in ('alloca', 'glob') and isc(ev.args[1]) and width(ev.args[1]) in (1, 8, 32)
    if ev.kind != 'call': return False
    m = ev.model
    if FS.search(m) or TESTRX.search(m) or USE.search(m) and not (isp(ev.args[0]) and ev.args[0][1] and ev.args[0][1][0] == 'glob') or m == 'fopen': return True
    if FLAG.search(m): return True
    return to_err(ev)
def to_err(ev):
    return ev.kind == 'call' and (m_err(ev.model) or STD.search(ev.model or '')) and any(isp(a) and a[1] and (a[1][0] == 'glob' and a[1][1] in ERR or a[1][0] == 'init' and a[1][1] == ('glob', 'stderr')) for a in ev.args) or ev.kind == 'call' and ev.model == 'perror'
def m_err(m): return 'operator<<' in m or m.endswith('::write') or m.endswith('::put')

def name_of(e, ev):
    c = ev.info[1] if ev.info and len(ev.info) > 1 else None
    if c and c[0] == 'c' and c[1] and c[1][0] == 'lit': return c[1][1]
    return e.obj_lit(ev.args[0 if ev.model == 'fopen' else 1])

def sid(e, ev):
    if ev.model == 'fopen': return ('FILE', ev.ret)
    return e.ident(ev.args[0])

# The question is decided by assuming the answer: the file cannot be opened.  One run per place that opens
# a file and per function that place is inlined into; on that run the stream is closed, every read from it
# fails, and the paths that go on without saying so are what is reported.
G = ('ghost',)
def ghost(st, k): 
    c = st.mem.get(G, {}).get((k,)); return None if c is None else c[1]
def setghost(st, k, v):
    m = dict(st.mem.get(G, {})); m[(k,)] = (None, v); st.mem[G] = m
def closed(e, st, p):
    k = e.ident(p)
    return k is not None and ghost(st, ('closed',) + k) == TRUE

class Dead(Engine):
    """the file opened at instruction `site` (or held in the stream `held` on entry) cannot be opened"""
    def __init__(s, f, site=None, held=None, late=False, **kw):
        s.saidin = {}; s.late = late; s.site = site; s.held = held; s.lost = False; s.touched = False
        Engine.__init__(s, f, models=dict(OVER), init=Dead.enter if held else None, **kw)
    def _head(s, h, st):
        s.saidin.setdefault(h, set()).add(ghost(st, 'said')); return Engine._head(s, h, st)
    def quiet_on(s, r, v, seen=()):
        """can v, what is known about messages at some place, be `none so far`?  A loop has to have a round without one."""
        if v == FALSE: return True
        if not (isinstance(v, tuple) and v[0] == 's' and isinstance(v[2], tuple) and v[2][0] == 'lc' and v[2][2] == G and v[2][3] == ('said',)): return False
        h = v[2][1]
        if h in seen: return False
        return any(x.end == 'back' and x.head == h and s.same(r, ghost_of(x, 'said'), v) for x in r) and any(s.quiet_on(r, w, seen + (h,)) for w in s.saidin.get(h, ()) if w is not None)
    def same(s, r, w, v, n=0):
        if w == v: return True
        if n > 4 or not (isinstance(w, tuple) and w[0] == 's' and isinstance(w[2], tuple) and w[2][0] == 'lc' and w[2][2] == G and w[2][3] == ('said',)): return False
        h = w[2][1]
        return any(x.end == 'back' and x.head == h and ghost_of(x, 'said') == w for x in r) and any(s.same(r, q, v, n + 1) for q in s.saidin.get(h, ()) if q is not None)
    def enter(s, st):
        setghost(st, ('closed',) + s.held, TRUE); setghost(st, 'failed', TRUE); setghost(st, 'said', FALSE); setghost(st, 'touched', FALSE)
    def tr(s, st, ev):
        if ghost(st, 'failed') == TRUE and to_err(ev): setghost(st, 'said', TRUE)
        if s.late and ghost(st, 'failed') != TRUE and ev.kind != 'loop': return
        Engine.tr(s, st, ev)

class After(Engine):
    """what happens after the file was opened at instruction `site`"""
    def __init__(s, f, site, **kw):
        s.site = site; Engine.__init__(s, f, **kw)
    def tr(s, st, ev):
        if ev.inst is not None and id(ev.inst) == s.site: setghost(st, 'seen', TRUE)
        elif ghost(st, 'seen') != TRUE and ev.kind != 'loop': return
        Engine.tr(s, st, ev)

def over(fn):
    def g(s, i, st, args, m):
        if not args or not isp(args[0]) or not closed(s, st, args[0]): return default(s, i, st, args, m)
        if ghost(st, 'touched') != TRUE: st.imp = frozenset(q for q in st.imp if q[0] != 'join')
        s.touched = True; setghost(st, 'touched', TRUE)
        return fn(s, i, st, args, m)
    return g
def default(s, i, st, args, m):
    h = absint.MODELS.get(m)
    return h(s, i, st, args, m) if h else 'default'
def o_open(s, i, st, args, m):
    if s.site is None or id(i) != s.site: return default(s, i, st, args, m)
    if m == 'fopen':
        st.env[i.d] = NULL
    else:
        if len(args) < 2 or not isp(args[1]): return default(s, i, st, args, m)
        r = s.generic(i, st, args, m)
        setghost(st, ('closed',) + s.ident(args[0]), TRUE)
    setghost(st, 'failed', TRUE); setghost(st, 'said', FALSE); setghost(st, 'touched', FALSE); setghost(st, 'gone', FALSE)
    st.imp = frozenset(q for q in st.imp if q[0] != 'join')     # what was known before says nothing about this file
    if m == 'fopen': s.tr(st, Ev('call', i, m, args, NULL))
    return None
def const(v):
    def f(s, i, st, args, m):
        st.env[i.d] = v; s.tr(st, Ev('call', i, m, args, v)); return None
    return f
def o_eof(s, i, st, args, m):
    st.env[i.d] = FALSE if ghost(st, ('cleared',) + s.ident(args[0])) is None else s.fn(1, 'eof', id(i), args)
    return None
def o_clear(s, i, st, args, m): setghost(st, ('cleared',) + s.ident(args[0]), TRUE); return None
def o_read(s, i, st, args, m):
    k = s.ident(args[0]); mm = dict(st.mem.get(k[0], {})); mm[('gc', k[1])] = (None, I(64, 0)); st.mem[k[0]] = mm
    if i.d is not None: st.env[i.d] = args[0]
    s.tr(st, Ev('call', i, m, args, None)); return None
def o_getline(s, i, st, args, m):
    s.setobj(st, args[1], s.fn(64, 'noline', id(i)))
    if i.d is not None: st.env[i.d] = args[0]
    s.tr(st, Ev('call', i, m, args, None)); return None
def o_self(s, i, st, args, m):
    if i.d is not None: st.env[i.d] = args[0]
    s.tr(st, Ev('call', i, m, args, None)); return None
def o_gone(s, i, st, args, m):
    setghost(st, 'gone', TRUE); return default(s, i, st, args, m)
def o_lost(s, i, st, args, m):
    s.lost = True; return default(s, i, st, args, m)
OVER = {}
for _n in ('ifstream', 'ofstream', 'fstream'):
    OVER['std::basic_%s::basic_%s' % (_n, _n)] = o_open; OVER['std::basic_%s::open' % _n] = o_open
    OVER['std::basic_%s::~basic_%s' % (_n, _n)] = over(o_gone)
    OVER['std::basic_%s::is_open' % _n] = over(const(FALSE))
    for _m in ('swap', 'operator='): OVER['std::basic_%s::%s' % (_n, _m)] = over(o_lost)
OVER['fopen'] = o_open
for _m, _v in (('fail', TRUE), ('good', FALSE), ('operator bool', FALSE), ('operator!', TRUE)): OVER['std::basic_ios::' + _m] = over(const(_v))
OVER['std::basic_ios::bad'] = over(const(FALSE)); OVER['std::basic_ios::eof'] = over(o_eof); OVER['std::basic_ios::clear'] = over(o_clear)
for _m in ('exceptions', 'rdbuf', 'setstate'): OVER['std::basic_ios::' + _m] = over(o_lost)
OVER['std::istream::read'] = over(o_read); OVER['std::getline'] = over(o_getline)
for _m in ('seekg', 'ignore'): OVER['std::istream::' + _m] = over(o_self)
OVER['std::ostream::seekp'] = OVER['std::ostream::write'] = OVER['std::ostream::put'] = over(o_self)

def success(f, x):
    if x.end == 'back': return True
    if x.end != 'ret': return False
    if x.val is None: return True
    if isp(x.val): return True
    if isc(x.val): return x.val[2] == 0 if width(x.val) == 32 else x.val[2] != 0
    return None

MARK = re.compile(r'basic_string::(operator=|assign|append|operator\+=|push_back)$|^std::vector::(push_back|emplace_back)$')
def keep_dead(ev):
    return ev.kind == 'loop' or ev.kind == 'call' and (opens_by_name(ev) or to_err(ev))
def keep_marks(ev):
    if ev.kind == 'store': return isp(ev.args[0]) and ev.args[0][1] is not None and ev.args[0][1][0] not in ('alloca', 'glob') and isc(ev.args[1]) and width(ev.args[1]) in (1, 8, 32)
    return keep_dead(ev) or ev.kind == 'call' and bool(MARK.search(ev.model))

LEVELS = (dict(max_states=12000, width=48), dict(max_states=20000, width=400), dict(max_states=12000, width=6), dict(max_states=40000, width=3, cut=True))
def attempt(make, levels=LEVELS):
    """run an engine, with less detail where that is needed"""
    for kw in levels:
        kw = dict(kw); cut = kw.pop('cut', False)
        e = make(**kw)
        if cut: e.cut = {h for h in e.heads if not any(h in b for g, b in e.loop.items() if g != h)}
        try: return e, e.run()
        except TooBig as t: why = str(t)
    return e, why

def opening_functions():
    out = []; have = set()
    for t in tools():
        p = program(t)
        for f in p.funcs.values():
            if not f.proj: continue
            key = (f.dem, f.rel, f.line)
            if key in have: continue
            if f.model != 'main': have.add(key)
            out.append((p, f, t))
    return out

class Site: pass
def places():
    """every call that opens a file by name, with the functions it is inlined into"""
    out = {}; seen = []
    for p, f, t in opening_functions():
        e = Engine(f)
        mine = [i for b in e.f.blocks for i in b if i.op in ('call', 'invoke') and i.model and (FS.search(i.model) and len(i.a) >= 2 or i.model == 'fopen')]
        if not mine: continue
        seen.append('%s: %s' % (t, f.dem[:90]))
        for i in {id(i): i for i in mine}.values():
            out.setdefault(i.loc(), []).append((p, f, t, i))
    return out, seen

def outcome(p, f, i):
    """(verdict, message, stream, marks) under the assumption that the file cannot be opened"""
    for l in LEVELS:
        o = outcome1(p, f, i, (l,))
        if o[0] is not None: return o
    return o
def outcome1(p, f, i, levels):
    e, r = attempt(lambda **kw: Dead(f, site=id(i), keep=keep_dead, **kw), levels)
    if isinstance(r, str): return None, r, None, {}
    evs0 = [ev for x in r for ev in x.events() if ev.inst is i and opens_by_name(ev)]
    s = nm = None
    for ev in evs0:
        s = s or sid(e, ev); nm = nm or name_of(e, ev)
    if nm is not None and (nm.startswith('/proc') or nm.startswith('.')): return 'fixed', '', s, {}
    if e.lost: return None, 'the stream is handed on', s, {}
    local = s is None or s[0] == 'FILE' or s[0][0] == 'alloca'
    res = set(); some = used = gone = False; cand = lulled = None
    for x in r:
        if not isinstance(x.mem.get(G), dict) or ghost_of(x, 'failed') != TRUE: continue
        some = True
        if x.end == 'back':
            evs = x.events(); heads = [j for j, ev in enumerate(evs) if ev.kind == 'loop' and ev.args[0][2] == x.head]
            k = max((j for j, ev in enumerate(evs) if ev.inst is i and opens_by_name(ev)), default=-1)
            if not heads or k < heads[-1]: continue       # not opened in this round
        elif x.end != 'ret': res.add('ok'); continue
        ok = success(f, x)
        said = ghost_of(x, 'said')
        if said == TRUE and x.end == 'ret' and not any(m[0] != 'hull' for m in x.imp) and passed(f, x): lulled = x
        if ok is False or said == TRUE: res.add('ok'); continue
        if ok is None or not e.quiet_on(r, said) or any(m[0] != 'hull' for m in x.imp): res.add(None); continue
        if ghost_of(x, 'touched') == TRUE and not local: used = True
        if ghost_of(x, 'gone') == TRUE: gone = True
        cand = cand or x; res.add('bad')
    if not some: return None, 'no path goes on from here', s, {}
    if lulled is not None and 'bad' not in res and (f.model == 'main' or not marked(f, i)):
        return 'bad', 'a file could not be opened, this is said, and still %s as if it had succeeded' % ('the tool exits' if f.model == 'main' else 'the operation ends'), s, {}
    if 'bad' not in res: return (None if None in res else 'ok'), '', s, {}
    # does it leave a mark?
    marks = {}; bare = False
    e2, r2 = attempt(lambda **kw: Dead(f, site=id(i), late=True, keep=keep_marks, **kw))
    e3, r3 = attempt(lambda **kw: After(f, id(i), keep=lambda ev: keep_marks(ev) or ev.kind == 'call' and bool(TESTRX.search(ev.model)), **kw))
    if isinstance(r2, str) or isinstance(r3, str): return None, '', s, {}
    def after(x):
        evs = x.events(); k = max((j for j, ev in enumerate(evs) if ev.inst is i and opens_by_name(ev)), default=-1)
        return evs[k + 1:] if k >= 0 else evs if TRUE in (ghost_of(x, 'seen'), ghost_of(x, 'failed')) else []
    usual = set()
    for x in r3:
        for ev in after(x):
            st = opened_known(e3, x, i)
            if st: usual.add((id(ev.inst), ev.args[1] if ev.kind == 'store' else None))
    for x in r2:
        if not isinstance(x.mem.get(G), dict) or ghost_of(x, 'failed') != TRUE or not e2.quiet_on(r2, ghost_of(x, 'said')) or not success(f, x): continue
        aft = after(x)
        if not aft and x.end == 'ret' and not any(ev.inst is i for ev in x.events()): continue
        own = set()
        for ev in aft:
            if ev.kind == 'store' or ev.kind == 'call' and MARK.search(ev.model):
                w = e2.ident(ev.args[0])
                if (id(ev.inst), ev.args[1] if ev.kind == 'store' else None) not in usual and w and w[0][0] not in ('alloca', 'glob') and w[0] != s[0]: own.add((w[1], ev.kind == 'store'))
        if own: marks.update({w: f for w in own})
        else: bare = True
    if marks: return 'flag', '', s, marks
    if not local and not (gone and bare): return 'used' if used else 'defer', '', s, {}
    return 'bad', 'a file that could not be opened is passed over without a word', s, {}

def passed(f, x):
    """does the path end the way a tool or an operation ends that did what it was asked for?"""
    if f.model == 'main': return x.val is not None and isc(x.val) and x.val[2] == 0
    return x.val is None and f.ret == 'void' and bool(re.search(r'Operation::execute$', f.model))

def marked(f, i):
    """does the function note down, outside of itself, that the file opened at i could not be opened?"""
    e, r = attempt(lambda **kw: Dead(f, site=id(i), late=True, keep=keep_marks, **kw))
    if isinstance(r, str): return True
    return any(ev.kind == 'store' or ev.kind == 'call' and MARK.search(ev.model) and not (e.ident(ev.args[0]) or (('alloca',),))[0][0] == 'alloca' for x in r if isinstance(x.mem.get(G), dict) and ghost_of(x, 'failed') == TRUE for ev in x.events())

def ghost_of(x, k):
    c = x.mem.get(G, {}).get((k,)); return None if c is None else c[1]

def opened_known(e, x, i):
    evs = x.events(); k = max((j for j, ev in enumerate(evs) if ev.inst is i and opens_by_name(ev)), default=-1)
    if k < 0: return ghost_of(x, 'seen') == TRUE
    s = sid(e, evs[k])
    return not any(ev.kind == 'call' and TESTRX.search(ev.model) and ev.ret is not None and e.ident(ev.args[0]) == s and truth(x.facts, ev.ret) == (not TEST[short(ev)]) for ev in evs[k:])

def opening(R):
    pl, seen = places()
    for q in seen: R.saw('functions', q)
    if not pl: raise AnalysisBroken('no file is opened by name')
    for loc, l in sorted(pl.items()):
        R.saw('sites', loc)
        inner = set()
        for p, f, t, i in l: inner |= reach(p, f) - {f.name}
        done = {}
        def verdict(q):
            k = (q[2], q[1].name, id(q[3]))
            if k not in done: done[k] = outcome(q[0], q[1], q[3])
            return done[k]
        top = [q for q in l if q[1].name not in inner or q[1].model == 'main']
        rest = [q for q in l if q not in top]
        what = 'a file that cannot be opened is reported'
        us = [(q, verdict(q)) for q in top]
        if any(v[0] is None for q, v in us):
            names = {q[1].name for q, v in us if v[0] is None}; below = set()
            for q in rest: below |= reach(q[0], q[1]) - {q[1].name}
            us += [(q, verdict(q)) for q in rest if q[1].name not in below]
        n = 0
        if any(v[0] in ('defer', 'used') for q, v in us):
            fl = [(q, verdict(q)) for q in rest if verdict(q)[0] == 'flag']
            if fl: us = [u for u in us if u[1][0] not in ('defer', 'used')] + fl
        for q, (v, msg, s, marks) in us:
            p, f, t, i = q
            if v == 'fixed': n += 1; continue
            sub = '%s: %s' % (f.model, what)
            if v == 'ok': n += 1; R.ob('open', sub, True, loc); continue
            if v == 'bad':
                n += 1; R.ob('open', sub, False, loc, msg); continue
            if v == 'flag':
                n += 1
                cs = [consumed([(p, pf)], w) for w, pf in marks.items()]
                c, at, why = next((c for c in cs if c[0]), None) or next((c for c in cs if c[0] is None), None) or next((c for c in cs if c[1]), cs[0])
                R.ob('open', '%s: the mark left for a file that could not be opened is looked at' % f.model, c, at or loc, why)
                continue
            if v in ('defer', 'used'):
                la = later(p, f, t, l, s)
                if not la and v == 'used': n += 1; R.ob('open', sub, False, loc, 'a file is used without looking whether it could be opened')
                for g, c, why, at in la:
                    n += 1
                    R.ob('open', '%s: a file that could not be opened is reported when it is used' % g.model, c, at or loc, why)
        if not n: R.ob('open', what, None, loc, 'result not understood')

_spans = {}
def spans(p):
    """source line -> the project's functions whose text holds it (the shortest ones)"""
    if p.target not in _spans:
        by = {}
        for f in p.funcs.values():
            if not f.proj: continue
            end = max([i.line for i in f.insts() if i.line and not i.ia and i.file == f.file] + [f.line])
            by.setdefault(f.file, []).append((f.line, end, f.name))
        _spans[p.target] = (by, {})
    return _spans[p.target]
def functions_at(p, file, line):
    by, memo = spans(p)
    if (file, line) not in memo:
        c = [(e - b, n) for b, e, n in by.get(file, ()) if b <= line <= e]
        w = min((q for q, n in c), default=None)
        memo[(file, line)] = {n for q, n in c if q == w}
    return memo[(file, line)]
_reach = {}
def reach(p, f):
    """functions that are called by f, or were inlined into it"""
    k = (p.target, f.name)
    if k not in _reach:
        out = {f.name}; todo = [f]
        while todo:
            g = todo.pop()
            for i in g.insts():
                new = set()
                if i.op in ('call', 'invoke') and i.fn and i.fn in p.funcs and p.funcs[i.fn].proj: new.add(i.fn)
                if i.ia:
                    new |= functions_at(p, i.file, i.line or 0)
                    for fi, li in i.ia[:-1]: new |= functions_at(p, fi, li)
                for n in new - out: out.add(n); todo.append(p.funcs[n])
        _reach[k] = out
    return _reach[k]

def later(p, f, t, l, s):
    """functions that use the stream another one has opened as a member of an object"""
    rels = {q[1].rel for q in l}; out = []
    us = {}; own = {q[1].name for q in l}
    for g in p.funcs.values():
        if not g.proj or g.rel not in rels or g.name in own: continue
        e = Engine(g)
        if not any(i.model and (USE.search(i.model)) for b in e.f.blocks for i in b if i.op in ('call', 'invoke')): continue
        e, r = attempt(lambda **kw: Engine(g, keep=lambda ev: ev.kind == 'call' and bool(USE.search(ev.model) or TESTRX.search(ev.model)), **kw))
        if isinstance(r, str): continue
        held = {e.ident(ev.args[0]) for x in r for ev in x.events() if ev.args and isp(ev.args[0])}
        held = {h for h in held if h and h[1] == s[1] and h[0][0] not in ('glob', 'alloca', 'FILE')}
        if held: us[g.name] = (g, held)
    for n, (g, held) in sorted(us.items()):
        if any(n in reach(p, o) for m, (o, _) in us.items() if m != n): continue
        for h in held:
            for lv in LEVELS:
                e, v = later1(g, h, (lv,))
                if v is not None: break
            if e.lost or e.touched or v is None: out.append((g, v, 'a file is used without looking whether it could be opened' if v is False else '', where(g)))
    return out

def later1(g, h, levels):
            e, r = attempt(lambda **kw: Dead(g, held=h, keep=keep_dead, **kw), levels)
            if isinstance(r, str) or e.lost: return e, None
            v = True
            for x in r:
                if x.end != 'ret': continue
                ok = success(g, x); said = ghost_of(x, 'said')
                if ok is False or said == TRUE or ghost_of(x, 'touched') == FALSE: continue
                if ok is None or not e.quiet_on(r, said) or ghost_of(x, 'touched') != TRUE or any(m[0] != 'hull' for m in x.imp): v = None if v is True else v; continue
                v = False
            return e, v

def consumed(pf, w):
    """is the mark at offset w[0] tested by a function that then reports?"""
    off, scalar = w; best = None
    for p, f in pf:
        cls = f.model.rsplit('::', 1)[0]; ns = cls.rsplit('::', 1)[0] if '::' in cls else ''
        for g in p.funcs.values():
            if not g.proj or g.rel.startswith('/') or g is f: continue
            if g.model == f.model: continue
            if not any(i.model and (FLAG.search(i.model)) for i in g.calls()) and not scalar: continue
            e = Engine(g, keep=lambda ev: keep_files(ev), max_states=12000, width=6)
            if f.name in reach(p, g): continue
            try: r = e.run()
            except TooBig: continue
            tests = 0; bad = None; un = None
            for x in r:
                evs = x.events(); val = None
                for ev in evs:
                    if not scalar and ev.kind == 'call' and re.search(r'(empty|size|length)$', ev.model) and ev.ret is not None and isp(ev.args[0]) and e.ident(ev.args[0]) and e.ident(ev.args[0])[1] == off and e.ident(ev.args[0])[0][0] not in ('alloca', 'glob', 'heap'):
                        d = truth(x.facts, ev.ret)
                        if d is not None: val = d if not ev.model.endswith('empty') else not d
                if scalar:
                    for t, b in x.facts.known.items():
                        for q in symbols(t):
                            if isinstance(q[2], tuple) and q[2][0] == 'init' and q[2][2] == off and width(q) == 8 and q[2][1] != ('arg', 0) or isinstance(q[2], tuple) and q[2][0] == 'init' and q[2][2] == off and width(q) in (1, 8): val = b
                if val is None:
                    if x.end == 'ret' and any(opens_by_name(ev) for ev in evs): un = x
                    continue
                tests += 1
                if val and x.end in ('ret', 'back') and success(g, x) is not False and not any(to_err(ev) for ev in evs): bad = x
            if tests and bad is None and un is None: return True, where(g), ''
            if tests and bad is not None and best is None: best = (where(g), 'a file that could not be opened is known, and nothing is said')
    if best: return False, best[0], best[1]
    return False, None, 'nothing looks at the mark a file leaves that could not be opened'

def swallowed(R):
    """handlers that catch an exception about a file"""
    n = 0
    have = set()
    for t in tools():
        p = program(t)
        for f in p.funcs.values():
            if not f.proj or (f.dem, f.rel, f.line) in have and f.model != 'main': continue
            have.add((f.dem, f.rel, f.line)); f.load()
            for bi, b in enumerate(f.blocks):
                pad = next((i for i in b if i.op == 'landingpad'), None)
                if pad is None or not pad.cl: continue
                if not any(c and re.search(r'9exception|13runtime_error|OperationException|system_error|filesystem_error|ios_base7failure|^null|^$', str(c)) for c in pad.cl): continue
                n += 1
                # depth-first search for a way to a normal return that tells nobody
                w = silent(f, bi)
                R.ob('open', '%s: an exception about a file is reported' % f.model, not w, pad.loc() if pad.line else where(f), 'an exception is caught and the function returns as if nothing had happened' if w else '')
    if not n: R.ob('open', 'exceptions end the program', True)

def silent(f, bi):
    seen = set(); todo = [(bi, None)]
    while todo:
        b, frm = todo.pop()
        if (b, frm) in seen: continue
        seen.add((b, frm)); stop = False
        for i in f.blocks[b]:
            if i.op in ('call', 'invoke'):
                if any(a[0] == 'g' and a[1] in ERR for a in i.a) or i.model in ('__cxa_rethrow', '__cxa_throw', 'exit', 'abort', '_exit', 'std::terminate', 'perror'): stop = True; break
            if i.op in ('resume', 'unreachable'): stop = True; break
            if i.op == 'store' and i.a and i.a[0][0] == 'c' and f.ret == 'i32' and int(i.a[0][2]) not in (0,) and f.model in ('main',): stop = True; break
            if i.op == 'ret':
                if not i.a: return True
                v = i.a[0]
                if v[0] == 'c': 
                    if (int(v[2]) == 0) == (int(v[1]) == 32): return True
                    stop = True; break
                ph = next((q for blk in f.blocks for q in blk if q.op == 'phi' and v == ('v', q.d)), None)
                if ph is not None:
                    c = [w for w, pb in ph.inc if pb == frm]
                    if c and c[0][0] == 'c' and (int(c[0][2]) == 0) == (int(c[0][1]) == 32): return True
                stop = True; break
        if stop: continue
        t = f.blocks[b][-1]
        for nb in (t.succs() if t.op != 'invoke' else t.bb[:1]): todo.append((nb, b))
    return False
