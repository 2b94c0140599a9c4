"""Outputs that could not be written completely.

The question is decided by assuming the answer: the device is full, and the error appears where buffered
data meet it - when the stream is flushed or closed.  One run per place that opens a file for writing and
per function that place is inlined into; what is reported are the paths that end as if all was well."""
import re
from ir import program
import absint
from absint import *
from report import where, AnalysisBroken
import g_files
from g_files import (FS, MARK, G, ghost, setghost, ghost_of, default, const, to_err, opens_by_name, name_of, sid, success, passed,
                     keep_dead, keep_marks, LEVELS, attempt, opening_functions, reach, places, o_lost)

WRITES = re.compile(r'^(fwrite|fputs|fputc|putc|fprintf|vfprintf)(_unlocked)?$')

class Full(g_files.Dead):
    """the file opened for writing at instruction `site` takes no data"""
    def __init__(s, f, site, **kw):
        s.saidin = {}; s.late = False; s.site = site; s.held = None; s.lost = s.touched = False
        Engine.__init__(s, f, models=dict(OVER), **kw)

def key(s, p):
    if not isp(p): return None
    return s.ident(p)
def of(s, st, p):
    k = key(s, p); return k if k is not None and ghost(st, ('full',) + k) == TRUE else None
def over(fn):
    def g(s, i, st, args, m):
        k = of(s, st, args[0]) if args else None
        if k is None: return default(s, i, st, args, m)
        return fn(s, i, st, args, m, k)
    return g
def start(s, i, st, k):
    setghost(st, ('full',) + k, TRUE); setghost(st, ('due',) + k, FALSE); setghost(st, ('shut',) + k, FALSE)
    setghost(st, 'failed', TRUE); setghost(st, 'said', FALSE); setghost(st, 'over', FALSE); setghost(st, 'asked', FALSE); setghost(st, 'wrote', FALSE)
    st.imp = frozenset(q for q in st.imp if q[0] != 'join')
def o_open(s, i, st, args, m):
    if id(i) != s.site: return default(s, i, st, args, m)
    if m == 'fopen':
        h = default(s, i, st, args, m)
        if h == 'default': s.generic(i, st, args, m)
        v = st.env.get(i.d)
        if v is None or not isp(v) or v[1] is None: s.lost = True; return None
        st.facts.set(s.nonnull(v), True) if hasattr(s, 'nonnull') else None
        start(s, i, st, key(s, v)); return None
    if len(args) < 2 or not isp(args[1]): return default(s, i, st, args, m)
    s.generic(i, st, args, m); start(s, i, st, s.ident(args[0]))
    return None
def ask(s, i, st, args, m, v):
    st.env[i.d] = v; s.tr(st, Ev('call', i, m, args, v)); return None
def told(st, d):
    if d: setghost(st, 'asked', TRUE)
def due(f):
    def g(s, i, st, args, m, k):
        d = ghost(st, ('due',) + k)
        if d not in (TRUE, FALSE): setghost(st, 'asked', TRUE); return default(s, i, st, args, m)
        return f(s, i, st, args, m, k, d == TRUE)
    return over(g)
def test(bad, good):
    return due(lambda s, i, st, args, m, k, d: told(st, d) or ask(s, i, st, args, m, bad if d else good))
def o_isopen(s, i, st, args, m, k):
    v = ghost(st, ('shut',) + k)
    if v not in (TRUE, FALSE): return default(s, i, st, args, m)
    st.env[i.d] = FALSE if v == TRUE else TRUE; s.tr(st, Ev('call', i, m, args, st.env[i.d])); return None
def o_close(s, i, st, args, m, k):
    setghost(st, ('due',) + k, TRUE); setghost(st, ('shut',) + k, TRUE); setghost(st, 'over', TRUE); setghost(st, ('bad',) + k, ghost(st, ('bad',) + k) or FALSE)
    s.tr(st, Ev('call', i, m, args, None)); return None
def o_gone(s, i, st, args, m, k):
    setghost(st, 'over', TRUE); setghost(st, ('full',) + k, FALSE); return default(s, i, st, args, m)
def o_flush(s, i, st, args, m, k):
    setghost(st, ('due',) + k, TRUE); setghost(st, ('bad',) + k, TRUE)
    if i.d is not None: st.env[i.d] = args[0]
    s.tr(st, Ev('call', i, m, args, None)); return None
def o_write(s, i, st, args, m, k):
    setghost(st, 'wrote', TRUE)
    if i.d is not None: st.env[i.d] = args[0]
    s.tr(st, Ev('call', i, m, args, None)); return None
def o_bad(s, i, st, args, m, k):
    b = ghost(st, ('bad',) + k)
    if b not in (TRUE, FALSE, None): return default(s, i, st, args, m)
    told(st, b == TRUE)
    return ask(s, i, st, args, m, b or FALSE)
def o_clear(s, i, st, args, m, k):
    setghost(st, ('due',) + k, FALSE); setghost(st, ('bad',) + k, FALSE); return default(s, i, st, args, m)
def o_swap(s, i, st, args, m, k):
    s.lost = True; return default(s, i, st, args, m)
def cfile(which):
    def g(s, i, st, args, m):
        k = of(s, st, args[-1]) if args else None
        if k is None: return default(s, i, st, args, m)
        if which == 'close':
            setghost(st, 'over', TRUE); setghost(st, ('full',) + k, FALSE); setghost(st, 'asked', TRUE if i.d is not None and used(s.f, i) else ghost(st, 'asked') or FALSE)
            v = I(32, -1 & 0xffffffff)
        elif which == 'flush': setghost(st, ('due',) + k, TRUE); v = I(32, 0xffffffff)
        else:
            d = ghost(st, ('due',) + k)
            if d not in (TRUE, FALSE): return default(s, i, st, args, m)
            v = I(32, 1 if d == TRUE else 0); told(st, d == TRUE)
        if i.d is not None: st.env[i.d] = v
        s.tr(st, Ev('call', i, m, args, v)); return None
    return g
def used(f, i):
    def ops(x):
        for a in list(x.a) + [w for w, _ in getattr(x, 'inc', ()) or ()]:
            if a == ('v', i.d): return True
        return False
    return any(ops(x) for b in f.blocks for x in b if x is not i)

OVER = {}
for _n in ('ofstream', 'fstream'):
    OVER['std::basic_%s::basic_%s' % (_n, _n)] = o_open; OVER['std::basic_%s::open' % _n] = o_open
    OVER['std::basic_%s::~basic_%s' % (_n, _n)] = over(o_gone); OVER['std::basic_%s::close' % _n] = over(o_close)
    OVER['std::basic_%s::is_open' % _n] = over(o_isopen)
    for _m in ('swap', 'operator=', 'rdbuf'): OVER['std::basic_%s::%s' % (_n, _m)] = over(o_swap)
OVER['fopen'] = o_open
for _m, _b, _g in (('fail', TRUE, FALSE), ('good', FALSE, TRUE), ('operator bool', FALSE, TRUE), ('operator!', TRUE, FALSE)): OVER['std::basic_ios::' + _m] = test(_b, _g)
OVER['std::basic_ios::rdstate'] = test(I(32, 4), I(32, 0))
OVER['std::basic_ios::bad'] = over(o_bad); OVER['std::basic_ios::clear'] = over(o_clear)
for _m in ('exceptions', 'rdbuf', 'setstate'): OVER['std::basic_ios::' + _m] = over(o_swap)
for _m in ('std::ostream::flush', 'std::basic_ostream::flush', 'std::flush', 'std::endl'): OVER[_m] = over(o_flush)
for _m in ('write', 'put'): OVER['std::ostream::' + _m] = over(o_write)
OVER['fclose'] = cfile('close'); OVER['fflush'] = cfile('flush'); OVER['ferror'] = cfile('error')

def writable(p, f, i):
    """is the file opened at i opened for writing?  True / False / None"""
    if 'ifstream' in i.model: return False
    if 'ofstream' in i.model: return True
    e, r = attempt(lambda **kw: Engine(f, keep=keep_dead, **kw), (dict(max_states=4000, width=4),))
    if isinstance(r, str): return None
    for x in r:
        for ev in x.events():
            if ev.inst is i and opens_by_name(ev):
                if i.model == 'fopen':
                    m = e.obj_lit(ev.args[1])
                    return None if m is None else bool(re.search(r'[wa+]', m))
                m = ev.args[2] if len(ev.args) > 2 else None
                return bool(m[2] & 16) if m is not None and isc(m) else None
    return None

def outcome(p, f, i):
    for l in LEVELS:
        o = outcome1(p, f, i, (l,))
        if o[0] is not None: return o
    return o
def outcome1(p, f, i, levels):
    e, r = attempt(lambda **kw: Full(f, id(i), keep=keep_dead, **kw), levels)
    if isinstance(r, str): return None, r
    nm = None
    for x in r:
        for ev in x.events():
            if ev.inst is i and opens_by_name(ev): nm = nm or name_of(e, ev)
    if nm is not None and (nm.startswith('/proc') or nm.startswith('.')): return 'fixed', ''
    if e.lost: return None, 'the stream is handed on'
    res = set(); why = ''; some = False
    for x in r:
        if not isinstance(x.mem.get(G), dict) or ghost_of(x, 'failed') != TRUE: continue
        some = True
        if x.end == 'back':
            evs = x.events(); heads = [j for j, ev in enumerate(evs) if ev.kind == 'loop' and ev.args[0][2] == x.head]
            k = max((j for j, ev in enumerate(evs) if ev.inst is i and opens_by_name(ev)), default=-1)
            if not heads or k < heads[-1]: continue
        elif x.end != 'ret': res.add('ok'); continue
        over_, asked, said = (ghost_of(x, q) for q in ('over', 'asked', 'said'))
        joined = any(m[0] != 'hull' for m in x.imp)
        ok = success(f, x)
        if ok is False: res.add('ok'); continue
        if said == TRUE or not e.quiet_on(r, said):
            if x.end == 'ret' and said == TRUE and asked == TRUE and not joined and passed(f, x): res.add('lull')
            else: res.add('ok' if said == TRUE else None)
            continue
        if ok is None or joined: res.add(None); continue
        if over_ != TRUE:           # somebody else may close it and look
            if x.end == 'ret' and passed(f, x) and asked == FALSE and (f.model == 'main' or not closers(p, f)): res.add('bad')
            else: res.add(None)
            continue
        if asked not in (TRUE, FALSE): res.add(None); continue
        if asked == TRUE and not (x.end == 'ret' and passed(f, x)): res.add(None); continue      # what was found may be remembered
        if asked == TRUE and x.end == 'ret' and passed(f, x) and f.model != 'main' and notes(f, i): res.add(None); continue
        res.add('bad')
    if not some: return None, 'no path goes on from here'
    if 'bad' in res: return 'bad', 'data that could not be written are lost without a word'
    if 'lull' in res and (f.model == 'main' or not notes(f, i)): return 'bad', 'data could not be written, this is said, and still %s as if it had succeeded' % ('the tool exits' if f.model == 'main' else 'the operation ends')
    return (None if None in res else 'ok'), ''
def closers(p, f):
    """does another function close files, or ask streams how they are?"""
    inside = reach(p, f)
    return any(g.proj and g.name not in inside and any(i.model and re.search(r'^std::basic_o?fstream::close$|^std::basic_ostream::flush$|^std::ostream::flush$|^std::basic_ios::(fail|good|bad|rdstate|operator)', i.model) for i in g.calls()) and f.model.rsplit('::', 1)[0] == g.model.rsplit('::', 1)[0] for g in p.funcs.values())
def notes(f, i):
    e, r = attempt(lambda **kw: Full(f, id(i), keep=keep_marks, **kw))
    if isinstance(r, str): return True
    return any(ev.kind == 'store' or ev.kind == 'call' and MARK.search(ev.model) and not (e.ident(ev.args[0]) or (('alloca',),))[0][0] == 'alloca' for x in r if isinstance(x.mem.get(G), dict) and ghost_of(x, 'failed') == TRUE for ev in x.events())

def stdio(f):
    """writes to a FILE whose failure nothing in the function can notice"""
    calls = [i for b in f.blocks for i in b if i.op in ('call', 'invoke')]
    if any(i.model and i.model.startswith('ferror') for i in calls): return None
    for i in calls:
        if i.model and WRITES.search(i.model) and not any(a[0] == 'g' and a[1] in g_files.ERR + ('stdout',) for a in i.a) and (i.d is None or not used(f, i)): return i
    return None

def writing(R):
    pl, seen = places()
    for q in seen: R.saw('functions', q)
    n = 0
    for loc, l in sorted(pl.items()):
        l = [q for q in l if writable(q[0], q[1], q[3]) is not False]
        if not l: continue
        R.saw('sites', loc); n += 1
        inner = set()
        for p, f, t, i in l: inner |= reach(p, f) - {f.name}
        top = [q for q in l if q[1].name not in inner or q[1].model == 'main']; rest = [q for q in l if q not in top]
        done = {}
        def verdict(q):
            k = (q[2], q[1].name, id(q[3]))
            if k not in done: done[k] = outcome(q[0], q[1], q[3])
            return done[k]
        us = [(q, verdict(q)) for q in top]
        if any(v[0] is None for q, v in us): us += [(q, verdict(q)) for q in rest]
        for q, (v, msg) in us:
            p, f, t, i = q
            if v == 'fixed': continue
            R.ob('write', '%s: %s: data that could not be written are reported' % (t, f.model), None if v is None else v == 'ok', loc, msg)
            if i.model == 'fopen':
                w = stdio(f)
                R.ob('write', '%s: %s: a failed write is looked for' % (t, f.model), w is None, w.loc() if w else loc, 'nothing looks whether this write succeeded' if w else '')
    if not n: raise AnalysisBroken('no file is opened for writing')
