"""The Markov chain: its file format (C21) and its arithmetic (C22)."""
import re
from ir import program
from absint import *
from report import where, AnalysisBroken
from g_files import truth, short, READ

WRITER, READER = 'pwned-markov-generator', 'pwned-markov-lookup'
MUT = re.compile(r'^std::(unordered_map|map|vector|deque|list)::(emplace|try_emplace|insert|insert_or_assign|operator\[\]|push_back|emplace_back|resize|assign|operator=|swap)$')

def defn(e, t):
    """definition of an opaque term, or None"""
    if isinstance(t, tuple) and t and t[0] == 'p' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'fn' and t[2] == 0: t = t[1]
    elif isinstance(t, tuple) and t and t[0] == 's': t = t[2]
    if isinstance(t, tuple) and len(t) == 2 and t[0] == 'fn' and isinstance(t[1], int): return e.defs[t[1]]
    return None

def reads_of(t):
    """(read id, offset, bytes) of a term that is a piece of what a read delivered, through widenings"""
    while isinstance(t, tuple) and t and t[0] == 'x' and t[2] in ('zext', 'sext', 'trunc', 'bitcast'): t = t[3]
    if isinstance(t, tuple) and t[0] == 's' and isinstance(t[2], tuple) and t[2][0] == 'rd': return t[2][1:]
    return None

def narrowed(t):
    w = width(t) if isinstance(t, tuple) and t and t[0] in ('x', 's') else None
    least = w
    while isinstance(t, tuple) and t and t[0] == 'x' and t[2] in ('zext', 'sext', 'trunc', 'bitcast'): t = t[3]; least = min(least, width(t))
    return isinstance(t, tuple) and t[0] == 's' and isinstance(t[2], tuple) and t[2][0] == 'rd' and least is not None and least < 8 * t[2][3]

class Side:
    """one function that writes or reads the file: its paths, cut up by loop"""
    def __init__(s, f, io):
        s.f = f; s.io = io
        s.e = Engine(f, keep=lambda ev: ev.kind in ('loop', 'store') or ev.kind == 'call' and bool(io.search(ev.model) or MUT.search(ev.model) or re.search(r'::(begin|cbegin|end|cend|size|find|count|contains|at)$|^memcmp$|^std::(copy|sort|equal)$', ev.model)), max_states=30000, width=24)
        s.e.record = True
        s.r = s.e.run()
        s.heads = {h for h in s.e.heads if any(i.op in ('call', 'invoke') and i.model and io.search(i.model) for k in s.e.loop[h] for i in s.e.f.blocks[k])}
    def inner(s, h): return any(h in s.e.loop[g] and g != h for g in s.heads)
    def rounds(s, h):
        """[(path, events of this round)]"""
        out = []
        for x in s.r:
            if x.end != 'back' or x.head != h: continue
            evs = x.events(); ks = [k for k, ev in enumerate(evs) if ev.kind == 'loop' and ev.args[0][2] == h]
            if ks: out.append((x, evs[ks[-1] + 1:]))
        return out
    def shape(s, evs, h):
        """('io', event) and ('loop', head) in order; None if it is not understood"""
        out = []; inn = None
        for ev in evs:
            if ev.kind == 'loop':
                g = ev.args[0][2]
                if g in s.heads: out.append(('loop', g)); inn = g
                continue
            if ev.kind == 'call' and s.io.search(ev.model):
                blk = ev.inst.block if hasattr(ev.inst, 'block') else None
                if inn is not None and blk in s.e.loop[inn]: return None      # part of a last round
                out.append(('io', ev))
        return out

def size_of(ev):
    t = ev.args[-1]
    return t[2] if isc(t) else None

def group(sh):
    """runs of io between loops: [[events], head, [events], ...]"""
    out = [[]]
    for k, v in sh:
        if k == 'io': out[-1].append(v)
        else: out += [v, []]
    return out

def roles(e, evs):
    """what each written piece is: [(offset, bytes, role)]"""
    out = []; o = 0
    for ev in evs:
        n = size_of(ev)
        if n is None: return None
        pcs = [q for q in (ev.info or ()) if isinstance(q, tuple) and q and q[0] == 'bytes']
        role = ('?',)
        if ev.args[1][1] and ev.args[1][1][0] == 'arg': role = ('member', ev.args[1][2], n)
        if pcs and len(pcs[0][1]) == 1:
            p0, w, t = pcs[0][1][0]
            if isc(t): role = ('const', t[2])
            else:
                u = t; least = 8 * w
                while isinstance(u, tuple) and u[0] == 'x' and u[2] in ('trunc', 'zext', 'sext'): least = min(least, u[1], width(u[3])); u = u[3]
                if least < 8 * w: out.append((o, n, ('narrow', least))); o += n; continue
                d = defn(e, u)
                if d and isinstance(d[0], str) and d[0].endswith('::size'): role = ('count', d[1])
                elif u[0] == 's' and isinstance(u[2], tuple) and u[2][0] == 'init': role = ('member', u[2][2], u[2][3]) if u[2][1] == ('arg', 0) else ('field', u[2][1], u[2][2], u[2][3])
                elif u[0] == '+' or u[0] == 'x' or u[0] == 'not': role = ('changed',)
        elif pcs and all(isc(t) for _, _, t in pcs[0][1]): role = ('const', tuple((a, b, t[2]) for a, b, t in pcs[0][1]))
        out.append((o, n, role)); o += n
    return out

def at_offset(rs, o, n):
    for a, b, r in rs or ():
        if a == o and b == n: return r
    return None

class Broken(Exception): pass

def sides():
    if not hasattr(sides, 'v'):
        w = Side(program(WRITER).one('pwned::markov::Chain::saveBinary'), re.compile(r'^std::(basic_)?ostream::write$'))
        r = Side(program(READER).one('pwned::markov::Chain::loadBinary'), re.compile(r'^std::(basic_)?istream::read$'))
        sides.v = (w, r)
    return sides.v

def ok_ret(x): return x.end == 'ret' and (x.val is None or isc(x.val) and x.val[2] == 0)

def layout(R):
    """the reader reads the same pieces in the same nesting as the writer writes them; {('r', id(inst)): role}"""
    w, r = sides()
    R.saw('functions', w.f.dem[:100], r.f.dem[:100]); R.saw('paths', *('w%d' % k for k in range(len(w.r))), *('r%d' % k for k in range(len(r.r))))
    kind = {}; pairs = []
    def match(wsh, rsh, name, whead, rhead):
        if any(q is None for q in wsh + rsh) or not wsh or not rsh: R.ob('layout', '%s: same pieces' % name, None, where(r.f), 'not understood'); return
        gw = {str([q if not isinstance(q, list) else sum(size_of(ev) or 10**6 for ev in q) for q in group(s)]) for s in map(lambda s: [(k, v if k == 'io' else 'L') for k, v in s], wsh)}
        gr = {str([q if not isinstance(q, list) else sum(size_of(ev) or 10**6 for ev in q) for q in group(s)]) for s in map(lambda s: [(k, v if k == 'io' else 'L') for k, v in s], rsh)}
        flat = lambda g: {sum(q for q in eval(z) if q != 'L') if isinstance(z, str) else 0 for z in g}
        if (len(gw) > 1 or len(gr) > 1) and '1000000' not in str(gw) + str(gr) and flat(gw) != flat(gr) and whead is not None and not any(m[0] != 'hull' for q in (w, r) for x in q.r for m in x.imp):
            R.ob('layout', '%s: what is read is what is written, piece by piece' % name, False, next((v.loc() for q in (wsh if len(gw) > 1 else rsh) for k, v in q if k == 'io'), where(r.f)), 'one side leaves out what the other one does not: bytes written %s, read %s' % (sorted(flat(gw)), sorted(flat(gr))))
            raise Broken()
        if len(gw) != 1 or len(gr) != 1 or '1000000' in str(gw) + str(gr): R.ob('layout', '%s: same pieces' % name, None if gw != gr else True, where(r.f), 'more than one form'); return
        ok = gw == gr
        at = next((v.loc() for s in rsh for k, v in s if k == 'io'), where(r.f))
        R.ob('layout', '%s: what is read is what is written, piece by piece' % name, ok, at, '' if ok else 'bytes written and read, between the loops: %s and %s' % (gw.pop(), gr.pop()))
        if not ok: raise Broken()
        A = group(wsh[0])
        for s in rsh:
            B = group(s)
            for a, b in zip(A, B):
                if not isinstance(a, list):
                    if (a, b) not in pairs: pairs.append((a, b))
                    continue
                rs = roles(w.e, a); o = 0
                for ev in b:
                    n = size_of(ev)
                    part = [q for q in rs or () if q[0] < o + n and o < q[0] + q[1] and not (q[0] <= o and o + n <= q[0] + q[1]) and not (o <= q[0] and q[0] + q[1] <= o + n)]
                    if part:
                        R.ob('layout', '%s: what is read is what is written, piece by piece' % name, False, ev.loc(), 'the %d bytes read at offset %d are parts of different things: what is written there are %d bytes at offset %d' % (n, o, part[0][1], part[0][0]))
                        raise Broken()
                    ro = at_offset(rs, o, n)
                    kind[id(ev.inst)] = (name, o, n, ro, whead); o += n
    top = lambda s: [s.shape(x.events(), None) for x in s.r if (s is w and x.end == 'ret' or ok_ret(x))]
    uniq = lambda l: list({str([(k, id(v.inst) if k == 'io' else v) for k, v in q]) if q is not None else None: q for q in l}.values())
    match(uniq(top(w)), uniq(top(r)), 'file', None, None)
    k = 0
    while k < len(pairs):
        a, b = pairs[k]; k += 1
        match(uniq([w.shape(evs, a) for x, evs in w.rounds(a)]), uniq([r.shape(evs, b) for x, evs in r.rounds(b)]), 'loop %d' % k, a, b)
    return kind, pairs

def loops(R, kind, pairs):
    """each reading loop runs as often as the number says that was written in front of the corresponding loop"""
    w, r = sides()
    for n, (a, b) in enumerate(pairs, 1):
        # writer: the container whose size is written is the one that is walked through
        for x in w.r:
            evs = x.events(); ks = [k for k, ev in enumerate(evs) if ev.kind == 'loop' and ev.args[0][2] == a]
            if not ks: continue
            sz = [ev for ev in evs[:ks[-1]] if ev.kind == 'call' and ev.model.endswith('::size')]; bg = [ev for ev in evs[:ks[-1]] if ev.kind == 'call' and re.search(r'::c?begin$', ev.model)]
            if sz and bg:
                c1, c2 = w.e.ident(sz[-1].args[0]), w.e.ident(bg[-1].args[0])
                R.ob('layout', 'loop %d: the number written is the number of elements that follow' % n, None if c1 is None or c2 is None else c1 == c2, sz[-1].loc(), '' if c1 == c2 else 'the size of one container is written, and another one is written out')
                break
        # reader: number of rounds
        verdict = None; at = where(r.f)
        ex = [(br, c, v) for br, c, v, st in r.e.exits(b)]
        for br, c, v in ex:
            rds = {reads_of(q) for q in symbols(c)} - {None}; its = [q for q in symbols(c) if isinstance(q[2], tuple) and q[2] == ('iter', b)]
            if len(rds) != 1 or not its: continue
            d = r.e.defs[list(rds)[0][0]]
            ro = kind.get(d[1], (None,) * 5)[3] if len(d) > 1 else None
            at = br.loc(); good = True; un = False
            for cnt in (0, 1, 2, 3, 4, 255, 256, 257, 65535, 65536, 65537, 2 ** 31 - 1):
                for k in sorted({0, 1, 2, 3, cnt & 0xff, cnt & 0xffff, cnt - 1, cnt}):
                    if not 0 <= k <= cnt: continue
                    env = {}
                    for q in symbols(c):
                        env[q] = cnt if reads_of(q) else k if q in its else None
                    if None in env.values(): un = True; break
                    z = evalterm(c, env)
                    if z is None: un = True; break
                    left = bool(z) == v
                    if left != (k == cnt): good = False
            if un: continue
            if ro is not None and ro[0] == 'narrow': R.ob('layout', 'loop %d: the number written is the number of elements that follow' % n, False, at, 'it is written with %d bits only' % ro[1])
            elif ro is not None and ro[0] not in ('count', '?'): good = False
            verdict = good if verdict is None else verdict and good
        R.ob('layout', 'loop %d: as many elements are read as the file announces' % n, verdict, at, '' if verdict is not False else 'the loop does not end after the number of elements that was read')

FAILS = ('iofail', 'ioeof', 'iobad')
def defid(e, inst, k):
    d = e.defs[k]
    return d[0] == 'read' and len(d) > 1 and d[1] == inst

def fail_env(e, x, k):
    """the assumption that the read with definition number k of path x meets the end of the file, and so does all that follows"""
    env = {}
    ids = []
    for ev in x.events():
        if ev.kind == 'call' and READ.search(ev.model): ids += [j for j, d in enumerate(e.defs) if d[0] == 'read' and len(d) > 1 and d[1] == id(ev.inst)]
    ids = [j for j in ids if j >= k]
    for j in ids:
        for nm, v in zip(FAILS, (1, 1, 0)):
            for kk in (j, ('fn', j)): env[S(1, (nm, kk))] = v
    env[S(64, ('gcount', k))] = 0
    return env

def failing(R, kind):
    """no read that fails is taken for a success, and each failure has its own code"""
    w, r = sides(); e = r.e
    codes = {}; wrong = {}
    ret_syms = lambda x, k: [j for j, d in enumerate(e.defs) if d[0] == 'read' and len(d) > 1 and d[1] == k]
    for x in r.r:
        evs = [ev for ev in x.events() if ev.kind == 'call' and READ.search(ev.model)]
        if x.end == 'back':
            ks = [k for k, ev in enumerate(x.events()) if ev.kind == 'loop' and ev.args[0][2] == x.head]
            evs = [ev for ev in x.events()[ks[-1]:] if ev.kind == 'call' and READ.search(ev.model)] if ks else []
        if not evs: continue
        if ok_ret(x) or x.end == 'back':
            for ev in evs:
                ids = [j for j in ret_syms(x, id(ev.inst)) if mentioned(x, j)]
                for j in ids:
                    c = x.facts.consistent(fail_env(e, x, j))
                    key = ('fails', id(ev.inst)); q = wrong.setdefault(key, [True, ev])
                    if c and not any(m[0] != 'hull' for m in x.imp):
                        if x.end == 'ret' or unasked(x, j): q[0] = False
                        elif q[0]: q[0] = None
                if not ids:
                    # nothing on this path ever asked about it
                    q = wrong.setdefault(('fails', id(ev.inst)), [True, ev])
                    later = [z for z in x.events()[x.events().index(ev) + 1:] if z.kind == 'call' and z.model.startswith('std::basic_ios::')]
                    if (x.end == 'ret' or unasked_later(r, x.head)) and not later: q[0] = False
                    elif q[0]: q[0] = None
        elif x.end == 'ret' and isc(x.val):
            ev = evs[-1]; ro = kind.get(id(ev.inst))
            if ro is None: continue
            lo = [k for k, q in enumerate(x.events()) if q.kind == 'loop']
            for q in evs[:-1]:
                c = cls(kind.get(id(q.inst)))
                if lo and x.events().index(q) < lo[-1] or c is None or c == cls(ro) or any(m[0] != 'hull' for m in x.imp): continue
                if any(mentioned(x, j) and x.facts.consistent(fail_env(e, x, j)) for j in ret_syms(x, id(q.inst))):
                    R.ob('failing', 'a file that ends at %s is reported as such' % named(kind.get(id(q.inst))), False, q.loc(), 'it is reported with the code for %s' % named(ro))
            js = ret_syms(x, id(ev.inst))
            if not any(x.facts.known.get(S(1, ('iofail', kk))) is False for j in js for kk in (j, ('fn', j))): codes.setdefault(('cut', id(ev.inst)), (set(), ev, ro))[0].add(x.val[2]); continue
            for j in js:
                bad = x.facts.consistent(fail_env(e, x, j)); good = x.facts.consistent({S(1, (nm, kk)): 0 for nm in FAILS for kk in (j, ('fn', j))})
                if mentioned(x, j) and good and not bad and cls(ro) in ('header', 'version', 'key'): codes.setdefault(('wrong', id(ev.inst)), (set(), ev, ro))[0].add(x.val[2])
    for (_, i), (ok, ev) in wrong.items():
        R.ob('failing', 'a file that ends at %s is rejected' % named(kind.get(i)), ok, ev.loc(), '' if ok else 'the file can end here and be accepted all the same')
    return codes

def mentioned(x, j):
    for t in list(x.facts.known) + list(x.facts.rng):
        for q in symbols(t):
            if isinstance(q[2], tuple) and q[2][0] in FAILS and q[2][1] in (j, ('fn', j)): return True
    return False

def unasked(x, j): return x.end == 'back' and unasked_later(sides()[1], x.head)
def unasked_later(r, h):
    """neither the head of the loop nor anything behind it asks about the state of the stream on some way to success"""
    for g in [q for q in r.heads if q == h or h in r.e.loop[q]]:
        for x in r.r:
            if x.end != 'ret' or ok_ret(x): continue
            evs = x.events(); ks = [k for k, ev in enumerate(evs) if ev.kind == 'loop' and ev.args[0][2] == g]
            if ks and not any(ev.kind == 'call' and READ.search(ev.model) for ev in evs[ks[-1]:]): return False
    return not any(i.model and re.search(r'basic_ios::(exceptions|setstate|clear)$', i.model) for bb in r.f.blocks for i in bb if i.op in ('call', 'invoke'))
def cls(k):
    """what a piece is called"""
    if k is None: return None
    name, o, n, ro, _ = k
    if ro is None: return None
    if ro[0] == 'count': return 'count'
    if ro[0] == 'field': return 'key' if ro[2] == 0 else 'value'
    if name == 'file': return 'header' if o == 0 else 'version'
    return None
WORD = {'header': r'header', 'version': r'version', 'count': r'count', 'key': r'symbol(?!.?count)', 'value': r'prob'}
def named(k): return {'header': 'the header', 'version': 'the version', 'count': 'a count', 'key': 'a symbol', 'value': 'a probability'}.get(cls(k), 'some place')

def texts():
    """error code -> text"""
    p = program(READER); out = {}
    f = next((g for g in p.funcs.values() if g.model == 'pwned::markov::Chain::Chain' and g.proj), None)
    g = p.find('pwned::markov::Chain::errString')
    if f is None or not g: return None, None, None
    g = g[0] if isinstance(g, list) else g
    e = Engine(f, keep=lambda ev: ev.kind == 'call' and bool(re.search(r'basic_string::basic_string$|^std::vector::vector$|initializer', ev.model)), width=6)
    e2 = Engine(g, keep=lambda ev: ev.kind == 'call')
    off = None
    for x in e2.run():
        if x.end != 'ret': continue
        for ev in x.events():
            if re.search(r'vector::(at|operator\[\])$', ev.model):
                t = ev.args[1]
                while isinstance(t, tuple) and t[0] == 'x' and t[2] in ('zext', 'sext'): t = t[3]
                if t == S(32, ('arg', 1)) and e2.ident(ev.args[0]) and e2.ident(ev.args[0])[0] == ('arg', 0): off = e2.ident(ev.args[0])[1]
    if off is None: return None, None, None
    for x in e.run():
        if x.end != 'ret': continue
        lit = {}; base = None
        for ev in x.events():
            w = e.ident(ev.args[0])
            if ev.model.endswith('basic_string') and w and len(ev.args) > 1 and isp(ev.args[1]):
                s = e.obj_lit(ev.args[1]) if hasattr(e, 'obj_lit') else None
                if s is None: s = literal(e, ev.args[1])
                lit[w] = s
            if ev.model == 'std::vector::vector' and w == (('arg', 0), off) and len(ev.args) > 2:
                base = e.ident(ev.args[1]); n = ev.args[2]
        if base and isc(n): return {k: lit.get((base[0], base[1] + 32 * k)) for k in range(n[2])}, where(f), off
    return None, None, None

def literal(e, p):
    w = e.ident(p)
    if w and w[0][0] == 'glob':
        g = e.f.prog.globals.get(w[0][1]) if hasattr(e.f.prog, 'globals') else None
        if g is not None:
            v = g if isinstance(g, str) else getattr(g, 'text', None) or (g.get('str') if isinstance(g, dict) else None)
            return v
    return None

def codes_match(R, codes):
    tx, at, off = texts()
    used = {c for s, ev, ro in codes.values() for c in s}
    if tx is None or None in tx.values(): R.ob('codes', 'every error code has a text of its own', None, '', 'the texts are not understood')
    else:
        miss = sorted(c for c in used | {0} if c not in tx)
        R.ob('codes', 'every error code that can be returned has a text', not miss, at, 'no text for code %s' % miss if miss else '')
        dup = sorted({t for t in tx.values() if list(tx.values()).count(t) > 1})
        R.ob('codes', 'every error code has a text of its own', not dup, at, 'used more than once: %s' % dup if dup else '')
    # codes of different kinds are different
    by = {}
    for (k, i), (s, ev, ro) in codes.items():
        c = cls(ro)
        if c is None: continue
        by.setdefault((k, c), []).append((s, ev))
    for (k, c), l in sorted(by.items()):
        for s, ev in l:
            R.saw('sites', '%s %s %s' % (k, c, ev.loc()))
            sub = 'a %s %s has an error code of its own' % ('cut off' if k == 'cut' else 'wrong', c)
            if len(s) != 1: R.ob('codes', sub, None, ev.loc(), 'more than one code: %s' % sorted(s)); continue
            v = next(iter(s)); same = sorted({'%s %s' % q for q, m in by.items() if q != (k, c) and any(v in z for z, _ in m) and not (q[1] == c == 'count')})
            t = (tx or {}).get(v); ok = not same; why = 'the same code as for: %s' % same if same else ''
            if ok and t is not None:
                early = bool(re.search(r'eof|premature|truncat|short|end', t, re.I))
                mine = bool(re.search(WORD[c], t, re.I)); other = [d for d in WORD if d != c and re.search(WORD[d], t, re.I) and not (c == 'count' and d == 'key')]
                anyearly = any(re.search(r'eof|premature|truncat|short', z or '', re.I) for z in tx.values())
                if not mine and other: ok = False; why = 'the text for it is "%s"' % t
                elif anyearly and early != (k == 'cut'): ok = False; why = 'the text for it is "%s"' % t
                elif not mine: ok = None; why = 'the text for it is "%s"' % t
            R.ob('codes', sub, ok, ev.loc(), why)
    return by

def checked(R, kind, by):
    """header and version are compared with what is written, and a node is not defined twice"""
    w, r = sides(); e = r.e
    for x in r.r:
        if not ok_ret(x): continue
        for ev in x.events():
            if ev.kind != 'call' or not READ.search(ev.model): continue
            c = cls(kind.get(id(ev.inst)))
            if c not in ('header', 'version'): continue
            ro = kind[id(ev.inst)][3]
            j = [k for k, d in enumerate(e.defs) if d[0] == 'read' and len(d) > 1 and d[1] == id(ev.inst)]
            ok = None; why = ''
            if ro[0] == 'const' and isinstance(ro[1], int) and j:
                n = kind[id(ev.inst)][2]; t = S(8 * n, ('rd', j[0], 0, n)); rg = x.facts.range(t)
                ok = rg == ((ro[1], ro[1]),) if rg else False
                if not ok: why = 'another version than the one that is written is accepted' if c == 'version' else 'another header than the one that is written is accepted'
            elif ro[0] in ('member', 'const'):
                cm = [q for q in x.events() if q.kind == 'call' and q.model in ('memcmp', 'std::equal', 'strncmp', 'bcmp') and q.ret is not None]
                cm = [q for q in cm if any(isp(a) and e.ident(a) == e.ident(ev.args[1]) for a in q.args)]
                if not cm:
                    used = any(any(reads_of(z) and reads_of(z)[0] in j for z in symbols(t)) for t in list(x.facts.known) + list(x.facts.rng))
                    ok = None if used else False; why = 'the header is not looked at'
                else:
                    q = cm[-1]; eq = x.facts.range(q.ret) == ((0, 0),)
                    n = q.args[-1]
                    if q.model == 'std::equal':
                        eq = truth(x.facts, q.ret) is True
                        n = I(64, q.args[1][2] - q.args[0][2]) if isp(q.args[0]) and isp(q.args[1]) and q.args[0][1] == q.args[1][1] and isinstance(q.args[0][2], int) and isinstance(q.args[1][2], int) else None
                        if n is not None and len(q.args) > 3 and isp(q.args[3]) and isp(q.args[2]) and not (q.args[2][1] == q.args[3][1] and q.args[3][2] - q.args[2][2] == n[2]): n = None
                    if n is None: R.ob('checked', 'a file with a wrong %s is rejected' % c, None, ev.loc(), ''); continue
                    other = [a for a in q.args if isp(a) and e.ident(a)[0] != e.ident(ev.args[1])[0]]
                    if ro[0] == 'member': ok = eq and isc(n) and n[2] == kind[id(ev.inst)][2] and any(e.ident(a) == (('arg', 0), ro[1]) for a in other)
                    else: ok = None
                    if ok is False: why = 'another header than the one that is written is accepted'
            R.ob('checked', 'a file with a wrong %s is rejected' % c, ok, ev.loc(), why)
        break
    # duplicate nodes
    n = 0
    for (a, b) in [q for q in sides.pairs if any(sides.pairs_inner(q, p) for p in sides.pairs)]:
        verdict = True; at = where(r.f)
        for x, evs in r.rounds(b):
            keyr = [ev for ev in evs if ev.kind == 'call' and READ.search(ev.model) and cls(kind.get(id(ev.inst))) == 'key']
            asked = [ev for ev in evs if ev.kind == 'call' and re.search(r'(map|set)::(find|count|contains|emplace|insert|try_emplace)$', ev.model) and e.ident(ev.args[0]) and e.ident(ev.args[0])[0] == ('arg', 0)]
            if keyr: at = keyr[0].loc()
            if not asked: verdict = False
            else:
                fresh = False; known = False
                for q in asked:
                    k = short(q)
                    if k in ('count', 'contains') and q.ret is not None:
                        t = truth(x.facts, q.ret); known |= t is not None; fresh |= t is False
                    if k == 'find' and isp(q.ret):
                        for t, v in list(x.facts.known.items()):
                            d = defn(e, t)
                            if d and isinstance(d[0], str) and re.search(r'operator(==|!=)$', d[0]) and str(q.ret) in str(d):
                                known = True; fresh |= v == d[0].endswith('==')
                    if k in ('emplace', 'insert', 'try_emplace') and isinstance(defkey(e, q), tuple):
                        for t, v in list(x.facts.known.items()):
                            if any(str(defkey(e, q)) in str(defn(e, z)) for z in symbols(t)): known = True; fresh |= v is True
                    if k in ('emplace', 'insert', 'try_emplace'): known |= any(str(defkey(e, q)) in str(t) for t in x.facts.known) and not any(z for z in asked if short(z) == 'find'); fresh |= known and not any(short(z) == 'find' for z in asked)
                if not known: verdict = False if not any(short(q) in ('emplace', 'insert', 'try_emplace') and q.ret is not None and q.ret[0] == 's' and any(q.ret in symbols(t) for t in x.facts.known) for q in asked) else None
                elif not fresh: verdict = False
        R.ob('checked', 'a file that defines the node of a symbol twice is rejected', verdict, at, '' if verdict else 'a symbol that already has a node is accepted once more')

def defkey(e, ev):
    return ev.ret[2] if ev.ret is not None and ev.ret[0] == 's' else ev.ret

def stored(R, kind, pairs):
    """what is read ends up where it was written from"""
    w, r = sides(); e = r.e
    for n, (a, b) in enumerate(pairs, 1):
        for x, evs in r.rounds(b):
            rd = [ev for ev in evs if ev.kind == 'call' and READ.search(ev.model)]
            vals = {}
            for ev in rd:
                for j, d in enumerate(e.defs):
                    if d[0] == 'read' and len(d) > 1 and d[1] == id(ev.inst): vals[j] = ev
            keys = {j for j, ev in vals.items() if cls(kind.get(id(ev.inst))) == 'key'}; pv = {j for j, ev in vals.items() if cls(kind.get(id(ev.inst))) == 'value'}
            if not keys: continue
            small = set(); flow = set(); place = set(); order = True; cells = {}
            for k, ev in enumerate(evs):
                if ev.kind == 'store':
                    rr = reads_of(ev.args[1]); wid = e.ident(ev.args[0])
                    if wid and wid[0][0] in ('alloca', 'heap'): cells[wid] = rr
                    if rr and narrowed(ev.args[1]): small.add(rr[0])
                    if rr and wid:
                        d = defn(e, ('p',) + (wid[0], 0)) if wid[0][0] == 'fn' else None
                        fd = [q for q in evs[:k] if q.kind == 'call' and short(q) in ('find', 'at') and isp(q.ret) and (q.ret[1] == wid[0] or isinstance(q.ret[1], tuple) and str(q.ret[1]) in str(defn(e, ('p', wid[0], 0))))]
                        if fd:
                            flow.add(rr[0]); place.add(e.ident(fd[-1].args[0])); kk = arg_read(e, fd[-1], 1, cells)
                            if kk is not None: flow.add(kk)
                            if kk is not None and kk in vals and (kk in pv or rr[0] in keys): order = False
                        elif d and isinstance(d[0], str) and MUT.search(d[0]):
                            flow.add(rr[0])
                            m = [q for q in evs[:k] if q.kind == 'call' and MUT.search(q.model) and isp(q.ret) and q.ret[1] == wid[0]]
                            if m:
                                place.add(e.ident(m[-1].args[0])); kk = arg_read(e, m[-1], 1, cells)
                                if kk is not None and kk in vals and (kk in pv or rr[0] in keys): order = False
                        elif wid[0][0] not in ('alloca',): flow.add(rr[0])
                elif ev.kind == 'call' and MUT.search(ev.model):
                    got = [arg_read(e, ev, i, cells) for i in range(1, len(ev.args))]
                    flow |= {g for g in got if g is not None}
                    small |= {g for g, a2, c2 in zip(got, ev.args[1:], list(ev.info or ())[1:] + [None] * 9) if g is not None and (narrowed(a2) or isinstance(c2, tuple) and len(c2) > 2 and narrowed(c2[2]))}
                    if any(g is not None for g in got) and e.ident(ev.args[0]): place.add(e.ident(ev.args[0]))
                    if len(got) >= 2 and None not in got[:2] and (got[0] in pv or got[1] in keys): order = False
                    if short(ev) in ('push_back', 'insert', 'emplace_back', 'emplace') and len(ev.args) > 1 and isp(ev.args[1]):
                        wd = e.ident(ev.args[1])
                        if wd:
                            for o, side in ((0, keys), (8, pv)):
                                rr = cells.get((wd[0], wd[1] + o))
                                if rr: flow.add(rr[0]); order = order and rr[0] in side
            at = rd[0].loc()
            for what, js in (('symbol', keys), ('probability', pv)):
                if not js: continue
                ok = bool(js & flow)
                if not ok and any(ev.kind == 'call' and MUT.search(ev.model) for ev in evs): ok = None if uses(e, evs, js) else False
                R.ob('stored', 'loop %d: the %s that is read is kept' % (n, what), ok, at, '' if ok else 'it is read and then dropped')
            if small & (keys | pv) & flow: R.ob('stored', 'loop %d: symbols and probabilities are kept as such' % n, False, at, 'what is kept has fewer bits than what was read')
            R.ob('stored', 'loop %d: symbols and probabilities are kept as such' % n, order, at, '' if order else 'one is stored in the place of the other')
            # the container
            wc = walked(w, a)
            if wc and wc[0] == ('arg', 0):
                mine = {p for p in place if p and p[0] == ('arg', 0)}
                ok = True if wc in mine else False if mine and not (place - mine) else None
                R.ob('stored', 'loop %d: what is read goes where it was written from' % n, ok, at, '' if ok else 'it is written from one container, and read into another')
            elif wc:
                # a container inside of an element: the reader may fill another one, and derive this from it afterwards
                ok = False
                for y in r.r:
                    for ev in y.events():
                        if ev.kind == 'call' and (MUT.search(ev.model)) and ev.args and isp(ev.args[0]):
                            q = e.ident(ev.args[0])
                            if q and q[0] != ('arg', 0) and q[0][0] not in ('alloca', 'glob') and q[1] in (wc[1], wc[1] - 8): ok = True
                R.ob('stored', 'loop %d: what is read goes where it was written from' % n, ok, at, '' if ok else 'the container that is written out is never filled by the reader')

def uses(e, evs, js):
    for ev in evs:
        if ev.kind == 'call' and not READ.search(ev.model) and any(("('rd', %d," % j) in str(ev.info) + str(ev.args) for j in js): return True
        if ev.kind == 'store' and any(("('rd', %d," % j) in str(ev.args[1]) for j in js): return True
    return False

def arg_read(e, ev, i, cells):
    """number of the read whose result is argument i of a call (by value or by reference)"""
    if i >= len(ev.args): return None
    a = ev.args[i]
    if not isp(a):
        r = reads_of(a); return r[0] if r else None
    c = ev.info[i] if ev.info and len(ev.info) > i else None
    if isinstance(c, tuple) and c[0] == 'c' and len(c) > 2:
        r = reads_of(c[2]) if c[2] is not None else None
        if r: return r[0]
    r = cells.get(e.ident(a))
    return r[0] if r else None

def walked(w, a):
    for x in w.r:
        evs = x.events(); ks = [k for k, ev in enumerate(evs) if ev.kind == 'loop' and ev.args[0][2] == a]
        if not ks: continue
        bg = [ev for ev in evs[:ks[-1]] if ev.kind == 'call' and re.search(r'::c?begin$', ev.model)]
        if bg: return w.e.ident(bg[-1].args[0])
    return None

def fileformat(R):
    try: kind, pairs = layout(R)
    except Broken: return
    w, r = sides()
    sides.pairs = pairs
    sides.pairs_inner = lambda q, p: p != q and p[1] in r.e.loop[q[1]]
    loops(R, kind, pairs)
    codes = failing(R, kind)
    by = codes_match(R, codes)
    checked(R, kind, by)
    stored(R, kind, pairs)
    used(R)

def used(R):
    """the lookup goes on only with a chain that was loaded, the generator saves what it has computed"""
    p = program(READER + '!web'); f = p.one('main')
    e = Engine(f, keep=lambda ev: ev.kind == 'loop' or ev.kind == 'call' and bool(re.search(r'^pwned::markov::Chain::(?!~|Chain$)', ev.model)), width=12, max_states=20000)
    r = e.run(); ok = None; at = where(f)
    for x in r:
        ld = [ev for ev in x.events() if ev.model.endswith('::loadBinary')]
        pr = [ev for ev in x.events() if ev.kind == 'call' and re.search(r'Probability$', ev.model)]
        if ld: at = ld[-1].loc()
        if pr and ld: ok = (ok is not False) and x.facts.range(ld[-1].ret) == ((0, 0),)
        elif ld and ok_ret(x) and x.facts.range(ld[-1].ret) != ((0, 0),) : ok = False
    R.ob('used', 'a chain that could not be loaded is not used', ok, at, '' if ok else 'the result of loading is not looked at')

# ---------------------------------------------------------------- C22
def fz(t): return isinstance(t, tuple) and t[0] == 's' and isinstance(t[2], tuple) and t[2][0] == 'f' and float(t[2][1]) == 0
FIND = re.compile(r'(^std::(find|find_if|lower_bound|upper_bound)|::find|::lower_bound)$')

def total(R):
    p = program(READER)
    res = {}
    for name in ('pwned::markov::Chain::totalProbability', 'pwned::markov::Node::probability'):
        f = p.one(name)
        e = Engine(f, keep=lambda ev: ev.kind in ('loop', 'load') or ev.kind == 'call', max_states=20000, width=24); e.record = True; e.loopinits = True
        r = e.run(); R.saw('functions', f.dem[:100]); R.saw('paths', *('%s/%d' % (name, k) for k in range(len(r))))
        for x in r:
            evs = x.events(); cmpd = []
            if x.end not in ('ret', 'back'):
                if any(ev.kind == 'call' and re.search(r'::at$|__throw|_throw', ev.model) for ev in evs[-1:]) : res[('throws', name)] = (False, evs[-1].loc(), 'an exception can leave the computation')
                continue
            for k, ev in enumerate(evs):
                if ev.kind == 'load' and ev.info is None: pass
                if ev.kind != 'call': continue
                if re.search(r'::at$', ev.model) and re.search(r'map::at$', ev.model): res[('at', id(ev.inst))] = (False, ev.loc(), 'a transition that was never seen throws an exception')
                if re.search(r'operator(==|!=)$', ev.model) and ev.ret is not None and len(ev.args) == 2 and ev.info and len(ev.info) >= 2:
                    v = x.facts.decide(ev.ret); c = [content(q) for q in ev.info[:2]]
                    if v is not None: cmpd.append((ev, c, v == ev.model.endswith('==')))
                if re.search(r'iterator::operator(->|\*)$', ev.model) and ev.info:
                    c = content(ev.info[0]); d = defn(e, c) if c is not None else None
                    fromfind = d is not None and isinstance(d[0], str) and bool(FIND.search(d[0]))
                    carried = c is not None and isp(c) and isinstance(c[1], tuple) and c[1][0] == 'lc' and '_Node_' in ev.model
                    if not fromfind and not carried: continue
                    cs = [eq for q, cc, eq in cmpd if c in cc]
                    ok = False if not cs else not any(cs)
                    key = ('deref', id(ev.inst))
                    if res.get(key, (True,))[0] is not False: res[key] = (ok, ev.loc(), '' if ok else 'what a search returned is used without looking whether anything was found')
            # nothing found: probability 0
            for q, cc, eq in cmpd:
                d = [defn(e, c) for c in cc]
                node = any(z and isinstance(z[0], str) and FIND.search(z[0]) for z in d) or q.model.startswith('std::__detail')
                if not eq or not node: continue
                key = ('zero', id(q.inst))
                atend = [z for z in cmpd if z[0].model.startswith('__gnu_cxx') and not any(dd and isinstance(dd[0], str) and FIND.search(dd[0]) for dd in [defn(e, c) for c in z[1]])]
                if x.end == 'ret': ok = True if fz(x.val) else False if isinstance(x.val, tuple) and x.val[0] == 's' and x.val[2] and x.val[2][0] == 'phi' and atend and not any(z[2] for z in atend) else None if not isinstance(x.val, tuple) or x.val[0] != 's' else False if x.val[2] and x.val[2][0] in ('f', 'init') else None
                else:
                    ok = None
                    for v, (old, new) in (x.nxt or {}).items():
                        dn = defn(e, new)
                        if fz(new) or dn and dn[0] == 'fmul' and any(fz(z) for z in dn[2]): ok = True
                        elif new == old or dn and dn[0] == 'fmul': ok = False if ok is not True else True
                if ok is False or key not in res or res[key][0] is None and ok: res[key] = (ok, q.loc(), '' if ok else 'something that was never seen does not make the probability 0')
            # the product
            if x.end == 'back':
                for v, (old, new) in (x.nxt or {}).items():
                    dn = defn(e, new)
                    if not dn or dn[0] not in ('fmul', 'fadd', 'fdiv', 'fsub'): continue
                    ok = dn[0] == 'fmul' and (old in dn[2])
                    key = ('product', id(f))
                    why = ''
                    if ok and v in inits(x, x.head):
                        q = inits(x, x.head)[v]
                        if q[0] == 's' and isinstance(q[2], tuple) and q[2][0] == 'f' and not fz(q) and any(z.end == 'ret' and z.val == old for z in r): ok = False; why = 'the probability of the first symbol is left out'
                    for z in [z for z in dn[2] if z != old]:
                        n = nodeof(e, evs, z)
                        if ok and n is not None and n[1] == ('p', ('lc', x.head) + n[0], 0) and (x.mem.get(n[0][0], {}).get(n[0][1]) or (0, n[1]))[1] == n[1]: ok = False; why = 'the node whose transition is looked up never changes'
                        elif ok and n is not None and isp(n[1]):
                            fk = [q for q in evs if q.kind == 'call' and FIND.search(q.model) and q.ret == n[1]]
                            key1 = content(fk[-1].info[1]) if fk and len(fk[-1].info) > 1 else None
                            if fk and key1 is None and e.ident(fk[-1].args[1]) and n[2] is not None and n[2][0] == 's' and isinstance(n[2][2], tuple) and n[2][2][0] == 'init' and e.ident(fk[-1].args[1]) == (n[2][2][1], n[2][2][2]): key1 = n[2]
                            ks = [k for k, q in enumerate(evs) if q.kind == 'loop' and q.args[0][2] == x.head]
                            if fk and ks and evs.index(fk[-1]) < ks[-1]: ok = False; why = 'the node whose transition is looked up never changes'
                            elif fk and n[2] is not None and key1 == n[2]: ok = False; why = 'the transition is looked up in the node of the symbol itself'
                    if why: res[key] = (ok, where(f), why)
                    if res.get(key, (True,))[0] is not False: res[key] = (ok, where(f), '' if ok else 'the probabilities are not multiplied')
    for (k, _), (ok, at, why) in sorted(res.items(), key=lambda q: (q[0][0], q[1][1])):
        R.ob('total', {'deref': 'a search result is used only if something was found', 'zero': 'what was never seen has probability 0', 'product': 'the probability of a password is the product of its transitions', 'throws': 'no exception', 'at': 'no exception'}[k], ok, at, why)
    if not any(k[0] == 'deref' for k in res): R.ob('total', 'a search result is used only if something was found', None, '', 'no search was found')

def inits(x, h):
    l = [ev for ev in x.events() if ev.kind == 'loop' and ev.args[0][2] == h]
    return {q[0][1]: q[1] for q in l[-1].info if q[0][0] == 'phi'} if l and l[-1].info else {}

def nodeof(e, evs, z):
    """of a factor that is the value of an entry found in a node: ((cell of the iterator of the node), its content, the key that was looked up)"""
    if not (z[0] == 's' and isinstance(z[2], tuple) and z[2][0] == 'init'): return None
    def deref(b):
        l = [q for q in evs if q.kind == 'call' and re.search(r'iterator::operator(->|\*)$', q.model) and isp(q.ret) and q.ret[1] == b and q.info]
        return (e.ident(l[-1].args[0]), content(l[-1].info[0])) if l else (None, None)
    c, it = deref(z[2][1])
    if it is None: return None
    fk = [q for q in evs if q.kind == 'call' and FIND.search(q.model) and q.ret == it]
    if not fk: return None
    w = e.ident(fk[-1].args[0])
    if not w: return None
    c, n = deref(w[0])
    return (c, n, content(fk[-1].info[1]) if len(fk[-1].info) > 1 else None) if n is not None and c is not None else None

def content(q):
    return q[2] if isinstance(q, tuple) and q and q[0] == 'c' and len(q) > 2 else None

def strip(t):
    while isinstance(t, tuple) and t[0] == 'x' and t[2] in ('zext', 'sext'): t = t[3]
    return t

def intof(e, t):
    """the integer a floating-point value was made from"""
    d = defn(e, t)
    return d[2][0] if d and d[0] in ('uitofp', 'sitofp') else None

def frequencies(R):
    p = program(WRITER); f = p.one('pwned::markov::Chain::update')
    e = Engine(f, keep=lambda ev: ev.kind in ('loop', 'store') or ev.kind == 'call' and bool(re.search(r'operator\[\]|accumulate|begin|end|copy|resize|emplace|insert', ev.model)), max_states=20000, width=24); e.record = True
    r = e.run(); R.saw('functions', f.dem[:100]); R.saw('paths', *('update/%d' % k for k in range(len(r))))
    seen = {}
    for x in r:
        evs = x.events()
        if x.end != 'back': continue
        ks = [k for k, ev in enumerate(evs) if ev.kind == 'loop' and ev.args[0][2] == x.head]
        for ev in evs[ks[-1]:] if ks else []:
            if ev.kind != 'store': continue
            v = ev.args[1]; d = defn(e, v); i = intof(e, v) if not isp(v) else None
            w = e.ident(ev.args[0])
            if i is not None and any(isinstance(z, tuple) and len(z) > 2 and z[2] in ('udiv', 'sdiv') for z in walk(e, i)): seen[('int', id(ev.inst))] = (False, ev.loc(), 'an integer division'); continue
            if not d or d[0] != 'fdiv': continue
            num, den = [intof(e, q) for q in d[2]]
            tgt = defn(e, ('p', w[0], 0)) if w else None
            ok = None; why = 'not understood'
            if num is not None and den is not None:
                ok = True; why = ''
                for what, t in (('number of observations', num), ('total', den)):
                    if width(t) < 64 or narrow(e, t): ok = False; why = 'the %s is cut off at 32 bits' % what
                n = strip(num); c = None
                if ok and n[0] == 's' and isinstance(n[2], tuple) and n[2][0] == 'init':
                    if n[2][2] != 8: ok = False; why = 'what is divided is not the number of observations'
                dd = defn(e, strip(den))
                if ok and dd and dd[0] == 'std::accumulate':
                    acc = [q for q in evs if q.kind == 'call' and q.model == 'std::accumulate' and q.ret == strip(den)]
                    if acc:
                        a = acc[-1]
                        if not (isc(a.args[2]) and a.args[2][2] == 0): ok = False; why = 'the total does not start at 0'
                        # same container as the one that is walked through
                        bg = [q for q in evs[:ks[-1]] if q.kind == 'call' and re.search(r'::c?begin$', q.model)]
                        if ok and bg and isp(a.args[0]) and isp(bg[-1].ret) and a.args[0] != bg[-1].ret and e.ident(bg[-1].args[0]) != beginof(e, evs, a.args[0]) and beginof(e, evs, a.args[0]) is not None: ok = False; why = 'the total is that of another container'
                elif ok and dd and isinstance(dd[0], str) and re.search(r'::(size|count)$', dd[0]): ok = False; why = 'divided by the number of entries, not by the number of observations'
                elif ok and num == den: ok = False; why = 'divided by itself'
                elif ok and dd is None and strip(den)[0] == 's' and strip(den)[2] and strip(den)[2][0] == 'init': ok = False if strip(den)[2][1] == (n[2][1] if n[0] == 's' else None) else None
            else:
                # not made from integers
                ok = None
            m = [q for q in evs if q.kind == 'call' and 'operator[]' in q.model and isp(q.ret) and w and q.ret[1] == w[0]]
            place = e.ident(m[-1].args[0]) if m else None
            if ok and m:
                k = e.ident(m[-1].args[1])
                if k and num and strip(num)[0] == 's' and isinstance(strip(num)[2], tuple) and strip(num)[2][0] == 'init' and k != (strip(num)[2][1], 0) and k[0][0] not in ('alloca',): ok = False; why = 'the probability is stored for another symbol'
            seen[('freq', id(ev.inst), place)] = (ok, ev.loc(), why)
    places = {k[2] for k in seen if k[0] == 'freq' and k[2]}
    for k, (ok, at, why) in sorted(seen.items(), key=lambda q: q[1][1]): R.ob('frequencies', 'a probability is the number of observations divided by their total', ok, at, why)
    if not seen: R.ob('frequencies', 'a probability is the number of observations divided by their total', None, where(f), 'no division was found')
    elif all(k[0] == 'freq' for k in seen):
        ok = True if any(q[0] == ('arg', 0) for q in places) and any(q[0] != ('arg', 0) for q in places) else False if None not in [k[2] for k in seen] and len(seen) == 1 and len(places) == 1 else None
        R.ob('frequencies', 'both first symbols and transitions get their probabilities', ok, where(f), '' if ok else 'only one of the two is computed')
    # accumulation in full width
    for x in r[:1] + [x for x in r if x.end == 'back']:
        for ev in x.events():
            if ev.kind == 'call' and ev.model == 'std::accumulate' and ev.ret is not None and ('acc', id(ev.inst)) not in seen:
                ok = width(ev.ret) == 64; seen[('acc', id(ev.inst))] = 1
                R.ob('frequencies', 'observations are added up in 64 bits', ok, ev.loc(), '' if ok else 'the sum is kept in %d bits' % width(ev.ret))
    for g in p.funcs.values():
        if g.proj and re.match(r'pwned::markov::(Chain|Node)<.*>::update\(\)::.*operator\(\)|pwned::markov::(Chain|Node)::update\(\)?::.*operator\(\)', g.dem) or g.proj and re.match(r'pwned::markov::(Chain|Node)::update.*operator\(\)$', g.model):
            if g.ret not in ('i64', 'i32'): continue
            ge = Engine(g, keep=lambda ev: ev.kind == 'call', width=8); ok = True
            for x in ge.run():
                if x.end != 'ret' or x.val is None: continue
                v = x.val; sy = symbols(v) if isinstance(v, tuple) else []
                if len(sy) < 2 and not isp(v) and all(isinstance(q[2], tuple) and q[2][0] in ('init', 'arg') for q in sy): ok = False
                elif len(sy) >= 2:
                    z = evalterm(v, {q: k for q, k in zip(sy, (3, 5))})
                    if z is not None and len(sy) == 2 and z != 8: ok = False
            if ge.cut: continue
            R.ob('frequencies', 'observations are added up', ok, where(g), '' if ok else 'the total is not the sum of all observations')
    for g in p.funcs.values():
        if g.proj and re.match(r'pwned::markov::(Chain|Node)::update\(\)', g.model) and g.ret in ('i64', 'i32', 'i16'):
            g.load(); bad = [i for i in g.insts() if i.op == 'trunc' or i.op == 'add' and False] or (g.ret != 'i64')
            R.ob('frequencies', 'observations are added up in 64 bits', not bad, where(g), 'the sum is cut off' if bad else '')
    # the sorted list, from which first symbols are looked up, follows the probabilities
    t = program(READER).one('pwned::markov::Chain::totalProbability')
    te = Engine(t, keep=lambda ev: ev.kind == 'call' and bool(re.search(r'::c?begin$', ev.model)), width=12); look = set()
    for x in te.run():
        for ev in x.events():
            q = te.ident(ev.args[0])
            if q and q[0] == ('arg', 0): look.add(q[1])
    for off in sorted(look):
        if (('arg', 0), off) in places: continue
        ok = True
        for x in r:
            if x.end != 'ret': continue
            if not any(ev.kind == 'call' and MUT.search(ev.model) and e.ident(ev.args[0]) == (('arg', 0), off) for ev in x.events()): ok = False
        R.ob('frequencies', 'the list that is searched is brought up to date', ok, where(f), '' if ok else 'the list that is searched is not filled')

def beginof(e, evs, p):
    for q in evs:
        if q.kind == 'call' and re.search(r'::c?begin$', q.model) and q.ret == p: return e.ident(q.args[0])
    return None

def walk(e, t, d=0, out=None):
    out = [] if out is None else out
    if d > 8 or not isinstance(t, tuple): return out
    out.append(t)
    for q in t: walk(e, q, d + 1, out)
    return out
def narrow(e, t):
    return any(isinstance(z, tuple) and len(z) > 3 and z[0] == 'x' and z[2] == 'trunc' and z[1] < 64 for z in walk(e, t))

def counting(R):
    p = program(WRITER); f = p.one('pwned::markov::Chain::train')
    e = Engine(f, keep=lambda ev: ev.kind == 'loop' or ev.kind == 'store' and not (isp(ev.args[0]) and ev.args[0][1] and ev.args[0][1][0] == 'alloca') or ev.kind == 'call' and bool(re.search(r'operator\[\]|empty|size|emplace|insert|utf_to_utf|::at$', ev.model)), max_states=20000, width=24); e.record = True
    r = e.run(); R.saw('functions', f.dem[:100]); R.saw('paths', *('train/%d' % k for k in range(len(r))))
    def incs(x, evs):
        """[(container, index of the character that is the key, step, width, event)]"""
        out = []
        for k, ev in enumerate(evs):
            if ev.kind != 'store': continue
            w = e.ident(ev.args[0])
            m = [q for q in evs[:k] if q.kind == 'call' and 'operator[]' in q.model and isp(q.ret) and w and q.ret[1] == w[0]]
            if not m or w[1] != 0: continue
            out.append((e.ident(m[-1].args[0]), charof(m[-1]), ev.args[1], ev, m[-1]))
        return out
    def charof(ev):
        c = content(ev.info[1]) if ev.info and len(ev.info) > 1 else None
        if c is None and not isp(ev.args[1]): c = ev.args[1]
        if c is not None and c[0] == 's' and isinstance(c[2], tuple) and c[2][0] == 'init' and isinstance(c[2][1], tuple) and c[2][1][0] == 'cstr': return c[2][2]
        return None
    # first symbols
    first = None; at = where(f)
    for x in r:
        if x.end != 'ret' or not (isc(x.val) and x.val[2]): continue
        l = [q for q in incs(x, x.events()) if q[0] and q[0][0] == ('arg', 0)]
        if not l:
            first = False; continue
        at = l[0][3].loc()
        evl = x.events()
        for q in evl:
            if q.kind == 'call' and re.search(r'map::(emplace|try_emplace|insert)$', q.model) and e.ident(q.args[0]) == l[0][0]:
                st = content(q.info[2]) if q.info and len(q.info) > 2 else None
                if st is None and len(q.args) > 2 and isc(q.args[2]): st = q.args[2]
                if st is not None and isc(st) and st[2] != 0: first = False
        for c, ch, v, ev, m in l:
            one = v[0] == '+' and v[1] == 64 and v[2] == 1
            if width(v) < 64: first = False
            elif v[0] == '+' and v[2] != 1: first = False
            elif ch is not None and ch not in (0, I(64, 0)): first = False
            elif first is None and one: first = True
    R.ob('counting', 'each password counts once for its first symbol', first, at, '' if first else 'the first symbol of a password is not counted, not once, or not in 64 bits')
    # pairs
    heads = [h for h in e.heads if any(x.end == 'back' and x.head == h and incs(x, x.events()) for x in r)]
    for h in heads:
        ok = None; why = ''; at = where(f)
        for x in r:
            if x.end != 'back' or x.head != h: continue
            evs = x.events(); ks = [k for k, ev in enumerate(evs) if ev.kind == 'loop' and ev.args[0][2] == h]
            seg = evs[ks[-1]:]
            l = [q for q in incs(x, seg) if q[0] and q[0][0] != ('arg', 0)]
            if not l:
                ok = False; why = 'a round counts nothing'; continue
            for c, ch, v, ev, m in l:
                at = ev.loc()
                if width(v) < 64: ok = False; why = 'the counter has %d bits' % width(v); continue
                if v[0] == '+' and v[2] != 1: ok = False; why = 'counted by %d' % v[2]; continue
                outer = [q for q in seg if q.kind == 'call' and 'operator[]' in q.model and isp(q.ret) and q.ret[1] == c[0]]
                a = charof(outer[-1]) if outer else None
                if a is None or ch is None: continue
                env = {}
                d = None
                for k in (0, 1, 5):
                    env = {q: k for t in (a, ch) if isinstance(t, tuple) for q in symbols(t)}
                    va, vc = [evalterm(t, env) if isinstance(t, tuple) else t for t in (a, ch)]
                    if va is None or vc is None: d = None; break
                    if vc != va + 1: d = False; break
                    d = True
                if d is False: ok = False; why = 'the pair that is counted is not a symbol and its successor'
                elif d and ok is None: ok = True
        R.ob('counting', 'each symbol and its successor are counted together', ok, at, why)
        # all pairs
        verdict = None
        for br, c, v, st in e.exits(h):
            its = [q for q in symbols(c) if q[2] == ('iter', h)]; sz = [q for q in symbols(c) if q not in its]
            if not its or len(sz) != 1: continue
            d = defn(e, sz[0])
            if not d or not str(d[0]).endswith(('::size', '::length')): continue
            good = True
            # position of the first symbol of a pair in round k
            pos = None
            for x in r:
                if x.end == 'back' and x.head == h:
                    for cc, ch, vv, ev, m in incs(x, x.events()):
                        if ch is not None and isinstance(ch, tuple) and cc[0] != ('arg', 0): pos = ch
            for n in range(2, 6):
                rounds = None
                for k in range(0, 7):
                    env = {q: k for q in its}; env[sz[0]] = n
                    z = evalterm(c, env)
                    if z is None: rounds = None; break
                    if bool(z) == v: rounds = k; break
                if rounds is None: good = None; break
                last = evalterm(pos, {q: 0 for q in symbols(pos)}) if pos is not None else None
                if rounds != n - 1: good = False
            if good is not None: verdict = good if verdict is None else verdict and good
            szs = lambda x: [ev.ret for ev in x.events() if ev.kind == 'call' and ev.model.endswith(('::size', '::length')) and ev.ret is not None and ev.ret[0] == 's' and str(ev.args[0]) == str(szrecv)]
            szrecv = next((ev.args[0] for x in r for ev in x.events() if ev.kind == 'call' and ev.ret == sz[0]), None)
            for x in r:
                if szrecv is None or x.end != 'ret' or not (isc(x.val) and x.val[2]) or any(ev.kind == 'loop' and ev.args[0][2] == h for ev in x.events()): continue
                l = szs(x)
                if l and x.facts.consistent({q: 2 for q in l}) and not any(m[0] != 'hull' for m in x.imp):
                    if any(x.facts.range(q) not in (None, ((0, 2 ** 64 - 1),)) for q in l): verdict = False
        R.ob('counting', 'every pair of neighbours in a password is counted', verdict, where(f), '' if verdict is not False else 'the loop does not run once for every pair')
    if not heads: R.ob('counting', 'each symbol and its successor are counted together', None, where(f), 'no counting loop was found')
    # refused passwords
    ok = None; at = where(f)
    for x in r:
        if x.end == 'ret' and isc(x.val) and not x.val[2]:
            em = [ev for ev in x.events() if ev.kind == 'call' and re.search(r'::(empty|size|length)$', ev.model) and ev.ret is not None]
            good = any((truth(x.facts, ev.ret) is True) == ev.model.endswith('empty') and truth(x.facts, ev.ret) is not None for ev in em)
            ok = good if ok is None else ok and good
    R.ob('counting', 'only empty passwords are left out', ok, at, '' if ok else 'a password that is not empty is not counted')
    # the generator
    p = program(WRITER + '!web'); g = p.one('main')
    e = Engine(g, keep=lambda ev: ev.kind == 'loop' or ev.kind == 'call' and bool(re.search(r'^pwned::markov::Chain::(train|update|saveBinary)|::nextPassword$|basic_string::(empty|size)$', ev.model)), width=12, max_states=30000)
    try: r = e.run()
    except TooBig: R.ob('counting', 'every password that is read is counted', None, where(g), 'too big'); return
    tr = up = None; at = where(g)
    for x in r:
        evs = x.events()
        if x.end == 'back':
            ks = [k for k, ev in enumerate(evs) if ev.kind == 'loop' and ev.args[0][2] == x.head]; seg = evs[ks[-1]:] if ks else []
            nx = [ev for ev in seg if ev.kind == 'call' and ev.model.endswith('nextPassword')]; t = [ev for ev in seg if ev.kind == 'call' and ev.model.endswith('::train')]
            if nx:
                at = nx[0].loc()
                if t: tr = tr is not False
                elif not any(ev.kind == 'call' and re.search(r'::(empty|size)$', ev.model) and ev.ret is not None and truth(x.facts, ev.ret) is not None for ev in seg): tr = False
        sv = [k for k, ev in enumerate(evs) if ev.kind == 'call' and ev.model.endswith('::saveBinary')]
        if sv:
            u = [k for k, ev in enumerate(evs) if ev.kind == 'call' and ev.model.endswith('::update')]; t = [k for k, ev in enumerate(evs) if ev.kind == 'call' and ev.model.endswith('::train')]
            up = (up is not False) and bool(u) and u[-1] < sv[0] and (not t or u[-1] > t[-1])
    R.ob('counting', 'every password that is read is counted', tr, at, '' if tr else 'a password is read and not counted')
    R.ob('counting', 'probabilities are computed before they are saved', up, where(g), '' if up else 'the chain is saved without computing the probabilities from the counts')
