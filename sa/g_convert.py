"""The converter: every password line is counted once, every count is written once."""
from ir import program
from absint import *
from report import where
from g_record import layout
from g_text import probe
from g_reader import Txt, LENGTHS, length_env, size_syms, line_contents, exactlen

T = 'pwned-converter-cli'
MAP = re.compile(r'^std::(unordered_)?map::(map|~map|unordered_map|~unordered_map|clear|begin|end|cbegin|cend|empty|size|operator\[\]|at|find|insert|emplace|try_emplace|insert_or_assign|swap|erase|operator=)$')
KE = re.compile(r'^std::(getline|sort|stable_sort)$|^std::vector::(vector|push_back|emplace_back|insert|clear|~vector|erase|pop_back|resize|swap|assign)$|^std::ostream::(write|put)$|_iterator(_base)?::(operator\+\+|operator\+=|operator\+)$|^std::(next|advance)$|basic_string::(empty|size|length)$')
GROW = ('push_back', 'emplace_back', 'insert', 'resize', 'assign')

def short(ev): return ev.model.rsplit('::', 1)[-1]
def keep(ev):
    if ev.kind == 'store': return isp(ev.args[0]) and ev.args[0][1] is not None and not isp(ev.args[1]) and width(ev.args[1]) == 32
    return ev.kind == 'call' and bool(KE.search(ev.model) or MAP.search(ev.model))

def run(R):
    p = program(T)
    f = p.one('ConvertOperation::execute')
    R.saw('functions', f.dem)
    fl = cancel_flags(p)
    def kp(ev): return isp(ev.args[0]) and ev.args[0][1] == ('arg', 0) and ev.args[0][2] in fl if ev.kind == 'aload' else keep(ev)
    # waiting while paused: of no interest here
    def waits(s, i, st, args, m): s.blind.add(args[0][1]); return 'default'
    WAIT = ('std::condition_variable::wait', 'std::condition_variable::wait_for')
    e = Engine(f, keep=kp, max_states=160000, models={m: waits for m in WAIT})
    e.quiet = {h for h, b in e.loop.items() if any(i.op in ('call', 'invoke') and getattr(i, 'model', None) in WAIT for k in b if not any(g != h and k in c and g in b for g, c in e.loop.items()) for i in e.f.blocks[k])}; e.loopinits = True; e.record = True
    e.cut = {h for h in e.heads if not any(h in b for g, b in e.loop.items() if g != h)}
    return p, f, e, e.run()

_memo = {}
def analysis(R):
    if 'x' not in _memo:
        try: _memo['x'] = run(R)
        except TooBig as t: _memo['x'] = t
    return _memo['x']

def cancel_flags(p):
    """members of an operation that cancel() sets"""
    out = set()
    for g in p.funcs.values():
        if g.model.endswith('Operation::cancel'):
            try:
                for x in Engine(g, keep=lambda ev: ev.kind == 'astore').run():
                    for ev in x.events():
                        if ev.kind == 'astore' and isp(ev.args[0]) and ev.args[0][1] == ('arg', 0): out.add(ev.args[0][2])
            except TooBig: pass
    return out

def counting(R, which='both'):
    a = analysis(R)
    if isinstance(a, TooBig): R.ob('convert', 'ConvertOperation::execute', None, T, str(a)); return
    p, f, e, ps = a
    R.saw('functions', f.dem); R.saw('paths', *('%s:%d' % (f.model, k) for k in range(len(ps))))
    def ob(sub, ok, msg='', at=None, rule='convert'):
        if which == 'order' and rule != 'order' and not sub.startswith('each chunk starts with an empty'): return
        R.ob(rule, 'ConvertOperation::execute: ' + sub, ok, at or where(f), msg)
    T_ = Txt(e); flags = cancel_flags(p); lay = probe(R, 'inspect'); ho, co = layout(lay) if lay is not None else (0, 24)
    def cancelled(x):
        for ev in x.events():
            if ev.kind == 'aload' and isp(ev.args[0]) and ev.args[0][1] == ('arg', 0) and ev.args[0][2] in flags and ev.ret is not None:
                if x.facts.decide(trunc(ev.ret, 1)) is True or x.facts.decide(icmp('ne', ev.ret, I(width(ev.ret), 0))) is True: return True
        return False
    # the counting loop: the innermost loop whose rounds read a line and touch a map
    H = set(); O = set()
    paths = []
    for x in ps:
        evs = x.events(); heads = [(k, ev.args[0][2]) for k, ev in enumerate(evs) if ev.kind == 'loop']
        paths.append((x, evs, heads))
        if x.end != 'back': continue
        ks = [k for k, h in heads if h == x.head]
        if not ks: continue
        seg = evs[ks[-1]:]
        if any(ev.kind == 'call' and ev.model == 'std::getline' for ev in seg) and any(ev.kind == 'call' and MAP.search(ev.model) and short(ev) in ('operator[]', 'insert', 'emplace', 'try_emplace', 'find', 'at', 'insert_or_assign') for ev in seg): H.add(x.head)
    H = {h for h in H if not any(g != h and g in e.loop[h] for g in H)}
    if len(H) != 1:
        # one line after the other into something else than a map
        ob('lines are counted', None, 'no loop that reads lines and counts in a map was recognised'); return
    (h,) = H; inner = e.loop[h]
    outer = {g for g, b in e.loop.items() if h in b and g != h}
    st = {'rounds': 0}
    for x, evs, heads in paths:
        if x.end == 'throw' or x.end not in ('back', 'ret'): continue
        if x.end == 'back' and x.head != h and x.head in inner: continue
        ks = [k for k, g in heads if g == h]
        if not ks: continue
        k0 = ks[-1]; k1 = next((k for k, g in heads if k > k0 and g not in inner), len(evs))
        seg = evs[k0:k1]
        canc = cancelled(x)
        gl = [ev for ev in seg if ev.kind == 'call' and ev.model == 'std::getline']
        if gl: round_(R, e, x, seg, gl, T_, ob, canc, st)
        if not gl and x.end == 'back' and x.head == h and any(ev.kind == 'call' and MAP.search(ev.model) and short(ev) == 'operator[]' for ev in seg) and not any(ev.kind == 'loop' and ev.args[0][2] != h for ev in seg):
            ob('a line is counted once', False, 'a count is raised although no line was read', seg[-1].loc())
        # what becomes of the chunk
        if x.end == 'back' and x.head == h or canc: continue
        chunk(R, e, x, evs, heads, h, k0, k1, outer, ob, which, co, st)
    for o in outer:
        for br, c, v, q in e.exits(o):
            y = At(q)
            if cancelled(y): continue
            if throws(e, br.bb[0] if v else br.bb[1]): continue
            imp = any(m[0] != 'hull' for m in q.imp)
            ok = True if ended(q) else None if imp else False
            ob('the input is converted up to its end', ok, 'the rest of the input is not converted', br.loc())
    fresh(R, e, paths, h, outer, ob)
    vector_loops(R, e, paths, h, inner, outer, ob, co, which)
    left_over(R, e, ob)
    if not st['rounds']: ob('a line is counted once', None, 'no complete round')

def password(e, x, evs, T_):
    pw = None
    for ev in evs:
        if ev.kind == 'call' and re.search(r'basic_string::(empty|size|length)$', ev.model) and ev.info:
            C = ev.info[0][1] if ev.info[0][0] == 'c' else None
            ch = T_.chain(C) if C is not None else None
            if ch and ch[-1][1] == ('line',) and any(q[0] in ('sub', 'nochr') for _, q in ch): pw = C
    return pw

def round_(R, e, x, seg, gl, T_, ob, canc, st):
    loc = gl[0].loc()
    if any(q[0] != 'hull' for q in x.imp): imp = True
    else: imp = False
    if len(gl) > 1:
        ob('no line is skipped', None if imp else False, 'more than one line is read before one is counted', gl[1].loc()); return
    # increments
    inc = []; other = False; seen = {}
    for ev in seg:
        if ev.kind == 'call' and MAP.search(ev.model):
            n = short(ev)
            if n == 'operator[]' and ev.ret is not None and isp(ev.ret): seen[ev.ret[1]] = ev
            elif n in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'find', 'at', 'erase', 'clear', 'swap'): other = True
        if ev.kind == 'store' and ev.args[0][1] in seen: inc.append(ev)
    ins = [ev for ev in seg if ev.kind == 'call' and MAP.search(ev.model) and short(ev) in ('insert', 'emplace', 'try_emplace')]
    if len(ins) == 1 and not seen and not any(ev.kind == 'call' and MAP.search(ev.model) and short(ev) in ('find', 'at', 'count', 'contains', 'insert_or_assign', 'lower_bound') for ev in seg) and not raised(e, ins[0]):
        ob('a count is raised by one', False, 'the count of a hash that was counted before is not raised', ins[0].loc()); return
    if other: ob('a line is counted once', None, 'a map operation that is not understood', loc); return
    for ev in inc:
        old = S(32, ('init', ev.args[0][1], ev.args[0][2], 4))
        v = ev.args[1]
        old = next((y for y in symbols(v) if isinstance(y[2], tuple) and y[2][:3] == ('init',) + ev.args[0][1:]), old)
        d = sub(v, old)
        if isc(v): ob('a count is raised by one', False, 'the count is set to %d' % v[2], ev.loc())
        elif isc(d): ob('a count is raised by one', d[2] == 1, 'the count is changed by %d' % sval(d), ev.loc())
        elif len(inc) == 1: ob('a count is raised by one', None, 'count %s raised to %s' % (tstr(old), tstr(v)), ev.loc())
    L = None
    for ev in seg:
        if ev.kind == 'call' and ev.info and 'basic_string::' in ev.model and ev.info[0][0] == 'c':
            ch = T_.chain(ev.info[0][1])
            if ch and ch[-1][1] == ('line',): L = ch[-1][0]
    if L is None: ob('a line is counted once', None, 'line', loc); return
    pw = password(e, x, seg, T_)
    good = [n for n in LENGTHS if x.facts.consistent(length_env(e, L, n))]
    valid = [n for n in good if 1 <= n <= 200]
    syms = size_syms(e, L)[0]
    empty = None
    if pw is not None:
        sz, em = size_syms(e, pw)
        for t in em:
            d = x.facts.decide(t); empty = d if d is not None else empty
        for t in sz:
            d = x.facts.decide(icmp('eq', t, I(64, 0))); empty = d if d is not None else empty
    n = len(inc)
    st['rounds'] += 1
    if n > 1: ob('a line is counted once', None if imp else False, 'one line raises %d counts' % n, inc[-1].loc() if inc else loc); return
    if n == 1:
        # the stream must not have been at its end before, or not failed afterwards
        b = gl[0].info[1] if gl[0].info and gl[0].info[0] == 'before' else None
        if b is not None:
            eof = x.facts.decide(b[0]); fl = x.facts.decide(b[1])
            rid = [k for k, d in enumerate(e.defs) if d[0] == 'getline' and d[1] == id(gl[0].inst)]
            okafter = any(x.facts.known.get(S(1, ('iofail', k))) is False for k in rid)
            if eof is not False and fl is not False and not okafter: ob('a line is counted once', None if imp else False, 'the stream may be at its end, and the line read before is counted once more', loc); return
        if empty is True: ob('only passwords are counted', None if imp else False, 'a line without a password raises a count', loc); return
        if pw is None and valid == [] and exactlen(x, syms, good): ob('only passwords are counted', None if imp else False, 'a line of %s characters raises a count' % good[:1], loc); return
        ob('a line is counted once', True); return
    if canc: return
    if empty is False and valid: ob('a line is counted once', None if imp else False, 'a line with a password raises no count', loc)
    elif pw is None and valid and syms and not [n for n in good if not 1 <= n <= 200] and exactlen(x, syms, valid): ob('a line is counted once', None if imp else False, 'a line of %d characters raises no count' % valid[0], loc)
    else: ob('only passwords are counted', True)

def raised(e, ins):
    """is a count changed after this insertion on some path"""
    for x in _memo['x'][3]:
        evs = x.events()
        for k, ev in enumerate(evs):
            if ev.inst is ins.inst and any(v.kind == 'store' and not isc(v.args[1]) and v.args[0][1][0] not in ('alloca', 'glob') for v in evs[k:]): return True
    return False

def grows(evs, what): return [ev for ev in evs if ev.kind == 'call' and ev.model.startswith('std::vector::') and short(ev) in GROW]
def writes(evs): return [ev for ev in evs if ev.kind == 'call' and ev.model.startswith('std::ostream::')]

def bodies(e, x, evs, heads):
    """the events of a path, per loop passed"""
    return [(g, k) for k, g in heads]

def chunk(R, e, x, evs, heads, h, k0, k1, outer, ob, which, co, st):
    """a counting loop was left without being cancelled: the map is written, or known to be empty"""
    at = evs[k1].loc() if k1 < len(evs) else x.inst.loc() if x.inst is not None else None
    rest = evs[k1:]
    if x.end == 'back' and x.head not in outer: return
    W = write_loops(e); V = {g for _, g in heads if g in vec_loops(e)}
    passed = [g for k, g in heads if k >= k1]
    empty = False
    for ev in evs[k0:]:
        if ev.kind == 'call' and MAP.search(ev.model) and ev.ret is not None and not isp(ev.ret):
            if short(ev) == 'empty' and x.facts.decide(ev.ret) is True: empty = True
            if short(ev) == 'size' and x.facts.decide(icmp('eq', ev.ret, I(64, 0))) is True: empty = True
    imp = any(q[0] != 'hull' for q in x.imp)
    if not empty and not any(g in W for g in passed):
        ob('what was counted is written', None if imp else False, 'the counts are dropped without being written', at)
    elif empty and x.end == 'back': ob('what was counted is written', True)
    else: ob('what was counted is written', True)

class At:
    def __init__(s, st): s.facts = st.facts; s.trace = st.trace
    def events(s):
        out = []; t = s.trace
        while t: out.append(t[1]); t = t[0]
        out.reverse(); return out
def throws(e, b):
    """control does not come back from here"""
    seen = set(); todo = [b]
    while todo:
        q = todo.pop()
        if q in seen: continue
        seen.add(q); t = e.f.blocks[q][-1]
        if t.op == 'ret': return False
        todo += list(t.bb or ())
    return True
def ended(x):
    """the end of the input, or a broken stream, is known"""
    for t, v in x.facts.known.items():
        if v is True and any(isinstance(y[2], tuple) and any(q in ('eof', 'bad', 'ioeof', 'iobad', 'fail', 'iofail') for q in y[2] if isinstance(q, str)) for y in symbols(t)): return True
    return False

_wl = {}
def _scan(e):
    if id(e) not in _wl:
        W, V = set(), set()
        for x in _memo['x'][3]:
            if x.end != 'back': continue
            evs = x.events(); ks = [k for k, ev in enumerate(evs) if ev.kind == 'loop' and ev.args[0][2] == x.head]
            if not ks: continue
            seg = evs[ks[-1]:]
            if any(ev.kind == 'loop' for ev in seg[1:]): continue
            if writes(seg): W.add(x.head)
            if grows(seg, None): V.add(x.head)
        _wl[id(e)] = (W, V)
    return _wl[id(e)]
def write_loops(e): return _scan(e)[0]
def vec_loops(e): return _scan(e)[1]

def fresh(R, e, paths, h, outer, ob):
    """every chunk starts with an empty map, an empty list and no memory in use"""
    if not outer: return
    filled = {'map': set(), 'list': set()}
    for y, ev2, hd2 in paths:
        if y.end != 'back' or y.head in outer: continue
        for ev in ev2:
            if ev.kind == 'call' and isp(ev.args[0]) and short(ev) in ('operator[]', 'push_back', 'emplace_back', 'insert', 'emplace', 'try_emplace'):
                filled['map' if MAP.search(ev.model) else 'list'].add(ev.args[0][1:])
    G = guards(paths, h); done = set()
    for x, evs, heads in paths:
        ho = [k for k, g in heads if g in outer]
        if not ho: continue
        o0 = ho[0]
        if x.end == 'back' and x.head in outer:
            for pat, what in ((MAP, 'map'), (re.compile(r'^std::vector::'), 'list')):
                use = {}
                for ev in evs[o0:]:
                    if ev.kind != 'call' or not pat.search(ev.model) or not isp(ev.args[0]): continue
                    b = ev.args[0][1:]
                    n = short(ev); use.setdefault(b, set())
                    if n in ('map', 'unordered_map', 'vector', 'clear', '~map', '~vector', '~unordered_map', 'swap', 'operator=', 'erase', 'assign'): use.setdefault(b, set()).add('reset')
                    elif n in ('operator[]', 'push_back', 'emplace_back', 'insert', 'emplace', 'try_emplace'): use.setdefault(b, set()).add(n)
                # fillings happen inside inner loops: look at their back paths
                for b in use:
                    if b in filled[what]: use[b].add('fill')
                for b, u in use.items():
                    if 'fill' in u: ob('each chunk starts with an empty ' + what, 'reset' in u, 'the %s of the chunk before is written again' % what, evs[-1].loc())
        # quantities the counting loop is limited by
        kh = [k for k, g in heads if g == h and k > o0]
        if not kh: continue
        ev = evs[kh[0]]
        if ev in done: continue
        done.add(ev)
        for key, init in ev.info or ():
            if init is None or isp(init) or isc(init) or key[0] == 'cell' and isinstance(key[2], tuple) or width(init) < 32: continue
            name = ('lc', h) + key[1:] if key[0] == 'cell' else ('phi', h, key[1])
            t = S(width(init), name)
            if not carried(e, init, outer, key): continue
            if t in G or any(y in G for y in symbols(init) if y[2][0] != 'iter'): ob('each chunk starts with no memory in use', False, 'the quantity that ends a chunk is carried over from the chunk before (%s)' % str(key)[:60], ev.loc())
    
def carried(e, init, outer, key):
    for y in symbols(init):
        n = y[2]
        if isinstance(n, tuple) and n[0] in ('lc', 'phi', 'iter') and n[1] in outer: return True
    return False

def guards(paths, h):
    """the quantities that decide whether the loop goes on"""
    out = set(); seen = set()
    for x, evs, heads in paths:
        if x.end == 'back' and x.head == h: continue
        if not any(g == h for _, g in heads): continue
        for d in (x.facts.rng, x.facts.known, [a for k in x.facts.ordu for a in k], [a for k in x.facts.ords for a in k]):
            for y in d:
                if y in seen: continue
                seen.add(y); out.add(y); out |= set(symbols(y))
    return out

def vector_loops(R, e, paths, h, inner, outer, ob, co, which):
    W, V = write_loops(e), vec_loops(e)
    for x, evs, heads in paths:
        if x.end == 'back' and x.head in (W | V) - {h} and not (x.head in inner):
            ks = [k for k, g in heads if g == x.head]; seg = evs[ks[-1]:]
            if any(ev.kind == 'loop' for ev in seg[1:]): continue
            imp = any(q[0] != 'hull' for q in x.imp)
            if x.head in V:
                g = grows(seg, None)
                ob('each count is taken over once', True if len(g) == 1 else None if imp else False, '%d records are taken over for one count' % len(g), seg[0].loc())
                for ev in g:
                    if len(ev.args) < 2 or not isp(ev.args[1]) or ev.args[1][1] is None: continue
                    b, o = ev.args[1][1], ev.args[1][2]
                    if not isinstance(o, int): continue
                    ss = [s for s in seg[:seg.index(ev)] if s.kind == 'store' and s.args[0] == ('p', b, o + co)]
                    if ss:
                        v = ss[-1].args[1]
                        ok = v[0] == 's' and isinstance(v[2], tuple) and v[2][0] == 'init'
                        ob('counts are taken over unchanged', True if ok else False if isc(v) or all(isc(q) or q[0] == 's' and isinstance(q[2], tuple) and q[2][0] == 'init' for q in leaves(v)) else None, 'the count taken over is %s' % tstr(v)[:60], ss[-1].loc())
            elif x.head in W:
                n = wrecords(seg)
                ob('each record is written once', True if n == 1 else None if imp or n is None else False, '%s records are written in one round' % n, seg[0].loc())
        # where the loops start
        if x.end in ('back', 'ret') and x.head in outer:
            for k, g in heads:
                if g not in W | V or g == h or g in inner: continue
                p0 = max([j for j, q in heads if j < k], default=0)
                if any(ev.kind == 'call' and re.search(r'_iterator(_base)?::(operator\+\+|operator\+=|operator\+)$|^std::(next|advance)$', ev.model) for ev in evs[p0 + 1:k]):
                    ob('no record is left out', None if any(q[0] != 'hull' for q in x.imp) else False, 'the loop does not start with the first record', evs[k].loc())
                else: ob('no record is left out', True)
            # order
            wk = next((k for k, g in heads if g in W), None)
            if wk is not None and which in ('both', 'order'):
                hashed = any(ev.kind == 'call' and 'unordered_map' in ev.model for ev in evs)
                srt = [k for k, ev in enumerate(evs) if ev.kind == 'call' and ev.model in ('std::sort', 'std::stable_sort')]
                if hashed:
                    vk = max([k for k, g in heads if g in V], default=0)
                    ob('records are written in order', any(vk < k < wk for k in srt), 'what comes from a hash table is not sorted before it is written', evs[wk].loc(), rule='order')
                else: ob('records are written in order', True, rule='order')

def left_over(R, e, ob):
    """a loop over a list by index goes on until the index reaches its size"""
    for h in write_loops(e) | vec_loops(e):
        it = [e._iter(h, w) for w in (64, 32)]
        for br, c, v, q in e.exits(h):
            if any(m[0] != 'hull' for m in q.imp): continue
            sy = symbols(c); i = [t for t in it if t in sy]
            sz = [t for t in sy if t[2][0] == 'fn' and isinstance(e.defs[t[2][1]][0], str) and e.defs[t[2][1]][0].endswith('::size')]
            if len(i) != 1 or len(sz) != 1 or len(sy) != 2: continue
            bad = None
            for n in (1, 2, 5, 1000, 65536):
                env = {i[0]: n - 1, sz[0]: n}
                if evalterm(c, env) == int(v) and q.facts.consistent(env): bad = n; break
            ob('no record is left out', bad is None, 'the loop ends before the last record' + (' of %d' % bad if bad else ''), br.loc())

def leaves(t):
    if t[0] != 'x': return [t]
    return [q for a in t[3:] if isinstance(a, tuple) for q in leaves(a)]

def wrecords(seg):
    n = 0; size = 0
    for ev in writes(seg):
        by = ev.info[-1][1] if ev.info and ev.info[-1] and ev.info[-1][0] == 'bytes' else None
        if len(ev.args) < 3 or not isc(ev.args[2]): return None
        size += ev.args[2][2]
    return size / 20 if size % 20 else size // 20
