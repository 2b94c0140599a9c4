"""Conservation of records in the merger."""
from ir import program
from absint import *
from terms import _lin
from report import where, AnalysisBroken
from g_record import layout
from g_text import probe

T = 'pwned-merger-cli'
QUEUE = re.compile(r'(priority_queue|multimap|multiset|map|set|vector|deque|list)::(push|emplace|pop|top|insert|push_back|emplace_back|erase|pop_front|pop_back|front|back)$|^std::(push_heap|pop_heap|make_heap)')
KEEP = lambda ev: ev.kind in ('loop', 'astore') or ev.kind == 'call' and bool(QUEUE.search(ev.model) or re.search(r'priority_queue::(empty|size)$|ostream::write$|istream::read$|^operator delete|is_open|filesystem::(remove|rename)|operationWait|OperationQueue', ev.model))

def b32(t):
    w = width(t)
    return t if w == 32 else trunc(t, 32) if w > 32 else zext(t, 32)

def analysis(R, p, f, exact=True):
    e = Engine(f, keep=KEEP, max_states=30000, exact=exact); e.loopinits = True
    try: ps = e.run()
    except TooBig:
        e = Engine(f, keep=KEEP, max_states=30000); e.loopinits = True
        ps = e.run()
    rid = {}
    for k, d in enumerate(e.defs):
        if d[0] == 'read': rid.setdefault(d[1], set()).add(k)
    e.rid = rid
    return e, ps

def okread(e, x, ev):
    """True/False/None: did this read deliver all its bytes"""
    r = None
    for i in e.rid.get(id(ev.inst), ()):
        k = x.facts.known.get(S(1, ('iofail', i)))
        g = x.facts.range(S(64, ('gcount', i)))
        n = ev.args[2][2] if isc(ev.args[2]) else None
        if k is True or (n is not None and g and g[-1][1] < n): return False
        if k is False or (n is not None and g == ((n, n),)): r = True
    return r

def records_read(e, x, evs):
    """[(base, offset of the record, outcome)] for the record reads among the events"""
    out = []
    for k, ev in enumerate(evs):
        if ev.kind != 'call' or ev.model != 'std::istream::read' or not isc(ev.args[2]) or ev.args[2][2] not in (16, 20) or not isp(ev.args[1]): continue
        b, o = ev.args[1][1], ev.args[1][2]
        ok = okread(e, x, ev)
        if ok is not False and ev.args[2][2] == 16:
            nx = next((v for v in evs[k + 1:] if v.kind == 'call' and v.model == 'std::istream::read'), None)
            ok = None if nx is None or not isp(nx.args[1]) or nx.args[1][1] != b else okread(e, x, nx)
        out.append((k, b, o, ok, ev))
    return out

def heap_pointer(v, ev):
    """the object a push's argument stands for"""
    inf = ev.info[1] if ev.info and len(ev.info) > 1 else None
    if isinstance(inf, tuple) and inf and inf[0] == 'c' and len(inf) > 2 and inf[2] is not None and isp(inf[2]): return inf[2][1]
    return None

def execute(R, which):
    p = program(T)
    f = p.one('merger::MergeOperation::execute')
    R.saw('functions', f.dem)
    def ob(sub, ok, msg='', at=None, rule='merge'): R.ob(rule, 'MergeOperation::execute: ' + sub, ok, at or where(f), msg)
    try: e, ps = analysis(R, p, f)
    except TooBig as t:
        ob('merging', None, str(t)); return
    pr = probe(R, 'inspect'); ho, co = layout(pr) if pr is not None else (0, 24)
    # the record kept between iterations: the one written that consists of loop variables
    def written(evs):
        out = []; k = 0
        ws = [ev for ev in evs if ev.kind == 'call' and ev.model == 'std::ostream::write']
        i = 0
        while i < len(ws):
            by = ws[i].info[-1][1]
            if [c[1] for c in by] == [8, 8] and i + 1 < len(ws) and [c[1] for c in ws[i + 1].info[-1][1]] == [4]:
                out.append((by[0][2], by[1][2], ws[i + 1].info[-1][1][0][2], ws[i])); i += 2
            elif [c[1] for c in by] == [8, 8, 4]: out.append((by[0][2], by[1][2], by[2][2], ws[i])); i += 1
            else: out.append(None); i += 1
        return out
    def isvar(t, h): return t[0] == 's' and isinstance(t[2], tuple) and (t[2][0] == 'lc' and t[2][1] == h or t[2][0] == 'phi' and t[2][1] == h)
    cand = {}
    for x in ps:
        evs = x.events(); lp = [(k, ev.args[0][2]) for k, ev in enumerate(evs) if ev.kind == 'loop']
        if not lp: continue
        k, h = lp[-1]
        for w in written(evs[k:]):
            if w is None: continue
            c = w[2]
            if c[0] == 'x' and c[2] == 'trunc': c = c[3]
            if isvar(w[0], h) and isvar(w[1], h) and isvar(c, h): cand.setdefault(h, set()).add((w[0], w[1], c))
    cand = {h: c for h, c in cand.items() if len(c) == 1}
    if not cand:
        ob('merging', None, 'no record kept from one round to the next was recognised'); return
    for h, c in cand.items():
        (A,) = c
        verdicts = 0
        body = e.loop[h]
        for x in ps:
            evs = x.events(); lp = [k for k, ev in enumerate(evs) if ev.kind == 'loop' and ev.args[0][2] == h]
            if not lp or x.end not in ('back', 'ret') or x.end == 'back' and x.head != h: continue
            seg = evs[lp[-1]:]
            pre = evs[:lp[-1]]
            imp = any(m[0] != 'hull' for m in x.imp) or bool(x.imp)
            if invalid(x, A): continue      # only valid hashes are in the queue
            popped, bad = pops(e, x, seg)
            if bad: ob('every record taken is followed by its successor', False, bad[0], bad[1]) ; continue
            p0, bad0 = pops(e, x, pre)
            if bad0: ob('every record taken is followed by its successor', False, bad0[0], bad0[1]); continue
            W = written(seg)
            loc = seg[-1].inst.loc() if seg[-1].inst is not None else where(f)
            if any(w is None for w in W): ob('each record is kept or written once', None, 'a write that is not a record', loc); continue
            if len(lp) == 1 and x.end in ('back', 'ret'):
                ini = dict(evs[lp[-1]].info or ())
                def init(t):
                    key = ('cell', t[2][2], t[2][3]) if t[2][0] == 'lc' else ('phi', t[2][2])
                    return ini.get(key)
                a0 = [init(t) for t in A]
                if len(p0) == 1 and all(q is not None for q in a0):
                    t0 = p0[0]
                    ok = (canon(a0[0]), canon(a0[1]), canon(b32(a0[2]))) == (t0[0], t0[1], b32(t0[2]))
                    sym = all(q[0] in ('s', 'i') for q in a0)
                    ob('the first record taken is the first one kept', True if ok else False if sym and not imp else None, 'it is kept as (%s)' % ', '.join(tstr(q)[:60] for q in a0), loc)
            empty = len(lp) >= 1 and not p0 and not any(ev.kind == 'loop' for ev in pre)
            cancelled = any(v is True and atomic(e, t) for t, v in x.facts.known.items()) or any(aval(e, x, t) for t in x.facts.rng)
            items = [] if empty and x.end == 'ret' else [A + ('kept',)]
            items += [t + ('taken',) for t in popped]
            out = [w[:3] + (w[3].inst.loc(),) for w in W]
            if x.end == 'back':
                nx = nextvals(e, x, A)
                if nx is None: ob('each record is kept or written once', None, '', loc); continue
                out.append(tuple(nx) + ('kept',))
            elif cancelled or cancel_exit(e, x): continue
            elif empty: continue
            verdict(ob, x, items, out, imp, loc, which)
            verdicts += 1
            if x.end == 'ret':
                em = [ev for ev in evs if ev.kind == 'call' and ev.model.endswith('priority_queue::empty')]
                if em:
                    v = x.facts.decide(icmp('ne', em[-1].ret, I(width(em[-1].ret), 0))) if em[-1].ret is not None and not isp(em[-1].ret) else None
                    # a pop whose input goes on pushes a record after the last test
                    ob('merging ends when every input is used up', True if v else False if v is False and not popped else None, 'it ends with records left', em[-1].inst.loc())
        if not verdicts: ob('each record is kept or written once', None)

def invalid(x, A):
    """the path assumes that a record that was read carries an invalid hash"""
    def flag(t):
        while t[0] == 'x' and t[2] in ('trunc', 'zext'): t = t[3]
        if t[0] != 's' or not isinstance(t[2], tuple) or t[1] > 8: return False
        if t[2][0] == 'init' and isinstance(t[2][1], tuple) and t[2][1][0] == 'init': return True
        return t[2][0] == 'lc' and A[0][2][0] == 'lc' and t[2][2] == A[0][2][2] and isinstance(t[2][3], int) and t[2][3] == A[0][2][3] + 16
    if any(v is False and flag(t) for t, v in x.facts.known.items()): return True
    for (a, b) in x.facts.ordu:
        if not isp(a) and not isp(b) and flag(a) and flag(b) and x.facts.decide(icmp('eq', a, b)) is False: return True
    return False

def atomic(e, t):
    try: d = e.defn(t)
    except Exception: d = None
    return bool(d and d[0] in ('aload', 'atomic'))
def aval(e, x, t): return False
def cancel_exit(e, x):
    """the path took an exit because an atomic flag was set"""
    for t, v in x.facts.known.items():
        b = t
        while b[0] == 'x' and b[2] in ('trunc', 'zext'): b = b[3]
        if v is True and b[0] == 's' and isinstance(b[2], tuple) and b[2][0] == 'fn' and atomic(e, b): return True
    return False

def pops(e, x, seg):
    """records taken from the queue in a segment: [(upper, lower, count)], and what is wrong about them"""
    out = []; bad = None
    for k, ev in enumerate(seg):
        if ev.kind != 'call' or not ev.model.endswith('::pop'): continue
        tops = [v for v in seg[:k] if v.kind == 'call' and v.model.endswith('::top') and v.args[0] == ev.args[0]]
        if not tops: continue
        t = tops[-1].ret
        if t is None or not isp(t): continue
        m = ('init', t[1], t[2], 8)
        nxt = next((j for j in range(k + 1, len(seg)) if seg[j].kind == 'call' and seg[j].model.endswith('::pop')), len(seg))
        # the successor: read into the same object, pushed exactly if it was delivered
        lo = max([j for j in range(k) if seg[j].kind == 'call' and seg[j].model.endswith('::pop')] or [-1])
        rr = [(q, b, o, ok, v) for q, b, o, ok, v in records_read(e, x, seg) if lo < q < nxt and isinstance(b, tuple) and base_eq(b, m)]
        pu = [v for v in seg[lo + 1:nxt] if v.kind == 'call' and re.search(r'::(push|emplace)$', v.model) and (heap_pointer(e, v) is not None and base_eq(heap_pointer(e, v), m))]
        if not rr: continue
        q, b, o, ok, v = rr[-1]
        out.append(tuple(S(w, ('T', b, o + off, w)) for off, w in ((0, 64), (8, 64), (24, 32))) + ((b, o),))
        if len(rr) > 1: bad = ('after a record was taken more than one further record is read from its input', v.inst.loc())
        elif ok is True and not pu: bad = ('a record is taken and its successor read, but the input is not put back: its remaining records are lost', v.inst.loc())
        elif ok is False and pu: bad = ('an input that delivered no further record is put back: its last record is used again', pu[0].inst.loc())
        elif len(pu) > 1: bad = ('an input is put back twice', pu[1].inst.loc())
    return [o[:3] for o in out], bad
def base_eq(a, b): return a[:4] == b[:4] if len(a) >= 4 and len(b) >= 4 else a == b

def canon(t):
    """initial contents of an input's record -> its token"""
    if t[0] == 's' and isinstance(t[2], tuple) and t[2][0] == 'init': return S(t[1], ('T', t[2][1], t[2][2], t[1]))
    if t[0] == 'x' and t[2] in ('trunc', 'zext'):
        c = canon(t[3]); return trunc(c, t[1]) if t[2] == 'trunc' else zext(c, t[1])
    if t[0] == '+':
        r = I(t[1], t[2])
        for a, k in t[3]: r = add(r, mulc(canon(a), k))
        return r
    return t

def nextvals(e, x, A):
    out = []
    for t in A:
        if t[2][0] == 'lc':
            c = x.mem.get(t[2][2], {}).get(t[2][3])
            out.append(t if c is None else c[1] if c[0] is not None else None)
        else:
            n = (x.nxt or {}).get(t[2][2]); out.append(n[1] if n else None)
        if out[-1] is None: return None
    return out

def same(x, a, b):
    """do two items certainly have equal hashes (True), certainly different ones (False), or neither"""
    r = []
    for i in (0, 1):
        if a[i] == b[i]: r.append(True); continue
        v = None
        for p in x.variants(a[i]):
            for q in x.variants(b[i]):
                d = x.facts.decide(icmp('eq', p, q))
                if d is not None: v = d
        r.append(v)
    if False in r: return False
    return True if r == [True, True] else None

def verdict(ob, x, items, out, imp, loc, which):
    # facts speak of the initial contents, not of tokens
    tok = {}
    for tab in (x.facts.ordu, x.facts.ords):
        for k in tab:
            for t in k:
                for q in symbols(t):
                    c = canon(q)
                    if c != q: tok.setdefault(c, set()).add(q)
    for t in list(x.facts.rng) + list(x.facts.known):
        for q in symbols(t):
            c = canon(q)
            if c != q: tok.setdefault(c, set()).add(q)
    class V: pass
    v = V(); v.facts = x.facts; v.variants = lambda t: [t] + sorted(tok.get(t, ()), key=repr)
    use = {}; undecided = False
    for o in out:
        c, d = _lin(canon(b32(o[2])))
        if c: ob('counts are summed up unchanged', False if not imp else None, 'a count is changed by %+d' % (c if c < 1 << 31 else c - (1 << 32)), loc); return
        mine = []
        for a, k in d.items():
            it = [j for j, i in enumerate(items) if b32(i[2]) == a]
            if not it: undecided = 'a count of unknown origin: ' + tstr(a)[:60]; break
            if k != 1: ob('counts are summed up unchanged', False if not imp else None, 'a count is taken %d times' % k, loc); return
            mine.append(it[0])
        if undecided: break
        hs = (canon(o[0]), canon(o[1]))
        own = [j for j, i in enumerate(items) if (i[0], i[1]) == hs]
        if not own:
            if any(same(v, hs, items[j][:2]) is True for j in mine): own = mine[:1]
            else: undecided = 'a hash of unknown origin'; break
        if own[0] not in mine and any(same(v, items[own[0]], items[j]) is not True for j in mine or [own[0]]):
            ob('each record is kept or written with its own count', False if not imp and mine else None, 'a hash is combined with the count of another record', loc); return
        for j in mine:
            if j != own[0]:
                s = same(v, items[own[0]], items[j])
                if s is not True:
                    ob('only counts of equal hashes are added', False if not imp else None, 'the counts of two records are added although their hashes may differ', loc); return
            use.setdefault(j, []).append(o)
    if undecided: ob('each record is kept or written once', None, undecided, loc); return
    for j, i in enumerate(items):
        n = len(use.get(j, ()))
        what = 'the record kept' if i[3] == 'kept' else 'a record taken from an input'
        if n == 0: ob('each record is kept or written once', False if not imp else None, what + ' is lost', loc); return
        if n > 1: ob('each record is kept or written once', False if not imp else None, what + ' is used twice', loc); return
    ob('each record is kept or written once', True)
    if len(items) == 2 and len(out) == 2 and len(items) == len([j for j in use]):
        s = same(v, items[0], items[1])
        if all(len(u) == 1 for u in use.values()) and use[0][0] is not use[1][0]:
            ob('records with equal hashes become one', True if s is False else False if not imp else None, 'two records are kept apart although their hashes may be equal', loc, rule='merge-order')
            first = use[0][0]
            ob('records are written in the order they are taken', True if first[3] != 'kept' else False if not imp else None, 'the later record is written before the earlier one', loc, rule='merge-order')

def inputs(R):
    """the constructor: every input with a record takes part"""
    p = program(T)
    f = p.one('merger::MergeOperation::MergeOperation') if len(p.find('merger::MergeOperation::MergeOperation')) == 1 else None
    if f is None: R.ob('merge-inputs', 'MergeOperation constructor', None); return
    R.saw('functions', f.dem)
    try: e, ps = analysis(R, p, f)
    except TooBig as t:
        R.ob('merge-inputs', 'MergeOperation constructor', None, where(f), str(t)); return
    n = 0
    for x in ps:
        if x.end != 'back': continue
        evs = x.events(); lp = [k for k, ev in enumerate(evs) if ev.kind == 'loop' and ev.args[0][2] == x.head]
        if not lp: continue
        seg = evs[lp[-1]:]
        pushes = [ev for ev in seg if ev.kind == 'call' and re.search(r'(priority_queue|multiset|vector|deque|list|set)::(push|emplace|push_back|emplace_back|insert)$', ev.model)]
        for k, b, o, ok, ev in records_read(e, x, seg):
            mine = [v for v in pushes if heap_pointer(e, v) == b]
            n += 1
            if ok is True: R.ob('merge-inputs', 'an input with a record takes part in the merge', len(mine) == 1 if not x.imp or len(mine) == 1 else None, ev.inst.loc(), 'its first record is read, but the input is entered %d times' % len(mine))
            elif ok is False: R.ob('merge-inputs', 'an input without a record takes no part', not mine if not x.imp or not mine else None, ev.inst.loc(), 'an input that delivered no record is entered with an undefined one')
    if not n: R.ob('merge-inputs', 'MergeOperation constructor', None, where(f), 'no loop that reads the first record of each input was recognised')

def slices(R):
    """main: the input files are divided into slices that leave none out and take none twice"""
    p = program(T)
    f = p.one('main')
    R.saw('functions', 'pwned-merger: main')
    def ob(sub, ok, msg='', at=None): R.ob('merge-slices', 'pwned-merger: ' + sub, ok, at or where(f), msg)
    keep = lambda ev: ev.kind == 'loop' or ev.kind == 'call' and re.search(r'^std::vector::(vector|operator=|push_back|emplace_back|begin|end|size|empty|erase|assign|insert|clear|pop_back|resize)$|priority_queue::', ev.model)
    e = Engine(f, max_states=30000, keep=keep); e.record = True
    try: ps = e.run()
    except TooBig:
        e = Engine(f, max_states=30000, keep=keep, width=4); e.record = True
        try: ps = e.run()
        except TooBig as t: ob('slices', None, str(t)); return
    done = set(); lens = {(ev.args[0], ev.ret) for x in ps for ev in x.events() if ev.kind == 'call' and ev.model.endswith(('::size', '::empty'))}
    def rng(ev): return ev.model.endswith(('::vector', '::assign')) and len(ev.args) >= 3 and isp(ev.args[1]) and isp(ev.args[2]) and (ev.args[1][1] or ('',))[0] not in ('alloca',)
    def depends(a, b):
        """is a derived from b"""
        seen = set(); wk = [a]
        while wk:
            t = wk.pop()
            if t == b or isp(b) and b[1] and t in (b[1], b[1][1] if b[1][0] == 'int' else b[1]): return True
            if not isinstance(t, tuple) or t in seen: continue
            seen.add(t)
            if len(t) == 2 and t[0] == 'fn' and isinstance(t[1], int): wk.append(e.defs[t[1]])
            wk += [q for q in t if isinstance(q, tuple)]
        return False
    for x in ps:
        evs = x.events()
        for k, ev in enumerate(evs):
            if ev.kind != 'call' or not rng(ev): continue
            for k2 in range(k + 1, len(evs)):
                v = evs[k2]
                if v.kind != 'call' or not rng(v) or v.inst is ev.inst: continue
                a, b, c, d = ev.args[1], ev.args[2], v.args[1], v.args[2]
                ends = [w for w in evs[:k2] if w.kind == 'call' and w.model.endswith('::end') and w.ret == d]
                if not ends: continue
                V = ends[-1].args[0]
                if not [w for w in evs[:k2] if w.kind == 'call' and w.model.endswith('::begin') and w.args[0] == V and w.ret == a]: continue
                loc = v.inst.loc()
                ok = b == c or (False if depends(b, c) or depends(c, b) else None)
                ob('the next slice starts where the last one ended', ok, 'files between the slice and the rest are left out or merged twice', loc)
                done.add(V)
                # what is put back to be merged further
                sz = {}
                for w in evs[:k2]:
                    if w.kind == 'call' and w.model.endswith('::size') and w.ret is not None: sz[w.args[0]] = w.ret
                S_ = ev.args[0]
                if S_ not in sz or V not in sz: continue
                last = x.facts.decide(icmp('eq', sz[S_], sz[V]))
                h = [w.args[0][2] for w in evs[:k] if w.kind == 'loop']
                if x.end != 'back' or not h or x.head != h[-1] or x.imp and any(m[0] != 'hull' for m in x.imp): continue
                put = [w for w in evs[k2:] if w.kind == 'call' and w.model.endswith(('push_back', 'emplace_back', '::insert')) and w.args[0] == V]
                if last is False: ob('the result of a slice is merged further', bool(put), 'an intermediate file is not merged into the output', loc)
                elif last is True: ob('the last slice ends the merge', not put, 'the output file is merged again', loc)
    for h in e.heads:
        for i, c, v, st in e.exits(h):
            # the number of files left decides about leaving the loop
            for V in done:
                for z in {q for q in symbols(c) if e.defn(q) and e.defn(q)[0] in ('std::vector::size', 'std::vector::empty') and (V, q) in lens}:
                    left = st.facts.decide(icmp('eq', z, I(64, 0))) if width(z) == 64 else st.facts.decide(z)
                    ob('merging goes on until no input file is left', True if left else None if c[0] == 'i' else False, 'it ends with files left', i.loc())
    if not done: ob('slices', None, 'no division of the input files into slices was recognised')
