"""Binary search of the database and the walk through the index (PasswordInspector)."""
from ir import program
from absint import *
from report import where, AnalysisBroken
from g_text import probe, one
from g_record import layout

REC = 20
MARK = (1 << 64) - 1

def member(p, cls, pred):
    return [m for m in p.di.get(cls, {'mem': []})['mem'] if len(m) > 3 and pred(m)]

class Search:
    """what the analysis knows about one search function"""
    def __init__(s, R, p, f, exact=True):
        s.R, s.p, s.f = R, p, f
        R.saw('functions', f.dem)
        keep = lambda ev: ev.kind == 'call' and ev.model.startswith(('std::istream::', 'std::basic_ios::clear', 'std::ios_base::'))
        s.e = e = Engine(f, exact=exact, keep=keep, max_states=20000 if exact else 8000); e.loopinits = True
        s.paths = e.run()
        if exact is False:
            # the states that reach the search loop stay merged, everything from there on is kept apart
            hs = s.loops()
            if hs:
                s.e = e = Engine(f, exact=s.after(hs), keep=keep, max_states=20000); e.loopinits = True
                s.paths = e.run()
        s.setrids()
        s.fs = member(p, 'pwned::PasswordInspector', lambda m: m[2] == 8 and re.search(r'long|int64|streamoff', m[3]))
        s.fso = s.fs[0][1] if len(s.fs) == 1 else None
    def after(s, hs):
        r = set(hs); wk = list(hs)
        while wk:
            for q in s.e.succ[wk.pop()]:
                if q not in r: r.add(q); wk.append(q)
        return r
    def setrids(s):
        s.rid = {}
        for k, d in enumerate(s.e.defs):
            if d[0] == 'read': s.rid.setdefault(d[1], set()).add(k)
    def iterations(s):
        """{loop: [...]} for the loops that go on after smaller and after greater records alike"""
        s.setrids(); info = {}
        for x in s.paths:
            if x.end != 'back': continue
            evs = x.events(); lp = [k for k, ev in enumerate(evs) if ev.kind == 'loop' and ev.args[0][2] == x.head]
            if not lp: continue
            rd = [(k, ev, ids) for k, ev, ids in s.reads(x) if k > lp[-1] and isc(ev.args[2]) and ev.args[2][2] in (16, 20)]
            if not rd: continue
            k, ev, ids = rd[-1]
            o, tu, tl = relation(x, ids)
            sk = [v for v in evs[lp[-1]:k] if v.kind == 'call' and v.model == 'std::istream::seekg']
            info.setdefault(x.head, []).append((x, ev, ids, o, tu, tl, sk[-1] if sk else None, evs[lp[-1]]))
        return {h: v for h, v in info.items() if {'<', '>'} <= {it[3] for it in v}}
    @property
    def phicur(s):
        r = {}
        for x in s.paths:
            if x.end == 'back' and x.nxt:
                for d, (cur, nxt) in x.nxt.items(): r.setdefault(x.head, {})[d] = cur
        return r
    def loops(s): return list(s.iterations())
    def reads(s, x):
        """[(index, event, read id)] of a path"""
        out = []
        for k, ev in enumerate(x.events()):
            if ev.kind == 'call' and ev.model == 'std::istream::read':
                ids = s.rid.get(id(ev.inst), set())
                out.append((k, ev, ids))
        return out
    def headcells(s, x, h):
        """the loop variables' values at the loop's head"""
        out = [(('phi', d), cur, None) for d, cur in s.phicur.get(h, {}).items()]
        for base, off in s.e.havoc[h]:
            if isinstance(off, int): out.append((('cell', base, off), S(64, ('lc', h, base, off)), None))
        return out
    def cells(s, x, h):
        """loop variables: [(key, current term, next term)]"""
        out = []
        for d, (cur, nxt) in (x.nxt or {}).items(): out.append((('phi', d), cur, nxt))
        for base, off in s.e.havoc[h]:
            if not isinstance(off, int): continue
            c = x.mem.get(base, {}).get(off)
            if c is None or c[0] is None or isp(c[1]): continue
            out.append((('cell', base, off), S(c[0] * 8, ('lc', h, base, off)), c[1]))
        return out

def rel(facts, t, r):
    """'<', '==', '>' or None"""
    if facts.decide(icmp('ult', t, r)): return '<'
    if facts.decide(icmp('ugt', t, r)): return '>'
    if facts.decide(icmp('eq', t, r)): return '=='
    return None

def relation(x, rids):
    """(order of the key and the record, key halves) on a path, from the recorded comparisons of 8-byte halves"""
    f = x.facts
    def other(off):
        for tab in (f.ordu, f.ords):
            for (a, b) in tab:
                for p, q in ((a, b), (b, a)):
                    if not isp(p) and p[0] == 's' and isinstance(p[2], tuple) and p[2][0] == 'rd' and p[2][1] in rids and p[2][2:] == (off, 8) and not isp(q):
                        return q, p
        return None, None
    tu, ru = other(0); tl, rl = other(8)
    if tu is None: return None, None, None
    o = rel(f, tu, ru)
    if o == '==':
        if tl is None: return None, tu, None
        return rel(f, tl, rl), tu, tl
    return o, tu, tl

def search(R, name, exact=True):
    p = probe(R, 'inspect')
    if p is None: return
    f = one(R, p, name)
    if f is None: return
    label = {'find': 'binsearch(hash)', 'findn': 'binsearch(hash, &reads)', 'smart': 'smart_binsearch(hash)', 'lookup': 'lookup(password)'}[name]
    ho, co = layout(p)
    def ob(sub, ok, msg='', at=None, rule='search'): R.ob(rule, label + ': ' + sub, ok, at or where(f), msg)
    if name == 'lookup':
        from g_text import whole_texts
        whole_texts(R, 'search', label, f, 'the password is copied through a pointer without its length: it ends at its first zero byte')
    try: s = Search(R, p, f, exact)
    except TooBig as t:
        ob('search loop', None, str(t)); return
    e = s.e
    info = s.iterations()
    done = False
    for h, items in info.items():
        body = s.e.loop[h]
        guard = None
        for x, ev, ids, o, tu, tl, sk, le in items:
            if sk is None: continue
            P = sk.args[1]
            cs = s.cells(x, h)
            sy = symbols(P) if not isp(P) else set()
            inv = [(k, c, n) for k, c, n in cs if not isp(c) and len(symbols(c)) == 1 and symbols(c) <= sy and c[0] == 's']
            if len(inv) != 2: continue
            (ka, a, na), (kb, b, nb) = inv
            g = None
            for pr in ('s', 'u'):
                d = [x.facts.decide(icmp(pr + q, a, b)) for q in ('lt', 'le', 'gt', 'ge')]
                if d[0] or d[1]: sgn = pr; g = (ka, kb, 'open' if d[0] else 'closed'); break
                if d[2] or d[3]: sgn = pr; g = (kb, ka, 'open' if d[2] else 'closed'); break
            if g is None: continue
            guard = g if guard is None or guard == g else 'mixed'
        if guard is None or guard == 'mixed': continue
        lo_k, hi_k, style = guard
        done = True
        R.saw('search loops', '%s at %s' % (label, items[0][7].inst.loc()))
        for x, ev, ids, o, tu, tl, sk, le in items:
            loc = sk.inst.loc() if sk is not None else ev.inst.loc()
            if sk is None or any(m[0] != 'hull' or m[1] in body and m[1] != h for m in x.imp): continue
            cs = {k: (c, n) for k, c, n in s.cells(x, h)}
            if lo_k not in cs or hi_k not in cs: continue
            (lo, lo2), (hi, hi2) = cs[lo_k], cs[hi_k]
            P = sk.args[1]
            if not {lo, hi} <= symbols(P): continue
            # probing inside the interval, at a record boundary
            samp = [(a, b) for a in range(0, 9) for b in range(a, 14)] + [(0, 1 << 20), (3, (1 << 20) + 1)]
            # ends around the points where 31-, 32- or 33-bit arithmetic on bytes or records would wrap
            samp += [(w // d + i, w // d + j) for w in (1 << 31, 1 << 32, 1 << 33, 1 << 40) for d in (1, REC) for i, j in ((-2, 3), (0, 0), (-1, 7), (1, w // 9))] + [(0, w // d + i) for w in (1 << 31, 1 << 32, 1 << 33, 1 << 40) for d in (1, REC) for i in (-1, 0, 1, 2)]
            unit = None; bad = None
            for u in (1, REC):
                bad = None
                for a, b in samp:
                    if style == 'open' and a == b: continue
                    A, B = (a * REC, b * REC) if u == 1 else (a, b)
                    v = evalterm(P, {lo: A, hi: B})
                    if v is None: bad = 'unknown'; break
                    v = v - (1 << 64) if v >> 63 else v
                    if v % REC: bad = 'for lo=%d and hi=%d the record read starts at byte %d, not at a record boundary' % (A, B, v); break
                    if not a * REC <= v <= b * REC: bad = 'for lo=%d and hi=%d the position read is %d' % (A, B, v); break
                if bad is None: unit = u; break
                if bad == 'unknown': break
                first = bad if u == 1 else first
            if bad == 'unknown': ob('the position read lies in the interval', None, tstr(P)[:120], loc); continue
            if unit is None: ob('the position read lies in the interval, at a record boundary', False, first, loc); return
            ob('the position read lies in the interval, at a record boundary', True)
            if o is None: ob('interval after a comparison', None, 'order of key and record not known', loc); continue
            if o == '==':
                # going on after the key was found: only a failed read may do so
                full = [i for i in ids if x.facts.known.get(S(1, ('iofail', i))) is False]
                ob('the search ends when the hash is found', None if not full else False, 'the loop goes on after the record with the hash asked for', loc)
                continue
            for a, b in samp:
                if style == 'open' and a == b: continue
                A, B = (a * REC, b * REC) if unit == 1 else (a, b)
                env = {lo: A, hi: B}
                v, l2, h2 = evalterm(P, env), evalterm(lo2, env), evalterm(hi2, env)
                if v is None or l2 is None or h2 is None: ob('interval after a comparison', None, 'not evaluable', loc); break
                sg = lambda z: z - (1 << 64) if z >> 63 else z
                v, l2, h2 = sg(v), sg(l2), sg(h2)
                if unit != 1: v //= REC
                st = REC if unit == 1 else 1
                txt = 'with lo=%d, hi=%d and a %s record at %d the search goes on with lo=%d, hi=%d' % (A, B, 'smaller' if o == '>' else 'greater', v, l2, h2)
                if o == '>':
                    if l2 > v + st or h2 < B and h2 >= v: ob('no record above a smaller one is skipped', False, txt, loc); return
                    if l2 <= v and h2 >= B and A == l2: ob('the interval shrinks', False, txt, loc); return
                    if h2 < v: ob('no record above a smaller one is skipped', False, txt, loc); return
                    if l2 != v + st: ob('interval after a smaller record', None, txt, loc); break
                else:
                    low = v - st if style == 'closed' else v - st + 1
                    if h2 < low or l2 > A: ob('no record below a greater one is skipped', False, txt, loc); return
                    lim = v - 1 if style == 'closed' else v
                    if h2 > lim:
                        if h2 >= B and l2 <= A: ob('the interval shrinks', False, txt, loc); return
                        ob('interval after a greater record', None, txt, loc); break
            else: ob('after a %s record exactly the records %s it remain' % (('smaller', 'above') if o == '>' else ('greater', 'below')), True)
        # the interval searched at first
        for x in s.paths:
            evs = x.events(); lp = [k for k, ev in enumerate(evs) if ev.kind == 'loop' and ev.args[0][2] == h]
            if not lp: continue
            ini = dict(evs[lp[-1]].info or ())
            l0, h0 = ini.get(lo_k), ini.get(hi_k)
            if l0 is None or h0 is None or isp(l0) or isp(h0): continue
            loc = evs[lp[-1]].inst.loc()
            unit1 = True
            # lower end
            if isc(l0):
                if sval(l0) > 0 and not x.imp: ob('the search starts at the first record', False, 'it starts at %d' % sval(l0), loc); return
                ob('the search starts at the first record', True if sval(l0) == 0 else None, '', loc)
            else: index_end(R, s, x, evs, lp[-1], l0, 'lower', ob, loc)
            fs = S(64, ('init', ('arg', 1), s.fso, 8)) if s.fso is not None else None
            if fs is not None and not isc(h0) and symbols(h0) == {fs} and isc(sub(h0, fs)):
                c = sval(sub(h0, fs))
                if (c < -REC if style == 'closed' else c <= -REC) and not x.imp: ob('the search reaches the last record', False, 'it ends %d bytes before the end of the file' % -c, loc); return
                ob('the search reaches the last record', True if c <= 0 else None)
            elif not isc(h0): index_end(R, s, x, evs, lp[-1], h0, 'upper', ob, loc)
        # results
        after = s.after([h])
        for x in s.paths:
            if x.end != 'ret' or any(m[0] != 'hull' or m[1] in after and m[1] != h for m in x.imp): continue
            evs = x.events(); lp = [k for k, ev in enumerate(evs) if ev.kind == 'loop' and ev.args[0][2] == h]
            if not lp: continue
            c = x.mem.get(('arg', 0), {}).get(co)
            cnt = c[1] if c is not None and c[0] == 4 else None
            rd = [(k, ev, ids) for k, ev, ids in s.reads(x) if k > lp[-1]]
            r16 = [(k, ev, ids) for k, ev, ids in rd if isc(ev.args[2]) and ev.args[2][2] in (16, 20)]
            if r16:
                o, tu, tl = relation(x, r16[-1][2])
                okread = all(any(x.facts.known.get(S(1, ('iofail', i))) is False for i in ids) for k, ev, ids in rd)
                loc = r16[-1][1].inst.loc()
                if o in ('<', '>') : ob('the search ends at the hash asked for', False, 'it ends at a record whose hash is %s' % ('smaller' if o == '>' else 'greater'), loc); continue
                if o is None or not okread: continue
                src = cnt is not None and cnt[0] == 's' and isinstance(cnt[2], tuple) and cnt[2][0] == 'rd' and any(cnt[2][1] in ids for k, ev, ids in rd)
                ob('a hit reports the stored count', True if src else False if cnt is not None and (isc(cnt) or src is False) else None, 'it reports ' + (tstr(cnt)[:80] if cnt is not None else '?'), loc)
                key(R, name, label, f, tu, tl, e, ob)
            else:
                lp0 = evs[lp[-1]]
                cs = {k: c for k, c, n in s.headcells(x, h)}
                if lo_k in cs and hi_k in cs:
                    # at the loop's exit the interval has to be empty, unless a stream failed
                    w = x.facts.decide(icmp(sgn + ('ge' if style == 'open' else 'gt'), cs[lo_k], cs[hi_k]))
                    ob('a miss is reported only when no record remains', True if w else False if w is False else None, 'the search gives up with records left between its ends', lp0.inst.loc())
                if cnt is None: ob('a miss reports the count 0', None); continue
                z = x.facts.const(cnt)
                ob('a miss reports the count 0', True if z == 0 else False if (z is not None or cnt[0] == 's') else None, 'it reports ' + tstr(cnt)[:80], where(f))
    # answers given without any search
    for x in s.paths:
        if x.end != 'ret' or x.imp or not done: continue
        if any(ev.kind == 'loop' and ev.args[0][2] in info for ev in x.events()): continue
        sy = set()
        for t in list(x.facts.known) + list(x.facts.rng): sy |= symbols(t)
        for tab in (x.facts.ordu, x.facts.ords):
            for q in tab:
                for t in q: sy |= symbols(t)
        data = [t for t in sy if isinstance(t[2], tuple) and (t[2][0] in ('rd', 'gcount', 'iofail') or t == S(64, ('init', ('arg', 1), s.fso, 8)))]
        keyp = [t for t in sy if isinstance(t[2], tuple) and t[2][0] == 'init' and t[2][1] == ('arg', 2) and t[2][2] in (0, 8) and t[2][3] == 8]
        if data: continue
        ob('no hash is answered without looking at the database', False if keyp else None, 'for some hashes it returns before any record is read', where(f))
    if not done: ob('search loop', None, 'no search loop with two interval ends was recognised')

def key(R, name, label, f, tu, tl, e, ob):
    """the hash compared with the records is the one asked for"""
    if name in ('find', 'findn', 'smart'):
        want = (S(64, ('init', ('arg', 2), 0, 8)), S(64, ('init', ('arg', 2), 8, 8)))
        ok = (tu, tl) == want
        ob('records are compared with the hash asked for', True if ok else None, '', rule='search-key')
    else:
        ok = all(t is not None and t[0] == 'x' and t[2] == 'bswap' for t in (tu, tl))
        d = [e.defn(t[3][:1] + t[3][1:]) for t in (tu, tl)] if ok else []
        src = []
        for t in (tu, tl):
            if t is None or t[0] != 'x' or t[3][0] != 's': src.append(None); continue
            nm = t[3][2]
            ver = e.defn(S(64, nm[4][2])) if nm[0] == 'init' and len(nm) > 4 and isinstance(nm[4], tuple) and nm[4][0] == 's' else None
            md = ver and ver[0] == 'ver' and isinstance(ver[1], tuple) and ver[1][0] == 'out' and e.defs[ver[1][1]][0] == 'MD5'
            src.append((nm[2], bool(md)))
        ob('the hash looked up is the MD5 digest of the password', True if ok and all(q and q[1] for q in src) else None, str(src), rule='search-key')

def index_end(R, s, x, evs, k, t, end, ob, loc):
    """an interval end taken from the index"""
    if t[0] != 's' or not isinstance(t[2], tuple) or t[2][0] != 'rd':
        ob('%s end of the search' % end, None, tstr(t)[:80], loc); return
    rid = t[2][1]
    rd = [(j, ev) for j, ev, ids in s.reads(x) if j < k and rid in ids]
    if not rd: ob('%s end of the search' % end, None, '', loc); return
    j, ev = rd[-1]
    if x.facts.known.get(S(1, ('iofail', rid))) is True: return    # a short index file: the value read is not used by the program as such
    r = x.facts.range(t)
    if rs_and(r, ((MARK, MARK),)) :
        ob('the mark of an empty bucket is not used as a position', None if x.imp else False, 'the %s end of the search may be the value stored for an empty bucket' % end, ev.inst.loc(), rule='index-walk'); return
    ob('the mark of an empty bucket is not used as a position (%s end)' % end, True, rule='index-walk')
    sk = [v for v in evs[:j] if v.kind == 'call' and v.model == 'std::istream::seekg' and v.args[0] == ev.args[0]]
    if not sk: ob('index entry of the %s end' % end, None, 'no seek', loc, rule='index-walk'); return
    P = sk[-1].args[1]
    # P = 8 * (upper half >> shift) + constant + step * iteration
    c, d = _lin(P) if not isp(P) else (None, {})
    its = [a for a in d if a[0] == 's' and isinstance(a[2], tuple) and a[2][0] == 'iter']
    bk = [a for a in d if a[0] == 'x' and a[2] in ('lshr', 'and') ]
    if len(bk) != 1 or len(d) != len(its) + 1 or len(its) > 1:
        ob('index entry of the %s end' % end, None, tstr(P)[:120], sk[-1].inst.loc(), rule='index-walk'); return
    sg = lambda z: z - (1 << 64) if z >> 63 else z
    c = sg(c); step = sg(d[its[0]]) if its else 0
    scale = sg(d[bk[0]])
    if scale != 8: ob('index entries are 8 bytes apart', False, 'bucket n is read at byte %d*n' % scale, sk[-1].inst.loc(), rule='index-walk'); return
    txt = 'the %s end is read from entry %+d%s of the bucket of the hash' % (end, c // 8, ' and then every %+d' % (step // 8) if step else '')
    if c % 8 or step % 8: ob('index entries are read at multiples of 8', False, txt, sk[-1].inst.loc(), rule='index-walk'); return
    ok = (c <= 0 and step <= 0) if end == 'lower' else (c >= 8 and step >= 0)
    ob('the %s end lies %s the bucket of the hash' % (end, 'not above the start of' if end == 'lower' else 'not below the end of'), ok, txt + ': records of the bucket are left out', sk[-1].inst.loc(), rule='index-walk')
    # which hash bits select the bucket
    b = bk[0]
    tus, tls = x_keys(s)
    ok = None
    if b[2] == 'lshr':
        if b[3] in tus: ok = True
        elif b[3] in tls or tus and symbols(b[3]) and symbols(b[3]) <= symbols(next(iter(tls or tus))): ok = False
    ob('the bucket is given by the leading bits of the hash', ok, 'it is taken from ' + tstr(b)[:80], sk[-1].inst.loc(), rule='index-walk')
    if b[2] == 'lshr':
        sh = symbols(b[4]) if not isc(b[4]) else set()
        ms = [m[1] for m in member(s.p, 'pwned::PasswordInspector', lambda m: m[2] == 4 and 'unsigned' in m[3])]
        okm = isinstance(b[4], tuple) and len(sh) == 1 and list(sh)[0][2][:2] == ('init', ('arg', 1)) and list(sh)[0][2][2] in ms and strip_ext(b[4]) in sh
        ob('the bucket width is the one derived from the size of the index', True if okm else False if isc(b[4]) or sh and not okm and strip_ext(b[4])[0] == '+' else None, tstr(b[4])[:80], sk[-1].inst.loc(), rule='index-walk')

def strip_ext(t):
    while t[0] == 'x' and t[2] in ('zext', 'sext', 'trunc'): t = t[3]
    return t
def x_keys(s):
    if not hasattr(s, '_keys'):
        tus, tls = set(), set()
        for v in s.iterations().values():
            for it in v:
                if it[4] is not None: tus.add(it[4])
                if it[5] is not None: tls.add(it[5])
        s._keys = (tus, tls)
    return s._keys

from terms import _lin

def history(R, name, exact=True):
    """C02: nothing an earlier lookup left behind decides a later one"""
    p = probe(R, 'inspect')
    if p is None: return
    f = one(R, p, name)
    if f is None: return
    label = {'find': 'binsearch(hash)', 'smart': 'smart_binsearch(hash)', 'lookup': 'lookup(password)'}[name]
    try: s = Search(R, p, f, exact)
    except TooBig as t: R.ob('history', label, None, where(f), str(t)); return
    e = s.e; n = 0; bad = set(); und = 0
    stores = set()
    for b in e.rpo:
        pass
    written = {}
    for x in s.paths:
        for base in x.mem:
            if base == ('arg', 1) or (base[0] == 'glob'):
                for off, c in x.mem[base].items():
                    if not isinstance(off, int) or c[0] is None: continue
                    if base[0] == 'glob' and (s.p.globals.get(base[1], {}).get('const')): continue
                    if c[1] != e._initcell(base, off, c[0], None, isp(c[1])): written.setdefault((base, off), c[1])
        evs = x.events()
        for k, ev in enumerate(evs):
            if ev.kind != 'call' or ev.model not in ('std::istream::read', 'std::istream::seekg', 'std::istream::get', 'std::getline'): continue
            st = e_base(e, ev.args[0])
            if st is None or st[0] != ('arg', 1): continue
            n += 1
            prev = [v for v in evs[:k] if v.kind == 'call' and e_base(e, v.args[0]) == st]
            if ev.model == 'std::istream::seekg':
                old = ev.info[1] if ev.info else None
                if old is None: continue
                d = x.facts.decide(old[1]) if old[1] != FALSE else False
                if d is not False and not x.imp: bad.add((ev.inst.loc(), 'moves the stream although it may still be in the failed state an earlier read past the end left behind: the move and the following read have no effect'))
                elif d is not False: und += 1
            elif ev.model == 'std::istream::read':
                if not [v for v in prev if v.model in ('std::istream::seekg', 'std::istream::read')]:
                    bad.add((ev.inst.loc(), 'reads from where an earlier lookup stopped'))
    for loc, msg in bad: R.ob('history', label + ': each read is positioned on a stream without error state', False, loc, msg)
    if not bad: R.ob('history', label + ': each read is positioned on a stream without error state (%d operations)' % n, True if n and not und else None, where(f), 'joined states')
    # data members and statics that lookups write and read
    dep = {}
    for x in s.paths:
        used = set()
        for t in list(x.facts.known) + list(x.facts.rng): used |= symbols(t)
        for tab in (x.facts.ordu, x.facts.ords):
            for a, b in tab: used |= symbols(a) | symbols(b)
        res = x.mem.get(('arg', 0), {})
        for off, c in res.items():
            if isinstance(off, int) and c[0] is not None: used |= symbols(c[1])
        for t in used:
            if isinstance(t[2], tuple) and t[2][0] == 'init' and (t[2][1], t[2][2]) in written and len(t[2]) == 4: dep[(t[2][1], t[2][2])] = x
    for (base, off), x in dep.items():
        m = [q for q in s.p.di.get('pwned::PasswordInspector', {'mem': []})['mem'] if len(q) > 2 and base == ('arg', 1) and q[1] <= off < q[1] + max(q[2], 1)]
        nm = m[0][0] if m else base[1] if base[0] == 'glob' else '+%d' % off
        R.ob('history', '%s does not depend on what lookups change' % label, False, where(f), 'its answer depends on %s, which lookups write' % (nm,))
    if not dep: R.ob('history', '%s does not depend on what lookups change (%d cells written)' % (label, len(written)), True)

def e_base(e, p): return e.ident(p)

def size(R):
    p = probe(R, 'inspect')
    if p is None: return
    f = one(R, p, 'size')
    if f is None: return
    R.saw('functions', f.dem)
    e = Engine(f)
    fs = member(p, 'pwned::PasswordInspector', lambda m: m[2] == 8 and re.search(r'long|int64|streamoff', m[3]))
    for x in e.run():
        if x.end != 'ret' or len(fs) != 1: continue
        sy = S(64, ('init', ('arg', 0), fs[0][1], 8))
        bad = None
        for n in (0, 20, 40, 400, 20 << 30):
            v = evalterm(x.val, {sy: n})
            if v is None: bad = 'unknown'; break
            if v != n // 20: bad = 'for a file of %d bytes it is %d' % (n, v); break
        R.ob('database-size', 'size() is the number of records', None if bad == 'unknown' else bad is None, where(f), bad or '')
