"""The index file: how pwned-index builds it, and how the reader's bucket width follows from the file's size."""
from ir import program
from absint import *
from report import where, AnalysisBroken
from g_text import probe, one
from g_search import member, MARK, REC

def reader(R):
    """(index position term of the bucket of a hash) the reader's shift as a term of the index file's size: [(shift term, size symbol)]"""
    p = probe(R, 'inspect')
    if p is None: return []
    f = one(R, p, 'open2')
    if f is None: return []
    R.saw('functions', f.dem)
    e = Engine(f); out = set()
    ms = [m[1] for m in member(p, 'pwned::PasswordInspector', lambda m: m[2] == 4 and 'unsigned' in m[3])]
    for x in e.run():
        if x.end != 'ret': continue
        for off in ms:
            c = x.mem.get(('arg', 0), {}).get(off)
            if c is None or isp(c[1]) or isc(c[1]): continue
            sy = [t for t in symbols(c[1])]
            if len(sy) == 1 and sy[0][2][0] == 'fn' and 'file_size' in str(e.defn(sy[0])[0]): out.add((c[1], sy[0]))
    return list(out)

def writer(R):
    p = program('pwned-index')
    f = p.find('main')[0] if isinstance(p.find('main'), list) else p.find('main')
    R.saw('functions', 'pwned-index: main')
    def ob(sub, ok, msg='', at=None): R.ob('index-writer', 'pwned-index: ' + sub, ok, at or where(f), msg)
    keep = lambda ev: ev.kind == 'store' or ev.kind == 'call' and re.search(r'istream::(read|seekg|tellg)|ostream::write|memset|_Fill|fill', ev.model)
    try:
        e = Engine(f, keep=keep, max_states=20000, exact=True); e.loopinits = True
        paths = e.run()
    except TooBig as t:
        ob('building the index', None, str(t)); return
    rid = {}
    for k, d in enumerate(e.defs):
        if d[0] == 'read': rid.setdefault(d[1], set()).add(k)
    def upper(t, allow=None):
        """symbols of a term that are the upper half of a record just read"""
        return [q for q in symbols(t) if isinstance(q[2], tuple) and q[2][0] == 'rd' and q[2][2:] == (0, 8)]
    wr = {}
    for x in paths:
        for ev in x.events():
            if ev.kind == 'call' and ev.model == 'std::ostream::write' and isp(ev.args[1]): wr.setdefault((ev.args[1], ev.args[2], ev.inst.loc()), x)
    wr = {k: x for k, x in wr.items() if k[0][1] and k[0][1][0] == 'heap'}
    if not wr: ob('the index is written', None, 'no write of an allocated table was recognised'); return
    rd = reader(R)
    if not rd: ob('the reader derives the bucket width from the size of the index', None)
    for (src, n, loc), _ in wr.items():
        base = src[1]
        bsym = [t for t in symbols(n)]
        if len(bsym) != 1: ob('size of the index', None, tstr(n)[:100], loc); continue
        bs = bsym[0]
        # what is stored where
        stores = {}
        for x in paths:
            evs = x.events()
            for k, ev in enumerate(evs):
                if ev.kind == 'store' and ev.args[0][1] == base and not isinstance(ev.args[0][2], int): stores.setdefault((ev.args[0][2], ev.args[1], ev.inst.loc()), []).append((x, k, ev))
        if not stores: ob('positions are stored', None, 'no store into the table was recognised', loc); continue
        SAMPLES = [0, 1, 0x0123456789abcdef, 0x7fffffffffffffff, 0x8000000000000000, 0xfedcba9876543210, MARK]
        for (off, val, sl), occ in stores.items():
            up = upper(off)
            if len(up) != 1 or not symbols(off) <= {bs, up[0]}: ob('bucket of a record', None, tstr(off)[:120], sl); continue
            bad = None
            for b in range(1, 41):
                size = evalterm(n, {bs: b})
                if size is None: bad = 'unknown'; break
                # hashes whose records the reader looks for in bucket k
                for u in SAMPLES:
                    o = evalterm(off, {bs: b, up[0]: u})
                    if o is None: bad = 'unknown'; break
                    if o + 8 > size: bad = 'with --bits %d a hash starting %016x is entered at byte %d of an index of %d bytes' % (b, u, o, size); break
                    for st, ss in rd:
                        sh = evalterm(st, {ss: size})
                        if sh is None: bad = 'unknown'; break
                        if sh < 64 and (u >> sh) * 8 != o: bad = 'with --bits %d a hash starting %016x is entered at byte %d, but looked up at byte %d of the index of %d bytes' % (b, u, o, (u >> sh) * 8, size); break
                    if bad: break
                if bad: break
            if bad == 'unknown': ob('bucket of a record', None, tstr(off)[:120], sl)
            else: ob('records are entered where the reader looks for them (1 to 40 bits)', bad is None, bad or '', sl)
            if bad: continue
            # the position entered
            for x, k, ev in occ[:40]:
                rds = [(j, v, rid.get(id(v.inst), set())) for j, v in enumerate(x.events()[:k]) if v.kind == 'call' and v.model == 'std::istream::read']
                if isc(val):
                    first = len({j for j, v, ids in rds if isc(v.args[2]) and v.args[2][2] in (16, 20)}) == 1 and not any(v.kind == 'loop' for v in x.events()[:k])
                    ob('the first record is entered at its position', (True if val[2] == 0 else False) if first else None, 'it is entered at position %d' % sval(val), sl)
                    continue
                c, d = _lin(val)
                tl = [t for t in d if t[0] == 's' and isinstance(t[2], tuple) and t[2][0] == 'fn']
                if any(set(symbols(q)) & set(up) for q in d): ob('the position entered is that of the record', False, 'it is computed from the hash of the record', sl); continue
                if len(d) != 1 or not tl or d[tl[0]] != 1: ob('the position entered is that of the record', None, tstr(val)[:100], sl); continue
                t = [v for v in x.events()[:k] if v.kind == 'call' and v.model.endswith('tellg')]
                if not t: ob('the position entered is that of the record', None, tstr(val)[:100], sl); continue
                ti = [j for j, v in enumerate(x.events()[:k]) if v is t[-1]][0]
                # bytes of the current record read before the position was asked for
                mine = [q for q in up]
                got = sum(v.args[2][2] for j, v, ids in rds if j < ti and isc(v.args[2]) and v.inst.loc() and j >= max([q for q, w, ids2 in rds if mine[0][2][1] in ids2] or [0]))
                have = c - (1 << 64) if c >> 63 else c
                started = any(mine[0][2][1] in ids for j, v, ids in rds if j < ti)
                if not started: ob('the position entered is that of the record', True if have == 0 else False, 'it is entered %+d bytes away from its start' % have, sl)
                else: ob('the position entered is that of the record', have == -got, 'it is entered %+d bytes away from its start' % (have + got), sl)
        # which records are entered
        bucket_terms = {t for off, val, sl in stores for t in _terms(off) if t[0] == 'x' and t[2] in ('lshr', 'and', 'udiv') and upper(t)}
        last = {cur for x in paths if x.end == 'back' for cur, nxt in loopvars(e, x) if nxt in bucket_terms}
        for x in paths:
            if x.end != 'back': continue
            evs = x.events(); lp = [k for k, ev in enumerate(evs) if ev.kind == 'loop' and ev.args[0][2] == x.head]
            if not lp: continue
            rds = [(k, ev) for k, ev in enumerate(evs) if k > lp[-1] and ev.kind == 'call' and ev.model == 'std::istream::read']
            if not rds: continue
            st = [ev for ev in evs[lp[-1]:] if ev.kind == 'store' and ev.args[0][1] == base]
            loc = (st[0] if st else rds[0][1]).inst.loc()
            rec = {q for q in {q for tab in (x.facts.ordu, x.facts.ords) for k in tab for t in k for q in upper(t)} | {q for ev in st if not isinstance(ev.args[0][2], int) for q in upper(ev.args[0][2])} if any(q[2][1] in rid.get(id(ev.inst), ()) for k, ev in rds)}
            if len(rec) != 1: continue
            rec, = rec
            cmps = {(p, q) for tab in (x.facts.ordu, x.facts.ords) for k in tab for p, q in (k, k[::-1]) if rec in symbols(p) and rec not in symbols(q)}
            heap = any(q[2][0] in ('init', 'lc') and q[2][1 if q[2][0] == 'init' else 2] == base for t in list(x.facts.known) + list(x.facts.rng) + [t for pq in cmps for t in pq] for q in symbols(t) if isinstance(q[2], tuple))
            if heap: ob('the first record of every bucket is entered', None, 'decided by the contents of the table', loc); continue
            got = False
            for cur in last:
                for p in bucket_terms:
                    if rec not in symbols(p) or not any(cur in symbols(q) for _, q in cmps): continue
                    got = True
                    gt, eq = x.facts.decide(icmp('ugt', p, cur)), x.facts.decide(icmp('eq', p, cur))
                    if st:
                        ob('only the first record of a bucket is entered', eq is False, 'a later record of the same bucket replaces it', loc)
                    else:
                        ob('the first record of every bucket is entered', gt is False, 'a record that starts a new bucket is not entered', loc)
            if st and not got:
                fixed = [q for p, q in cmps if p in bucket_terms and symbols(q) and all(isinstance(t[2], tuple) and t[2][0] not in ('phi', 'lc', 'iter', 'fn', 'join') for t in symbols(q))]
                ob('the bucket last entered is remembered', False if fixed else None, 'records are compared with a bucket that never changes: later records of a bucket replace its first', loc)
        # the table's initial contents
        for x in paths[:]:
            for ev in x.events():
                if ev.kind == 'call' and 'memset' in ev.model and ev.args[0] == src:
                    c = ev.args[1]
                    if isc(c): ob('empty buckets carry the mark the reader skips', c[2] & 255 == 255, 'they are filled with %#x' % (c[2] & 255), ev.inst.loc())
                    bad = None
                    for b in (1, 2, 8, 24, 30):
                        a, w = evalterm(ev.args[2], {bs: b}), evalterm(n, {bs: b})
                        if a is None or w is None: bad = 'unknown'; break
                        if a < w: bad = 'with --bits %d only %d of %d bytes are filled' % (b, a, w); break
                    ob('the whole table is filled with marks', None if bad == 'unknown' else bad is None, bad or '', ev.inst.loc())
    # all records are looked at: the table is written only after reading failed
    for x in paths:
        evs = x.events()
        w = [k for k, ev in enumerate(evs) if ev.kind == 'call' and ev.model == 'std::ostream::write']
        if not w or x.imp: continue
        rds = [ev for ev in evs[:w[0]] if ev.kind == 'call' and ev.model == 'std::istream::read']
        if not rds: continue
        last = rds[-1]
        ids = rid.get(id(last.inst), set())
        full = []
        for i in ids:
            if x.facts.known.get(S(1, ('iofail', i))) is False: full.append('read')
            g = x.facts.const(S(64, ('gcount', i)))
            if g is not None and isc(last.args[2]): full.append('read' if g == last.args[2][2] else 'short')
        short = 'short' in full or any(x.facts.known.get(S(1, ('iofail', i))) for i in ids)
        if not short:
            rg = [x.facts.range(S(64, ('gcount', i))) for i in ids]
            if any(isc(last.args[2]) and r and rs_size(r) < 64 and not rs_and(r, ((last.args[2][2],) * 2,)) for r in rg): short = True
        ob('the index is written when no further record can be read', True if short else False if full and 'short' not in full else None, 'it is written although the last read delivered a record', evs[w[0]].inst.loc())


def loopvars(e, x):
    for d, (cur, nxt) in (x.nxt or {}).items():
        if not isp(cur) and not isp(nxt): yield cur, nxt
    for base, off in e.havoc.get(x.head, ()):
        if not isinstance(off, int): continue
        c = x.mem.get(base, {}).get(off)
        if c is not None and c[0] is not None and not isp(c[1]): yield S(c[0] * 8, ('lc', x.head, base, off)), c[1]

def _terms(t):
    yield t
    if t[0] == '+':
        for a, c in t[3]: yield from _terms(a)
    elif t[0] == 'x':
        for a in t[3:]:
            if isinstance(a, tuple) and a and a[0] in ('i', 's', '+', 'x', 'cmp', 'not'): yield from _terms(a)
from terms import _lin
