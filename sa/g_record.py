"""The record format: readers and writers of (hash, count) records."""
from ir import program
from absint import *
from report import where, AnalysisBroken
from g_text import probe, one
from g_order import hash_offset, valid_offset

def layout(p):
    """(offset of the hash, offset of the count) in PasswordHashAndCount"""
    ho = hash_offset(p, 'pwned::PasswordHashAndCount'); co = None
    for m in p.di.get('pwned::PasswordHashAndCount', {'mem': []})['mem']:
        if len(m) > 3 and m[2] == 4 and 'int' in m[3] or len(m) > 3 and m[3] in ('uint32_t', 'unsigned int'): co = m[1]
    return ho, co

def readers(R):
    p = probe(R, 'record')
    if p is None: return
    ho, co = layout(p)
    for name, total, at in (('hread', 16, None), ('hreadat', 16, 2), ('pread', 20, None), ('preadat', 20, 2)):
        f = one(R, p, name)
        if f is None: continue
        R.saw('functions', f.dem)
        e = Engine(f, exact=True, keep=lambda ev: ev.kind == 'call')
        sub = {'hread': 'Hash::read', 'hreadat': 'Hash::read at a position', 'pread': 'record read', 'preadat': 'record read at a position'}[name]
        def ob(s, ok, msg=''): R.ob('record-read', sub + ': ' + s, ok, where(f), msg)
        can = False
        layout_ok = True
        for x in e.run():
            if x.end != 'ret': continue
            ev = [v for v in x.events() if v.kind == 'call']
            rd = [v for v in ev if v.model == 'std::istream::read']
            other = [v for v in ev if v.model in ('std::istream::get', 'std::istream::operator>>', 'std::operator>>', 'std::istream::readsome', 'std::istream::getline', 'std::istream::ignore')]
            if other: ob('reads whole blocks', None, 'uses ' + other[0].model); layout_ok = None; continue
            val = x.val if x.val is not None and width(x.val) == 1 else None
            if val is None: ob('result', None, 'no boolean result'); layout_ok = None; continue
            # destination and size of each read
            pos = 0
            for v in rd:
                d, n = v.args[1], v.args[2]
                if not isc(n): layout_ok = None; break
                want = None
                if d[0] == 'p' and d[1] == ('arg', 0) and isinstance(d[2], int):
                    if total == 16: want = d[2] == pos
                    else:
                        want = (pos < 16 and d[2] == ho + pos and pos + n[2] <= 16) or (pos >= 16 and d[2] == co + pos - 16)
                if want is None: layout_ok = None
                elif not want: ob('record layout', False, 'bytes %d..%d of a record are read to offset %d of the object' % (pos, pos + n[2] - 1, d[2])); layout_ok = False
                pos += n[2]
            ft = x.facts.assume(val, True)
            gcs = []
            for v in rd:
                pass
            full = True
            rids = [(k, d) for k, d in enumerate(e.defs) if d[0] == 'read']
            for v in rd:
                k = next((k for k, d in rids if d[1] == id(v.inst)), None)
                gc = S(64, ('gcount', k))
                if ft is not None and ft.range(gc) != ((v.args[2][2], v.args[2][2]),): full = False
                if ft is not None and k is None: full = None
            if ft is not None:
                if layout_ok and pos != total: ob('a whole record is read', False, 'success is reported after %d of %d bytes' % (pos, total)); layout_ok = False; continue
                if not x.imp and full is False: ob('success means a whole record', False, 'success is reported although the stream delivered fewer bytes'); continue
                ob('success means a whole record', True if full and not x.imp else None)
                can = True
            ff = x.facts.assume(val, False)
            if ff is not None and ft is None and rd and pos == total and layout_ok:
                allfull = all(x.facts.range(S(64, ('gcount', next(k for k, d in rids if d[1] == id(v.inst))))) == ((v.args[2][2], v.args[2][2]),) for v in rd)
                if allfull and not x.imp: ob('a whole record is a success', False, 'a whole record is reported as missing')
            if at is not None and rd:
                i0 = ev.index(rd[0])
                sk = [v for v in ev[:i0] if v.model == 'std::istream::seekg']
                if not sk: ob('positioned read starts at the position', False, 'the stream is not moved before reading'); continue
                s = sk[-1]
                want = S(64, ('arg', at))
                a = s.args[1]
                dirarg = s.args[2] if len(s.args) > 2 else None
                okp = a == want
                if okp and dirarg is not None and 'seekdir' in p.dem(s.inst.fn).lower().replace('_s_', '').replace('_ios_', ''):
                    okp = isc(dirarg) and dirarg[2] == 0
                ob('positioned read starts at the position', True if okp else False if not isp(a) and (isc(a) or symbols(a) <= {want}) or (a == want) else None, 'the stream is moved to ' + tstr(a)[:80])
                old = s.info[1] if s.info and s.info[0] == 'before' else None
                if old is not None:
                    fl = x.facts.decide(binop('or', old[1], old[2], 1)) if old[1] != FALSE or old[2] != FALSE else False
                    ob('positioned read works on a stream that failed before', True if fl is False else False if fl is None and not x.imp else None,
                       'the error state is not cleared before moving: after one read past the end every further read fails')
        ob('the object is filled in file order', layout_ok)
        if not can: ob('success is possible', False, 'success is never reported')

def writer(R):
    p = probe(R, 'record')
    if p is None: return
    ho, co = layout(p)
    f = one(R, p, 'dump')
    if f is None: return
    R.saw('functions', f.dem)
    e = Engine(f, exact=True, keep=lambda ev: ev.kind == 'call')
    for x in e.run():
        if x.end != 'ret': continue
        pos = 0; ok = True; msg = ''
        ws = [v for v in x.events() if v.kind == 'call']
        for v in ws:
            if v.model in ('std::ostream::operator<<', 'std::operator<<', 'std::ostream::put'): ok = None; msg = v.model; break
            if v.model != 'std::ostream::write': continue
            d, n = v.args[1], v.args[2]
            if not isc(n) or not isp(d) or not isinstance(d[2], int): ok = None; break
            if d[1] == ('arg', 0):
                good = (pos < 16 and d[2] == ho + pos and pos + n[2] <= 16) or (pos >= 16 and d[2] == co + pos - 16)
                if not good: ok = False; msg = 'bytes %d.. of the record are taken from offset %d of the object (%d bytes)' % (pos, d[2], n[2]); break
            else:
                # a copy: its content at that moment is not known here
                ok = None; msg = 'written from a copy'
            pos += n[2]
        if ok and pos != 20: ok = False; msg = '%d bytes are written instead of 20' % pos
        R.ob('record-write', 'dump writes the 16 hash bytes and then the count', ok, where(f), msg)

def copies(R):
    """hash and count survive copying and construction"""
    p = probe(R, 'record')
    if p is None: return
    ho, co = layout(p); vo = valid_offset(p)
    def cell(x, base, off, size):
        m = x.mem.get(base, {}); c = m.get(off)
        if c is None or c[0] != size: return None
        return c[1]
    def cmp_cells(name, sub, pairs, dst):
        f = one(R, p, name)
        if f is None: return
        R.saw('functions', f.dem)
        e = Engine(f, exact=True)
        for x in e.run():
            if x.end != 'ret': continue
            for off, size, want, what in pairs:
                c = cell(x, dst, off, size)
                if c is None: R.ob('record-copy', '%s keeps the %s' % (sub, what), None, where(f)); continue
                if callable(want): ok = want(c)
                else: ok = True if c == want else False if not isp(c) and (isc(c) or (c[0] == 's' and isinstance(c[2], tuple) and c[2][0] in ('init', 'arg'))) else None
                R.ob('record-copy', '%s keeps the %s' % (sub, what), ok, where(f), 'it becomes ' + tstr(c)[:100])
    def src(base, off, size): return S(size * 8, ('init', base, off, size))
    A1 = ('arg', 1); A0 = ('arg', 0)
    H = lambda o, so, sb: [(o, 8, src(sb, so, 8), 'upper half'), (o + 8, 8, src(sb, so + 8, 8), 'lower half')] + ([(o + vo, 1, src(sb, so + vo, 1), 'validity')] if vo is not None else [])
    def H2(o, so, sb):
        # bool copies go through i1: compare by value
        r = H(o, so, sb)
        if vo is not None:
            s8 = src(sb, so + vo, 1)
            r[-1] = (o + vo, 1, lambda c: True if symbols(c) == {s8} else False if isc(c) else None, 'validity')
        return r
    cmp_cells('hcopy', 'assigning a hash', H2(0, 0, A1), A0)
    cmp_cells('hctor', 'copying a hash', H2(0, 0, A1), A0)
    if ho is not None and co is not None:
        cmp_cells('pctor', 'PasswordHashAndCount(hash, count)', H2(ho, 0, A1) + [(co, 4, S(32, ('arg', 2)), 'count')], A0)
        cmp_cells('pcopy', 'assigning a record', H2(ho, ho, A1) + [(co, 4, src(A1, co, 4), 'count')], A0)
    cmp_cells('hquad', 'Hash(upper, lower)', [(0, 8, S(64, A1), 'upper half'), (8, 8, S(64, ('arg', 2)), 'lower half')], A0)
    for name, n in (('psize', 20), ('hsize', 16)):
        f = one(R, p, name)
        if f is None: continue
        for x in Engine(f).run():
            if x.end == 'ret': R.ob('record-size', '%s::size is %d' % ('PasswordHashAndCount' if n == 20 else 'Hash', n), x.val == I(64, n) if isc(x.val) else None, where(f), 'it is ' + tstr(x.val))
