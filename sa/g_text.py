"""Hash texts, $HEX texts, password digests."""
import re
from ir import program
from absint import *
from report import where, AnalysisBroken

HEX = ((48, 57), (65, 70), (97, 102))
def hexval(c): return c - 48 if c <= 57 else c - 55 if c <= 70 else c - 87
ISHEX = lambda c: 48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102
def members(r): return [v for a, b in r for v in range(a, b + 1)]
def sub_rs(r, s): return rs_and(r, s) == r

def probe(R, name):
    try: return program('probe:' + name)
    except AnalysisBroken as x:
        R.note('witness file %s does not compile against this tree: %s' % (name, str(x)[-400:])); return None

def one(R, p, name):
    f = p.find('witness::' + name)
    if len(f) == 1: return f[0]
    R.note('the witness %s does not compile against this tree and is left out' % name); return None

def charsyms(facts, base):
    """symbols for single characters of a string on this path: {offset term: symbol}"""
    out = {}
    for t in facts.rng:
        if t[0] == 's' and t[1] == 8 and isinstance(t[2], tuple) and t[2][0] == 'init' and t[2][1] == base: out[t[2][2]] = t
    return out

def hex_digit(R):
    p = probe(R, 'text')
    if p is None: return
    f = one(R, p, 'hexdigit')
    if f is None: return
    R.saw('functions', f.dem)
    e = Engine(f, exact=True); ps = [x for x in e.run() if x.end == 'ret']
    a = S(8, ('arg', 0)); ok = True; cover = set()
    for x in ps:
        if x.imp or x.heads if hasattr(x, 'heads') else x.imp: ok = None; continue
        for c in members(x.facts.range(a)):
            if set(x.facts.rng) - {a} or x.facts.known: 
                ok = None; break
            v = evalterm(x.val, {a: c})
            if v is None: ok = None; break
            v = v - (1 << 32) if v >> 31 else v
            cover.add(c)
            if ISHEX(c) and v != hexval(c): R.ob('hex-digit', 'decodeHex', False, where(f), 'the digit %r is decoded as %d' % (chr(c), v)); return
            if not ISHEX(c) and v >= 0: R.ob('hex-digit', 'decodeHex', False, where(f), 'character 0x%02x is accepted as a hex digit with value %d' % (c, v)); return
    R.ob('hex-digit', 'decodeHex maps exactly [0-9A-Fa-f] to 0..15 (all 256 characters, %d paths)' % len(ps), True if ok and len(cover) == 256 else None, where(f), 'not evaluable')

def from_hex(R):
    p = probe(R, 'text')
    if p is None: return
    f = one(R, p, 'fromhex')
    if f is None: return
    R.saw('functions', f.dem)
    e = Engine(f, exact=True)
    try: ps = e.run()
    except TooBig as x: R.ob('hash-text', 'Hash::fromHex', None, where(f), str(x)); return
    from g_order import valid_offset
    vo = valid_offset(p)
    if vo is None: R.ob('hash-text', 'Hash::fromHex', None, '', 'no validity flag found'); return
    C = ('st0', ('arg', 1), 0); base = ('cstr', C)
    size = [S(64, ('fn', k)) for k, d in enumerate(e.defs) if d[0].endswith(('basic_string::size', 'basic_string::length')) and d[1] and d[1][0][:2] == ('c', C)]
    def ob(sub, ok, msg=''): R.ob('hash-text', 'Hash::fromHex: ' + sub, ok, where(f), msg)
    def valid(x):
        c = x.mem.get(('arg', 0), {}).get(vo)
        if c is None or c[0] != 1: return None, None
        v = x.facts.decide(icmp('ne', c[1], I(8, 0)))
        if v is None:
            # a function of the number of iterations: all numbers the path allows
            it = [i for i in (S(64, ('iter', h)) for h in e.heads) if i in x.facts.rng]
            if len(it) == 1 and symbols(c[1]) == {it[0]}:
                rel = [(a, r) for a, r in x.facts.rng.items() if a != it[0] and symbols(a) == {it[0]}]
                vals = set()
                for n in range(70):
                    if all(any(lo <= evalterm(a, {it[0]: n}) <= hi for lo, hi in r) for a, r in rel): vals.add(evalterm(c[1], {it[0]: n}))
                bound = any(r[-1][1] < 140 for a, r in rel)
                if bound and vals == {0}: v = False
                elif bound and vals and 0 not in vals and None not in vals: v = True
        return v, c[1]
    # texts of other lengths
    bad = None
    for x in ps:
        if x.end != 'ret' or not size: continue
        v, t = valid(x)
        if v is False: continue
        r = x.facts.range(size[0]); other = rs_and(r, rs_not(((32, 32),), 64))
        if not other: continue
        if v is True and not x.imp and not charsyms(x.facts, base) and not any(S(64, ('iter', h)) in x.facts.rng for h in e.heads):
            ob('only 32 characters', False, 'a text of %d characters is accepted as a hash' % other[0][0]); return
        bad = True
    ob('a text that is not 32 characters long is invalid', None if bad or not size else True)
    loops = [x for x in ps if x.end == 'back']
    good = []
    for x in loops:
        cs = charsyms(x.facts, base); it = S(64, ('iter', x.head))
        c0, c1 = cs.get(fromoff(mulc(it, 2))), cs.get(fromoff(add(mulc(it, 2), I(64, 1))))
        if len(cs) != 2 or c0 is None or c1 is None: good = None; break
        good.append((x, it, c0, c1))
    if not good:
        ob('each pair of digits', None, 'no loop over pairs of characters recognised'); return
    seen = set()
    for x, it, c0, c1 in good:
        if x.imp: ob('each pair of digits', None, 'joined paths'); return
        r0, r1 = x.facts.range(c0), x.facts.range(c1)
        if not sub_rs(r0, HEX) or not sub_rs(r1, HEX):
            n = [v for v in members(r0) + members(r1) if not ISHEX(v)][0]
            ob('only hex digits', False, 'decoding goes on after the character 0x%02x, which is not a hex digit' % n); return
        st = x.mem.get(('arg', 0), {})
        cell = st.get(fromoff(it))
        if size and cell is not None and x.facts.range(size[0])[-1][1] > 33 and x.facts.range(mulc(it, 2))[-1][1] >= 32 and x.facts.range(it)[-1][1] >= 16:
            ob('only 16 bytes are written', False, 'for a text longer than 32 characters bytes behind the hash are overwritten'); return
        if cell is None or cell[0] != 1:
            cells = [k for k in st if isinstance(k, tuple) and k[0] == '+' and st[k][0] == 1]
            ob('byte j of the hash comes from digits 2j and 2j+1', None, 'no store to byte j found'); return
        for u in members(r0):
            for v in members(r1):
                got = evalterm(cell[1], {c0: u, c1: v})
                if got is None: ob('byte value', None, 'not evaluable'); return
                if got != (hexval(u) * 16 + hexval(v)):
                    ob('byte j of the hash comes from digits 2j and 2j+1', False, "'%c%c' is decoded as 0x%02x" % (u, v, got)); return
                seen.add((u, v))
    missing = 22 * 22 - len(seen)
    ob('each pair of hex digits is decoded to its value (484 pairs)', True if not missing else None)
    # leaving the loop early means invalid, and never happens for digits
    for x in ps:
        if x.end != 'ret': continue
        cs = charsyms(x.facts, base)
        v, t = valid(x)
        if cs:
            rs = [x.facts.range(c) for c in cs.values()]
            if x.imp: ob('early end', None, 'joined paths'); continue
            if v is True: ob('a text with a character that is no hex digit is invalid', False, 'decoding stops at a character in %s and the hash is valid' % (rs,)); return
            hx = [rs_and(r, HEX) for r in rs]
            if v is False and len(cs) == 2 and all(hx):
                ob('valid texts are accepted', False, "decoding stops at the digits '%c%c'" % (hx[0][0][0], hx[1][0][0])); return
            if v is None and t is not None:
                # some number of pairs was decoded before: is the hash valid for one the path allows?
                it = [i for i in (S(64, ('iter', h)) for h in e.heads) if i in x.facts.rng]
                if len(it) == 1 and symbols(t) == {it[0]}:
                    rel = [(a, r) for a, r in x.facts.rng.items() if symbols(a) == {it[0]}]
                    for n in range(16):
                        if evalterm(t, {it[0]: n}) not in (0, None) and all(any(lo <= (evalterm(a, {it[0]: n}) or 0) <= hi for lo, hi in r) for a, r in rel):
                            ob('a text with a character that is no hex digit is invalid', False, 'decoding stops after %d digits and the hash is valid' % (2 * n)); return
            ob('stopping early leaves the hash invalid', True if v is False else None)
        elif size and x.facts.range(size[0]) == ((32, 32),):
            it = [i for i in (S(64, ('iter', h)) for h in e.heads) if i in x.facts.rng]
            if len(it) == 1 and t is not None:
                w = v if v is not None else evalterm(t, {it[0]: 16})
                if w is not None and not w: ob('32 hex digits are a valid hash', False, 'the hash is marked invalid after all 32 digits were decoded'); return
                ob('32 hex digits are a valid hash', True if w else None)
            host_order(R, 'hash-text', 'Hash::fromHex', f, x, ('arg', 0))

def host_order(R, rule, subject, f, x, base):
    """the halves of the hash are the big-endian reading of the digest bytes"""
    m = x.mem.get(base, {})
    for off in (0, 8):
        c = m.get(off); sub = '%s: %s half is converted to host byte order' % (subject, 'upper' if off == 0 else 'lower')
        if c is None: R.ob(rule, sub, False if not any(isinstance(k, int) and k == off for k in m) and any(isinstance(k, tuple) for k in m) and False else None, where(f), 'content not known'); continue
        t = c[1]
        if t[0] == 'x' and t[2] == 'bswap' and t[3][0] == 's' and isinstance(t[3][2], tuple):
            n = t[3][2]
            src = n[2] if n[0] == 'init' and n[1] == base else None
            if src is None: R.ob(rule, sub, True); continue
            R.ob(rule, sub, src == off, where(f), 'it is taken from byte %s of the digest' % (src,))
        elif t[0] == 's': R.ob(rule, sub, False, where(f), 'the bytes of the digest are used in memory order')
        else: R.ob(rule, sub, None, where(f), tstr(t)[:200])

CUT = re.compile(r'basic_stringIcSt11char_traitsIcESaIcEE(C[12]I?S?\d?_?v?E+PKcRKS\d?_|C[12]IS\d_(vE?)?E?E?PKcRKS\d_|6assignEPKc|6appendEPKc|aSEPKc|pLEPKc)$')
def whole_texts(R, rule, label, f, msg='a text is copied through a pointer without its length: it ends at its first zero byte'):
    """no text is copied as a zero-terminated one"""
    e = Engine(f, keep=lambda ev: ev.kind == 'call' and bool(ev.inst is not None and ev.inst.fn and CUT.search(ev.inst.fn)), max_states=20000, width=8)
    if not any(i.fn and CUT.search(i.fn) for b in e.f.blocks for i in b if i.op in ('call', 'invoke')): R.ob(rule, label + ': texts keep their zero bytes', True); return
    try: r = e.run()
    except TooBig: return
    for x in r:
        for ev in x.events():
            if ev.kind == 'call' and len(ev.args) > 1 and isp(ev.args[1]) and ev.args[1][1] and ev.args[1][1][0] == 'cstr' and not (ev.args[1][1][1] and ev.args[1][1][1][0] == 'lit'):
                R.ob(rule, label + ': texts keep their zero bytes', False, ev.inst.loc(), msg); return
    R.ob(rule, label + ': texts keep their zero bytes', True)

def password_digest(R):
    p = probe(R, 'text')
    if p is None: return
    f = one(R, p, 'password')
    if f is None: return
    R.saw('functions', f.dem)
    e = Engine(f, keep=lambda ev: ev.kind == 'call')
    C = ('st0', ('arg', 1), 0)
    whole_texts(R, 'digest', 'Hash(password)', f)
    for x in e.run():
        if x.end != 'ret': continue
        md = [ev for ev in x.events() if ev.model == 'MD5']
        if len(md) != 1: R.ob('digest', 'Hash(password)', None, where(f), '%d calls of MD5' % len(md)); continue
        d, n, out = md[0].args[:3]
        R.ob('digest', 'Hash(password): the digest starts at the first byte of the password', True if d == ('p', ('cstr', C), 0) else False if isp(d) and d[1] == ('cstr', C) else None, md[0].inst.loc(), tstr(d)[:120])
        ds = [a for a in symbols(n)]
        df = [e.defn(a) for a in ds]
        ok = None; msg = tstr(n)[:200]
        if len(df) == 1 and df[0] and df[0][0].endswith(('basic_string::size', 'basic_string::length')) and df[0][1][0][1] == C: ok = n == ds[0]; msg = 'only part of the password is hashed (%s)' % tstr(n)
        elif isc(n): ok = False; msg = 'a constant number of bytes is hashed'
        elif len(df) == 1 and df[0] and df[0][0] in ('strlen', 'std::char_traits::length', '__builtin_strlen', 'strnlen'): ok = False; msg = 'the password is hashed only up to its first zero byte'
        R.ob('digest', 'Hash(password): the digest covers size() bytes', ok, md[0].inst.loc(), msg)
        R.ob('digest', 'Hash(password): the digest becomes the hash value', True if out == ('p', ('arg', 0), 0) else None, md[0].inst.loc())
        from g_order import valid_offset
        vo = valid_offset(p); c = x.mem.get(('arg', 0), {}).get(vo)
        if c is not None and c[0] == 1:
            v = x.facts.decide(icmp('ne', c[1], I(8, 0)))
            R.ob('digest', 'Hash(password) is valid', v, where(f), 'the hash of a password is marked invalid')
        if out == ('p', ('arg', 0), 0): host_order(R, 'digest', 'Hash(password)', f, x, ('arg', 0))

MANIP = {'_ZSt3hex': ('base', 16), '_ZSt3dec': ('base', 10), '_ZSt3oct': ('base', 8), '_ZSt9uppercase': ('upper', True), '_ZSt11nouppercase': ('upper', False), '_ZSt8showbase': ('showbase', True),
         '_ZSt4left': ('adjust', 'left'), '_ZSt5right': ('adjust', 'right'), '_ZSt8internal': ('adjust', 'internal'), '_ZSt7showpos': ('showpos', True)}
def hash_text(R):
    p = probe(R, 'text')
    if p is None: return
    for name, upper in (('lower', False), ('upper', True), ('print', False)):
        f = one(R, p, name)
        if f is None: continue
        R.saw('functions', f.dem)
        e = Engine(f, keep=lambda ev: ev.kind == 'call', exact=True)
        # toString's branch on its flag is decided by the constant argument
        try: ps = [x for x in e.run() if x.end == 'ret']
        except TooBig as t: R.ob('hash-print', name, None, where(f), str(t)); continue
        harg = 1 if name != 'print' else 1
        for x in ps:
            sub = {'lower': 'toString()', 'upper': 'toString(true)', 'print': 'operator<<'}[name]
            st = {'base': 10, 'fill': 32, 'width': 0, 'upper': False, 'adjust': 'right'}
            out = []; odd = None
            for ev in x.events():
                m = ev.model
                if not m.endswith('operator<<') and m not in ('std::ostream::operator<<', 'std::ostream::put', 'std::ostream::write', 'snprintf', 'sprintf', 'std::ios_base::setf', 'std::ios_base::width', 'std::basic_ios::fill', 'std::ios_base::flags', 'std::hex', 'std::uppercase'): continue
                if not m.endswith('operator<<'): odd = m; break
                a = ev.args[1] if len(ev.args) > 1 else None
                if a is None: continue
                if isp(a) and a[1] is not None and a[1][0] == 'glob':
                    k = next((v for n, v in MANIP.items() if a[1][1].startswith(n + 'R')), None)
                    if k: st[k[0]] = k[1]; continue
                    if isinstance(e.obj_lit(a), str): out.append(('text', e.obj_lit(a))); st['width'] = 0; continue
                    odd = str(a[1]); break
                d = e.defn(a) if not isp(a) else None
                if d and d[0] == 'std::setw': st['width'] = sval(d[1][0]) if isc(d[1][0]) else None; continue
                if d and d[0] == 'std::setfill': st['fill'] = d[1][0][2] if isc(d[1][0]) else None; continue
                if d and d[0] == 'std::setbase': st['base'] = sval(d[1][0]) if isc(d[1][0]) else None; continue
                if not isp(a) and width(a) == 64: out.append(('num', a, dict(st))); st['width'] = 0; continue
                if isp(a) and a[1] is not None and e.defn(a) is None and name == 'print': continue  # the finished text
                odd = tstr(a)[:80]; break
            nums = [o for o in out if o[0] == 'num']
            if odd or not nums: R.ob('hash-print', sub, None, where(f), 'printed in another way (%s)' % odd); continue
            want = [S(64, ('init', ('arg', harg), 0, 8)), S(64, ('init', ('arg', harg), 8, 8))]
            if [o[1] for o in nums] != want or len(out) != 2:
                R.ob('hash-print', sub + ' prints the upper half, then the lower half', False if all(o[1] in want for o in nums) else None, where(f), 'prints ' + ', '.join(tstr(o[1]) if o[0] == 'num' else repr(o[1]) for o in out)); continue
            for o, half in zip(nums, ('upper', 'lower')):
                s = o[2]; msg = None
                if s['base'] != 16: msg = 'in base %s' % s['base']
                elif s['width'] != 16: msg = 'with a width of %s' % s['width']
                elif s['fill'] != 48: msg = 'padded with %r' % (chr(s['fill']) if s['fill'] else s['fill'])
                elif s['upper'] != upper: msg = 'in %s case' % ('upper' if s['upper'] else 'lower')
                elif s['adjust'] == 'left': msg = 'padded on the right'
                elif s.get('showbase'): msg = 'with a 0x prefix'
                R.ob('hash-print', '%s prints the %s half as 16 digits' % (sub, half), msg is None, where(f), 'it is printed ' + str(msg))

def char_seq(R):
    """hexToCharSeq: the text after $HEX[ is decoded byte by byte"""
    p = probe(R, 'text')
    if p is None: return
    f = one(R, p, 'charseq')
    if f is None: return
    R.saw('functions', f.dem)
    e = Engine(f, exact=True, keep=lambda ev: ev.kind == 'call' and re.search(r'basic_string::(push_back|append|operator\+=|clear|resize|insert|assign|operator=)$', ev.model))
    try: ps = e.run()
    except TooBig as x: R.ob('hex-text', 'hexToCharSeq', None, where(f), str(x)); return
    C = ('st0', ('arg', 0), 0); base = ('cstr', C)
    def ob(sub, ok, msg=''): R.ob('hex-text', 'hexToCharSeq: ' + sub, ok, where(f), msg)
    sizes = [S(64, ('fn', k)) for k, d in enumerate(e.defs) if d[0].endswith(('basic_string::size', 'basic_string::length')) and d[1] and d[1][0][:2] == ('c', C)]
    loops = [x for x in ps if x.end == 'back']
    seen = set(); ok = True
    for x in loops:
        cs = charsyms(x.facts, base); it = S(64, ('iter', x.head))
        c0, c1 = cs.get(fromoff(mulc(it, 2))), cs.get(fromoff(add(mulc(it, 2), I(64, 1))))
        if len(cs) != 2 or c0 is None or c1 is None or x.imp: ok = None; break
        r0, r1 = x.facts.range(c0), x.facts.range(c1)
        if not sub_rs(r0, HEX) or not sub_rs(r1, HEX):
            n = [v for v in members(r0) + members(r1) if not ISHEX(v)][0]
            ob('only hex digits', False, 'decoding goes on after the character 0x%02x' % n); return
        evs = [ev for ev in x.events() if ev.kind == 'call']
        lp = [k for k, ev in enumerate(x.events()) if ev.kind == 'loop' and ev.args[0][2] == x.head]
        evs = [ev for ev in x.events()[lp[-1] + 1:] if ev.kind == 'call'] if lp else evs
        if len(evs) != 1 or not isp(evs[0].args[0]): ok = None; break
        v = evs[0].args[-1]
        if isp(v): ok = None; break
        for u in members(r0):
            for w in members(r1):
                got = evalterm(v, {c0: u, c1: w})
                if got is None: ok = None; break
                if got & 255 != hexval(u) * 16 + hexval(w): ob('byte value', False, "'%c%c' is decoded as 0x%02x" % (u, w, got & 255)); return
                seen.add((u, w))
            if ok is None: break
    ob('each pair of hex digits becomes one byte (484 pairs)', True if ok and len(seen) == 484 else None)
    for x in ps:
        if x.end != 'ret': continue
        v = x.facts.decide(x.val) if x.val is not None and width(x.val) == 1 else None
        cs = charsyms(x.facts, base)
        if cs:
            if x.imp: continue
            rs = [x.facts.range(c) for c in cs.values()]
            if v is True: ob('a text with other characters is not decoded', False, 'a text with a character in %s is reported as decoded' % (rs,)); return
            hx = [rs_and(r, HEX) for r in rs]
            if v is False and len(cs) == 2 and all(hx): ob('hex texts are decoded', False, "the digits '%c%c' are rejected" % (hx[0][0][0], hx[1][0][0])); return
            ob('a text with other characters is reported as undecodable', True if v is False else None)
        elif v is True and sizes:
            # odd lengths
            par = [t for t in x.facts.rng if t[0] == 'x' and t[2] in ('urem', 'and') and sizes[0] in t]
            odd = any(x.facts.range(t) == ((0, 0),) for t in par)
            # without a test of the parity the last pair would lie half outside the text
            ob('a text of odd length is not decoded', True if odd else None)
