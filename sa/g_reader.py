"""UserPasswordReader: which text of a line is the password, when it is decoded, what is hashed."""
import re
from ir import program
from absint import *
from report import where, AnalysisBroken
from g_text import probe, one, ISHEX, members

NPOS = (1 << 64) - 1
CR = 13

class Txt:
    """what the content of a string is made from"""
    def __init__(s, e): s.e = e
    def op(s, C):
        """('line',) | ('nochr', X, ch) | ('sub', X, pos, n) | ('call', model, contents) | ('lit', text) | None"""
        if C and C[0] == 'lit': return C
        d = s.e.defn(C)
        if d is None: return None
        if d[0] == 'line': return ('line',)
        if d[0] == 'nochr': return ('nochr', d[1], d[2])
        if d[0] == 'val':
            k = s.e.defs[d[1]]
            if isinstance(k[0], str) and k[0].endswith('basic_string::substr') and len(k[1]) == 3: return ('sub', k[1][0][1], k[1][1], k[1][2])
            return ('call', k[0], k[1])
        return None
    def chain(s, C):
        """[(op, ...)] from the outermost operation to the line; None if something unknown is involved"""
        out = []
        while True:
            o = s.op(C)
            if o is None or o[0] == 'call': return None
            out.append((C, o))
            if o[0] in ('line', 'lit'): return out
            C = o[1]
    def find(s, t):
        """(model, text, char, start) of a position found in a text"""
        d = s.e.defn(t) if t and t[0] == 's' else None
        if d is None or not isinstance(d[0], str) or not re.search(r'basic_string::(find|rfind|find_first_of|find_last_of)$', d[0]): return None
        c = d[1]
        if len(c) != 3 or c[0][0] != 'c': return None
        return d[0].rsplit('::', 1)[1], c[0][1], c[1], c[2]

def first_sep(model, start):
    if model in ('rfind', 'find_last_of'): return 'the last occurrence of the separator counts'
    if isc(start) and start[2] != 0: return 'the search for the separator starts at character %d' % start[2]
    return None

def fact(x, t):
    return x.facts.decide(t)

def extraction(e, x, C):
    """is C the password of the line on this path?  (True|False|None, message)"""
    T = Txt(e); ch = T.chain(C)
    if ch is None: return None, 'text of unknown origin'
    if ch[-1][1][0] == 'lit': return None, 'no text of the line'
    ops = [o for _, o in ch]
    subs = [(c, o) for c, o in ch if o[0] == 'sub']; cuts = [o for o in ops if o[0] == 'nochr']
    for o in cuts:
        if not isc(o[2]): return None, ''
        if o[2][2] != CR: return False, 'characters 0x%02x are removed from the line' % o[2][2]
    if not cuts: return False, 'carriage returns are left in the text'
    if len(subs) > 1: return None, ''
    if subs:
        X, pos, n = subs[0][1][1:]
        if not isc(n) : return None, 'substr of computed length'
        if n[2] < 1 << 32: return False, 'the password is cut off after %d characters' % n[2]
        fs = [f for f in map(lambda a: (a, T.find(a)), symbols(pos)) if f[1]]
        if len(fs) != 1: return None, 'position of unknown origin'
        a, (m, Y, c, st) = fs[0]
        w = first_sep(m, st)
        if w: return False, w
        if not isc(st): return None, ''
        d = sub(pos, a)
        if not isc(d): return None, ''
        if Y != X:
            if T.chain(Y) is None: return None, ''
            return False, 'the separator is looked up in a text other than the one that is cut'
        if isc(c): return (False, 'a fixed character is taken for the separator') if sval(c) not in (0,) else (None, '')
        if sval(d) != 1:
            v = fact(x, icmp('eq', a, I(64, NPOS)))
            if v is True and isc(add(I(64, NPOS), d)) and (NPOS + sval(d)) & NPOS == 0: return True, ''
            return False, 'the password starts %d characters after the separator' % sval(d)
        return True, ''
    # the whole line
    N = {c for c, _ in ch}
    finds = []
    for k, d in enumerate(e.defs):
        if isinstance(d[0], str) and 'basic_string::' in d[0]:
            t = S(64, ('fn', k)); f = T.find(t)
            if f and f[1] in N: finds.append((t, f))
    v = [fact(x, icmp('eq', t, I(64, NPOS))) for t, f in finds]
    if any(q is True for q in v): return True, ''
    for (t, f), q in zip(finds, v):
        z = None if isc(f[2]) else fact(x, icmp('eq', f[2], I(width(f[2]), 0)))
        if z is True: return True, ''
        if q is False and z is False: return False, 'the whole line is taken although the separator was found'
    # not looked up on this path: only right if the file has no separator
    for t, f in finds:
        if isc(f[2]): continue
        z = fact(x, icmp('eq', f[2], I(width(f[2]), 0)))
        if z is False and q is None and f[1] in N:
            return False, 'the whole line is taken without looking for the separator'
    return None, 'whole line'

def content(x, p):
    c = x.mem.get(p[1], {}).get(('st', p[2]))
    return c[1] if c is not None else None

def line_of(e, x):
    """size and emptiness symbols of the line read on a path: [(getline event, content, [size symbols], [empty symbols])]"""
    out = []
    for ev in x.events():
        if ev.kind == 'call' and ev.model == 'std::getline':
            out.append(ev)
    return out

_syms = {}
def size_syms(e, C):
    c = _syms.setdefault(id(e), {})
    if c.get(0) is not e: c.clear(); c[0] = e
    k = (C, len(e.defs))
    if k not in c: c[k] = _size_syms(e, C)
    return c[k]
def _size_syms(e, C):
    sz, em = [], []
    for k, d in enumerate(e.defs):
        if isinstance(d[0], str) and len(d) > 1 and isinstance(d[1], tuple) and len(d[1]) == 1 and isinstance(d[1][0], tuple) and d[1][0][:2] == ('c', C):
            if re.search(r'basic_string::(size|length)$', d[0]): sz.append(S(64, ('fn', k)))
            elif d[0].endswith('basic_string::empty'): em.append(S(1, ('fn', k)))
    return sz, em
def line_contents(e):
    c = _syms.setdefault(id(e), {})
    if c.get(0) is not e: c.clear(); c[0] = e
    k = len(e.defs)
    if k not in c: c[k] = [S(64, ('fn', k)) for k, d in enumerate(e.defs) if d[0] == 'line']
    return c[k]

def length_env(e, C, n):
    sz, em = size_syms(e, C); env = {}
    for t in sz: env[t] = n
    for t in em: env[t] = int(n == 0)
    return env
LENGTHS = (0, 1, 2, 3, 31, 32, 100, 127, 128, 198, 199, 200, 201, 202, 255, 256, 257, 1000, 65536, 65537 + 100, (1 << 32) + 5)

def keepstr(ev): return ev.kind == 'call' and not re.search(r'::~|allocator', ev.model)

def next_password(R):
    """the text a line yields"""
    p = probe(R, 'reader')
    if p is None: return
    f = one(R, p, 'nextpassword')
    if f is None: return
    R.saw('functions', f.dem)
    from g_text import whole_texts
    whole_texts(R, 'password-text', 'nextPassword', f)
    try: e = Engine(f, exact=True, keep=keepstr); ps = e.run()
    except TooBig as t: R.ob('password-text', 'nextPassword', None, where(f), str(t)); return
    for x in ps:
        if x.end != 'ret' or x.imp: continue
        g = [ev for ev in x.events() if ev.kind == 'call' and ev.model == 'std::getline']
        loops = [ev for ev in x.events() if ev.kind == 'loop']
        C = content(x, ('p', ('arg', 0), 0))
        if not g: continue
        loc = g[0].inst.loc()
        if len(g) > 1 and not loops: R.ob('password-text', 'a password comes from one line', False, loc, 'more than one line is read for one password'); continue
        L = [c for c in line_contents(e) if any(k[0] == 'c' for k in [('c',)])]
        Lc = [c for c in L if length_env(e, c, 0)] or L
        if len(L) != 1: continue
        if C is None: R.ob('password-text', 'text returned', None, loc, 'unknown'); continue
        good = [n for n in LENGTHS if x.facts.consistent(length_env(e, L[0], n))]
        syms = size_syms(e, L[0])[0]
        valid = [n for n in good if 1 <= n <= 200]; inval = [n for n in good if not 1 <= n <= 200]
        if C == ('lit', ''):
            # nothing: right for lines too short or too long
            if valid and not inval: R.ob('password-line', 'a line of 1 to 200 characters yields its password', False, loc, 'a line of %d characters yields nothing' % valid[0])
            elif valid and inval:
                R.ob('password-line', 'a line of 1 to 200 characters yields its password', None if not syms else False if exactlen(x, syms, valid) else None, loc, 'a line of %d characters yields nothing' % valid[0])
            else: R.ob('password-line', 'a line that is empty or longer than 200 characters yields nothing', True)
            continue
        ok, msg = extraction(e, x, C)
        R.ob('password-text', 'the password is the text after the first separator, without carriage returns', ok, loc, msg)
        nz = [n for n in inval if n > 0]
        if ok and nz and (valid == [] or exactlen(x, syms, nz)): R.ob('password-line', 'a line that is empty or longer than 200 characters yields nothing', False, loc, 'a line of %d characters is taken for a password' % nz[0])
        elif ok and not nz: R.ob('password-line', 'a line of 1 to 200 characters yields its password', True)

def exactlen(x, syms, ns):
    """the lengths in question are on the path by a comparison of the length itself"""
    for t in syms:
        r = x.facts.rng.get(t)
        if r is not None: return any(a <= n <= b for n in ns for a, b in r)
    return True

def origin(e, C):
    """(match function, group, text matched, regex pointer content) of a text taken from a match"""
    d = e.defn(C)
    if d is None or d[0] != 'val': return None
    k = e.defs[d[1]]
    if not isinstance(k[0], str) or 'sub_match' not in k[0]:
        if isinstance(k[0], str) and re.search(r'match_results::str$', k[0]) and len(k[1]) == 2:
            return match_of(e, k[1][0][1], k[1][1])
        return None
    X = k[1][0][1]
    if X[0] != 'st0' or not isinstance(X[1], tuple) or X[1][0] != 'fn': return None
    o = e.defs[X[1][1]]
    if not isinstance(o[0], str) or not o[0].endswith('match_results::operator[]'): return None
    return match_of(e, o[1][0][1], o[1][1])
def match_of(e, M, idx):
    d = e.defn(M)
    if d is None or d[0] != 'st': return None
    k = e.defs[d[1]]
    if not isinstance(k[0], str): return None
    if not k[0].startswith('std::regex_'):
        # the matching functions are taken to leave the object as it is: find the calls that were given it
        for j, v in enumerate(e.defs):
            if isinstance(v[0], str) and v[0].startswith('std::regex_') and len(v[1]) > 2 and v[1][1][0] == 'c' and v[1][1][1] == M: return v[0], (idx[2] if isc(idx) else None), v[1][0][1], j
        return None
    return k[0], (idx[2] if isc(idx) else None), k[1][0][1], d[1]

class Options:
    """which field of the reader an option ends up in, and which regular expressions there are"""
    def __init__(s, R, p):
        s.field = {}; s.regex = {}; s.paths = []; s.e = None
        f = one(R, p, 'ctor')
        if f is None: return
        val = []
        for k in range(4):
            g = one(R, p, 'opt%d' % k)
            if g is None: return
            r = [x.val for x in Engine(g).run()]
            if len(r) != 1 or not isc(r[0]): return
            val.append(r[0][2])
        names = ('forced MD5', 'forced $HEX', 'detect MD5', 'detect $HEX')
        s.f = f
        def keep(ev): return ev.kind == 'call' and not re.search(r'::~|allocator', ev.model) or ev.kind == 'store' and isp(ev.args[0]) and ev.args[0][1] == ('arg', 0)
        try: s.e = e = Engine(f, exact=True, keep=keep, max_states=60000); e.loopinits = True; s.paths = e.run()
        except TooBig as t: R.note('reader constructor: %s' % t); return
        for x in s.paths:
            for ev in x.events():
                if ev.kind == 'store' and isinstance(ev.args[0][2], int) and not isp(ev.args[1]) and width(ev.args[1]) == 8:
                    t = ev.args[1]
                    for y in symbols(t):
                        d = e.defn(y)
                        if d is None or not isinstance(d[0], str) or not d[0].endswith(('operator!=', 'operator==')): continue
                        for c in d[1]:
                            q = e.defn(c[2]) if c[0] == 'c' and c[2] is not None and isp(c[2]) else None
                            if q and q[0] == 'std::find' and q[1][-1][0] == 'c':
                                n = q[1][-1][2]
                                if n is not None and isc(n) and n[2] in val:
                                    pol = d[0].endswith('!=')
                                    v = evalterm(t, {y: 1})
                                    s.field.setdefault(names[val.index(n[2])], (ev.args[0][2], bool(v) == pol, ev.inst.loc(), y))
                if ev.kind == 'call' and ev.model.endswith('basic_regex::basic_regex') and len(ev.args) >= 2 and isp(ev.args[0]) and ev.args[0][1] == ('arg', 0):
                    l = e.obj_lit(ev.args[1]); fl = ev.args[2][2] if len(ev.args) > 2 and isc(ev.args[2]) else 16
                    if isinstance(l, str): s.regex[ev.args[0][2]] = (l, fl, ev.inst.loc())
            if x.end == 'ret': pass
    def known(s, x, name, base=('arg', 1)):
        """is the option's field known to be set on a path of another function"""
        fd = s.field.get(name)
        if fd is None: return None
        for w in (1, 8):
            pass
        t = S(8, ('init', base, fd[0], 1))
        r = x.facts.decide(binop_trunc(t))
        if r is None: r = x.facts.decide(icmp('ne', t, I(8, 0)))
        return r
def binop_trunc(t): return trunc(t, 1)

HEXS = ['0123456789abcdef' * 2, '0123456789ABCDEF' * 2, 'DeadBeef' * 4, '0' * 32, 'f' * 32, 'F' * 32, 'a1' * 16]
def regexes(R, p, o):
    """the regular expressions match every text they are to recognise"""
    for off, (lit, fl, loc) in o.regex.items():
        try: rx = re.compile(lit, re.I if fl & 1 else 0)
        except re.error: R.ob('pattern', 'regular expression %r' % lit, None, loc, 'not understood'); continue
        if 'HEX' in lit.upper() and '$' in lit:
            bad = None
            for h in ['4a', '4A', '00', 'ff', '68656c6c6f', '68656C6C6F', 'C3A4' * 20, 'c3b6' * 40]:
                m = rx.fullmatch('$HEX[%s]' % h)
                if not m or m.lastindex is None or m.group(1) != h: bad = h; break
            R.ob('pattern', '$HEX[...] pattern accepts every hex encoding as a whole, its digits being group 1', bad is None, loc, '$HEX[%s] is not recognised by %s' % (bad, lit))
            if bad is None and rx.search('HEX[4a]'): R.ob('pattern', '$HEX[...] pattern needs the dollar sign', False, loc, 'HEX[4a] is taken for an encoding')
        elif '32' in lit or '{' in lit:
            bad = next((h for h in HEXS if not rx.fullmatch(h)), None)
            R.ob('pattern', 'MD5 pattern accepts every text of 32 hex digits', bad is None, loc, '%s is not recognised by %s' % (bad, lit))

def next_hash(R):
    """what is hashed, and when a text is decoded instead"""
    p = probe(R, 'reader')
    if p is None: return
    f = one(R, p, 'nexthash')
    if f is None: return
    from g_order import valid_offset
    vo = valid_offset(p)
    R.saw('functions', f.dem)
    o = Options(R, p)
    for n, (off, pol, loc, _) in o.field.items():
        R.ob('options', 'option "%s" is stored as given' % n, pol, loc, 'the option is stored inverted')
    regexes(R, p, o)
    from g_text import whole_texts
    whole_texts(R, 'password-hash', 'nextPasswordHash', f)
    try: e = Engine(f, exact=True, keep=keepstr); ps = e.run()
    except TooBig as t: R.ob('password-hash', 'nextPasswordHash', None, where(f), str(t)); return
    T = Txt(e)
    lines = line_contents(e)
    for x in ps:
        if x.end != 'ret': continue
        evs = x.events()
        g = [ev for ev in evs if ev.kind == 'call' and ev.model == 'std::getline']
        m = x.mem.get(('arg', 0), {}); v = m.get(vo); isval = None
        if v is not None and not isp(v[1]): isval = x.facts.decide(icmp('ne', v[1], I(width(v[1]), 0)))
        if not g or len(lines) != 1: continue
        loc = g[0].inst.loc()
        # the password on this path: the text derived from the line whose emptiness was asked for
        pw = None
        for ev in evs:
            if ev.kind == 'call' and re.search(r'basic_string::(empty|size|length)$', ev.model) and ev.info:
                C = ev.info[0][1] if ev.info[0][0] == 'c' else None
                ch = T.chain(C) if C is not None else None
                if ch and ch[-1][1] == ('line',) and any(q[0] in ('sub', 'nochr') for _, q in ch): pw = C
        good = [n for n in LENGTHS if x.facts.consistent(length_env(e, lines[0], n))]
        valid = [n for n in good if 1 <= n <= 200]
        empty = None
        if pw is not None:
            sz, em = size_syms(e, pw)
            for t in em:
                d = x.facts.decide(t); empty = d if d is not None else empty
            for t in sz:
                d = x.facts.decide(icmp('eq', t, I(64, 0))); empty = d if d is not None else empty
        md = [ev for ev in evs if ev.kind == 'call' and ev.model in ('MD5', 'EVP_Digest')]
        texts = []
        for ev in md:
            a = ev.args[0]
            texts.append(a[1][1] if isp(a) and a[1] is not None and a[1][0] == 'cstr' and a[2] == 0 else None)
        # characters of matched texts that are known to be no hex digits
        nonhex = set(); sizes = {}
        for t, rs in x.facts.rng.items():
            if t[0] == 's' and t[1] == 8 and isinstance(t[2], tuple) and t[2][0] == 'init' and t[2][1] and t[2][1][0] == 'cstr' and not any(ISHEX(c) for c in members(rs)): nonhex.add(t[2][1][1])
        imp = [q for q in x.imp if q[0] != 'hull']
        if imp: continue
        if pw is None:
            if isval and valid and texts and texts[-1] is not None and T.chain(texts[-1]):
                ok, msg = extraction(e, x, texts[-1]); R.ob('password-hash', 'what is hashed is the password', ok, md[-1].inst.loc(), msg)
            continue
        if isval is True and valid == [] and exactlen(x, size_syms(e, lines[0])[0], [n for n in good if n > 0]):
            R.ob('password-hash', 'only lines of 1 to 200 characters yield a hash', False, loc, 'a line of %s characters yields one' % good[:1]); continue
        if empty is True:
            if isval is not None: R.ob('password-hash', 'an empty password yields no hash', not isval, loc, 'a line without a password yields a hash')
            continue
        if isval is False:
            if valid: R.ob('password-hash', 'every password yields a hash', False if empty is False else None, loc, 'a line with a password yields no hash')
            continue
        if texts:
            t = texts[-1]; at = md[-1].inst.loc()
            if t is None: R.ob('password-hash', 'what is hashed is the password', None, at, 'text of unknown origin'); continue
            if T.chain(t):
                ok, msg = extraction(e, x, t) if valid else (None, '')
                R.ob('password-hash', 'what is hashed is the password', ok, at, msg)
                # hashed as it stands although it could be decoded
                for ev in evs:
                    if ev.kind != 'call' or ev.model != 'std::regex_match' or ev.ret is None or x.facts.decide(ev.ret) is not True: continue
                    rp = next((a for a in ev.args if isp(a) and a[1] == ('arg', 1) and a[2] in o.regex), None)
                    if rp is None: continue
                    kind = '$HEX' if 'HEX' in o.regex[rp[2]][0].upper() else 'MD5'
                    if o.known(x, 'forced ' + kind) is not True: continue
                    tried = any(c[0] == 'c' and (c[1] == pw or origin(e, c[1])) for v in evs[evs.index(ev) + 1:] if v.kind == 'call' and v.info for c in v.info if isinstance(c, tuple) and len(c) > 1 and c[0] == 'c' and v.model not in ('MD5',) and not v.model.startswith('std::regex_') and not re.search(r'basic_string::(size|length|c_str|data|empty)$', v.model)) or any(v.kind == 'loop' or v.model.startswith('std::__cxx11::match_results::') and not v.model.endswith('match_results::match_results') for v in evs[evs.index(ev):])
                    R.ob('decoding', 'a valid %s text is decoded when that was asked for' % kind, True if tried else False, at, 'the text matches but is hashed as it stands')
                continue
            # something decoded
            og = origin(e, t)
            forced = o.known(x, 'forced $HEX')
            if o.field.get('forced $HEX') is not None:
                fl = [fld for fld in ('forced $HEX',) if o.known(x, fld)]
                R.ob('decoding', '$HEX[...] texts are decoded only when that was forced or detected', True if fl else False, at, 'the text decoded is hashed although the option for it is not known to be set')
            hx = [ev for ev in evs if ev.kind == 'call' and ev.model.startswith('std::regex_') and any(isp(a) and a[1] == ('arg', 1) and a[2] in o.regex and 'HEX' in o.regex[a[2]][0].upper() for a in ev.args)]
            for ev in hx[-1:]:
                if ev.model == 'std::regex_search': R.ob('decoding', '$HEX[...] must be the whole text', False, ev.inst.loc(), 'the encoding is decoded wherever it occurs in the text'); break
                r = x.facts.decide(ev.ret) if ev.ret is not None else None
                R.ob('decoding', '$HEX[...] must be the whole text', r, ev.inst.loc(), 'a text that does not match is decoded')
                C = ev.info[0][1] if ev.info and ev.info[0][0] == 'c' else None
                if C is not None and T.chain(C): ok, msg = extraction(e, x, C); R.ob('decoding', 'the text matched is the password', ok, ev.inst.loc(), msg)
            for C in nonhex:
                q = origin(e, C)
                if q and q[1] == 1: R.ob('decoding', '$HEX[...] is decoded only if all its characters are hex digits', False, at, 'the characters before an invalid one are hashed'); break
            else: R.ob('decoding', '$HEX[...] is decoded only if all its characters are hex digits', True)
            R.saw('hashes of decoded text', at)
        else:
            # the digits themselves
            at = loc; ms = [ev for ev in evs if ev.kind == 'call' and ev.model.startswith('std::regex_') and any(isp(a) and a[1] == ('arg', 1) and a[2] in o.regex and 'HEX' not in o.regex[a[2]][0].upper() for a in ev.args)]
            if o.field.get('forced MD5') is not None:
                R.ob('decoding', 'MD5 texts are taken for hashes only when that was forced or detected', True if o.known(x, 'forced MD5') else False, ms[-1].inst.loc() if ms else loc, 'the text is taken for a hash although the option for it is not known to be set')
            for ev in ms[-1:]:
                if ev.model == 'std::regex_search': R.ob('decoding', 'an MD5 text must be the whole text', False, ev.inst.loc(), '32 characters anywhere in the text are taken for a hash')
                else: R.ob('decoding', 'an MD5 text must be the whole text', x.facts.decide(ev.ret) if ev.ret is not None else None, ev.inst.loc(), 'a text that does not match is taken for a hash')
            R.saw('hashes taken from the text', at)

def detection(R):
    """a format counts as detected only if a probed line matched and detection was asked for; the stream is rewound afterwards"""
    p = probe(R, 'reader')
    if p is None: return
    o = Options(R, p)
    if o.e is None: return
    e = o.e; f = o.f
    R.saw('functions', f.dem)
    src = {}
    for x in o.paths:
        evs = x.events()
        opt = {n: y for n, (off, pol, loc, y) in o.field.items()}
        byoff = {off: n for n, (off, pol, loc, y) in o.field.items()}
        if x.end in ('ret', 'back'):
            for ev in evs:
                if ev.kind != 'store' or not isinstance(ev.args[0][2], int) or isp(ev.args[1]) or ev.args[1] != I(8, 1): continue
                n = byoff.get(ev.args[0][2])
                if n is None or not n.startswith('forced'): continue
                kind = n[7:]
                hits = []
                for v in evs:
                    if v is ev: break
                    if v.kind == 'call' and v.model.startswith('std::regex_') and v.ret is not None: hits.append(v)
                a = opt.get('detect ' + kind)
                if a is not None:
                    d = x.facts.decide(a)
                    R.ob('detection', '%s is detected only if that was asked for' % kind, True if d else False if d is False else None if x.imp else False, ev.inst.loc(), 'the format is switched on although detection was not asked for')
                yes = [v for v in hits if x.facts.decide(v.ret) is True]
                if not yes: R.ob('detection', '%s is detected only in a line that contains it' % kind, None if x.imp else False, ev.inst.loc(), 'the format is switched on although no probed line matched'); continue
                rg = [a[2] for a in yes[-1].args if isp(a) and a[1] == ('arg', 0) and a[2] in o.regex]
                if rg:
                    k = '$HEX' if 'HEX' in o.regex[rg[0]][0].upper() else 'MD5'
                    R.ob('detection', '%s is detected only in a line that contains it' % kind, k == kind, ev.inst.loc(), 'the format is switched on by a line with the other format')
    rewind(R, e, o.paths, f, lambda a: a[1] == ('arg', 1), 'the constructor')

def rewind(R, e, paths, f, isstream, what):
    """after the probes the stream stands at its start, without error state"""
    # loops that consume the stream
    consume = {}
    for x in paths:
        if x.end != 'back': continue
        evs = x.events(); lp = max([k for k, ev in enumerate(evs) if ev.kind == 'loop' and ev.args[0][2] == x.head], default=None)
        if lp is None: continue
        if any(ev.kind == 'call' and ev.model in ('std::getline', 'std::istream::read', 'std::istream::get', 'std::operator>>', 'std::istream::ignore') and isp(ev.args[0]) and isstream(ev.args[0]) for ev in evs[lp:]): consume[x.head] = True
    for x in paths:
        if x.end != 'ret': continue
        state = 'start'; last = None; asked = False; clear = False
        for ev in x.events():
            if ev.kind == 'loop' and consume.get(ev.args[0][2]):
                nested = last is not None and last.kind == 'loop' and ev.args[0][2] in e.loop.get(last.args[0][2], ())
                if not nested and (state != 'unknown' and not any(q[0] == 'join' for q in x.imp) or state == 'start'): R.ob('rewind', 'every probe starts at the first line', state == 'start', ev.inst.loc() if ev.inst is not None else where(f), 'the lines an earlier probe has read are not looked at again' if state == 'consumed' else 'the stream does not stand at its start')
                state = 'consumed'; last = ev; clear = False; asked = False
            if ev.kind != 'call' or not ev.args or not isp(ev.args[0]): continue
            m = ev.model
            mine = isstream(ev.args[0])
            if not mine: continue
            if m in ('std::getline', 'std::istream::read', 'std::istream::get'): state = 'consumed'; last = ev; clear = False; asked = False
            elif m == 'std::basic_ios::clear': clear = True
            elif m in ('std::basic_ios::fail', 'std::basic_ios::good', 'std::basic_ios::operator bool', 'std::basic_ios::operator!', 'std::basic_ios::eof') : asked = asked or m
            elif m == 'std::istream::seekg':
                a = ev.args[1:]
                zero = isc(a[0]) and a[0][2] == 0 and (len(a) == 1 or isc(a[1]) and a[1][2] == 0)
                if len(a) == 2 and isc(a[1]) and a[1][2] != 0: state = 'moved'; last = ev; continue
                if isp(a[0]) or not isc(a[0]): state = 'unknown'; continue
                if not zero: state = 'moved'; last = ev; continue
                b = ev.info[1] if ev.info and ev.info[0] == 'before' else None
                failed = None
                if b is not None:
                    d = [x.facts.decide(q) for q in b[1:]]
                    failed = True if any(q is True for q in d) else False if all(q is False for q in d) else None
                if failed is not False and not clear: state = 'notcleared'; last = ev
                else: state = 'start'
        msg = {'consumed': 'lines were read before, and the stream is not set back to its start', 'moved': 'the stream is set to another position than its start', 'notcleared': 'the stream is set back while an error or end-of-file state may block that'}.get(state)
        if x.imp and any(q[0] == 'join' for q in x.imp): state = 'unknown' if state != 'start' else state
        R.ob('rewind', 'after %s the conversion starts at the first line' % what, True if state == 'start' else None if state == 'unknown' else False, last.inst.loc() if last else where(f), msg or '')
