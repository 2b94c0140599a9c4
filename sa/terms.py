"""Abstract values: modular linear expressions over opaque atoms, range sets, order masks.

int term  := ('i', w, n) | ('s', w, name) | ('+', w, c, ((atom, coef), ...)) | ('x', w, op, args...)
bool term := ('i', 1, 0|1) | ('cmp', pred, a, b) | ('not', bool) | ('s', 1, name) | ('x', 1, ...)
pointer   := ('p', base, off)      base: hashable object id (None = null), off: int or 64-bit int term
"""
def I(w, n): return ('i', w, n & ((1 << w) - 1))
TRUE, FALSE = ('i', 1, 1), ('i', 1, 0)
NULL = ('p', None, 0)
def S(w, name): return ('s', w, name)
def isc(t): return t[0] == 'i'
def isp(t): return t[0] == 'p'
def width(t): return 1 if t[0] in ('cmp', 'not') else 64 if t[0] == 'p' else t[1]
def sval(t):
    w, n = t[1], t[2]
    return n - (1 << w) if n >> (w - 1) else n

def _lin(t):
    """-> (const, {atom: coef})"""
    k = t[0]
    if k == 'i': return t[2], {}
    if k == '+': return t[2], dict(t[3])
    return 0, {t: 1}

def _mk(w, c, d):
    m = (1 << w) - 1
    c &= m
    d = {a: k & m for a, k in d.items() if k & m}
    if not d: return ('i', w, c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1: return a
    return ('+', w, c, tuple(sorted(d.items(), key=lambda x: repr(x))))

def add(a, b, sign=1):
    if isp(a): return padd(a, b if sign == 1 else neg(b))
    if isp(b): return padd(b, a) if sign == 1 else X(64, 'psub', a, b)
    w = width(a)
    c1, d1 = _lin(a); c2, d2 = _lin(b)
    d = dict(d1)
    for k, v in d2.items(): d[k] = d.get(k, 0) + sign * v
    return _mk(w, c1 + sign * c2, d)
def sub(a, b):
    if isp(a) and isp(b) and a[1] == b[1]:
        x, y = tooff(a[2]), tooff(b[2]); return sub(x, y)
    return add(a, b, -1)
def neg(a): return mulc(a, -1)
def mulc(a, n):
    if isp(a): return X(64, 'mul', a, I(64, n))
    w = width(a); c, d = _lin(a)
    return _mk(w, c * n, {k: v * n for k, v in d.items()})
def X(w, op, *args): return ('x', w, op) + args
def tooff(o): return I(64, o) if isinstance(o, int) else o
def fromoff(t): return sval(t) if isc(t) else t
def padd(p, o):
    if isinstance(o, int):
        if isinstance(p[2], int): return ('p', p[1], p[2] + o)
        o = I(64, o)
    return ('p', p[1], fromoff(add(tooff(p[2]), o)))

def binop(op, a, b, w):
    if op in ('add', 'sub'):
        return add(a, b) if op == 'add' else sub(a, b)
    if isp(a) or isp(b): return X(w, op, a, b)
    if op == 'mul':
        if isc(b): return mulc(a, b[2])
        if isc(a): return mulc(b, a[2])
        a, b = sorted((a, b), key=repr); return X(w, 'mul', a, b)
    if isc(a) and isc(b):
        x, y = a[2], b[2]; sx, sy = sval(a), sval(b)
        if op == 'udiv' and y: return I(w, x // y)
        if op == 'urem' and y: return I(w, x % y)
        if op == 'sdiv' and y: return I(w, int(abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1))
        if op == 'srem' and y: return I(w, (abs(sx) % abs(sy)) * (-1 if sx < 0 else 1))
        if op == 'and': return I(w, x & y)
        if op == 'or': return I(w, x | y)
        if op == 'xor': return I(w, x ^ y)
        if op == 'shl': return I(w, x << y) if y < w else X(w, op, a, b)
        if op == 'lshr': return I(w, x >> y) if y < w else X(w, op, a, b)
        if op == 'ashr': return I(w, sx >> y) if y < w else X(w, op, a, b)
    if w == 1:
        if op == 'xor':
            if isc(b): return nott(a) if b[2] else a
            if isc(a): return nott(b) if a[2] else b
        if op == 'and':
            if isc(a): return b if a[2] else FALSE
            if isc(b): return a if b[2] else FALSE
            if a == b: return a
        if op == 'or':
            if isc(a): return TRUE if a[2] else b
            if isc(b): return TRUE if b[2] else a
            if a == b: return a
    if op == 'shl' and isc(b) and b[2] < w: return mulc(a, 1 << b[2])
    if op in ('lshr', 'ashr', 'shl', 'or', 'xor') and isc(b) and b[2] == 0: return a
    if op in ('udiv', 'sdiv') and isc(b) and b[2] == 1: return a
    if op == 'and':
        if isc(a): a, b = b, a
        if isc(b):
            if b[2] == 0: return b
            if b[2] == (1 << w) - 1: return a
            # zext'ed value masked by at least its own width
            if a[0] == 'x' and a[2] == 'zext' and (b[2] & ((1 << width(a[3])) - 1)) == (1 << width(a[3])) - 1: return a
        if a == b: return a
    if op == 'or':
        if isc(a): a, b = b, a
        if a == b: return a
    if op == 'xor' and a == b: return I(w, 0)
    if op in ('and', 'or', 'xor') and not isc(b) and repr(b) < repr(a): a, b = b, a
    return X(w, op, a, b)

def zext(a, w):
    if isc(a): return I(w, a[2])
    if a[0] == 'x' and a[2] == 'zext': return zext(a[3], w)
    return X(w, 'zext', a)
def sext(a, w):
    if isc(a): return I(w, sval(a))
    if a[0] == 'x' and a[2] == 'sext': return sext(a[3], w)
    if a[0] == 'x' and a[2] == 'zext' and width(a[3]) < width(a): return zext(a[3], w)
    return X(w, 'sext', a)
def trunc(a, w):
    if isc(a): return I(w, a[2])
    if isp(a): return X(w, 'trunc', a)
    if a[0] == 'x' and a[2] in ('zext', 'sext'):
        wi = width(a[3])
        if wi == w: return a[3]
        if wi > w: return trunc(a[3], w)
        return zext(a[3], w) if a[2] == 'zext' else sext(a[3], w)
    if a[0] == 'x' and a[2] == 'trunc': return trunc(a[3], w)
    if a[0] == '+':
        c, d = _lin(a)
        r = I(w, c)
        for k, v in d.items(): r = add(r, mulc(trunc(k, w), v))
        return r
    return X(w, 'trunc', a)

def nott(t):
    if isc(t): return I(1, 1 - t[2])
    if t[0] == 'not': return t[1]
    if t[0] == 'cmp': return ('cmp', NEG[t[1]], t[2], t[3])
    return ('not', t)

NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}

def cmpc(pred, x, y, w):
    if pred[0] == 's':
        x = x - (1 << w) if x >> (w - 1) else x
        y = y - (1 << w) if y >> (w - 1) else y
    p = pred if pred in ('eq', 'ne') else pred[1:]
    return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y}[p]

# bases of pointers that are certainly not null and pairwise distinct
def distinct(b): return b is not None and b[0] in ('alloca', 'glob', 'heap', 'arg', 'ret')

def icmp(pred, a, b):
    if isp(a) or isp(b):
        if a == b: return I(1, pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
        if isp(a) and isp(b):
            if pred in ('eq', 'ne'):
                if a[1] == b[1]:
                    return icmp(pred, tooff(a[2]), tooff(b[2]))
                na, nb = a[1] is None, b[1] is None
                if (na and distinct(b[1]) and b[1][0] != 'arg') or (nb and distinct(a[1]) and a[1][0] != 'arg'): return I(1, pred == 'ne')
                if distinct(a[1]) and distinct(b[1]) and 'arg' not in (a[1][0], b[1][0]): return I(1, pred == 'ne')
            elif a[1] == b[1]: return icmp(pred, tooff(a[2]), tooff(b[2]))
        if repr(b) < repr(a): a, b, pred = b, a, SWAP[pred]
        return ('cmp', pred, a, b)
    w = width(a)
    if isc(a) and isc(b): return I(1, cmpc(pred, a[2], b[2], w))
    if a == b: return I(1, pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
    if isc(a): a, b, pred = b, a, SWAP[pred]
    if isc(b):
        n = b[2]
        if a[0] == 'x' and a[2] in ('zext', 'sext'):
            wi = width(a[3])
            if wi == 1 and pred in ('eq', 'ne'):
                one = 1 if a[2] == 'zext' else (1 << w) - 1
                if n == 0: return nott(a[3]) if pred == 'eq' else a[3]
                if n == one: return a[3] if pred == 'eq' else nott(a[3])
                return I(1, pred == 'ne')
            if pred in ('eq', 'ne'):
                back = zext(I(wi, n), w) if a[2] == 'zext' else sext(I(wi, n), w)
                if back[2] != n: return I(1, pred == 'ne')
                return icmp(pred, a[3], I(wi, n))
        if w == 1 and pred in ('eq', 'ne'):
            return a if (pred == 'eq') == (n == 1) else nott(a)
        if pred == 'ult' and n == 0: return FALSE
        if pred == 'uge' and n == 0: return TRUE
        if pred == 'ugt' and n == 0: pred, = ('ne',)
        elif pred == 'ule' and n == 0: pred = 'eq'
        elif pred == 'ult' and n == 1: pred, b = 'eq', I(w, 0)
        elif pred == 'uge' and n == 1: pred, b = 'ne', I(w, 0)
        return ('cmp', pred, a, b)
    if pred in ('eq', 'ne'):
        d = sub(a, b)
        if isc(d): return I(1, (d[2] == 0) == (pred == 'eq'))
        # both extended the same way
        if a[0] == b[0] == 'x' and a[2] == b[2] and a[2] in ('zext', 'sext') and width(a[3]) == width(b[3]): return icmp(pred, a[3], b[3])
        c, dd = _lin(d)
        if len(dd) == 1: 
            (atom, k), = dd.items()
            m = 1 << w
            if k == 1: return icmp(pred, atom, I(w, -c))
            if k == m - 1: return icmp(pred, atom, I(w, c))
        if w == 1:
            pass
    if a[0] == b[0] == 'x' and a[2] == b[2] and a[2] in ('zext', 'sext') and width(a[3]) == width(b[3]):
        if a[2] == 'sext': return icmp(pred, a[3], b[3])
        return icmp('u' + pred[1:] if pred[0] == 's' else pred, a[3], b[3])
    if repr(b) < repr(a): a, b, pred = b, a, SWAP[pred]
    return ('cmp', pred, a, b)

# ---------------------------------------------------------------- range sets
def rs_full(w): return ((0, (1 << w) - 1),)
def rs_norm(l):
    l = sorted(x for x in l if x[0] <= x[1]); out = []
    for a, b in l:
        if out and a <= out[-1][1] + 1: out[-1] = (out[-1][0], max(b, out[-1][1]))
        else: out.append((a, b))
    return tuple(out)
def rs_and(x, y):
    out = []
    for a, b in x:
        for c, d in y:
            lo, hi = max(a, c), min(b, d)
            if lo <= hi: out.append((lo, hi))
    return rs_norm(out)
def rs_not(x, w):
    out = []; p = 0
    for a, b in x:
        if a > p: out.append((p, a - 1))
        p = b + 1
    if p <= (1 << w) - 1: out.append((p, (1 << w) - 1))
    return tuple(out)
def rs_shift(x, c, w):
    """{v + c mod 2^w}"""
    m = 1 << w; out = []
    for a, b in x:
        a2, b2 = a + c, b + c
        if b2 - a2 >= m - 1: return rs_full(w)
        a2 %= m; b2 %= m
        if a2 <= b2: out.append((a2, b2))
        else: out += [(a2, m - 1), (0, b2)]
    return rs_norm(out)
def rs_neg(x, w):
    m = 1 << w; out = []
    for a, b in x:
        if a == 0:
            out.append((0, 0)); a = 1
        if a <= b: out.append((m - b, m - a))
    return rs_norm(out)
def rs_pred(pred, n, w):
    """values v with 'v pred n'"""
    m = (1 << w) - 1; h = 1 << (w - 1)
    if pred == 'eq': return ((n, n),)
    if pred == 'ne': return rs_not(((n, n),), w)
    if pred == 'ult': return ((0, n - 1),) if n else ()
    if pred == 'ule': return ((0, n),)
    if pred == 'ugt': return ((n + 1, m),) if n < m else ()
    if pred == 'uge': return ((n, m),)
    # signed: shift by 2^(w-1)
    f = (n + h) & m
    return rs_shift(rs_pred('u' + pred[1:], f, w), h, w) if rs_pred('u' + pred[1:], f, w) else ()
def rs_size(x): return sum(b - a + 1 for a, b in x)

def to_atom(t, rs):
    """translate 't in rs' to (atom, range set of atom), exact; follows +c, *-1, zext, sext."""
    while True:
        if t[0] == '+' and len(t[3]) == 1 and t[3][0][1] in (1, (1 << t[1]) - 1):
            w = t[1]; rs = rs_shift(rs, -t[2], w)
            if t[3][0][1] != 1: rs = rs_neg(rs, w)
            t = t[3][0][0]; continue
        if t[0] == 'x' and t[2] == 'zext':
            wi = width(t[3]); rs = rs_and(rs, ((0, (1 << wi) - 1),)); t = t[3]; continue
        if t[0] == 'x' and t[2] == 'sext':
            w = t[1]; wi = width(t[3]); h = 1 << (wi - 1)
            pos = rs_and(rs, ((0, h - 1),))
            ng = rs_and(rs, (((1 << w) - h, (1 << w) - 1),))
            ng = tuple((a - ((1 << w) - (1 << wi)), b - ((1 << w) - (1 << wi))) for a, b in ng)
            rs = rs_norm(list(pos) + list(ng)); t = t[3]; continue
        return t, rs

def from_atom(t, get):
    """over-approximated range set of a term given get(atom)"""
    k = t[0]
    if k == 'i': return ((t[2], t[2]),)
    if k == '+' :
        w = t[1]
        if len(t[3]) == 1:
            a, c = t[3][0]
            if c == 1: return rs_shift(from_atom(a, get), t[2], w)
            if c == (1 << w) - 1: return rs_shift(rs_neg(from_atom(a, get), w), t[2], w)
        # plain interval arithmetic without wrap
        m = 1 << w; lo = hi = t[2] if t[2] < m // 2 else t[2] - m
        for a, c in t[3]:
            r = from_atom(a, get)
            if not r: return ()
            c = c - m if c >= m // 2 else c
            l, h = r[0][0], r[-1][1]
            if c >= 0: lo += l * c; hi += h * c
            else: lo += h * c; hi += l * c
        if lo >= 0 and hi < m: return ((lo, hi),)
        return rs_full(w)
    if k == 'x' and t[2] == 'zext': return from_atom(t[3], get) if width(t[3]) > 1 else ((0, 1),)
    if k == 'x' and t[2] == 'sext' and width(t[3]) > 1:
        w = t[1]; wi = width(t[3]); h = 1 << (wi - 1); r = from_atom(t[3], get)
        pos = rs_and(r, ((0, h - 1),)); ng = rs_and(r, ((h, (1 << wi) - 1),)); o = (1 << w) - (1 << wi)
        return rs_and(rs_norm(list(pos) + [(a + o, b + o) for a, b in ng]), get(t))
    if k == 'x' and t[2] == 'and' and isc(t[4]): return rs_and(((0, t[4][2]),), get(t))
    if k == 'x' and t[2] == 'urem' and isc(t[4]) and t[4][2]: return rs_and(((0, t[4][2] - 1),), get(t))
    if k == 'x' and t[2] == 'lshr' and isc(t[4]) and t[4][2] < t[1]:
        r = from_atom(t[3], get); return rs_and(rs_norm([(a >> t[4][2], b >> t[4][2]) for a, b in r]), get(t))
    if k == 'x' and t[2] == 'udiv' and isc(t[4]) and t[4][2]:
        r = from_atom(t[3], get); return rs_and(rs_norm([(a // t[4][2], b // t[4][2]) for a, b in r]), get(t))
    if k == 'x' and t[2] == 'trunc':
        r = from_atom(t[3], get)
        if r and r[-1][1] < (1 << t[1]): return rs_and(r, get(t))
    return get(t)

def tstr(t, depth=0):
    if not isinstance(t, tuple): return str(t)
    if depth > 6: return '…'
    k = t[0]
    if k == 'i': 
        v = sval(t) if t[1] > 1 else t[2]
        return str(v)
    if k == 's': return str(t[2]) if not isinstance(t[2], tuple) else '/'.join(tstr(x, depth + 1) for x in t[2])
    if k == '+':
        m = 1 << t[1]; parts = []
        for a, c in t[3]:
            c = c - m if c >= m // 2 else c
            parts.append(('%s' if c == 1 else '-%s' if c == -1 else '%d*%%s' % c) % tstr(a, depth + 1))
        if t[2]: parts.append(str(sval(('i', t[1], t[2]))))
        return '(' + ' + '.join(parts) + ')'
    if k == 'x': return '%s(%s)' % (t[2], ', '.join(tstr(x, depth + 1) for x in t[3:]))
    if k == 'cmp': return '(%s %s %s)' % (tstr(t[2], depth + 1), t[1], tstr(t[3], depth + 1))
    if k == 'not': return '!' + tstr(t[1], depth + 1)
    if k == 'p':
        if t[1] is None: return 'null'
        return '&%s%s' % ('.'.join(tstr(x, depth + 1) for x in t[1]) if isinstance(t[1], tuple) else t[1], '' if t[2] == 0 else '+' + tstr(t[2], depth + 1))
    return '(' + ','.join(tstr(x, depth + 1) for x in t) + ')'

def evalterm(t, env):
    """value of an int/bool term under an assignment of its symbols; None if a symbol or operation is not covered"""
    k = t[0]
    if k == 'i': return t[2]
    if k == 'p': return None
    w = width(t); M = (1 << w) - 1
    if t in env: return env[t] & M
    if k == '+':
        r = t[2]
        for a, c in t[3]:
            v = evalterm(a, env)
            if v is None: return None
            r += v * c
        return r & M
    sg = lambda v, w: v - (1 << w) if v >> (w - 1) else v
    if k == 'not':
        v = evalterm(t[1], env); return None if v is None else 1 - v
    if k == 'cmp':
        a, b = evalterm(t[2], env), evalterm(t[3], env)
        if a is None or b is None: return None
        return int(cmpc(t[1], a, b, width(t[2])))
    if k == 'x':
        op = t[2]; xs = [evalterm(x, env) if isinstance(x, tuple) and x and x[0] in ('i', 's', '+', 'x', 'cmp', 'not') else None for x in t[3:]]
        if any(x is None for x in xs): return None
        if op == 'sext': return sg(xs[0], width(t[3])) & M
        if op in ('zext', 'trunc'): return xs[0] & M
        if op == 'bswap': return int.from_bytes(xs[0].to_bytes(w // 8, 'little'), 'big')
        if len(xs) == 2:
            a, b = xs
            try:
                return {'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: a >> b, 'ashr': lambda: sg(a, w) >> b,
                        'sdiv': lambda: abs(sg(a, w)) // abs(sg(b, w)) * (1 if (sg(a, w) < 0) == (sg(b, w) < 0) else -1),
                        'srem': lambda: abs(sg(a, w)) % abs(sg(b, w)) * (-1 if sg(a, w) < 0 else 1), 'mul': lambda: a * b, 'udiv': lambda: a // b, 'urem': lambda: a % b, 'add': lambda: a + b, 'sub': lambda: a - b}[op]() & M
            except (KeyError, ZeroDivisionError, ValueError): return None
    return None
def symbols(t, out=None):
    """the opaque symbols a term is built from"""
    out = set() if out is None else out
    k = t[0]
    if k == 's': out.add(t)
    elif k == '+':
        for a, c in t[3]: symbols(a, out)
    elif k == 'not': symbols(t[1], out)
    elif k == 'cmp': symbols(t[2], out); symbols(t[3], out)
    elif k == 'x':
        for x in t[3:]:
            if isinstance(x, tuple) and x and x[0] in ('i', 's', '+', 'x', 'cmp', 'not', 'p'): symbols(x, out)
    elif k == 'p' and not isinstance(t[2], int): symbols(t[2], out)
    return out
