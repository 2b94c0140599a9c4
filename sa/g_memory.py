"""C25: formats agree with their arguments; writes stay inside their buffers; divisors, shift counts and indexes are
checked; pattern matching only sees texts of bounded length; nothing recurses once per line."""
import re, itertools, warnings
from ir import program
from absint import *
from report import where, AnalysisBroken
from build import targets
from g_echo import roots_of
from g_opts import Table, tools as optioned, lit
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    import sre_parse
    from sre_constants import *

def programs():
    for t in sorted(targets()):
        try: yield t, program(t)
        except AnalysisBroken: continue

def each(pred):
    """every project function that satisfies the predicate, once, whatever number of programs it is linked into"""
    seen = set()
    for t, p in programs():
        for f in p.funcs.values():
            if not f.proj or (f.dem, f.file, f.line) in seen: continue
            f.load()
            if not pred(f): continue
            seen.add((f.dem, f.file, f.line)); yield t, p, f

# ---------------------------------------------------------------- formats
FORMATTERS = {'printf': 0, 'fprintf': 1, 'dprintf': 1, 'sprintf': 1, 'snprintf': 2, 'swprintf': 2, 'syslog': 1, 'asprintf': 1, 'err': 1, 'warn': 0, 'wprintf': 0, 'fwprintf': 1}
CONV = re.compile(r'%(?:(\d+)\$)?([-+ #0\']*)(\*|\d+)?(?:\.(\*|-?\d+)?)?(hh|h|ll|l|q|j|z|t|L)?(.)?', re.S)
BITS = {'hh': 32, 'h': 32, None: 32, 'l': 64, 'll': 64, 'q': 64, 'j': 64, 'z': 64, 't': 64}

def conversions(text):
    """the argument kinds a format takes, or an error text"""
    out = []; k = 0
    while True:
        k = text.find('%', k)
        if k < 0: return out, None
        m = CONV.match(text, k)
        if not m or not m.group(6): return out, 'the format ends within a conversion'
        c = m.group(6); k = m.end()
        if c == '%': continue
        if m.group(1): return None, None
        if m.group(3) == '*': out.append(('i32', '*'))
        if m.group(4) == '*': out.append(('i32', '*'))
        if c in 'diuxXo': out.append(('i%d' % BITS.get(m.group(5), 0), m.group(0)))
        elif c == 'c': out.append(('i32', m.group(0)))
        elif c in 'aAeEfFgG': out.append(('x86_fp80' if m.group(5) == 'L' else 'double', m.group(0)))
        elif c in 'sp': out.append(('ptr', m.group(0)))
        elif c == 'm': pass
        elif c == 'n': return out, '%n lets the format write to memory'
        else: return out, 'unknown conversion %s' % m.group(0)

def variadic(p):
    """the project's own formatters: a variadic function that hands its arguments to one of the v*printf family, with the position of the format"""
    out = {}
    for f in p.funcs.values():
        if not f.proj: continue
        m = re.search(r'\(([^()]*(?:\([^()]*\))*[^()]*),\s*\.\.\.\)', f.dem)
        if not m: continue
        f.load()
        if any(i.model in ('vsnprintf', 'vsprintf', 'vfprintf', 'vprintf', 'vasprintf', 'vdprintf') for i in f.calls()):
            out[f.name] = (f, len(f.params) - 1)
    return out

def typ(f, defs, a):
    if a[0] == 'c': return 'i%d' % a[1] if isinstance(a[1], int) else None
    if a[0] == 'f': return 'double'
    if a[0] == 'g': return 'ptr'
    if a[0] == 'v':
        i = defs.get(a[1])
        if i is not None:
            if i.op == 'alloca': return 'ptr'
            return i.ty
        if a[1] < len(f.params): return f.params[a[1]]['ty']
    return None

OUTSIDE = re.compile(r'path::(string|native|c_str|generic_string)$|^(getenv|std::getenv|std::secure_getenv|strerror|std::strerror)$|::what$|::nextPassword$')
COPYIN = re.compile(r'basic_string::(basic_string|operator=|assign)$')
class Texts:
    """what the text of a format argument is: a set of literals, or 'data' (not a constant of the program), or None"""
    def __init__(s, p, f):
        s.p = p; s.f = f; f.load(); s.root, s.defs, s.holds = roots_of(f)
    def of(s, a, depth=0):
        if depth > 6: return None
        l = lit(s.p, a)
        if l is not None: return {l}
        if a[0] == 'g': return s.glob(a[1])
        if a[0] != 'v': return None
        i = s.defs.get(a[1])
        if i is not None and i.op == 'select': return s.join(s.of(i.a[1], depth + 1), s.of(i.a[2], depth + 1))
        if i is not None and i.op == 'phi':
            r = set()
            for v, _ in i.inc: r = s.join(r, s.of(v, depth + 1))
            return r
        if i is not None and i.op in ('call', 'invoke') and i.model and re.search(r'basic_string::(c_str|data)$', i.model) and i.a: return s.of(i.a[0], depth + 1)
        rs = s.root(a)
        if len(rs) != 1: return None
        o = next(iter(rs))
        if o[0] == 'g': return s.glob(o[1])
        if o[0] != 'a': return None
        out = set(); n = 0
        for i in s.f.calls():
            if not i.a or not i.model or s.root(i.a[0]) != {o}:
                # made by a function that returns a string
                continue
            if 'basic_string' not in i.model and not (s.p.funcs.get(i.fn) or i.model == 'std::operator+'): continue
            if i.model.endswith(('::~basic_string', '::c_str', '::data', '::size', '::length', '::empty')): continue
            if COPYIN.search(i.model) and len(i.a) > 1: out = s.join(out, s.of(i.a[1], depth + 1)); n += 1
            elif COPYIN.search(i.model): continue
            else: return None
        return out if n else None
    def foreign(s, a, opts, depth=0, seen=None):
        """does the text contain something from outside: a file name, a line read, an option, a text of another process"""
        seen = set() if seen is None else seen
        if depth > 8 or a[0] != 'v': return False
        i = s.defs.get(a[1])
        if i is not None and i.op in ('call', 'invoke') and i.model:
            if OUTSIDE.search(i.model): return True
            if re.search(r'basic_string::(c_str|data|operator\+=|append|insert)$', i.model) and i.a: return any(s.foreign(q, opts, depth + 1, seen) for q in i.a)
        if i is not None and i.op == 'select': return any(s.foreign(q, opts, depth + 1, seen) for q in i.a[1:])
        rs = s.root(a)
        if len(rs) != 1: return False
        o = next(iter(rs))
        if o[0] != 'a' or o in seen: return False
        seen.add(o)
        if o in opts: return True
        for i in s.f.calls():
            if not i.a or not i.model: continue
            at = [q for q, b in enumerate(i.a) if s.root(b) == {o}]
            if not at: continue
            if OUTSIDE.search(i.model) and 0 in at and 'path' in i.model and len(i.a) > 1: return True
            if re.search(r'^std::(getline|operator>>)$', i.model) and 1 in at: return True
            if 0 in at and (COPYIN.search(i.model) or re.search(r'basic_string::(operator\+=|append|insert|replace)$', i.model) or i.model == 'std::operator+'):
                if any(s.foreign(q, opts, depth + 1, seen) for q in i.a[1:]): return True
        return False
    def glob(s, g):
        for h in s.p.funcs.values():
            if h.model.startswith('__cxx_global_var_init'):
                for i in h.calls():
                    if i.model and i.model.endswith('basic_string::basic_string') and len(i.a) > 1 and i.a[0] == ('g', g):
                        l = lit(s.p, i.a[1])
                        if l is not None: return {l}
        return None
    @staticmethod
    def join(a, b):
        return None if a is None or b is None else a | b

def format(R):
    """every formatted output takes as many arguments as its format has conversions, each of the kind its conversion reads"""
    done = set(); n = 0
    for t, p in programs():
        own = variadic(p)
        for f in p.funcs.values():
            if not f.proj: continue
            cs = [i for i in f.calls() if i.fn in own or i.model in FORMATTERS]
            if not cs: continue
            f.load(); T = None
            for i in f.calls():
                if i.fn in own: k = own[i.fn][1]
                elif i.model in FORMATTERS: k = FORMATTERS[i.model]
                else: continue
                if (f.dem, i.loc(), i.sc, i.block, i.idx) in done: continue
                done.add((f.dem, i.loc(), i.sc, i.block, i.idx)); n += 1
                if T is None: T = Texts(p, f)
                R.saw('formatted outputs', '%s in %s' % (i.loc(), f.model))
                ls = T.of(i.a[k]) if k < len(i.a) else None
                if not ls and k < len(i.a) and T.foreign(i.a[k], option_objects(p, f)):
                    R.ob('format-arguments', 'a format given at %s' % i.loc(), False, i.loc(), '%s: the format contains text from outside the program' % f.model); continue
                if not ls: R.ob('format-arguments', 'a format given at %s' % i.loc(), None, i.loc(), 'the format is not a literal'); continue
                for l in sorted(ls): one_format(R, f, T, i, k, l)
    if not n: R.note('no formatted output')

def one_format(R, f, T, i, k, l):
    cv, err = conversions(l); args = i.a[k + 1:]; name = 'the arguments of "%s"' % l
    if err: R.ob('format-arguments', name, False, i.loc(), err); return
    if cv is None: R.ob('format-arguments', name, None, i.loc()); return
    if len(args) < len(cv):
        R.ob('format-arguments', name, False, i.loc(), '%s: %d conversions, %d arguments' % (f.model, len(cv), len(args))); return
    for q, ((want, c), a) in enumerate(zip(cv, args)):
        have = typ(f, T.defs, a)
        if have is None: R.ob('format-arguments', name, None, i.loc()); return
        if have != want and not (want == 'i0'):
            R.ob('format-arguments', name, False, i.loc(), '%s: conversion %s reads a value of type %s, argument %d is of type %s' % (f.model, c, want, q + 1, have)); return
    R.ob('format-arguments', name, True, i.loc())

# ---------------------------------------------------------------- divisors and shift counts
DIV = ('udiv', 'sdiv', 'urem', 'srem'); SHIFT = ('shl', 'lshr', 'ashr')
FREECALL = re.compile(r'::(size|length|file_size|tellg|tellp|count|gcount|hardware_concurrency|space)$|^(sto[iluf]\w*|std::sto\w+|strto\w+|ato[il]\w*|std::ato\w+|strlen|time|std::filesystem::file_size|boost::filesystem::file_size|boost::filesystem::detail::file_size|sysconf|rand|random)$|^boost::lexical_cast$')

def risky(f):
    return any(i.op in DIV + SHIFT and i.a[1][0] != 'c' for i in f.insts())

def arith_paths(f, **kw):
    e = Engine(f, keep=lambda ev: ev.kind == 'arith' and not isc(ev.args[1]), **kw)
    return e, e.run()

def pop(e, t):
    """the argument of a population count"""
    if t[0] == 's' and isinstance(t[2], tuple) and t[2][0] == 'fn':
        d = e.defs[t[2][1]]
        if isinstance(d[0], str) and re.search(r'ctpop|popcnt|popcount', d[0]) and d[1] and not isp(d[1][-1]): return d[1][0]
    return None

def bounds(e, x, t, full=False):
    """(low, high) of an unsigned term"""
    r = x.facts.range(t); lo, hi = r[0][0], r[-1][1]
    a = pop(e, t)
    if a is not None:
        ra = x.facts.range(a); return max(lo, 0 if ra[0][0] == 0 else 1), min(hi, width(a))
    if t[0] == 'x' and t[2] == 'zext':
        l, h = bounds(e, x, t[3]); return max(lo, l), min(hi, h)
    if t[0] == 'x' and t[2] == 'trunc':
        l, h = bounds(e, x, t[3])
        if h < 1 << t[1]: return max(lo, l), min(hi, h)
    if t[0] == '+':
        l = h = t[2]; w = t[1]; half = 1 << (w - 1); l = h = t[2] - ((1 << w) if t[2] >= half else 0)
        for a, c in t[3]:
            c = c - (1 << w) if c >= half else c
            p, q = bounds(e, x, a)
            l += min(p * c, q * c); h += max(p * c, q * c)
        if l >= 0 and h < 1 << w: return max(lo, l), min(hi, h)
    return lo, hi

def source(e, f, t, opts):
    """what a symbol stands for: 'free' (a value from outside the program), ('member', offset), None"""
    k = t[2]
    if not isinstance(k, tuple): return None
    if k[0] == 'rd': return 'free'
    if k[0] == 'fn':
        d = e.defs[k[1]]
        if isinstance(d[0], str) and FREECALL.search(d[0]): return 'free'
        if pop(e, t) is not None:
            s = {source(e, f, y, opts) for y in symbols(pop(e, t))}
            return 'free' if s == {'free'} else None
        return None
    if k[0] == 'init':
        b = k[1]
        if b[0] == 'alloca' and ('a', b[1]) in opts: return 'free'
        if b == this(f): return ('member', k[2], k[3])
    return None

def this(f):
    q = f.qual or ''
    k = 1 if f.params and f.params[0].get('sret') else 0
    return ('arg', k)

def classof(f): return f.model.rsplit('::', 1)[0] if '::' in f.model else None

_opts = {}
def option_objects(p, f):
    """the variables of a function that command line options are stored in"""
    k = (p.target, f.name)
    if k not in _opts:
        try:
            from g_opts import REG
            _opts[k] = {o[3] for o in Table(p.target, p, f).opts if o[3]} if any(i.model and REG.search(i.model) for i in f.calls()) else set()
        except Exception: _opts[k] = set()
    return _opts[k]

def witness(e, x, t, bad, syms, opts, f):
    """an assignment of values from outside that makes the term bad and contradicts nothing that is known on the path"""
    cand = []
    for y in syms:
        a = pop(e, y)
        r = x.facts.range(y); c = {r[0][0], r[-1][1], 0, 1, 2}
        cand.append(sorted(v for v in c if any(l <= v <= h for l, h in r)) if a is None else [None])
    base = list(syms)
    extra = sorted({z for y in syms if pop(e, y) is not None for z in symbols(pop(e, y))} - set(base), key=repr)
    for z in extra:
        r = x.facts.range(z); cand.append(sorted(v for v in {r[0][0], r[-1][1], 0, 1, 2, 8, 16, 64} if any(l <= v <= h for l, h in r)))
    base += extra
    for vs in itertools.islice(itertools.product(*cand), 4000):
        env = {y: v for y, v in zip(base, vs) if v is not None}
        for y in syms:
            a = pop(e, y)
            if a is not None:
                v = evalterm(a, env)
                if v is None: break
                env[y] = bin(v).count('1')
        else:
            v = evalterm(t, env)
            if v is not None and bad(v) and x.facts.consistent(env): return env
    return None

class Assumed:
    """conditional propagation of one assumed value of an option variable through a function: which operations can it reach?"""
    def __init__(s, p, f, a, v):
        s.f = f; s.a = ('v', a); s.v = v; s.ok = True
        s.defs = {i.d: i for i in f.insts() if i.d is not None}; s.root = roots_of(f)[0]
        for i in f.insts():
            at = [q for q, b in enumerate(i.a) if b == s.a or b[0] == 'v' and i.op != 'load' and s.root(b) == {('a', a)} and not (i.op == 'load')]
            if not at or i.op in ('load', 'getelementptr', 'bitcast') or i.op in ('call', 'invoke') and i.model and (re.search(r'program_options::|^llvm\.(lifetime|dbg)', i.model) or i.model.endswith('value')): continue
            if i.op == 'store' and at == [1] and i.a[1] == s.a and (i.a[0][0] == 'c'): continue
            s.ok = False
        s.marked = set(); s.dm = {}
        if s.ok: s.mark()
    def mark(s):
        """the local objects that hold something computed from the variable"""
        while True:
            n = len(s.marked); s.dm = {}
            for i in s.f.insts():
                if i.op == 'store' and i.a[1] != s.a and s.dep(i.a[0]): s.marked |= s.root(i.a[1])
                elif i.op in ('call', 'invoke') and not OUTPUT.search(i.model or '') and not (i.model and re.search(r'program_options::|^llvm\.(lifetime|dbg)', i.model)):
                    if any(s.dep(q) for q in i.a): s.marked |= {o for q in i.a if q[0] == 'v' and not s.isnum(q) for o in s.root(q)}
            if len(s.marked) == n: break
    def isnum(s, a):
        i = s.defs.get(a[1]); return i is not None and i.op != 'alloca' and i.ty != 'ptr'
    def dep(s, a, depth=0):
        if a[0] != 'v' or depth > 60: return False
        i = s.defs.get(a[1])
        if i is None: return False
        if a[1] in s.dm: return s.dm[a[1]]
        s.dm[a[1]] = False
        if i.op == 'load': r = i.a[0] == s.a or any(o in s.marked for o in s.root(i.a[0]))
        elif i.op == 'alloca': r = ('a', i.d) in s.marked
        elif i.op == 'phi': r = any(s.dep(q, depth + 1) for q, _ in i.inc)
        else: r = any(s.dep(q, depth + 1) for q in i.a)
        s.dm[a[1]] = r; return r
    def ev(s, a, loads, depth=0):
        """(value or None, does it depend on the variable)"""
        if a[0] == 'c' and isinstance(a[1], int): return int(a[2]) & ((1 << a[1]) - 1), False
        if a[0] != 'v' or depth > 40: return None, False
        if a[1] in loads: return loads[a[1]], True
        i = s.defs.get(a[1])
        if i is None or i.op in ('alloca', 'load', 'phi', 'call', 'invoke'): return None, s.dep(a)
        vs = [s.ev(b, loads, depth + 1) for b in i.a]; dep = any(d for _, d in vs); n = [v for v, _ in vs]
        if i.op in ('zext', 'freeze'): return n[0], dep
        if i.op == 'trunc' and n[0] is not None: return n[0] & ((1 << int(i.ty[1:])) - 1), dep
        if i.op == 'sext' and n[0] is not None:
            w = s.wid(i.a[0]); return (sval(I(w, n[0])) & ((1 << int(i.ty[1:])) - 1) if w else None), dep
        if i.op in ('and', 'or') and i.ty == 'i1':
            z = 0 if i.op == 'and' else 1
            if z in n: return z, dep
            return (1 - z if n == [1 - z, 1 - z] else None), dep
        if i.op == 'xor' and i.ty == 'i1' and None not in n: return n[0] ^ n[1], dep
        if i.op == 'select':
            if n[0] is not None: return n[2 - n[0]], vs[2 - n[0]][1] or vs[0][1]
            return (n[1] if n[1] == n[2] else None), dep
        if i.op == 'icmp' and None not in n:
            w = s.wid(i.a[0]) or s.wid(i.a[1])
            if w:
                t = icmp(i.pred, I(w, n[0]), I(w, n[1]))
                return (1 if t == TRUE else 0 if t == FALSE else None), dep
        if i.op in ('add', 'sub', 'mul', 'shl', 'lshr', 'udiv', 'urem') and None not in n and i.ty.startswith('i'):
            t = binop(i.op, I(int(i.ty[1:]), n[0]), I(int(i.ty[1:]), n[1]), int(i.ty[1:])) if i.op not in ('udiv', 'urem') or n[1] else None
            return (t[2] if t is not None and isc(t) else None), dep
        return None, dep
    def wid(s, a):
        if a[0] == 'c': return a[1] if isinstance(a[1], int) else None
        i = s.defs.get(a[1]) if a[0] == 'v' else None
        return int(i.ty[1:]) if i is not None and isinstance(i.ty, str) and re.match(r'i\d+$', i.ty) else None
    def values(s, want):
        """the values of operand 1 of an instruction that the assumed value leads to; None: it cannot be said"""
        if not s.ok: return None
        out = set(); todo = [(0, s.v, ())]; seen = set(); n = 0
        while todo:
            k = todo.pop(); n += 1
            if k in seen: continue
            if n > 20000: return None
            seen.add(k); hit = False; b, cur, loads = k; loads = dict(loads)
            for i in s.f.blocks[b]:
                if i.op == 'load' and i.a[0] == s.a: loads[i.d] = cur
                elif i.op == 'store' and i.a[1] == s.a: cur = int(i.a[0][2]) & ((1 << i.a[0][1]) - 1)
                elif i is want:
                    v, dep = s.ev(i.a[1], loads)
                    if dep and v is not None: out.add(v); hit = True; break
            if hit: continue
            t = s.f.blocks[b][-1]; nx = t.succs()
            if t.op == 'br' and t.a:
                v, dep = s.ev(t.a[0], loads)
                if v is not None: nx = [t.bb[0] if v else t.bb[1]]
                elif dep and not s.partly(t.a[0], loads): return None
            elif t.op == 'switch':
                v, dep = s.ev(t.a[0], loads)
                if v is not None: nx = [next((bb for c, bb in t.cases if c == v), t.default)]
                elif dep: return None
            for q in set(nx): todo.append((q, cur, tuple(sorted(loads.items()))))
        return out
    def partly(s, a, loads):
        """an undecided condition whose undecided part does not depend on the variable"""
        i = s.defs.get(a[1]) if a[0] == 'v' else None
        if i is None: return True
        v, dep = s.ev(a, loads)
        if not dep or v is not None: return True
        if i.op in ('and', 'or', 'select'): return all(s.partly(b, loads) for b in i.a)
        return False
OUTPUT = re.compile(r'operator<<|^llvm\.|basic_ostream|^printf$|to_string')

def assumed(p, f, inst, opts, op):
    """is the operand of an operation an option that nothing keeps away from the bad value? (example) or None"""
    defs = {i.d: i for i in f.insts() if i.d is not None}; a = inst.a[1]; n = 0
    while a[0] == 'v' and a[1] in defs and defs[a[1]].op in ('zext', 'sext', 'trunc', 'freeze', 'add', 'sub') and n < 8:
        i = defs[a[1]]; n += 1
        a = i.a[1] if i.op in ('add', 'sub') and i.a[0][0] == 'c' else i.a[0]
    i = defs.get(a[1]) if a[0] == 'v' else None
    if i is None or i.op != 'load' or i.a[0][0] != 'v' or ('a', i.a[0][1]) not in opts: return None
    w = int(inst.ty[1:])
    for v in ([0] if op in DIV else [0, w, 2 * w, 1 << 20]):
        r = Assumed(p, f, i.a[0][1], v).values(inst)
        if r and any(isbad(op, w)(q) for q in r): return v
    return None

def fits(op, w):
    return (lambda l, h: l > 0) if op in DIV else (lambda l, h: h < w)
def isbad(op, w):
    return (lambda v: v == 0) if op in DIV else (lambda v: v >= w)

def arith(R):
    """no divisor can be 0 and no shift count can reach the width of what is shifted, whatever the input, the options or the files"""
    n = 0
    for t, p, f in each(risky):
        try: e, ps = arith_paths(f)
        except TooBig as z:
            R.ob('checked-operand', '%s' % f.model, None, where(f), str(z)); opts = option_objects(p, f)
            for i in f.insts():
                if i.op in DIV + SHIFT and i.a[1][0] == 'v': by_option(R, p, f, i, opts)
            continue
        R.saw('functions', f.dem[:160]); opts = option_objects(p, f)
        for x in ps:
            for ev in x.events():
                if ev.kind != 'arith' or isp(ev.args[1]): continue
                n += 1; op = ev.model; b = ev.args[1]; w = width(b); what = 'divisor' if op in DIV else 'shift count'
                name = 'the %s at %s' % (what, ev.inst.loc()); loc = ev.inst.loc()
                R.saw('operations', loc)
                l, h = bounds(e, x, b)
                if ev.info and op in DIV and ev.info[0][0] > 0: l = max(l, ev.info[0][0])
                if fits(op, w)(l, h): R.ob('checked-operand', name, True, loc); continue
                if any(q[0] == 'join' for q in x.imp):
                    if not by_option(R, p, f, ev.inst, opts): R.ob('checked-operand', name, None, loc)
                    continue
                syms = sorted(symbols(b), key=repr); kinds = [source(e, f, y, opts) for y in syms]
                if not syms or None in kinds: R.ob('checked-operand', name, None, loc); continue
                mem = [(y, k) for y, k in zip(syms, kinds) if k != 'free']
                if not mem:
                    env = witness(e, x, b, isbad(op, w), syms, opts, f)
                    if env: R.ob('checked-operand', name, False, loc, '%s in %s is %d for a value from outside' % (what, f.model, evalterm(b, env)))
                    else: R.ob('checked-operand', name, None, loc)
                    continue
                if len(mem) != len(syms) or len(syms) != 1: R.ob('checked-operand', name, None, loc); continue
                y, (_, off, sz) = mem[0]
                ok, at, msg = invariant(R, p, f, off, sz, lambda v: evalterm(b, {y: v}), op, w, x)
                R.ob('checked-operand', name, ok, at or loc, '%s in %s: %s' % (what, f.model, msg) if msg else '')
    if not n: raise AnalysisBroken('no operation with a computed divisor or shift count')

_byopt = {}
def by_option(R, p, f, i, opts):
    k = (p.target, f.name, i.block, i.idx)
    if k not in _byopt: _byopt[k] = assumed(p, f, i, opts, i.op) if opts else None
    v = _byopt[k]
    if v is None: return False
    what = 'divisor' if i.op in DIV else 'shift count'
    R.ob('checked-operand', 'the %s at %s' % (what, i.loc()), False, i.loc(), '%s in %s is out of range when the option is %d' % (what, f.model, v)); return True

_stores = {}
def stores(p, cls, off):
    """[(function, engine, path, event)]: what the functions of a class leave in one of its members; None among them: not analysed"""
    k = (p.target, cls, off)
    if k in _stores: return _stores[k]
    out = _stores[k] = []
    if '!' not in p.target and any(g.proj and re.search(r'popc(nt|ount)', g.model) for g in p.funcs.values()):
        try: p = program(p.target + '!popcnt')
        except AnalysisBroken: pass
    for g in p.funcs.values():
        if not g.proj or classof(g) != cls or '::~' in g.model: continue
        g.load(); fam = reach_member(g, off)
        if not fam: continue
        try:
            e = Engine(g, keep=lambda ev: ev.kind == 'store' and isp(ev.args[0]) and ev.args[0][1] == this(g) and ev.args[0][2] == off, max_states=20000); ps = e.run()
        except TooBig: out.append(None); continue
        for x in ps:
            evs = [ev for ev in x.events() if ev.kind == 'store']
            if evs and x.end != 'throw': out.append((g, e, x, evs[-1]))
    return out

def reach_member(g, off):
    """does the function store to an address at this offset of its object (syntactically)?"""
    defs = {i.d: i for i in g.insts() if i.d is not None}
    def place(a):
        d = 0; n = 0
        while a[0] == 'v' and n < 40:
            i = defs.get(a[1]); n += 1
            if i is None: return ('arg', a[1]), d
            if i.op == 'getelementptr':
                if i.ix: return None
                d += int(i.off or 0); a = i.a[0]
            elif i.op == 'bitcast': a = i.a[0]
            else: return None
        return None
    t = this(g)
    return any(i.op == 'store' and place(i.a[1]) == (t, off) for i in g.insts())

def invariant(R, p, f, off, sz, of, op, w, use):
    """do all values ever stored in a member of the class keep the operand in range?"""
    cls = classof(f)
    if cls is None: return None, None, ''
    n = 0; und = False
    for it in stores(p, cls, off):
        n += 1
        if it is None: und = True; continue
        g, e, x, ev = it; v = ev.args[1]; opts = option_objects(p, g)
        if isp(v) or width(v) != sz * 8: und = True; continue
        if isc(v):
            if isbad(op, w)(of(v[2])) and not excluded(use, off, v[2]):
                if op in DIV and g.model.endswith('::' + cls.rsplit('::', 1)[-1]): und = True; continue   # a starting value
                return False, ev.inst.loc(), '%s stores %d' % (g.model, v[2])
            continue
        l, h = bounds(e, x, v)
        if fits(op, w)(l, h): continue
        if any(q[0] == 'join' for q in x.imp): und = True; continue
        syms = sorted(symbols(v), key=repr); kinds = [source(e, g, y, opts) for y in syms]
        setter = all(isinstance(y[2], tuple) and y[2][0] == 'arg' for y in syms)
        if syms and (setter or all(k == 'free' for k in kinds)):
            env = witness(e, x, v, lambda q: isbad(op, w)(of(q)) and not excluded(use, off, q), syms, opts, g)
            if env: return False, ev.inst.loc(), '%s can store %d' % (g.model, evalterm(v, env))
        und = True
    if not n: return None, None, ''
    return (None if und else True), None, ''

def symbols_of_use(use, off):
    out = []
    for t in list(use.facts.known) + list(use.facts.rng):
        for y in symbols(t):
            if isinstance(y[2], tuple) and y[2][0] == 'init' and y[2][2] == off and y not in out: out.append(y)
    return out
def excluded(use, off, v):
    return any(not use.facts.consistent({y: v}) for y in symbols_of_use(use, off))

# ---------------------------------------------------------------- writes into buffers
# writer -> (argument that is written to, how much is written: argument index, ('len', argument) for a terminated text, a number, or 'format')
WRITERS = {'memcpy': (0, 2), 'memmove': (0, 2), 'memset': (0, 2), 'strcpy': (0, ('len', 1)), 'stpcpy': (0, ('len', 1)), 'strncpy': (0, 2), 'snprintf': (0, 1), 'vsnprintf': (0, 1),
           'sprintf': (0, 'format'), 'read': (1, 2), 'pread': (1, 2), 'recv': (1, 2), 'fread': (0, 1), 'fgets': (0, 1), 'ctime_r': (1, 26), 'asctime_r': (1, 26), 'strftime': (0, 1), 'gets': (0, 'input'),
           'std::istream::read': (1, 2), 'std::istream::getline': (1, 2), 'std::istream::get': (1, 2), 'std::istream::readsome': (1, 2), 'gethostname': (0, 1), 'getcwd': (0, 1)}
READC = re.compile(r'^std::(basic_)?istream::(read|getline|get|readsome)$')
CSTR = re.compile(r'basic_string::(c_str|data)$')

def writer(i):
    m = i.model or ''
    if m.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')): return WRITERS['memcpy']
    if READC.match(m): return (1, 2) if len(i.a) > 2 else None
    if m == 'std::operator>>' and len(i.a) > 1 and re.search(r'(char\*|char ?\(&\)|char, std::char_traits<char>>?&?, char\*|unsigned char\*)', ', '.join(i.fnobj.prog.ptypes(i.fn)[1:2])): return (1, 'input')
    return WRITERS.get(m)

def writes(f):
    return any(i.op in ('call', 'invoke') and writer(i) for i in f.insts()) or any(i.op == 'store' and computed(f, i.a[1]) for i in f.insts())

def computed(f, a):
    """is this an element chosen by a computed index"""
    defs = getattr(f, '_defs', None)
    if defs is None: defs = f._defs = {i.d: i for i in f.insts() if i.d is not None}
    n = 0
    while a[0] == 'v' and n < 20:
        i = defs.get(a[1]); n += 1
        if i is None: return False
        if i.op == 'getelementptr':
            if i.ix: return True
            a = i.a[0]
        elif i.op == 'bitcast': a = i.a[0]
        else: return False
    return False

class Room:
    """how many bytes there are behind an address, on one path"""
    def __init__(s, p, f, e, x):
        s.p = p; s.f = f; s.e = e; s.x = x; s.heap = {}; s.own = {}; s.get = {}; s.vec = {}
        s.allocas = getattr(f, '_allocas', None)
        if s.allocas is None: s.allocas = f._allocas = {i.d: int(i.size) for i in f.insts() if i.op == 'alloca' and i.size and not (i.a and i.a[0][0] != 'c')}
    def step(s, ev):
        if ev.kind != 'call': return
        m = ev.model; a = ev.args
        if m in ('operator new[]', 'operator new', 'malloc', 'alloca', 'std::malloc') and isp(ev.ret): s.heap[ev.ret[1]] = a[0]
        elif m in ('calloc', 'std::calloc') and isp(ev.ret) and isc(a[1]): s.heap[ev.ret[1]] = mulc(a[0], a[1][2])
        elif re.search(r'^std::unique_ptr::(unique_ptr|reset)$', m) and len(a) > 1 and isp(a[0]) and isp(a[1]): s.own[a[0][1:]] = a[1]
        elif re.search(r'^std::make_unique$', m) and len(a) > 1 and isp(a[0]) and not isp(a[1]):
            s.own[a[0][1:]] = ('p', ('made', id(ev)), 0); s.heap[('made', id(ev))] = a[1]
        elif re.search(r'^std::vector::(vector|resize|assign)$', m) and len(a) > 1 and isp(a[0]) and not isp(a[1]):
            ts = s.p.ptypes(ev.inst.fn)
            if ts and re.match(r'(unsigned )?long', ts[0]): s.vec[a[0][1:]] = (a[1], elem(s.p, ev.inst.fn))
        elif m in ('std::get', 'std::unique_ptr::get', 'std::__uniq_ptr_impl::_M_ptr') and isp(ev.ret) and isp(a[0]): s.get[ev.ret[1]] = a[0][1:]
        elif m in ('std::vector::data', 'std::vector::operator[]', 'std::vector::front') and isp(ev.ret) and isp(a[0]) and a[0][1:] in s.vec:
            n, sz = s.vec[a[0][1:]]
            if sz: s.heap[ev.ret[1]] = sub(mulc(n, sz), mulc(a[1], sz)) if len(a) > 1 and not isp(a[1]) else mulc(n, sz)
    def of(s, q, depth=0, member=True):
        """(bytes, offset, what) or None"""
        if not isp(q) or depth > 4: return None
        b, o = q[1], q[2]
        if b in s.heap: return s.heap[b], o, 'the allocated block'
        if b[0] == 'alloca' and b[1] in s.allocas: return I(64, s.allocas[b[1]]), o, 'the local buffer'
        if b[0] == 'init' and b[1] in s.get and s.get[b[1]] in s.own:
            r = s.own[s.get[b[1]]]
            return s.of(padd(r, o) if o != 0 else r, depth + 1)
        if b in s.get and s.get[b] in s.own: return s.of(s.own[s.get[b]], depth + 1)
        if b[0] == 'arg':
            k = b[1]; c = None
            if k < len(s.f.params) and s.f.params[k].get('sret'): c = re.sub(r'^%?"?(struct|class|union)\.|"$', '', s.f.params[k]['sret'])
            elif b == this(s.f) and s.f.params[k]['name'] == 'this': c = classof(s.f)
            d = s.p.di.get(c)
            o0 = o if isinstance(o, int) else o[2] if o[0] == '+' else 0
            if d:
                if not member and isinstance(o, int): return I(64, d['size']), o, 'the object'
                for n, at, sz in (q[:3] for q in d['mem']):
                    if at <= o0 < at + sz: return I(64, at + sz), o, 'the member %s' % n if n else 'the data of %s' % c
        return None

def elem(p, fn):
    m = re.search(r'std::vector<([^<>]*?),', p.dem(fn))
    t = m.group(1).strip() if m else ''
    return {'char': 1, 'unsigned char': 1, 'signed char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'double': 8, 'float': 4, 'wchar_t': 4}.get(t)

def off64(o): return I(64, o) if isinstance(o, int) else o

def enough(e, x, f, p, need, have, opts):
    """need <= have (bytes)?  True / False / None, with an example"""
    if isc(need) and isc(have): return need[2] <= have[2], ''
    if need == have: return True, ''
    if isc(have) and have[2] == (1 << 64) - 1: return True, ''       # more than can be allocated: the allocation throws
    d = sub(have, need)
    if isc(d): return sval(d) >= 0, 'one path asks for %d bytes more than there are' % -sval(d)
    v = x.facts.decide(icmp('ule', need, have))
    if v is not None: return v, 'there is too little room on one path'
    if monotone(x, need, have): return True, ''
    if isc(have) and upto(x, need) <= have[2]: return True, ''
    ph = [y for y in symbols(need) | symbols(have) if isinstance(y[2], tuple) and y[2][0] == 'phi']
    if len(ph) == 1: return growing_buffer(e, x, f, need, have, ph[0], opts)
    if any(q[0] == 'join' for q in x.imp): return None, ''
    syms = sorted(symbols(need) | symbols(have), key=repr)
    for y in syms:
        if isinstance(y[2], tuple) and y[2][0] == 'iter': continue
        if source(e, f, y, opts) != 'free': return None, ''
    its = [y for y in syms if isinstance(y[2], tuple) and y[2][0] == 'iter']
    if len(its) > 1: return None, ''
    if its and not any(its[0] in symbols(t) and any(source(e, f, z, opts) == 'free' for z in symbols(t) - {its[0]}) for t in known(x.facts)): return None, ''
    cand = []
    rest = [y for y in syms if y not in its]
    more = sorted({z for t in known(x.facts) if its and its[0] in symbols(t) for z in symbols(t)} - set(rest) - set(its), key=repr)
    if any(source(e, f, z, opts) != 'free' for z in more): return None, ''
    for y in rest + more:
        r = x.facts.range(y); c = {r[0][0], r[-1][1], 0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 34, 63, 64, 255, 1000, 65536}
        big = isinstance(y[2], tuple) and y[2][0] == 'rd'          # bytes of a file: any value at all
        cand.append(sorted(v for v in c if any(l <= v <= h for l, h in r) and (big or v < 1 << 48)))
    for vs in itertools.islice(itertools.product(*cand), 3000):
        env = dict(zip(rest + more, vs))
        for k in (range(0, 300) if its else (0,)):
            if its: env[its[0]] = k
            a, b = evalterm(need, env), evalterm(have, env)
            if a is None or b is None: break
            if a > b:
                # the first index that is too large is reached only if nothing stops the loop before
                if x.facts.consistent(env): return False, '%d bytes are written where there are %d' % (a, b)
                break
    return None, ''

def upto(x, t):
    """an upper bound of an unsigned term that also uses what is known about multiples of its symbols"""
    hi = x.facts.range(t)[-1][1]
    if t[0] == '+' and all(c < 1 << 31 for _, c in t[3]) and t[2] < 1 << 31:
        q = t[2] + sum(upto(x, a) * c for a, c in t[3]); hi = min(hi, q)
    elif t[0] == 's':
        for k, rs in x.facts.rng.items():
            if k[0] == '+' and len(k[3]) == 1 and k[3][0][0] == t and 0 < k[3][0][1] < 1 << 31 and k[2] < 1 << 31 and hi * k[3][0][1] + k[2] < 1 << k[1]:
                hi = min(hi, (rs[-1][1] - k[2]) // k[3][0][1])
    return hi

_back = {}
def growing_buffer(e, x, f, need, have, y, opts):
    """a size that changes from round to round: large enough in the first round, and never smaller afterwards"""
    _, h, d = y[2]
    ini = [dict(ev.info).get(('phi', d)) for ev in x.events() if ev.kind == 'loop' and ev.info and ev.args[0][2] == h]
    if not ini or ini[0] is None: return None, ''
    rest = sorted((symbols(need) | symbols(have) | symbols(ini[0])) - {y}, key=repr)
    if len(rest) != 1 or source(e, f, rest[0], opts) != 'free' or isp(ini[0]): return None, ''
    for v in list(range(0, 130)) + [199, 200, 255, 256, 1000, 65535, 65536, 1 << 20, 1 << 28]:
        env = {rest[0]: v}; env[y] = evalterm(ini[0], env)
        if env[y] is None: return None, ''
        a, b = evalterm(need, env), evalterm(have, env)
        if a is None or b is None: return None, ''
        if a > b: return False, '%d bytes are written where there are %d' % (a, b)
    return None, ''

def known(fs): return list(fs.known) + list(fs.rng) + [icmp('eq', a, b) for t in (fs.ordu, fs.ords) for a, b in t if not isp(a) and not isp(b)]

def monotone(x, need, have):
    """need <= have whatever the values: need grows with every symbol in it, have does not depend on them, and every shift count can be enumerated"""
    ns, hs = symbols(need), symbols(have)
    own = [y for y in ns if y not in hs]; shared = sorted(ns & hs | hs, key=repr)
    if not own or len(shared) > 1 or not all(growing(need, y) for y in own): return False
    top = {y: x.facts.range(y)[-1][1] for y in own}
    dom = [()]
    if shared:
        r = x.facts.range(shared[0])
        if sum(h - l + 1 for l, h in r) > 4096: return False
        dom = [(v,) for l, h in r for v in range(l, h + 1)]
    for vs in dom:
        env = dict(top); env.update(zip(shared, vs))
        a, b = evalterm(need, env), evalterm(have, env)
        if a is None or b is None or a > b: return False
    return True

def growing(t, y):
    if y not in symbols(t): return True
    if t == y: return True
    if t[0] == '+': return all(c < 1 << (t[1] - 1) and growing(a, y) for a, c in t[3] if y in symbols(a)) and t[2] < 1 << (t[1] - 1)
    if t[0] == 'x' and t[2] in ('lshr', 'udiv'): return growing(t[3], y) and y not in symbols(t[4])
    if t[0] == 'x' and t[2] == 'zext': return growing(t[3], y)
    return False

def buffers(R):
    """nothing is written behind the end of a buffer"""
    n = 0
    for t, p, f in each(writes):
        keep = lambda ev: ev.kind == 'call' and (writer(ev.inst) is not None or re.search(r'operator new|malloc|calloc|unique_ptr::|make_unique|std::get$|vector::(vector|resize|assign|data|operator\[\]|front)$|basic_string::(size|length)$|va_(start|end)', ev.model)) or ev.kind == 'loop' or ev.kind == 'store' and ev.inst is not None and ev.inst.op == 'store' and isp(ev.args[0]) and not isinstance(ev.args[0][2], int)
        try: e = Engine(f, keep=keep); e.loopinits = True; ps = e.run()
        except TooBig as z: n += plain(R, p, f); continue
        R.saw('functions', f.dem[:160]); opts = option_objects(p, f)
        for x in ps:
            room = Room(p, f, e, x); imp = any(q[0] == 'join' for q in x.imp); va = {}
            for ev in x.events():
                room.step(ev)
                if ev.kind == 'store':
                    h = room.of(ev.args[0])
                    if h is None: continue
                    name = 'the element written at %s' % ev.inst.loc(); sz = size(ev.args[1])
                    if sz is None: continue
                    need = add(off64(h[1]), I(64, sz)); n += 1
                    ok, msg = enough(e, x, f, p, need, h[0], opts)
                    R.ob('inside-buffer', name, ok, ev.inst.loc(), '%s: %s' % (f.model, msg) if ok is False else '')
                    continue
                if ev.kind != 'call': continue
                va_list(R, f, ev, va)
                w = writer(ev.inst)
                if w is None: continue
                dst, amount = w
                if dst >= len(ev.args): continue
                h = room.of(ev.args[dst], member=not ev.model.startswith('llvm.')); name = 'what %s writes at %s' % (ev.model, ev.inst.loc()); loc = ev.inst.loc()
                if amount == 'input':
                    if h is not None: R.ob('inside-buffer', name, False, loc, '%s in %s writes a text of any length into %s' % (ev.model, f.model, h[2])); n += 1
                    continue
                if h is None: continue
                n += 1
                if isinstance(amount, int) and ev.model in ('ctime_r', 'asctime_r'): need = I(64, amount)
                elif amount == 'format':
                    l = Texts(p, f).of(ev.inst.a[1]); cv = [conversions(q)[0] for q in l] if l else [None]
                    if None in cv: R.ob('inside-buffer', name, None, loc); continue
                    worst = max(len(q) + 1 + sum(310 if k == 'double' else 22 if k[0] == 'i' else 1 << 20 for k, _ in c) for q, c in zip(l, cv))
                    need = I(64, worst)
                elif isinstance(amount, tuple):
                    src = ev.args[amount[1]]; sl = e.obj_lit(src) if isp(src) else None
                    if sl is not None: need = I(64, len(sl) + 1)
                    else:
                        need = text_size(e, x, src)
                        if need is None: R.ob('inside-buffer', name, None, loc); continue
                else:
                    need = ev.args[amount]
                    if isp(need): continue
                    if width(need) < 64: need = sext(need, 64)
                ok, msg = enough(e, x, f, p, add(off64(h[1]), need) if h[1] != 0 else need, h[0], opts)
                R.ob('inside-buffer', name, ok, loc, '%s into %s: %s' % (f.model, h[2], msg) if ok is False else '')
    if not n: raise AnalysisBroken('no bounded write found')

def plain(R, p, f):
    """writers in a function too large to follow: those with a fixed amount, a fixed place and a fixed buffer"""
    defs = {i.d: i for i in f.insts() if i.d is not None}; n = 0
    for i in f.calls():
        w = writer(i)
        if w is None or w[0] >= len(i.a): continue
        a = i.a[w[0]]; o = 0; d = 0
        while a[0] == 'v' and a[1] in defs and defs[a[1]].op in ('getelementptr', 'bitcast') and not (defs[a[1]].ix or []) and d < 20:
            o += int(defs[a[1]].off or 0); a = defs[a[1]].a[0]; d += 1
        name = 'what %s writes at %s' % (i.model, i.loc())
        b = defs.get(a[1]) if a[0] == 'v' else None
        k = i.a[w[1]] if isinstance(w[1], int) and i.model not in ('ctime_r', 'asctime_r') and w[1] < len(i.a) else None
        if b is None or b.op != 'alloca' or not b.size or not (w[1] == 'input' or w[1] == 26 or k is not None and k[0] == 'c'): R.ob('inside-buffer', name, None, i.loc()); continue
        n += 1
        if w[1] == 'input': R.ob('inside-buffer', name, False, i.loc(), '%s in %s writes a text of any length into a local buffer' % (i.model, f.model)); continue
        need = o + (26 if k is None else int(k[2])); ok = need <= int(b.size)
        R.ob('inside-buffer', name, ok, i.loc(), '' if ok else '%s: %d bytes are written where there are %d' % (f.model, need, int(b.size)))
    return n

def size(v):
    if isp(v): return 8
    w = width(v); return w // 8 if w % 8 == 0 else None

def text_size(e, x, src):
    """length + 1 of a terminated text: of the string object it belongs to"""
    if not isp(src) or src[1][0] != 'cstr': return None
    for k, d in enumerate(e.defs):
        if isinstance(d[0], str) and re.search(r'basic_string::(size|length)$', d[0]) and d[1] and isinstance(d[1][0], tuple) and d[1][0][0] == 'c' and d[1][0][1] == src[1][1]: return add(S(64, ('fn', k)), I(64, 1))
    return None

def va_list(R, f, ev, va):
    """an argument list is started before it is read, and read once"""
    m = ev.model
    if m.startswith('llvm.va_start') or m.startswith('llvm.va_copy'): va[ev.args[0]] = 0
    elif m.startswith('llvm.va_end'): va[ev.args[0]] = 9
    elif m in ('vsnprintf', 'vsprintf', 'vfprintf', 'vprintf', 'vasprintf'):
        a = ev.args[-1]
        if a not in va:
            if isp(a) and a[1][0] == 'alloca': R.ob('argument-list', 'the argument list read at %s' % ev.inst.loc(), False, ev.inst.loc(), '%s reads its arguments before the list was started' % f.model)
            return
        R.ob('argument-list', 'the argument list read at %s' % ev.inst.loc(), va[a] == 0, ev.inst.loc(), '' if va[a] == 0 else '%s reads its arguments %s' % (f.model, 'a second time without starting over' if va[a] == 1 else 'after the list was ended'))
        va[a] = va[a] + 1

# ---------------------------------------------------------------- pattern matching
MATCH = re.compile(r'^std::(regex_search|regex_match|regex_replace)$|regex_iterator::(w?s?c?regex_iterator|regex_iterator)$|regex_token_iterator::regex_token_iterator$')
SAFE, DEEP = 8192, 32768     # the matcher of the library recurses once per character it repeats over: a few hundred bytes of stack each

def unbounded(text):
    """can a match of the pattern be of any length?"""
    try: return sre_parse.parse(text).getwidth()[1] >= 1 << 20
    except Exception: return True if re.search(r'(?<!\\)[*+]|\{\d+,\}', text) else None

def patterns(p):
    """regular expressions that never change, by where they are kept: a global, or (class, offset)"""
    out = {}
    for f in p.funcs.values():
        if not f.proj: continue
        cs = [i for i in f.calls() if (i.model or '').endswith('basic_regex::basic_regex') and len(i.a) >= 2]
        if not cs: continue
        f.load(); defs = {i.d: i for i in f.insts() if i.d is not None}
        for i in cs:
            l = lit(p, i.a[1]); a = i.a[0]; o = 0; n = 0
            if l is None: continue
            while a[0] == 'v' and a[1] in defs and defs[a[1]].op == 'getelementptr' and not (defs[a[1]].ix or []) and n < 20:
                o += int(defs[a[1]].off or 0); a = defs[a[1]].a[0]; n += 1
            if a[0] == 'g': k = ('global', a[1])
            elif a[0] == 'v' and a[1] not in defs and ('arg', a[1]) == this(f): k = (classof(f), o)
            elif a[0] == 'v' and a[1] in defs and defs[a[1]].op == 'alloca': k = ('local', f.name, a[1], o)
            else: continue
            out.setdefault(k, set()).add(l)
    return out

def matching(R):
    """a pattern that can match texts of any length is only applied to a text whose length has been checked"""
    n = 0
    for t, p, f in each(lambda f: any(i.model and MATCH.search(i.model) for i in f.calls())):
        pats = patterns(p)
        try: e = Engine(f, keep=lambda ev: ev.kind == 'call' and not re.search(r'::~|allocator', ev.model), max_states=20000); ps = e.run()
        except TooBig as z: R.ob('bounded-text', f.model, None, where(f), str(z)); continue
        R.saw('functions', f.dem[:160])
        for x in ps:
            evs = x.events()
            for k, ev in enumerate(evs):
                if ev.kind != 'call' or not MATCH.search(ev.model): continue
                n += 1; loc = ev.inst.loc(); name = 'the text matched at %s' % loc; R.saw('matches', loc)
                pat = None
                for a in ev.args[1:]:
                    if not isp(a): continue
                    b, o = a[1], a[2]
                    g = pats.get(('global', b[1])) if b[0] == 'glob' or b[0] == 'g' else pats.get((classof(f), o)) if b == this(f) else pats.get(('local', f.name, b[1], o)) if b[0] == 'alloca' else None
                    if g is not None: pat = g
                subj = ev.args[0]
                if pat is None or len(pat) != 1: R.ob('bounded-text', name, None, loc); continue
                l = next(iter(pat)); u = unbounded(l)
                if not u: R.ob('bounded-text', name, True if u is False else None, loc); continue
                if not isp(subj) or not ev.info or ev.info[0][0] != 'c': R.ob('bounded-text', name, None, loc); continue
                C = ev.info[0][1]
                ok, why = limited(p, f, e, x, evs[:k], C, subj)
                R.ob('bounded-text', name, ok, loc, '%s matches a text of any length against "%s"%s' % (f.model, l[:40], why) if ok is False else '')
    if not n: R.note('no pattern matching')

SHRINK = re.compile(r'^std::(__cxx11::)?basic_string::(substr|erase)$|^boost::(algorithm::)?trim_(left_|right_)?copy$|to_(lower|upper)_copy$')
def limited(p, f, e, x, before, C, subj, depth=0):
    """is the length of this text bounded on the path?  (True | False | None, message)"""
    from g_reader import size_syms
    best = None
    for sy in size_syms(e, C)[0]:
        h = x.facts.range(sy)[-1][1]
        best = h if best is None else min(best, h)
    em = size_syms(e, C)[1]
    if any(x.facts.decide(y) is True for y in em): best = 0
    if best is not None and best <= SAFE: return True, ''
    d = e.defn(C) if depth < 12 else None
    if d is not None:
        if d[0] == 'nochr': return limited(p, f, e, x, before, d[1], subj, depth + 1)
        if d[0] == 'val':
            k = e.defs[d[1]]
            if isinstance(k[0], str) and SHRINK.search(k[0]) and k[1] and isinstance(k[1][0], tuple) and k[1][0][0] == 'c':
                if k[0].endswith('substr') and len(k[1]) == 3 and not isp(k[1][2]) and x.facts.range(k[1][2])[-1][1] <= SAFE: return True, ''
                return limited(p, f, e, x, before, k[1][0][1], subj, depth + 1)
            return None, ''
        if d[0] == 'line':
            if kernel(e, before): return None, ''
            if best is not None and best <= DEEP: return None, ''
            return False, ' (a line as it was read)' if best is None or best >= 1 << 32 else ' (up to %d characters)' % best
        return None, ''
    if C[0] == 'lit': return True, ''
    # the text a caller passed
    if C[0] == 'st0' and C[1][0] == 'arg' and ('arg', C[1][1]) != this(f):
        if best is not None and best <= DEEP: return None, ''
        return False, ' (the argument as it was passed)' if best is None or best >= 1 << 32 else ' (up to %d characters)' % best
    return None, ''

def kernel(e, before):
    """do all lines on this path come from files of the kernel, which no user writes"""
    from_ = [ev.args[0][1:] for ev in before if ev.model == 'std::getline' and isp(ev.args[0])]
    named = {}
    for ev in before:
        if re.search(r'basic_ifstream::(basic_ifstream|open)$', ev.model) and len(ev.args) > 1 and isp(ev.args[0]) and isp(ev.args[1]): named[ev.args[0][1]] = e.obj_lit(ev.args[1])
    return bool(from_) and all((named.get(b) or '').startswith(('/proc/', '/sys/')) for b, _ in from_)

# ---------------------------------------------------------------- elements
ELEM = re.compile(r'^std::(vector|deque|array|__cxx11::basic_string)::(operator\[\]|front|back|pop_back)$|^std::(queue|priority_queue|stack|deque|list|__cxx11::list)::(front|top|back|pop|pop_front)$')
SIZES = re.compile(r'^std::(__cxx11::)?\w+::(size|length)$'); EMPTY = re.compile(r'^std::(__cxx11::)?\w+::empty$')

def sizes_of(e, C):
    sz, em = [], []
    for k, d in enumerate(e.defs):
        if isinstance(d[0], str) and len(d) > 1 and isinstance(d[1], tuple) and len(d[1]) == 1 and isinstance(d[1][0], tuple) and d[1][0][:2] == ('c', C):
            if SIZES.match(d[0]): sz.append(S(64, ('fn', k)))
            elif EMPTY.match(d[0]): em.append(S(1, ('fn', k)))
    return sz, em

def elements(R):
    """an element is only taken, without a check of the library, from a container that is known to have it"""
    n = 0
    for t, p, f in each(lambda f: any(i.model and ELEM.search(i.model) for i in f.calls())):
        try: e = Engine(f, keep=lambda ev: ev.kind == 'call' and bool(ELEM.search(ev.model) or ev.model.endswith('::split') or SIZES.match(ev.model) or EMPTY.match(ev.model)), max_states=8000); ps = e.run()
        except TooBig as z: R.ob('has-element', f.model, None, where(f), str(z)); continue
        R.saw('functions', f.dem[:160])
        for x in ps:
            if any(q[0] == 'join' for q in x.imp): continue
            split = set()
            for ev in x.events():
                if ev.kind != 'call': continue
                if ev.model.endswith('algorithm::split') and isp(ev.args[0]): split.add(ev.args[0][1:])
                if not ELEM.search(ev.model) or not ev.info or ev.info[0][0] != 'c': continue
                n += 1; loc = ev.inst.loc(); name = 'the element taken at %s' % loc
                if ev.model.endswith('operator[]'):
                    idx = ev.args[1] if len(ev.args) > 1 else None
                    if idx is None or isp(idx): continue
                else: idx = I(64, 0)
                if 'basic_string' in ev.model and isc(idx) and idx[2] == 0 and ev.model.endswith('operator[]'): R.ob('has-element', name, True, loc); continue
                sz, em = sizes_of(e, ev.info[0][1])
                ok = None
                if isc(idx) and idx[2] == 0 and any(x.facts.decide(y) is False for y in em): ok = True
                for y in sz:
                    v = x.facts.decide(icmp('ult', idx, y))
                    if v is not None: ok = v
                    elif ok is None and isc(idx) and ev.model.endswith('operator[]') and x.facts.range(y)[0][0] <= idx[2] and (y in x.facts.rng or any(y in symbols(q) for q in known(x.facts))): ok = False     # the path has looked at the size, and it need not be enough
                if ok is None and any(x.facts.decide(y) is True for y in em): ok = False
                if ok is None and ev.args[0][1:] in split and isc(idx): ok = True if idx[2] == 0 else False if not sz else None
                R.ob('has-element', name, ok, loc, '%s takes element %s of a container that need not have it' % (f.model, idx[2] if isc(idx) else '') if ok is False else '')
    if not n: R.note('no unchecked element access')

# ---------------------------------------------------------------- recursion
INPUT = re.compile(r'^std::(getline|istream::(read|get|getline|readsome|operator>>)|operator>>)$|^(fgets|getline|read|fread|getchar|fgetc)$')

def recursion(R):
    """no function calls itself, directly or through others, once per line or record it reads"""
    n = 0; done = set()
    for t, p in programs():
        fs = {f.name: f for f in p.funcs.values() if f.proj}
        edges = {}
        for f in fs.values(): edges[f.name] = {i.fn for i in f.calls() if i.fn in fs}
        n += len(fs)
        for f in fs.values():
            # is f on a cycle
            seen = set(); work = list(edges[f.name])
            while work:
                g = work.pop()
                if g in seen: continue
                seen.add(g); work += edges[g]
            if f.name not in seen: continue
            if (f.dem, f.line) in done: continue
            done.add((f.dem, f.line))
            cyc = {g for g in seen if f.name in reachable(edges, g)} | {f.name}
            reads = [(fs[g], i) for g in cyc for i in fs[g].load().calls() if i.model and INPUT.search(i.model)]
            name = '%s calls itself' % f.model
            if not reads: R.ob('no-recursion', name, None, where(f)); continue
            f.load(); back = [i for i in f.calls() if i.fn in cyc]
            hit = next((i for i in back for g, r in reads if g is not f or comes_before(f, r, i)), None)
            R.ob('no-recursion', name, False if hit else None, hit.loc() if hit else where(f), '%s calls itself again for every line it reads (%s): the stack grows with the input' % (f.model, reads[0][1].loc()) if hit else '')
    R.saw('programs', *[t for t, _ in programs()])
    R.ob('no-recursion', '%d functions, no cycle of calls that reads input' % n, not done or None, '')

def reachable(edges, g):
    seen = set(); work = [g]
    while work:
        h = work.pop()
        for k in edges.get(h, ()):
            if k not in seen: seen.add(k); work.append(k)
    return seen

def comes_before(f, a, b):
    """can b be executed after a"""
    if a.block == b.block and a.idx < b.idx: return True
    seen = set(); work = list(f.blocks[a.block][-1].succs())
    while work:
        k = work.pop()
        if k in seen: continue
        seen.add(k)
        if k == b.block: return True
        work += f.blocks[k][-1].succs()
    return False
