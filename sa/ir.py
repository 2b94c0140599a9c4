"""Loader for irdump's JSON lines: functions, blocks, instructions, globals, types."""
import json, os, re, functools
from build import dump, AnalysisBroken, REPO

@functools.lru_cache(maxsize=None)
def strip_templates(s):
    """'a::b<c>::d(e<f>)' -> 'a::b::d(e)'; understands operators and lambdas."""
    out = []; depth = 0; i = 0
    while i < len(s):
        if s.startswith('operator', i) and (i == 0 or not (s[i-1].isalnum() or s[i-1] == '_')):
            m = re.match(r'operator(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>)', s[i:])
            if m:
                # 'operator<' '<' template args: operator<< <...> is printed with a blank by the demangler
                if depth == 0: out.append(m.group(0))
                i += len(m.group(0)); continue
        c = s[i]
        if c == '<': depth += 1
        elif c == '>' and not (i and s[i-1] == '-'):
            depth -= 1
        elif depth == 0: out.append(c)
        i += 1
    return ''.join(out)

def _split_top(s):
    parts = []; d = 0; cur = ''
    for ch in s:
        if ch in '<({[': d += 1
        elif ch in '>)}]': d -= 1
        if ch == ',' and d == 0: parts.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): parts.append(cur.strip())
    return parts

@functools.lru_cache(maxsize=None)
def parse_dem(dem):
    """demangled name -> (model name without template/param/return text, [param types], full qualified name)."""
    s = re.sub(r'\[abi:[^\]]*\]', '', dem)
    s = re.sub(r' \[clone [^\]]*\]', '', s)
    s = s.replace('(anonymous namespace)', '{anon}')
    # find the parameter list: last top-level '(' group
    depth = 0; ang = 0; end = None; start = None
    t = s
    const = False
    m = re.search(r'\)( const)?( volatile)?( &| &&)?( noexcept)?$', t)
    params = []
    if m:
        const = bool(m.group(1))
        close = m.start()
        d = 0
        for i in range(close, -1, -1):
            if t[i] == ')': d += 1
            elif t[i] == '(':
                d -= 1
                if d == 0: start = i; break
        if start is not None and not t[:start].endswith('operator'):
            params = _split_top(t[start + 1:close])
            t = t[:start]
    q = strip_templates(t).strip()
    # drop a return type: everything before the last top-level blank that is not part of an operator
    d = 0; cut = 0
    mo = re.search(r'(^|::| )operator.*$', q)
    lim = mo.start() + (len(mo.group(1)) if mo else 0) if mo else len(q)
    i = 0
    while i < lim:
        c = q[i]
        if c in '({[': d += 1
        elif c in ')}]': d -= 1
        elif c == ' ' and d == 0: cut = i + 1
        i += 1
    return q[cut:].strip(), params, t, const

class Inst:
    __slots__ = ('op', 'd', 'ty', 'nm', 'line', 'file', 'a', 'fn', 'ind', 'bb', 'pa', 'pred', 'inc', 'off', 'ix', 'sty',
                 'size', 'atomic', 'cases', 'default', 'w', 'aty', 'var', 'dty', 'vty', 'model', 'block', 'idx', 'fnobj', 'sc', 'ia', 'cleanup', 'cl', '_dem')
    def __init__(s, j, fnobj, block, idx):
        g = j.get
        s.op = j['op']; s.d = g('d'); s.ty = g('ty'); s.nm = g('nm'); s.line = g('l'); s.file = g('f') or fnobj.file
        s.a = [tuple(_t(x)) for x in g('a', [])]
        s.fn = g('fn'); s.ind = tuple(_t(j['ind'])) if 'ind' in j else None
        s.bb = g('bb'); s.pa = {k: (kind, sz) for k, kind, sz in g('pa', [])}; s.pred = g('pred')
        s.inc = [(tuple(_t(v)), b) for v, b in g('in', [])]
        s.off = g('off')
        s.ix = ([(tuple(_t(v)), k) for v, k in g('ix', [])] if s.op == 'getelementptr' else g('ix'))
        s.sty = g('sty'); s.size = g('size'); s.atomic = g('atomic', False)
        s.cases = [(int(c), b) for c, b in g('cases', [])]; s.default = g('def'); s.w = g('w')
        s.aty = g('aty'); s.var = g('var'); s.dty = g('dty'); s.vty = g('vty'); s.block = block; s.idx = idx; s.fnobj = fnobj
        s.sc = g('sc'); s.ia = g('ia') or []; s.cleanup = g('cleanup'); s.cl = g('cl'); s.model = None; s._dem = None
    def loc(s):
        f = s.file; l = s.line
        if not f.startswith(REPO):
            for fi, li in s.ia:
                if fi.startswith(REPO): f, l = fi, li; break
        return '%s:%s' % (os.path.relpath(f, REPO) if f and f.startswith(REPO) else os.path.basename(f or '?'), l)
    def succs(s):
        if s.op == 'br': return list(s.bb)
        if s.op == 'switch': return [b for _, b in s.cases] + [s.default]
        if s.op == 'invoke': return list(s.bb)
        return []

def _t(x):
    return [_tt(y) for y in x]
def _tt(y):
    return tuple(_t(y)) if isinstance(y, list) else y

class Func:
    def __init__(s, j, prog):
        s.prog = prog; s.name = j['name']; s.dem = j['dem']; s.file = j['file']; s.line = j['line']; s.proj = j['proj']
        s.params = j['params']; s.ret = j['ret']; s.short = j.get('short'); s.sig = j.get('sig')
        s.model, s.ptypes, s.qual, s.const = parse_dem(s.dem)
        s._blocks = j['blocks']; s.blocks = None
    def load(s):
        if s.blocks is None:
            s.blocks = []
            for bi, bl in enumerate(s._blocks):
                s.blocks.append([Inst(x, s, bi, k) for k, x in enumerate(bl)])
            s._blocks = None
            for b in s.blocks:
                for i in b:
                    if i.fn: i.model = s.prog.model(i.fn)
        return s
    def insts(s):
        s.load()
        for b in s.blocks:
            yield from b
    def calls(s):
        for i in s.insts():
            if i.op in ('call', 'invoke'): yield i
    @property
    def rel(s): return os.path.relpath(s.file, REPO) if s.file.startswith(REPO) else s.file
    def __repr__(s): return '<Func %s>' % s.dem

class Program:
    def __init__(s, target):
        s.target = target; s.funcs = {}; s.decls = {}; s.globals = {}; s.structs = {}; s.di = {}
        for line in open(dump(target)):
            j = json.loads(line)
            k = j['k']
            if k == 'fn': s.funcs[j['name']] = Func(j, s)
            elif k == 'decl': s.decls[j['name']] = j
            elif k == 'gv': s.globals[j['name']] = j
            elif k == 'st': s.structs[j['name']] = j
            elif k == 'di':
                o = s.di.get(j['name'])
                if o is None or len(j['mem']) > len(o['mem']): s.di[j['name']] = j
    def dem(s, name):
        if name in s.funcs: return s.funcs[name].dem
        d = s.decls.get(name)
        return d['dem'] if d else name
    def model(s, name): return parse_dem(s.dem(name))[0]
    def ptypes(s, name): return parse_dem(s.dem(name))[1]
    def find(s, model, nparams=None, pred=None):
        r = [f for f in s.funcs.values() if f.proj and f.model == model and (nparams is None or len(f.params) == nparams) and (pred is None or pred(f))]
        return r
    def one(s, model, **kw):
        r = s.find(model, **kw)
        if len(r) != 1: raise AnalysisBroken('%s: expected one function %s, found %d' % (s.target, model, len(r)))
        return r[0].load()
    def members(s, cls):
        """[(name, offset, size, type)] of a class, own members only."""
        return [m for m in s.di.get(cls, {'mem': []})['mem'] if not m[0].startswith('<')]
    def bases(s, cls):
        return [m for m in s.di.get(cls, {'mem': []})['mem'] if m[0] == '<base>']
    def field_at(s, cls, off):
        """dotted member path at a byte offset."""
        seen = 0
        for m in s.di.get(cls, {'mem': []})['mem']:
            if m[0] == '<base>':
                sz = s.di.get(m[3], {}).get('size', 0)
                if m[1] <= off < m[1] + sz: 
                    r = s.field_at(m[3], off - m[1])
                    if r: return r
            elif not m[0].startswith('<') and m[1] <= off < m[1] + max(m[2], 1):
                sub = s.field_at(m[3], off - m[1]) if m[3] in s.di else ''
                own = s.di.get(m[3], {}).get('file', '')
                return m[0] + ('.' + sub if sub else '')
        return ''

@functools.lru_cache(maxsize=None)
def program(target): return Program(target)

def opstr(o):
    k = o[0]
    if k == 'v': return '%%%d' % o[1]
    if k == 'c': return o[2] if int(o[2]) < 2**63 else hex(int(o[2]))
    if k == 'g': return '@%s%s' % (o[1][:40], '+%d' % o[2] if o[2] else '')
    if k == 'n': return 'null'
    return str(o)

def show(f):
    f.load(); p = f.prog; out = ['FN %s   [%s:%s] params=%s' % (f.dem, f.rel, f.line, [(x.get('name'), x['ty']) for x in f.params])]
    for bi, b in enumerate(f.blocks):
        out.append(' bb%d:' % bi)
        for i in b:
            s = '   '
            if i.d is not None: s += '%%%d%s = ' % (i.d, '(' + i.nm + ')' if i.nm else '')
            s += i.op
            if i.op in ('call', 'invoke'):
                s += ' ' + (p.dem(i.fn)[:150] if i.fn else 'IND ' + opstr(i.ind)) + ' :: ' + ', '.join(map(opstr, i.a))
                if i.op == 'invoke': s += ' -> bb%d unw bb%d' % tuple(i.bb)
            elif i.op == 'getelementptr': s += ' %s + %s %s' % (opstr(i.a[0]), i.off, ['%s*%d' % (opstr(v), k) for v, k in i.ix] if i.ix else '')
            elif i.op == 'phi': s += ' ' + ', '.join('[%s bb%d]' % (opstr(v), b2) for v, b2 in i.inc)
            elif i.op == 'br': s += ' ' + ' '.join(map(opstr, i.a)) + ' ' + ' '.join('bb%d' % x for x in i.bb)
            elif i.op == 'switch': s += ' %s %s default bb%d' % (opstr(i.a[0]), ' '.join('%d:bb%d' % x for x in i.cases), i.default)
            else: s += ' ' + (i.pred + ' ' if i.pred else '') + ', '.join(map(opstr, i.a)) + (' size %d' % i.size if i.size else '') + (' ' + str(i.ix) if i.ix else '') + (' ' + str(i.var) if i.var else '') + (' atomic' if i.atomic else '')
            if i.ty: s += ' : ' + i.ty[:30]
            s += '   ; %s%s' % (i.loc(), ' in ' + i.sc if i.sc else '')
            out.append(s)
    return '\n'.join(out)

if __name__ == '__main__':
    import sys
    p = program(sys.argv[1])
    if len(sys.argv) < 3:
        for f in p.funcs.values(): print(f.model, '|', f.dem[:140], f.rel, f.line)
    else:
        for f in p.funcs.values():
            if f.model == sys.argv[2] or sys.argv[2] in f.dem and len(sys.argv) > 3: print(show(f))
