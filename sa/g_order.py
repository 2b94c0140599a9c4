"""Comparison operators and comparators: evaluated over the finite domain of orderings of
(most significant half, least significant half, validity)."""
import re
from ir import program
from absint import *
from report import where, AnalysisBroken
from g_text import probe, one

CMP = ('<', '==', '>')
def lex(u, l): return u if u != '==' else l
EXPECT = {'lt': lambda o: o == '<', 'gt': lambda o: o == '>', 'le': lambda o: o != '>', 'ge': lambda o: o != '<', 'eq': lambda o: o == '==', 'ne': lambda o: o != '=='}
OPNAME = {'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>=', 'eq': '==', 'ne': '!='}

def hash_offset(prog, ty, depth=0):
    """offset of the (first) pwned::Hash inside a class"""
    if ty == 'pwned::Hash': return 0
    d = prog.di.get(ty)
    if not d or depth > 4: return None
    for name, off, size, t in [m[:4] for m in d['mem'] if len(m) > 3]:
        r = hash_offset(prog, t.replace('const ', ''), depth + 1)
        if r is not None: return off + r
    return None

def valid_offset(prog):
    for m in prog.di.get('pwned::Hash', {'mem': []})['mem']:
        if len(m) > 3 and m[3] == 'bool': return m[1]
    return None

def m_memcmp(s, i, st, args, m):
    """memcmp/equal over whole 8-byte cells: zero exactly if all cells are equal; its sign is not the numeric order"""
    a, b, n = args[:3]
    if not (isc(n) and isp(a) and isp(b) and isinstance(a[2], int) and isinstance(b[2], int) and n[2] % 8 == 0 and 0 < n[2] <= 64):
        return 'default'
    w = s._w(i.ty); eq = True
    for o in range(0, n[2], 8):
        d = st.facts.decide(icmp('eq', s.load(st, padd(a, o), 8, False), s.load(st, padd(b, o), 8, False)))
        eq = False if (d is False or eq is False) else None if (d is None or eq is None) else True
    if eq is True: st.env[i.d] = I(w, 0)
    else:
        t = S(w, ('memcmp', i.block, i.idx)); st.env[i.d] = t
        if eq is False:
            f = st.facts.assume(icmp('eq', t, I(w, 0)), False)
            if f is not None: st.facts = f
    return None

def atoms(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple):
        if t and t[0] == 's': out.add(t)
        else:
            for x in t: atoms(x, out)
    return out

def eval_cmp(R, prog, func, rule, kind, offs, subject, deref=(False, False), same_valid=True):
    """evaluate a comparison function for every ordering; offs: hash offsets inside its two operands"""
    voff = valid_offset(prog)
    # which parameters are the operands: the last two pointer parameters
    ps = [k for k, p in enumerate(func.params) if p['ty'] == 'ptr' and not p.get('sret')][-2:]
    if len(ps) < 2:
        R.ob(rule, subject, None, where(func), 'operands not passed by reference'); return
    R.saw('functions', func.dem)
    for u in CMP:
        for l in CMP:
            for v in (0, 1):
                def init(e, st):
                    cells = []
                    for k, o, dr in zip(ps, offs, deref):
                        b = ('arg', k)
                        if dr:
                            st.mem[b] = {0: (8, ('p', ('tgt', k), 0))}; b = ('tgt', k)
                        up, lo = S(64, ('upper', k)), S(64, ('lower', k))
                        m = {o: (8, up), o + 8: (8, lo)}
                        if voff is not None: m[o + voff] = (1, I(8, v))
                        st.mem[b] = m; cells.append((up, lo))
                    f = st.facts
                    for (x, y), r in zip(zip(*cells), (u, l)):
                        f = f.assume(icmp({'<': 'ult', '==': 'eq', '>': 'ugt'}[r], x, y), True)
                    st.facts = f
                models = {'memcmp': m_memcmp, '__builtin_memcmp': m_memcmp, 'bcmp': m_memcmp}
                e = Engine(func, init=init, models=models)
                paths = [p for p in e.run() if p.end == 'ret']
                exp = EXPECT[kind](lex(u, l))
                sub = '%s: upper %s, lower %s, both %s' % (subject, u, l, 'valid' if v else 'invalid')
                res = set()
                for p in paths:
                    val = p.val
                    d = p.facts.decide(val) if val is not None and width(val) == 1 else None
                    if d is None and val is not None and width(val) > 1: d = p.facts.decide(icmp('ne', val, I(width(val), 0)))
                    bytecmp = [a for a in set().union(*[atoms(k) for k in list(p.facts.known) + list(p.facts.rng) + [val]]) if isinstance(a[2], tuple) and a[2][0] == 'memcmp']
                    signed = [a for a in bytecmp if not (p.facts.const(a) is not None or p.facts.range(a) == rs_not(((0, 0),), width(a)))]
                    res.add((d, bool(bytecmp) and kind not in ('eq', 'ne')))
                if not res: R.ob(rule, sub, None, where(func), 'no return reached'); continue
                if any(b for _, b in res):
                    R.ob(rule, sub, False, where(func), 'orders hashes by comparing the bytes of their in-memory (host byte order) halves, which is not the order of their hex texts'); continue
                vals = {d for d, _ in res}
                if vals == {exp}: R.ob(rule, sub, True)
                elif len(vals) == 1 and None not in vals and len(paths) >= 1:
                    R.ob(rule, sub, False, where(func), 'a %s b yields %s where %s is required' % (OPNAME[kind], vals.pop(), exp))
                else:
                    w = witness(func, init, models, ps, u, l, exp)
                    if w: R.ob(rule, sub, False, where(func), 'a %s b yields %s for a = %s, b = %s' % ((OPNAME[kind], not exp) + w))
                    else: R.ob(rule, sub, None, where(func), 'not decided')

SAMPLE = (0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001, 0xfffffffffffffffe, 0xffffffffffffffff)
def witness(func, init, models, ps, u, l, exp):
    """a pair of hashes of the given order for which the terms on the only path open to them give the wrong result"""
    try: paths = Engine(func, init=init, models=models, exact=True).run()
    except TooBig: return None
    if any(x.imp for x in paths): return None
    pairs = {'<': [(a, b) for a in SAMPLE for b in SAMPLE if a < b], '==': [(a, a) for a in SAMPLE], '>': [(a, b) for a in SAMPLE for b in SAMPLE if a > b]}
    for ua, ub in pairs[u]:
        for la, lb in pairs[l]:
            env = {S(64, ('upper', ps[0])): ua, S(64, ('upper', ps[1])): ub, S(64, ('lower', ps[0])): la, S(64, ('lower', ps[1])): lb}
            ok = [x for x in paths if x.facts.consistent(env)]
            if len(ok) != 1 or ok[0].end != 'ret' or ok[0].val is None or isp(ok[0].val): continue
            v = evalterm(ok[0].val, env)
            if v is not None and bool(v) != exp: return ('%016x%016x' % (ua, la), '%016x%016x' % (ub, lb))
    return None

def operators(R, which=('lt', 'gt', 'le', 'ge', 'eq', 'ne')):
    p = probe(R, 'order')
    if p is None: return
    for k in which:
        f = one(R, p, k)
        if f is not None: eval_cmp(R, p, f, 'total-order', k, (0, 0), 'Hash a %s b' % OPNAME[k])

def public_less(R):
    p = probe(R, 'less')
    if p is None: return
    p_one = lambda n: one(R, p, n)
    if p_one('hashless'): eval_cmp(R, p, p_one('hashless'), 'comparator-order', 'lt', (0, 0), 'HashLess')
    o = hash_offset(p, 'pwned::PasswordHashAndCount')
    if o is None: raise AnalysisBroken('PasswordHashAndCount contains no Hash')
    if p_one('phcless'): eval_cmp(R, p, p_one('phcless'), 'comparator-order', 'lt', (o, o), 'PasswordHashAndCountLess')
    if p_one('phceq'): eval_cmp(R, p, p_one('phceq'), 'comparator-order', 'eq', (o, o), 'PasswordHashAndCount ==')

def targs(s, at):
    """template arguments of the template-id starting at s[at] == '<'"""
    d = 0; cur = ''; out = []; i = at
    while i < len(s):
        c = s[i]
        if c in '<({': 
            d += 1
            if d > 1: cur += c
        elif c in '>)}' and not (c == '>' and s[i - 1] == '-'):
            d -= 1
            if d == 0: out.append(cur.strip()); return out
            cur += c
        elif c == ',' and d == 1: out.append(cur.strip()); cur = ''
        else: cur += c
        i += 1
    return out

def comparator_func(prog, ty):
    """operator() of a comparator class"""
    ty = re.sub(r'^const |( const)?[&*]*$', '', ty).strip()
    c = [f for f in prog.funcs.values() if f.proj and f.dem.startswith(ty + '::operator()(')]
    return c[0] if len(c) == 1 else None

def used_comparators(R, target):
    """every ordered container or sort over hashes, records or merger inputs used in a program"""
    prog = program(target); seen = set(); n = 0
    names = {prog.dem(x) for x in list(prog.decls) + list(prog.funcs)}
    for d in sorted(names):
        for m in re.finditer(r'std::(map|multimap|set|multiset|priority_queue|sort|stable_sort|push_heap|pop_heap|make_heap|min_element|max_element|lower_bound|upper_bound|nth_element|partial_sort)<', d):
            if m.start() and d[:m.start()].count('<') > d[:m.start()].count('>'): continue
            a = targs(d, m.end() - 1); k = m.group(1)
            if not a: continue
            key = a[0]
            it = re.search(r'__normal_iterator<([\w:]+)( const)?\*', key)
            elem = it.group(1) if it else key
            elem = re.sub(r'^const |( const)?&$', '', elem)
            ptr = elem.endswith('*'); cls = elem.rstrip('* ').strip()
            if hash_offset(prog, cls) is None: continue
            if cls not in ('pwned::Hash', 'pwned::PasswordHashAndCount') and not ptr and k not in ('priority_queue',):
                pass
            if k in ('map', 'set', 'multimap', 'multiset'): ci = 2 if 'map' in k else 1; want = 'lt'
            elif k == 'priority_queue': ci = 2; want = 'gt'
            elif k in ('lower_bound', 'upper_bound'): ci = 2; want = 'lt'
            else: ci = 1; want = 'lt'
            if 'heap' in k: continue
            comp = a[ci] if len(a) > ci else None
            sig = (k, elem, comp)
            if sig in seen: continue
            seen.add(sig); n += 1
            subject = '%s: std::%s of %s ordered by %s' % (target, k, elem, comp or 'operator<')
            o = hash_offset(prog, cls)
            if comp is None or comp.startswith('std::less<') and not ptr:
                # the element's operator<
                if want == 'gt':
                    R.ob('comparator-order', subject, False if k == 'priority_queue' and not ptr else None, '', 'the greatest element is delivered first'); continue
                f = [x for x in prog.funcs.values() if x.model.endswith('operator<') and x.ptypes[:2] and all(cls in t for t in x.ptypes[:2]) and len(x.ptypes) == 2]
                if len(f) == 1: eval_cmp(R, prog, f[0], 'comparator-order', 'lt', (o, o), subject)
                else: R.ob('comparator-order', subject, None, '', 'comparison not found')
                continue
            if ptr and comp.startswith(('std::less<', 'std::greater<')):
                R.ob('comparator-order', subject, False, '', 'orders by the addresses of the elements, not by their hashes'); continue
            if comp.startswith('std::greater<'):
                f = [x for x in prog.funcs.values() if x.model.endswith('operator>') and len(x.ptypes) == 2 and all(cls in t for t in x.ptypes)]
                if len(f) == 1: eval_cmp(R, prog, f[0], 'comparator-order', want, (o, o), subject)
                else: R.ob('comparator-order', subject, None, '', 'comparison not found')
                continue
            f = comparator_func(prog, comp)
            if f is None: R.ob('comparator-order', subject, None, '', 'comparator not found'); continue
            pt = f.ptypes
            der = tuple(ptr and t.endswith('&') for t in pt[:2]) if len(pt) == 2 else (False, False)
            eval_cmp(R, prog, f, 'comparator-order', want, (o, o), subject, deref=der)
    R.saw('ordered containers and sorts in ' + target, *['%s of %s by %s' % x for x in seen])
    return n
