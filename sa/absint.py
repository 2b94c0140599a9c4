"""Disjunctive abstract interpretation of one (inlined) function.

The abstract state of a program point is a set of (trace, facts, memory) triples; values
are linear expressions over symbols (terms.py), facts are interval sets per symbol and an
order relation ({<,=,>}, signed and unsigned) per pair of symbols.  The function's control
flow graph is cut at loop heads: what a loop body may change is replaced by fresh symbols
(values that change by a constant in every iteration keep the closed form init + step*n),
so every loop is covered for an arbitrary iteration and each path through the cut graph is
looked at exactly once.  There is no solver: a condition that the domain cannot decide
splits the state.
"""
import re
from terms import *
from ir import Inst, opstr, strip_templates
from build import AnalysisBroken

class TooBig(Exception): pass

# ------------------------------------------------------------------ facts
LT, EQ, GT = 1, 2, 4
MASK = {'lt': LT, 'le': LT | EQ, 'gt': GT, 'ge': GT | EQ, 'eq': EQ, 'ne': LT | GT}
class Facts:
    __slots__ = ('known', 'rng', 'ordu', 'ords')
    def __init__(s, o=None):
        if o is None: s.known = {}; s.rng = {}; s.ordu = {}; s.ords = {}
        else: s.known = dict(o.known); s.rng = dict(o.rng); s.ordu = dict(o.ordu); s.ords = dict(o.ords)
    def get(s, atom):
        r = s.rng.get(atom)
        return r if r is not None else rs_full(width(atom))
    def range(s, t):
        """range set of a term (over-approximated)"""
        if isp(t): return rs_full(64)
        return from_atom(t, s.get)
    def const(s, t):
        """the constant a term is known to be equal to, or None"""
        if isp(t): return None
        r = s.range(t)
        return r[0][0] if len(r) == 1 and r[0][0] == r[0][1] else None
    def decide(s, t):
        """True / False / None"""
        if isc(t): return bool(t[2])
        if t in s.known: return s.known[t]
        k = t[0]
        if k == 'not':
            r = s.decide(t[1]); return None if r is None else not r
        if k == 'x' and t[1] == 1 and t[2] in ('and', 'or'):
            x, y = s.decide(t[3]), s.decide(t[4])
            if t[2] == 'and':
                if x is False or y is False: return False
                return True if x and y else None
            if x or y: return True
            return False if x is False and y is False else None
        if k == 'x' and t[1] == 1 and t[2] == 'xor':
            x, y = s.decide(t[3]), s.decide(t[4])
            return None if x is None or y is None else x != y
        if k == 'cmp':
            p, a, b = t[1], t[2], t[3]
            if not isp(a) and not isp(b):
                w = width(a)
                if isc(b):
                    at, rs = to_atom(a, rs_pred(p, b[2], w))
                    have = s.range(at)
                    if not have: return None
                    i = rs_and(have, rs)
                    if not i: return False
                    if i == have: return True
                    # the whole term may be known better than its atom
                    have = s.range(a); i = rs_and(have, rs_pred(p, b[2], w))
                    if not i: return False
                    return True if i == have else None
                # no wrap: a = b + c compared signed/unsigned by intervals
                ra, rb = s.range(a), s.range(b)
                if ra and rb:
                    h = 1 << (w - 1)
                    if p[0] == 's': ra, rb = rs_shift(ra, h, w), rs_shift(rb, h, w)
                    alo, ahi, blo, bhi = ra[0][0], ra[-1][1], rb[0][0], rb[-1][1]
                    q = p if p in ('eq', 'ne') else p[1:]
                    poss = (LT if alo < bhi else 0) | (GT if ahi > blo else 0) | (EQ if rs_and(ra, rb) else 0)
                    if poss & MASK[q] == 0: return False
                    if poss & ~MASK[q] == 0: return True
            key, m = s._key(p, a, b)
            tab = s.ords if p[0] == 's' else s.ordu
            have = tab.get(key, 7)
            if p in ('eq', 'ne'): have &= self_eq(s.ords.get(key, 7))
            elif not have & EQ: pass
            if have & m == 0: return False
            if have & ~m == 0: return True
            return None
        if k in ('s', 'x') and t[1] == 1:
            return None
        return None
    def consistent(s, env):
        """False if an assignment of symbols contradicts what is known"""
        for t, v in s.known.items():
            r = evalterm(t, env)
            if r is not None and bool(r) != bool(v): return False
        for t, rs in s.rng.items():
            r = evalterm(t, env)
            if r is not None and not any(a <= r <= b for a, b in rs): return False
        for tab, sg in ((s.ordu, False), (s.ords, True)):
            for (a, b), m in tab.items():
                if isp(a) or isp(b): continue
                x, y = evalterm(a, env), evalterm(b, env)
                if x is None or y is None: continue
                if sg:
                    w = width(a); x -= (1 << w) if x >> (w - 1) else 0; y -= (1 << w) if y >> (w - 1) else 0
                if not (LT if x < y else EQ if x == y else GT) & m: return False
        return True
    def _key(s, p, a, b):
        q = p if p in ('eq', 'ne') else p[1:]
        m = MASK[q]
        if repr(a) > repr(b): a, b = b, a; m = (m & EQ) | (LT if m & GT else 0) | (GT if m & LT else 0)
        return (a, b), m
    def assume(s, t, val):
        """new Facts with t == val, or None if that is impossible"""
        d = s.decide(t)
        if d is not None: return s if d == val else None
        f = Facts(s)
        return f if f._assume(t, val) else None
    def _assume(s, t, val):
        if isc(t): return bool(t[2]) == val
        k = t[0]
        if k == 'not': return s._assume(t[1], not val)
        if k == 'x' and t[1] == 1 and t[2] in ('and', 'or'):
            if (t[2] == 'and') == val:
                return s._assume(t[3], val) and s._assume(t[4], val)
            x, y = s.decide(t[3]), s.decide(t[4])
            if x is (not val): return s._assume(t[4], val) if False else (s._assume(t[4], val))
            if y is (not val): return s._assume(t[3], val)
            if x is not None and x == val: pass
            s.known[t] = val; return True
        if k == 'cmp':
            p, a, b = t[1], t[2], t[3]
            if not val: p = NEG[p]
            if not isp(a) and not isp(b) and isc(b):
                w = width(a); at, rs = to_atom(a, rs_pred(p, b[2], w))
                r = rs_and(s.range(at), rs)
                if not r: return False
                s.rng[at] = r
                if at is not a: return s._tight(at)
                return s._tight(at)
            key, m = s._key(p, a, b)
            if p in ('eq', 'ne'):
                u = s.ordu.get(key, 7) & m
                sg = s.ords.get(key, 7) & m
                if not u or not sg: return False
                s.ordu[key] = u; s.ords[key] = sg
                if p == 'eq' and not isp(a) and not isp(b):
                    r = rs_and(s.range(a), s.range(b))
                    if not r: return False
                    for x in (a, b):
                        at, rr = to_atom(x, r)
                        q = rs_and(s.range(at), rr)
                        if not q: return False
                        s.rng[at] = q
                return True
            tab, oth = (s.ords, s.ordu) if p[0] == 's' else (s.ordu, s.ords)
            u = tab.get(key, 7) & m
            if not oth.get(key, 7) & EQ: u &= ~EQ
            if not u: return False
            tab[key] = u
            o = oth.get(key, 7)
            if u == EQ: o &= EQ
            if not u & EQ: o &= ~EQ
            if not o: return False
            oth[key] = o
            # interval consequences
            if not isp(a) and not isp(b):
                w = width(a); h = 1 << (w - 1); sg = p[0] == 's'
                q = p[1:]
                ra, rb = s.range(a), s.range(b)
                if ra and rb:
                    if sg: ra, rb = rs_shift(ra, h, w), rs_shift(rb, h, w)
                    M = (1 << w) - 1
                    if q == 'lt': ca, cb = (0, rb[-1][1] - 1), (ra[0][0] + 1, M)
                    elif q == 'le': ca, cb = (0, rb[-1][1]), (ra[0][0], M)
                    elif q == 'gt': ca, cb = (rb[0][0] + 1, M), (0, ra[-1][1] - 1)
                    else: ca, cb = (rb[0][0], M), (0, ra[-1][1])
                    for x, r0, c in ((a, ra, ca), (b, rb, cb)):
                        if c[0] > c[1]: return False
                        r = rs_and(r0, (c,))
                        if not r: return False
                        if sg: r = rs_shift(r, h, w)
                        at, rr = to_atom(x, r)
                        q2 = rs_and(s.range(at), rr)
                        if not q2: return False
                        s.rng[at] = q2
            return True
        s.known[t] = val
        return True
    def _tight(s, at): return True
    def order(s, a, b, signed=False):
        """mask of possible relations between a and b"""
        key, m = s._key('ult', a, b)
        r = (s.ords if signed else s.ordu).get(key, 7)
        if m != LT: r = (r & EQ) | (LT if r & GT else 0) | (GT if r & LT else 0)
        return r
    def join(s, o):
        f = Facts()
        f.known = {k: v for k, v in s.known.items() if o.known.get(k, None) is v}
        for k, v in s.rng.items():
            v2 = o.rng.get(k)
            if v2 is not None: f.rng[k] = v if v == v2 else rs_norm(list(v) + list(v2))
        for n in ('ordu', 'ords'):
            A, B, C = getattr(s, n), getattr(o, n), getattr(f, n)
            for k, v in A.items():
                if k in B and (v | B[k]) != 7: C[k] = v | B[k]
        return f
    def joins_exactly(s, o):
        """the join of s and o describes exactly the union of what both describe (they differ in one dimension)"""
        d = 0; full = True
        for k in s.known.keys() | o.known.keys():
            if s.known.get(k) is not o.known.get(k):
                d += 1
                if k in s.known and k in o.known: pass
        for k in s.rng.keys() | o.rng.keys():
            if s.rng.get(k) != o.rng.get(k): d += 1
        for n in ('ordu', 'ords'):
            A, B = getattr(s, n), getattr(o, n)
            ks = [k for k in A.keys() | B.keys() if A.get(k, 7) != B.get(k, 7)]
            d += len(ks) if n == 'ordu' or not d else len([k for k in ks if s.ordu.get(k, 7) == o.ordu.get(k, 7)])
        return d <= 1
    def show(s):
        out = ['%s%s' % ('' if v else '!', tstr(k)) for k, v in s.known.items()]
        for k, r in s.rng.items(): out.append('%s in %s' % (tstr(k), ' '.join('[%d..%d]' % x for x in r[:4])))
        for n, tab in (('', s.ordu), ('s', s.ords)):
            for (a, b), m in tab.items():
                if m != 7: out.append('%s %s%s %s' % (tstr(a), n, {1: '<', 2: '==', 4: '>', 3: '<=', 6: '>=', 5: '!='}.get(m, '?'), tstr(b)))
        return '; '.join(out)
def self_eq(m): return 7 if m & EQ and m != EQ else (EQ if m == EQ else LT | GT)

# ------------------------------------------------------------------ states and paths
class State:
    __slots__ = ('env', 'mem', 'facts', 'trace', 'heads', 'imp')
    def copy(s):
        n = State(); n.env = dict(s.env); n.mem = dict(s.mem); n.facts = s.facts; n.trace = s.trace; n.heads = s.heads; n.imp = s.imp
        return n

class Ev:
    """an event on a path: kind in call/ind/store/load(atomic)/loop/ret"""
    __slots__ = ('kind', 'inst', 'model', 'args', 'ret', 'info', 'h')
    def __init__(s, kind, inst, model, args, ret=None, info=None):
        s.kind = kind; s.inst = inst; s.model = model; s.args = args; s.ret = ret; s.info = info
        s.h = hash((kind, id(inst), model, args, ret))
    def key(s): return (s.kind, id(s.inst), s.model, s.args, s.ret, s.info)
    def __hash__(s): return s.h
    def __eq__(s, o): return s.h == o.h and s.key() == o.key()
    def loc(s): return s.inst.loc() if s.inst is not None else '?'
    def __repr__(s):
        return '%s %s(%s)%s @%s' % (s.kind, s.model, ', '.join(tstr(a) for a in s.args), ' = ' + tstr(s.ret) if s.ret is not None else '', s.loc())

class Path:
    __slots__ = ('end', 'val', 'trace', 'facts', 'mem', 'imp', 'head', 'nxt', 'inst', 'env')
    def events(s):
        out = []; t = s.trace
        while t: out.append(t[1]); t = t[0]
        out.reverse(); return out
    def show(s):
        return '%s %s  | %s\n    ' % (s.end, tstr(s.val) if s.val is not None else (s.head or ''), s.facts.show()) + '\n    '.join(map(repr, s.events()))

# accessors: do not change their object although not declared const
ACCESSOR = re.compile(r'(::|^)(begin|end|cbegin|cend|rbegin|rend|operator\[\]|at|front|back|top|data|c_str|get|operator\*|operator->|base|first|second|value|native_handle|get_executor|rdbuf|str|what|size|empty|count|find|length|capacity|code|is_open|good|eof|fail|bad|operator bool|operator!|gcount|tellg|tellp|find_first_of|substr|compare|cbegin|position|matched|expiry|method|target|body|key_comp|__ptr)$')
ACCESSOR_NOT = re.compile(r'map::operator\[\]$|unordered_map::operator\[\]$|std::getline$')
RET_ARG0 = re.compile(r'(^|::)(operator<<|operator>>|operator\+=|operator=|append|assign|insert|getline|read|write|seekg|seekp|operator\+\+|operator--|put|flush|ignore|erase_return)$')
DULL = re.compile(r'^std::__cxx11::basic_(string|ostringstream|stringstream|istringstream)::|^std::(__)?(new_)?allocator|^(std::)?operator (new|delete)|^std::operator(<<|\+|==|!=|<)$|^std::ostream::operator<<$|^std::chrono|^std::basic_ios::(eof|fail|bad|good|operator)|^boost::filesystem::path::(string|path|~path|c_str)|__throw|^llvm\.|^__cxa_(alloc|free|begin|end|guard)|^std::(basic_)?ostream::flush|::~|__normal_iterator|::(begin|end|size|empty|c_str)$|^mem(cpy|set|move)|^std::fpos')
DEAD = re.compile(r'::~[^:]*$')
NOEFFECT = re.compile(r'^llvm\.(dbg|lifetime|experimental\.noalias|assume)|^std::allocator|^std::__new_allocator|^(std::)?__clang_call_terminate')

SCALE = 1    # the thorough tier multiplies every bound on the number of abstract states (check.py)

class Engine:
    def __init__(s, func, keep=None, init=None, models=None, max_states=6000, follow=None, width=16, exact=False):
        s.f = func.load(); s.prog = func.prog; s.keep = keep; s.init = init; s.models = models or {}
        s.max_states = max_states * SCALE; s.follow = follow
        s.defs = []; s.defidx = {}
        s.node = {}
        s.exact = exact; s.loopinits = False; s.cut = (); s.quiet = (); s.blind = set(); s.record = False; s.notes = set(); s.width = width; s.width_hook = None; s.partition = None; s.joins = 0
        s._cfg()
    def unwinds(s, i): return s.follow == 'unwind' or callable(s.follow) and bool(s.follow(i))
    # ---- control flow graph
    def _cfg(s):
        B = s.f.blocks; n = len(B)
        s.succ = []
        for b in B:
            t = b[-1]
            if t.op == 'br': x = list(dict.fromkeys(t.bb))
            elif t.op == 'switch': x = list(dict.fromkeys([d for _, d in t.cases] + [t.default]))
            elif t.op == 'invoke': x = [t.bb[0]] + ([t.bb[1]] if s.unwinds(t) else [])
            else: x = []
            s.succ.append(x)
        # reachable, postorder
        seen = [False] * n; order = []; s.back = set(); on = [False] * n
        st = [(0, iter(s.succ[0]))]; seen[0] = on[0] = True
        while st:
            b, it = st[-1]
            for x in it:
                if not seen[x]:
                    seen[x] = on[x] = True; st.append((x, iter(s.succ[x]))); break
                elif on[x]: s.back.add((b, x))
            else:
                on[b] = False; order.append(b); st.pop()
        s.rpo = order[::-1]; s.reach = seen
        s.pred = [[] for _ in B]
        for b in s.rpo:
            for x in s.succ[b]: s.pred[x].append(b)
        s.heads = sorted({h for _, h in s.back})
        # natural loop bodies
        s.loop = {}
        for t, h in s.back:
            body = s.loop.setdefault(h, {h}); w = [t]
            while w:
                x = w.pop()
                if x in body: continue
                body.add(x); w += [p for p in s.pred[x]]
        # liveness of SSA values
        use = [set() for _ in B]; de = [set() for _ in B]; phiuse = {}
        for b in s.rpo:
            for i in B[b]:
                if i.op == 'phi':
                    for v, p in i.inc:
                        if v[0] == 'v': phiuse.setdefault((p, b), set()).add(v[1])
                else:
                    for v in s._uses(i):
                        if v not in de[b]: use[b].add(v)
                if i.d is not None: de[b].add(i.d)
        live = [set() for _ in B]; ch = True
        while ch:
            ch = False
            for b in reversed(s.rpo):
                o = set()
                for x in s.succ[b]:
                    o |= live[x] | phiuse.get((b, x), set())
                i2 = use[b] | (o - de[b])
                if i2 != live[b]: live[b] = i2; ch = True
        s.live = live
        # live-out incl. phi uses is needed on edges; allocas reachable
        s.allocas = {i.d for b in s.rpo for i in B[b] if i.op == 'alloca'}
        direct = [set() for _ in B]; derived = {}
        esc = set()
        for b in s.rpo:
            for i in B[b]:
                if i.op == 'alloca': derived[i.d] = i.d
                elif i.op in ('getelementptr', 'bitcast') and i.a and i.a[0][0] == 'v' and i.a[0][1] in derived: derived[i.d] = derived[i.a[0][1]]
        for b in s.rpo:
            for i in B[b]:
                for v in s._uses(i):
                    if v in derived: direct[b].add(derived[v])
                if i.op == 'store' and i.a[0][0] == 'v' and i.a[0][1] in derived: esc.add(derived[i.a[0][1]])
                if i.op in ('phi', 'select'):
                    for v in ([x for x, _ in i.inc] if i.op == 'phi' else i.a):
                        if v[0] == 'v' and v[1] in derived: esc.add(derived[v[1]])
        s.escaped = esc
        r = [set(d) for d in direct]; ch = True
        while ch:
            ch = False
            for b in reversed(s.rpo):
                x = set(r[b])
                for y in s.succ[b]: x |= r[y]
                if x != r[b]: r[b] = x; ch = True
        s.usable = r
    @staticmethod
    def _uses(i):
        out = [v[1] for v in i.a if v[0] == 'v']
        if i.ind and i.ind[0] == 'v': out.append(i.ind[1])
        if i.op == 'getelementptr':
            out += [v[1] for v, _ in i.ix or [] if v[0] == 'v']
        for v in i.a:
            if v[0] not in ('v', 'c', 'g', 'n', 'f', 'u'):
                st = [v]
                while st:
                    x = st.pop()
                    if isinstance(x, tuple):
                        if len(x) == 2 and x[0] == 'v': out.append(x[1])
                        else: st += list(x)
        return out
    # ---- interning
    def intern(s, *key):
        i = s.defidx.get(key)
        if i is None:
            i = len(s.defs); s.defs.append(key); s.defidx[key] = i
        return i
    def fn(s, w, *key): return S(w, ('fn', s.intern(*key)))
    def defn(s, t):
        """the definition (tuple) behind an interned symbol, or None"""
        if t and t[0] == 's' and isinstance(t[2], tuple) and t[2][0] == 'fn': return s.defs[t[2][1]]
        if t and t[0] == 'p' and isinstance(t[1], tuple) and t[1][0] == 'fn': return s.defs[t[1][1]]
        if t and t[0] == 'fn': return s.defs[t[1]]
        return None
    def tr(s, st, ev):
        if s.keep is None:
            if ev.kind in ('load', 'store', 'aload', 'arith') or DULL.search(ev.model): return
        elif ev.kind != 'loop' and not s.keep(ev): return
        p = st.trace; k = (id(p) if p else 0, ev)
        n = s.node.get(k)
        if n is None: n = (p, ev); s.node[k] = n
        st.trace = n
    # ---- running
    def run(s):
        s.havoc = {h: set() for h in s.heads}
        s.induct = {h: {} for h in s.heads}
        s.noind = {h: set() for h in s.heads}
        for rnd in range(40):
            s.paths = []; s.cand = {}; s.grew = False
            s._pass()
            if s.grew: continue
            ch = False
            for h in s.heads:
                for k, (vals) in s.cand.get(h, {}).items():
                    ok = len(vals) == 1 and None not in vals
                    c = next(iter(vals)) if ok else None
                    cur = s.induct[h].get(k)
                    if cur is not None:
                        if not ok or c != cur: del s.induct[h][k]; s.noind[h].add(k); ch = True
                    elif ok and k not in s.noind[h]: s.induct[h][k] = c; ch = True
            if not ch: return s.paths
        raise TooBig('no fixpoint for %s' % s.f.dem)
    def _start(s):
        st = State(); st.env = {}; st.mem = {}; st.facts = Facts(); st.trace = None; st.heads = (); st.imp = frozenset()
        for k, p in enumerate(s.f.params):
            if p['ty'] == 'ptr': st.env[k] = ('p', ('arg', k), 0)
            elif p['ty'][0] == 'i' and p['ty'][1:].isdigit(): st.env[k] = S(int(p['ty'][1:]), ('arg', k))
            else: st.env[k] = S(64, ('arg', k))
        if s.init: s.init(s, st)
        return st
    def _pass(s):
        B = s.f.blocks
        inbox = {b: [] for b in s.rpo}
        inbox[0] = [s._start()]; s.branches = []
        total = 0
        for b in s.rpo:
            sts = inbox.pop(b)
            if not sts: continue
            if b in s.cut and len(sts) > 1:
                if s.partition:
                    ps = {}
                    for st in sts: ps.setdefault(s.partition(st), []).append(st)
                    sts = [s._join(b, q) if len(q) > 1 else q[0] for q in ps.values()]
                    for st in sts: st.heads = ()
                else: sts = [s._join(b, sts)]; sts[0].heads = ()
            if b in s.loop: sts = [s._head(b, x) for x in sts]
            sts = s._merge(b, sts)
            total += len(sts)
            if total > s.max_states: raise TooBig('%s: more than %d abstract states' % (s.f.dem, s.max_states))
            for st in sts:
                for nb, ns in s._block(b, st):
                    if (b, nb) in s.back: s._backedge(b, nb, ns)
                    else:
                        s._phis(b, nb, ns)
                        inbox[nb].append(ns)
        s.total = total
    def exits(s, h):
        """(branch, condition, truth, state) of the edges that leave loop h; needs record = True"""
        body = s.loop[h]
        return [q for q in s.branches if q[0].block in body and (q[0].bb[0] if q[2] else q[0].bb[1]) not in body]
    def _merge(s, b, sts):
        lv = s.live[b]; us = s.usable[b]
        phis = {i.d for i in s.f.blocks[b] if i.op == 'phi'}
        for st in sts:
            st.env = {k: v for k, v in st.env.items() if k in lv or k in phis or k in s.allocas}
            if s.blind and not s.blind.isdisjoint(st.mem): st.mem = {k: v for k, v in st.mem.items() if k not in s.blind}
            dead = [k for k in st.mem if k[0] == 'alloca' and k[1] not in us and k[1] not in s.escaped]
            if dead:
                st.mem = {k: v for k, v in st.mem.items() if k not in dead}
        if len(sts) < 2: return sts
        groups = {}
        for st in sts: groups.setdefault((id(st.trace), st.heads and tuple(h for h, _, _ in st.heads), s.partition(st) if s.partition else None), []).append(st)
        out = []
        for g in groups.values():
            acc = []
            for st in g:
                for o in acc:
                    if o.env == st.env and s._memeq(o.mem, st.mem):
                        x = o.facts.joins_exactly(st.facts)
                        if s.exact and not x and (s.exact is True or b in s.exact): continue
                        o.facts = o.facts.join(st.facts); o.imp = o.imp | st.imp
                        if not x: o.imp = o.imp | {('hull', b)}
                        break
                else: acc.append(st)
            if len(acc) > s.width:
                if s.width_hook: s.width_hook(b, acc)
                acc = [s._join(b, acc)]
            out += acc
        return out
    def _join(s, b, sts):
        n = sts[0].copy(); f = sts[0].facts
        for o in sts[1:]: f = f.join(o.facts)
        n.facts = f; n.imp = frozenset().union(*[x.imp for x in sts]) | {('join', b)}
        for k in list(n.env):
            vs = {x.env.get(k) for x in sts}
            if len(vs) > 1:
                v = n.env[k]
                if None in vs: del n.env[k]; continue
                n.env[k] = ('p', ('join', b, k), 0) if isp(v) else S(width(v) if v[0] != 'lit' else 64, ('join', b, k))
        bases = set().union(*[x.mem.keys() for x in sts])
        for base in bases:
            ms = [x.mem.get(base, {}) for x in sts]
            if all(m is ms[0] for m in ms[1:]): continue
            if base[0] == 'alloca' and any(base not in x.mem for x in sts): n.mem.pop(base, None); continue
            m = {}
            for off in set().union(*ms):
                cs = {x.get(off) for x in ms}
                if len(cs) == 1: m[off] = next(iter(cs)); continue
                name = ('join', b, base, off)
                c = next(x for x in cs if x is not None)
                if isinstance(off, tuple): m[off] = (None, s._fresh(off, name))
                elif None in cs and all(x is None or s._isinit(base, off, x) for x in cs) and not any(('ver',) in x for x in ms): m[off] = c
                elif len({x and x[0] for x in cs}) > 1: m[('gone', off)] = (None, S(64, name))
                else: m[off] = (c[0], ('p', name, 0) if isp(c[1]) else S(width(c[1]), name))
            n.mem[base] = m
        s.joins += 1
        return n
    @staticmethod
    def _memeq(a, b):
        if a is b: return True
        if a.keys() != b.keys():
            return False
        for k, v in a.items():
            w = b[k]
            if v is not w and v != w: return False
        return True
    def _phis(s, frm, to, st):
        new = {}
        for i in s.f.blocks[to]:
            if i.op != 'phi': break
            for v, p in i.inc:
                if p == frm: new[i.d] = s.val(st, v, i.ty); break
        st.env.update(new)
    # ---- loops
    def _w(s, ty):
        if ty == 'ptr': return 64
        if ty and ty[0] == 'i' and ty[1:].isdigit(): return int(ty[1:])
        return 64
    def _iter(s, h, w): return S(w, ('iter', h))
    def _head(s, h, st):
        st = st.copy()
        ind = s.induct[h]
        env0 = {}; inits = []
        for i in s.f.blocks[h]:
            if i.op != 'phi': break
            init = st.env.get(i.d)
            inits.append((('phi', i.d), init))
            k = ('phi', i.d)
            c = ind.get(k)
            if c is not None and init is not None:
                st.env[i.d] = s._closed(init, c, h, i.ty)
            else:
                st.env[i.d] = ('p', ('phi', h, i.d), 0) if i.ty == 'ptr' else S(s._w(i.ty), ('phi', h, i.d))
            env0[i.d] = st.env[i.d]
        hv = s.havoc[h]
        for key in sorted(hv, key=repr):
            base, off = key
            m = st.mem.get(base)
            if off != '*' and m is not None and off in m: inits.append((('cell', base, off), m[off][1]))
            if base[0] == 'alloca' and m is None: continue
            m = dict(m or {})
            if off == '*':
                keepps = {}
                m = {('ver',): S(64, ('lver', h, base))}
            else:
                old = m.get(off)
                kk = ('cell', base, off)
                c = ind.get(kk)
                if old is not None and c is not None:
                    m[off] = (old[0], s._closed(old[1], c, h, 'ptr' if isp(old[1]) else 'i'))
                elif old is not None and isinstance(off, tuple):
                    m[off] = (None, s._fresh(off, ('lc', h, base, off)))
                elif old is not None:
                    t = old[1]
                    m[off] = (old[0], ('p', ('lc', h, base, off), 0) if isp(t) else S(width(t), ('lc', h, base, off)))
                else:
                    if isinstance(off, tuple): m[off] = (None, s._fresh(off, ('lc', h, base, off)))
                    else: m[('gone', off)] = (None, S(64, ('lc', h, base, off)))
            st.mem[base] = m
        f = Facts(st.facts)
        for w in (64, 32, 16, 8):
            f.rng[s._iter(h, w)] = ((0, (1 << (w - 1)) - 1),)
        st.facts = f
        if h in s.cut: st.trace = None; st.imp = frozenset()
        if h not in s.quiet: s.tr(st, Ev('loop', s.f.blocks[h][0], 'loop', (I(32, h),), None, tuple(inits) if s.loopinits and h not in s.cut else None))
        st.heads = st.heads + ((h, env0, st.mem),)
        st.mem = dict(st.mem)
        return st
    @staticmethod
    def _fresh(off, name):
        if off[0] == 'io': return tuple(S(1, name + (b,)) for b in ('eof', 'fail', 'bad'))
        return S(64, name)
    def _closed(s, init, c, h, ty):
        if isp(init): return padd(init, mulc(s._iter(h, 64), c)) if c else init
        return add(init, mulc(s._iter(h, width(init)), c)) if c else init
    def _diff(s, nxt, cur):
        if nxt is None or cur is None: return None
        if nxt == cur: return 0
        if isp(nxt) != isp(cur): return None
        if isp(nxt):
            if nxt[1] != cur[1]: return None
            d = sub(tooff(nxt[2]), tooff(cur[2]))
        else:
            if width(nxt) != width(cur): return None
            d = sub(nxt, cur)
        return sval(d) if isc(d) else None
    def _backedge(s, b, h, st):
        hd = None
        for x in reversed(st.heads):
            if x[0] == h: hd = x; break
        if hd is None: raise AnalysisBroken('irreducible control flow in ' + s.f.dem)
        _, env0, mem0 = hd
        cand = s.cand.setdefault(h, {})
        nxt = {}
        for i in s.f.blocks[h]:
            if i.op != 'phi': break
            for v, p in i.inc:
                if p == b:
                    t = s.val(st, v, i.ty)
                    nxt[i.d] = (env0[i.d], t)
                    if i.ty == 'ptr' or i.ty[0] == 'i': cand.setdefault(('phi', i.d), set()).add(s._diff(t, env0[i.d]))
        us = s.usable[h]
        for base in set(mem0) | set(st.mem):
            if base[0] == 'alloca' and base[1] not in us and base[1] not in s.escaped: continue
            if base[0] == 'alloca' and base not in mem0: continue
            a, c = mem0.get(base, {}), st.mem.get(base, {})
            if a is c: continue
            for off in set(a) | set(c):
                x, y = a.get(off), c.get(off)
                if x == y: continue
                if off == ('ver',):
                    if (base, '*') not in s.havoc[h]:
                        s.havoc[h].add((base, '*')); s.grew = True
                    continue
                if x is None and y is not None and s._isinit(base, off, y): continue
                if isinstance(off, tuple) and off[0] == 'gone': continue
                if (base, '*') in s.havoc[h]: continue
                if (base, off) not in s.havoc[h]:
                    s.havoc[h].add((base, off)); s.grew = True
                if x is not None and y is not None and x[0] is not None:
                    cand.setdefault(('cell', base, off), set()).add(s._diff(y[1], x[1]) if x[0] == y[0] else None)
                elif x is not None: cand.setdefault(('cell', base, off), set()).add(None)
            for off in set(a) & set(c):
                if a[off] == c[off] and (base, off) in s.havoc[h]:
                    cand.setdefault(('cell', base, off), set()).add(0)
        s._end(st, 'back', None, None, head=h, nxt=nxt)
    def _isinit(s, base, off, y):
        return y[1][0] in ('s', 'p') and y[1] == s._initcell(base, off, y[0], None, isp(y[1])) if y[0] is not None and not isinstance(off, tuple) else False
    def _end(s, st, end, val, inst, head=None, nxt=None):
        p = Path(); p.end = end; p.val = val; p.trace = st.trace; p.facts = st.facts; p.mem = st.mem; p.imp = st.imp
        p.head = head; p.nxt = nxt; p.inst = inst; p.env = st.env
        s.paths.append(p)
        if len(s.paths) > s.max_states: raise TooBig('%s: too many paths' % s.f.dem)
    # ---- values
    def val(s, st, o, ty=None):
        k = o[0]
        if k == 'v':
            v = st.env.get(o[1])
            if v is None: return S(s._w(ty), ('undef', o[1])) if ty != 'ptr' else ('p', ('undef', o[1]), 0)
            return v
        if k == 'c':
            return I(int(o[1]), int(o[2]))
        if k == 'g':
            return ('p', ('glob', o[1]), int(o[2]) if len(o) > 2 else 0)
        if k == 'n': return NULL
        if k == 'u': return S(s._w(ty), ('undef',)) if ty != 'ptr' else ('p', ('undef',), 0)
        return S(64, o)
    # ---- memory
    def _initcell(s, base, off, size, ver, ptr):
        k = ('init', base, off, size) + ((ver,) if ver else ())
        if ptr: return ('p', k, 0)
        return S(size * 8, k)
    def load(s, st, p, size, ptr):
        if not isp(p): p = ('p', ('int', p), 0)
        base, off = p[1], p[2]
        if base is None: return S(size * 8, ('nullload',)) if not ptr else ('p', ('nullload',), 0)
        if base[0] == 'glob' and isinstance(off, int):
            c = s._gconst(base[1], off, size, ptr)
            if c is not None: return c
        m = st.mem.get(base, {})
        c = m.get(off)
        if c is not None and c[0] == size:
            t = c[1]
            if ptr and not isp(t): return ('p', ('int', t), 0)
            if not ptr and isp(t): return X(64, 'ptrtoint', t)
            return t
        ver = m.get(('ver',))
        if isinstance(off, int):
            # overlapping cells
            over = [(o, x) for o, x in m.items() if isinstance(o, int) and x[0] is not None and o < off + size and off < o + x[0]]
            if over:
                for o, (sz, t) in over:
                    if o <= off and off + size <= o + sz and not isp(t):
                        r = t if o == off else binop('lshr', t, I(sz * 8, (off - o) * 8), sz * 8)
                        r = trunc(r, size * 8) if size < sz else r
                        return ('p', ('int', r), 0) if ptr else r
                # compose
                pieces = []; pos = off
                for o, (sz, t) in sorted(over, key=lambda x: x[0]):
                    if o < pos or o + sz > off + size or isp(t): pieces = None; break
                    if o > pos: pieces.append((pos, s.load(st, ('p', base, pos), o - pos, False), o - pos))
                    pieces.append((o, t, sz)); pos = o + sz
                if pieces is not None:
                    if pos < off + size: pieces.append((pos, s.load(st, ('p', base, pos), off + size - pos, False), off + size - pos))
                    r = I(size * 8, 0)
                    for o, t, sz in pieces: r = add(r, mulc(zext(t, size * 8), 1 << ((o - off) * 8)))
                    return r
                return S(size * 8, ('mix', base, off, size)) if not ptr else ('p', ('mix', base, off), 0)
            g = m.get(('gone', off))
            if g is not None: ver = g[1]
        t = s._initcell(base, off, size, ver, ptr)
        m = dict(m); m[off] = (size, t); st.mem[base] = m
        return t
    def _gconst(s, name, off, size, ptr):
        g = s.prog.globals.get(name)
        if not g or not g.get('const'): return None
        if ptr: return None
        if 'hex' in g:
            d = bytes.fromhex(g['hex'])
            if off + size <= len(d): return I(size * 8, int.from_bytes(d[off:off + size], 'little'))
        return None
    def store(s, st, p, size, t):
        if not isp(p): p = ('p', ('int', p), 0)
        base, off = p[1], p[2]
        if base is None: return
        m = dict(st.mem.get(base, {}))
        if isinstance(off, int):
            for o in [o for o, x in m.items() if isinstance(o, int) and x[0] is not None and o < off + size and off < o + x[0] and o != off]:
                sz, ot = m.pop(o)
                if not isp(ot):
                    if o < off:
                        n = off - o
                        if n in (1, 2, 4, 8): m[o] = (n, trunc(ot, n * 8))
                    if o + sz > off + size:
                        n = o + sz - off - size
                        if n in (1, 2, 4, 8): m[off + size] = (n, trunc(binop('lshr', ot, I(sz * 8, (off + size - o) * 8), sz * 8), n * 8))
            if off in m and m[off][0] is not None and m[off][0] > size and not isp(m[off][1]):
                sz, ot = m[off]; n = sz - size
                if n in (1, 2, 4, 8): m[off + size] = (n, trunc(binop('lshr', ot, I(sz * 8, size * 8), sz * 8), n * 8))
                elif n == 7: 
                    for k, q in ((1, 1), (2, 2), (4, 4)): m[off + k] = (q, trunc(binop('lshr', ot, I(64, k * 8), 64), q * 8))
            m[off] = (size, t)
        else:
            ver = s.fn(64, 'symstore', off, size, t, m.get(('ver',)))
            ps = {k: v for k, v in m.items() if isinstance(k, tuple) and k[0] == 'st'}
            m = {('ver',): ver}; m.update(ps)
            m[off] = (size, t)
        st.mem[base] = m
    def forget(s, st, p, size, why):
        """the cells of [p, p+size) (size None: all following) get unknown contents"""
        if not isp(p) or p[1] is None: return
        base, off = p[1], p[2]
        m = st.mem.get(base, {})
        if not isinstance(off, int): off = 0; size = None
        n = {}
        for o, x in m.items():
            if isinstance(o, int) and x[0] is not None and o + x[0] > off and (size is None or o < off + size): continue
            if isinstance(o, tuple) and o[0] == 'st' and o[1] > off and (size is None or o[1] < off + size): continue
            n[o] = x
        n[('ver',)] = s.fn(64, 'ver', why, m.get(('ver',)))
        # cells outside the forgotten part keep their initial names
        st.mem[base] = n
    # ---- object states (opaque library objects)
    def ident(s, p):
        """(base, constant offset) of an object pointer; virtual-base adjustments are dropped"""
        if not isp(p) or p[1] is None: return None
        o = p[2]
        if not isinstance(o, int): o = sval(I(64, o[2])) if o[0] == '+' else 0
        return (p[1], o)
    def obj(s, st, p):
        """content symbol of the object at p"""
        k = s.ident(p)
        if k is None: return NULL
        m = st.mem.get(k[0], {})
        c = m.get(('st', k[1]))
        if c is not None: return c[1]
        if k[0][0] == 'glob':
            g = s.prog.globals.get(k[0][1])
            if g and g.get('const') and 'hex' in g:
                d = bytes.fromhex(g['hex'])[k[1]:]
                return ('lit', d.split(b'\0')[0].decode('latin1'))
        v = m.get(('ver',))
        return ('st0', k[0], k[1]) + ((v,) if v is not None else ())
    def obj_lit(s, p):
        if not isp(p) or p[1] is None or p[1][0] != 'glob' or not isinstance(p[2], int): return None
        g = s.prog.globals.get(p[1][1])
        if g and g.get('const') and 'hex' in g: return bytes.fromhex(g['hex'])[p[2]:].split(b'\0')[0].decode('latin1')
        return None
    def setobj(s, st, p, t):
        k = s.ident(p)
        if k is None: return
        m = dict(st.mem.get(k[0], {})); m[('st', k[1])] = (None, t); st.mem[k[0]] = m
    # ---- instructions
    def _block(s, b, st):
        st = st.copy()
        work = [(st, 0)]
        out = []
        insts = s.f.blocks[b]
        while work:
            st, k = work.pop()
            while k < len(insts):
                i = insts[k]; k += 1
                r = s._inst(i, st)
                if r is None: continue
                if r == 'end': break
                if isinstance(r, list) and r and isinstance(r[0], State):   # split
                    for x in r[1:]: work.append((x, k))
                    st = r[0]; continue
                if isinstance(r, tuple) and r[0] == 'go':
                    lst = r[1]
                    for j, (nb, ns) in enumerate(lst):
                        out.append((nb, ns))
                    break
        # copies: states leaving over several edges must not share
        res = []; seen = set()
        for nb, ns in out:
            if id(ns) in seen: ns = ns.copy()
            seen.add(id(ns)); res.append((nb, ns))
        return res
    def branch(s, st, t):
        """[(truth, state)]"""
        d = st.facts.decide(t)
        if d is not None: return [(d, st)]
        out = []
        for v in (True, False):
            f = st.facts.assume(t, v)
            if f is not None:
                n = st.copy(); n.facts = f; out.append((v, n))
        return out
    def simp(s, st, t):
        return t
    def _inst(s, i, st):
        op = i.op; env = st.env
        if op == 'phi': return None
        if op == 'load':
            p = s.val(st, i.a[0], 'ptr')
            size = i.size
            if i.atomic:
                t = s.fn(size * 8, 'aload', id(i), p) if i.ty != 'ptr' else ('p', ('fn', s.intern('aload', id(i), p)), 0)
                env[i.d] = t; s.tr(st, Ev('aload', i, 'aload', (p,), t)); return None
            ty = i.ty
            if ty == 'ptr' or (ty[0] == 'i' and ty[1:].isdigit()):
                t = s.load(st, p, size, ty == 'ptr')
                if ty != 'ptr' and width(t) != s._w(ty): t = trunc(t, s._w(ty)) if width(t) > s._w(ty) else zext(t, s._w(ty))
            else:
                t = s.load(st, p, size, False)
            env[i.d] = t
            s.tr(st, Ev('load', i, 'load', (p,), t)); return None
        if op == 'store':
            p = s.val(st, i.a[1], 'ptr'); t = s.val(st, i.a[0], None)
            size = i.size
            if not isp(t) and t[0] != 's' or (t[0] == 's'):
                if not isp(t) and width(t) < size * 8: t = zext(t, size * 8)
                elif not isp(t) and width(t) > size * 8: t = trunc(t, size * 8)
            if i.atomic: s.tr(st, Ev('astore', i, 'astore', (p, t)))
            else: s.tr(st, Ev('store', i, 'store', (p, t)))
            if not i.atomic: s.store(st, p, size, t)
            return None
        if op == 'alloca':
            env[i.d] = ('p', ('alloca', i.d), 0); return None
        if op == 'getelementptr':
            p = s.val(st, i.a[0], 'ptr')
            if not isp(p): p = ('p', ('int', p), 0)
            p = padd(p, int(i.off or 0))
            for v, k in i.ix or []:
                t = s.val(st, v)
                if not isp(t) and width(t) < 64: t = sext(t, 64)
                p = padd(p, sval(t) * k if isc(t) else mulc(t, k))
            env[i.d] = p; return None
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a, b = s.val(st, i.a[0], i.ty), s.val(st, i.a[1], i.ty); w = s._w(i.ty)
            if op in ('udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr'):
                s.tr(st, Ev('arith', i, op, (a, b), None, st.facts.range(b) if not isp(b) else None))
            if not isc(b) and not isp(b) and op in ('shl', 'lshr', 'ashr', 'and', 'udiv', 'urem'):
                c = st.facts.const(b)
                if c is not None: b = I(width(b), c)
            env[i.d] = binop(op, a, b, w); return None
        if op == 'icmp':
            a, b = s.val(st, i.a[0], None), s.val(st, i.a[1], None)
            if isp(a) != isp(b):
                a = a if isp(a) else ('p', ('int', a), 0); b = b if isp(b) else ('p', ('int', b), 0)
            env[i.d] = icmp(i.pred, a, b); return None
        if op == 'zext': env[i.d] = zext(s.bv(s.val(st, i.a[0])), s._w(i.ty)); return None
        if op == 'sext': env[i.d] = sext(s.bv(s.val(st, i.a[0])), s._w(i.ty)); return None
        if op == 'trunc': env[i.d] = trunc(s.val(st, i.a[0]), s._w(i.ty)) if s._w(i.ty) > 1 else s.tobool(s.val(st, i.a[0])); return None
        if op == 'bitcast' or op == 'freeze': env[i.d] = s.val(st, i.a[0], i.ty); return None
        if op == 'ptrtoint': env[i.d] = s.val(st, i.a[0]); return None
        if op == 'inttoptr':
            t = s.val(st, i.a[0]); env[i.d] = t if isp(t) else ('p', ('int', t), 0); return None
        if op == 'select':
            c = s.val(st, i.a[0], 'i1'); x, y = s.val(st, i.a[1], i.ty), s.val(st, i.a[2], i.ty)
            if x == y: env[i.d] = x; return None
            if i.ty == 'i1':
                if x == FALSE or y == FALSE or x == TRUE or y == TRUE:
                    env[i.d] = (binop('and', c, x, 1) if y == FALSE else binop('and', nott(c), y, 1) if x == FALSE else binop('or', c, y, 1) if x == TRUE else binop('or', nott(c), x, 1))
                    return None
            out = []
            for v, ns in s.branch(st, c):
                if ns is st: ns = st
                ns.env[i.d] = x if v else y; out.append(ns)
            return out
        if op == 'br':
            if not i.a: return ('go', [(i.bb[0], st)])
            c = s.val(st, i.a[0], 'i1')
            br = s.branch(st, c)
            if s.record: s.branches += [(i, c, v, ns.copy()) for v, ns in br]
            return ('go', [(i.bb[0] if v else i.bb[1], ns) for v, ns in br])
        if op == 'switch':
            t = s.val(st, i.a[0]); w = width(t); out = []; cur = st
            for c, bb in i.cases:
                if cur is None: break
                cond = icmp('eq', t, I(w, c)); d = cur.facts.decide(cond)
                if d is True: out.append((bb, cur)); cur = None; break
                if d is False: continue
                f1 = cur.facts.assume(cond, True)
                if f1 is not None: n = cur.copy(); n.facts = f1; out.append((bb, n))
                f2 = cur.facts.assume(cond, False)
                if f2 is None: cur = None
                else: cur = cur.copy(); cur.facts = f2
            if cur is not None: out.append((i.default, cur))
            return ('go', out)
        if op == 'ret':
            s._end(st, 'ret', s.val(st, i.a[0]) if i.a else None, i); return 'end'
        if op in ('unreachable', 'resume'):
            s._end(st, 'unreach' if op == 'unreachable' else 'resume', None, i); return 'end'
        if op in ('call', 'invoke'):
            r = s._call(i, st)
            if r == 'end': return 'end'
            sts = r if isinstance(r, list) else [st]
            if op == 'invoke':
                out = []
                for x in sts:
                    if s.unwinds(i):
                        y = x.copy(); s.tr(y, Ev('unwind', i, i.model or 'ind', ())); out.append((i.bb[1], y))
                    out.append((i.bb[0], x))
                return ('go', out)
            return sts if isinstance(r, list) else None
        if op == 'extractvalue':
            a = s.val(st, i.a[0])
            if a[0] == 'agg' and len(i.ix) == 1 and i.ix[0] < len(a[1]): env[i.d] = a[1][i.ix[0]]
            else:
                k = s.intern('xv', a, tuple(i.ix))
                env[i.d] = ('p', ('fn', k), 0) if i.ty == 'ptr' else S(s._w(i.ty), ('fn', k))
            return None
        if op == 'atomicrmw':
            p = s.val(st, i.a[0], 'ptr'); t = s.fn(i.size * 8 if i.size else 64, 'rmw', id(i), p)
            env[i.d] = t; s.tr(st, Ev('rmw', i, str(i.pred), (p,) + tuple(s.val(st, x) for x in i.a[1:]), t)); return None
        if op == 'cmpxchg':
            p = s.val(st, i.a[0], 'ptr'); s.tr(st, Ev('rmw', i, 'cmpxchg', (p,) + tuple(s.val(st, x) for x in i.a[1:])))
            env[i.d] = S(64, ('cx', id(i))); return None
        if i.d is not None:
            k = s.intern(op, i.pred, tuple(s.val(st, x) for x in i.a), i.ty, tuple(i.ix) if i.ix else None)
            env[i.d] = ('p', ('fn', k), 0) if i.ty == 'ptr' else S(s._w(i.ty), ('fn', k))
        return None
    @staticmethod
    def bv(t):
        return t
    @staticmethod
    def tobool(t):
        if isc(t): return I(1, t[2] & 1)
        if t[0] == 'x' and t[2] in ('zext', 'sext') and width(t[3]) == 1: return t[3]
        return trunc(t, 1)
    # ---- calls
    def _call(s, i, st):
        if i.fn is None:
            args = tuple(s.val(st, a) for a in i.a); fp = s.val(st, i.ind, 'ptr')
            k = s.intern('ind', id(i), fp, args)
            r = None
            if i.d is not None: r = st.env[i.d] = ('p', ('fn', k), 0) if i.ty == 'ptr' else S(s._w(i.ty), ('fn', k))
            s.tr(st, Ev('ind', i, 'ind', args, r, fp))
            return None
        m = i.model
        if NOEFFECT.search(m) or i.fn.startswith('llvm.dbg'): 
            if i.d is None: return None
        args = tuple(s.val(st, a) for a in i.a)
        if m.startswith('llvm.umul.with.overflow') and isc(args[1]) and args[1][2] and not isp(args[0]):
            w = width(args[0]); st.env[i.d] = ('agg', (mulc(args[0], args[1][2]), icmp('ugt', args[0], I(w, ((1 << w) - 1) // args[1][2])))); return None
        h = s.models.get(m) or MODELS.get(m)
        if h is None:
            for rx, fnc in MODEL_RX:
                if rx.search(m): h = fnc; break
        if h is not None:
            r = h(s, i, st, args, m)
            if r != 'default': return r
        return s.generic(i, st, args, m)
    def generic(s, i, st, args, m, ret=None, pure=False, mut=None, extra=()):
        ptypes = s.prog.ptypes(i.fn); d = s.prog.dem(i.fn)
        sret = 0 if any(k == 0 and kd == 'sret' for k, (kd, _) in i.pa.items()) else None
        first = 1 if sret is not None else 0
        method = len(args) - first == len(ptypes) + 1 and '::' in m
        contents = []
        mutated = []
        const_this = ' const' == d[-6:] or d.endswith(' const') or (ACCESSOR.search(m) and not ACCESSOR_NOT.search(m))
        for k in range(first, len(args)):
            a = args[k]
            if not isp(a) or a[1] is None: contents.append(a); continue
            if method and k == first: pt = 'const&' if const_this else '&'
            else:
                q = k - first - (1 if method else 0)
                pt = ptypes[q] if q < len(ptypes) else ''
            const = 'const&' in pt or 'const*' in pt or pt.startswith('decltype')
            byval = i.pa.get(k, (None,))[0] == 'byval' or (pt and pt[-1] not in '&*')
            if mut is not None: const = k not in mut
            if const_this and method and k == first: const = True
            contents.append(('c', s.obj(st, a), s.scal(st, a)) if not (method and k == first and not const) else ('c', s.obj(st, a)))
            if not const and not byval and not pure: mutated.append((k, a, pt))
        key = (m, tuple(contents)) if not mutated and sret is None and (contents or pure) else (m, tuple(contents))
        purekey = not mutated
        kid = s.intern(*(key if purekey and contents else key + (id(i),)))
        for k, a, pt in mutated:
            if pt.endswith('&&'): nst = s.fn(64, 'moved', kid, k)
            else: nst = s.fn(64, 'st', kid, k)
            if method and k == first and DEAD.search(m): nst = s.fn(64, 'dead', id(i))
            s.touch(st, a, pt, nst, kid, method and k == first)
        if sret is not None:
            s.forget(st, args[0], i.pa[0][1] or None, ('sret', kid))
            s.setobj(st, args[0], s.fn(64, 'val', kid))
        r = ret
        if r is None and i.d is not None:
            if i.ty == 'ptr' and RET_ARG0.search(m) and len(args) > first and isp(args[first]): r = args[first]
            elif i.ty == 'ptr': r = ('p', ('fn', kid), 0)
            else: r = S(s._w(i.ty), ('fn', kid))
        if i.d is not None: st.env[i.d] = r
        s.tr(st, Ev('call', i, m, args, r, tuple(contents) + extra))
        return None
    def scal(s, st, p):
        """scalar content of a small object passed by reference (for keys of pure calls)"""
        k = s.ident(p)
        if k is None: return None
        m = st.mem.get(k[0])
        if not m: return None
        if not isinstance(p[2], int): return None
        c = m.get(p[2])
        return c[1] if c is not None and c[0] is not None else None
    def touch(s, st, p, pt, nst, kid, is_this):
        k = s.ident(p)
        if k is None: return
        scalar = re.match(r'^(unsigned |signed )?(char|short|int|long|long long|bool|float|double|wchar_t)( long)?( int)?\s*[*&]+$', pt or '')
        if not is_this and not pt: s.forget(st, p, None, ('out', kid)); s.setobj(st, p, nst); return   # C function: anything behind the pointer
        if not is_this and scalar:
            sz = None if (pt.rstrip().endswith('*')) else None
            s.forget(st, p, sz, ('out', kid)); return
        s.setobj(st, p, nst)
        if not is_this or k[0][0] != 'arg':
            m = dict(st.mem.get(k[0], {}))
            if isinstance(p[2], int):
                c = m.get(p[2])
                if c is not None and c[0] is not None:
                    if isp(c[1]): m[p[2]] = (c[0], ('p', ('fn', s.intern('out', kid, p[2])), 0))
                    else: m[p[2]] = (c[0], s.fn(width(c[1]), 'out', kid, p[2]))
                    st.mem[k[0]] = m

# ------------------------------------------------------------------ library models
def _const(a): return isc(a)
def m_memcpy(s, i, st, args, m):
    d, src, n = args[0], args[1], args[2]
    if isc(n) and isp(d) and isp(src) and isinstance(d[2], int) and isinstance(src[2], int) and src[1] is not None and d[1] is not None and n[2] <= 4096:
        n = n[2]
        if src[1][0] == 'glob':
            g = s.prog.globals.get(src[1][1])
            if g and g.get('const') and 'hex' in g and src[2] + n <= len(g['hex']) // 2:
                b = bytes.fromhex(g['hex'])[src[2]:src[2] + n]; o = 0
                while o < n:
                    k = 8 if n - o >= 8 else 4 if n - o >= 4 else 1
                    s.store(st, ('p', d[1], d[2] + o), k, I(8 * k, int.from_bytes(b[o:o + k], 'little'))); o += k
                s.setobj(st, d, s.obj(st, src)); return None
        sm = st.mem.get(src[1], {})
        have = sorted((o, x) for o, x in sm.items() if isinstance(o, int) and x[0] is not None and src[2] <= o and o + x[0] <= src[2] + n)
        pos = src[2]; cells = []
        def fill(a, b):
            while a < b:
                k = 8 if a % 8 == 0 and b - a >= 8 else 4 if a % 4 == 0 and b - a >= 4 else 2 if a % 2 == 0 and b - a >= 2 else 1
                cells.append((a, k, None)); a += k
        for o, x in have:
            if o < pos: continue
            fill(pos, o); cells.append((o, x[0], x[1])); pos = o + x[0]
        fill(pos, src[2] + n)
        vals = []
        for o, k, t in cells:
            if t is None: t = s.load(st, ('p', src[1], o), k, False)
            vals.append((o - src[2] + d[2], k, t))
        so = {k[1] - src[2] + d[2]: v for k, v in sm.items() if isinstance(k, tuple) and k[0] == 'st' and src[2] <= k[1] < src[2] + n}
        for o, k, t in vals: s.store(st, ('p', d[1], o), k, t)
        if so:
            dm = dict(st.mem.get(d[1], {}))
            for o, v in so.items(): dm[('st', o)] = v
            st.mem[d[1]] = dm
    else:
        s.forget(st, d, None, ('memcpy', id(i)))
    if i.d is not None: st.env[i.d] = d
    s.tr(st, Ev('call', i, m, args, None))
    return None
def m_memset(s, i, st, args, m):
    d, c, n = args[0], args[1], args[2]
    if isc(n) and isc(c) and isp(d) and isinstance(d[2], int) and n[2] <= 256:
        n = n[2]; o = 0
        while o < n:
            k = 8 if (d[2] + o) % 8 == 0 and n - o >= 8 else 4 if (d[2] + o) % 4 == 0 and n - o >= 4 else 1
            s.store(st, ('p', d[1], d[2] + o), k, I(8 * k, int.from_bytes(bytes([c[2] & 255]) * k, 'little'))); o += k
    else: s.forget(st, d, None, ('memset', id(i)))
    if i.d is not None: st.env[i.d] = d
    s.tr(st, Ev('call', i, m, args, None))
    return None
def m_new(s, i, st, args, m):
    st.env[i.d] = ('p', ('heap', i.block, i.idx), 0)
    s.tr(st, Ev('call', i, m, args, st.env[i.d])); return None
def m_noreturn(s, i, st, args, m):
    s.tr(st, Ev('call', i, m, args, None))
    s._end(st, 'throw' if m.startswith(('__cxa_throw', 'std::__throw', '__cxa_rethrow')) else 'exit', args[0] if args else None, i)
    return 'end'
def m_minmax(s, i, st, args, m): return 'default'
def m_limits(s, i, st, args, m):
    d = s.prog.dem(i.fn); t = re.search(r'numeric_limits<([^>]*)>::(max|min|lowest)', d)
    w = s._w(i.ty) if i.ty != 'double' and i.ty != 'float' else None
    if t and w:
        uns = 'unsigned' in t.group(1) or t.group(1) == 'bool'
        mx = t.group(2) == 'max'
        v = ((1 << w) - 1 if uns else (1 << (w - 1)) - 1) if mx else (0 if uns else 1 << (w - 1))
        st.env[i.d] = I(w, v); return None
    return 'default'
def m_bswap(s, i, st, args, m):
    a = args[0]; w = width(a)
    if isc(a): st.env[i.d] = I(w, int.from_bytes(a[2].to_bytes(w // 8, 'little'), 'big'))
    elif a[0] == 'x' and a[2] == 'bswap': st.env[i.d] = a[3]
    else: st.env[i.d] = X(w, 'bswap', a)
    return None
def m_expect(s, i, st, args, m): st.env[i.d] = args[0]; return None
def m_mm(op):
    def f(s, i, st, args, m):
        a, b = args; pred = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[op]
        out = []
        for v, ns in s.branch(st, icmp(pred, a, b)): ns.env[i.d] = a if v else b; out.append(ns)
        return out
    return f
def m_or(s, i, st, args, m):
    w = s._w(i.ty); op = {'|': 'or', '&': 'and', '^': 'xor'}[m[-1]]
    st.env[i.d] = binop(op, args[0], args[1], w); return None

# std::string: contents as terms
def str_of(s, st, p): return s.obj(st, p)
def m_str_ctor(s, i, st, args, m):
    pt = s.prog.ptypes(i.fn)
    if len(pt) >= 1 and len(args) >= 2 and isp(args[1]) and ('basic_string' in pt[0] or 'char const*' in pt[0] or '_CharT' in pt[0] or 'const*' in pt[0]) and (len(pt) == 1 or 'allocator' in pt[1] or '_Alloc' in pt[1]):
        s.setobj(st, args[0], s.cstr(st, args[1]))
        if pt[0].endswith('&&'): s.setobj(st, args[1], s.fn(64, 'moved', id(i), 1))
        s.tr(st, Ev('call', i, m, args, None)); return None
    if len(args) == 1:
        s.setobj(st, args[0], ('lit', '')); s.tr(st, Ev('call', i, m, args, None)); return None
    return 'default'
def m_str_assign(s, i, st, args, m):
    pt = s.prog.ptypes(i.fn)
    if len(args) == 2 and isp(args[1]) and pt and (pt[0].endswith('&') or pt[0].endswith('*')):
        c = s.cstr(st, args[1]); s.setobj(st, args[0], c)
        if pt[0].endswith('&&'): s.setobj(st, args[1], s.fn(64, 'moved', id(i), 1))
        if i.d is not None: st.env[i.d] = args[0]
        s.tr(st, Ev('call', i, m, args, args[0])); return None
    return 'default'
def m_cstr(s, i, st, args, m):
    st.env[i.d] = ('p', ('cstr', s.obj(st, args[0])), 0); return None
def m_begin(s, i, st, args, m):
    c = s.obj(st, args[0])
    st.env[i.d] = ('p', ('elems', c), 0)
    s.tr(st, Ev('call', i, m, args, st.env[i.d])); return None
def m_ignore(s, i, st, args, m):
    if i.d is not None: return 'default'
    return None
def m_dtor_str(s, i, st, args, m):
    k = s.ident(args[0])
    if k is not None:
        mm = dict(st.mem.get(k[0], {})); mm.pop(('st', k[1]), None)
        st.mem[k[0]] = mm
        if not mm: del st.mem[k[0]]
    s.tr(st, Ev('call', i, m, args, None))
    return None
def m_elem(s, i, st, args, m):
    """s[k], s.at(k): the address of an element"""
    if len(args) == 2 and isp(args[0]) and not isp(args[1]):
        st.env[i.d] = padd(('p', ('cstr', s.obj(st, args[0])), 0), sval(args[1]) if isc(args[1]) else args[1]); return None
    return 'default'
def m_iter_copy(s, i, st, args, m):
    """an iterator made from a pointer or from another iterator"""
    if len(args) == 2 and isp(args[0]) and isp(args[1]) and i.pa.get(1, (None,))[0] != 'byval' and (s.prog.ptypes(i.fn) or [''])[0].endswith('&'):
        s.store(st, args[0], 8, s.load(st, args[1], 8, True)); return None
    return 'default'
def m_remove(s, i, st, args, m):
    """std::remove(s.begin(), s.end(), c)"""
    if len(args) == 3 and i.d is not None and isp(args[0]) and args[0][1] is not None and args[0][1][0] == 'cstr' and args[0][2] == 0 and isp(args[2]):
        c = s.load(st, args[2], 1, False)
        e = s.defn(args[1])
        if e and e[0].endswith('basic_string::end') and e[1][0][1] == args[0][1][1]:
            st.env[i.d] = ('p', ('removed', args[0][1][1], c), 0)
            s.tr(st, Ev('call', i, m, args, st.env[i.d])); return None
    return 'default'
def m_erase(s, i, st, args, m):
    if len(args) == 3 and isp(args[1]) and args[1][1] is not None and args[1][1][0] == 'removed' and isp(args[2]):
        C = s.obj(st, args[0]); e = s.defn(args[2])
        if args[1][1][1] == C and e and e[0].endswith('basic_string::end') and e[1][0][1] == C:
            s.setobj(st, args[0], s.fn(64, 'nochr', C, args[1][1][2]))
            if i.d is not None: st.env[i.d] = ('p', ('fn', s.intern('erased', C)), 0)
            s.tr(st, Ev('call', i, m, args, None)); return None
    if len(args) == 3 and args[1] == I(64, 0) and not isp(args[2]):
        # erase(0, n) leaves what substr(n) gives
        C = s.obj(st, args[0])
        s.setobj(st, args[0], s.fn(64, 'val', s.intern(STR + 'substr', (('c', C, None), args[2], I(64, -1)))))
        if i.d is not None: st.env[i.d] = args[0]
        s.tr(st, Ev('call', i, m, args, None)); return None
    return 'default'
def m_litsize(s, i, st, args, m):
    C = s.obj(st, args[0])
    if C == ('lit', ''):
        st.env[i.d] = I(1, 1) if m.endswith('empty') else I(64, 0)
        s.tr(st, Ev('call', i, m, args, st.env[i.d])); return None
    return 'default'
STR = 'std::__cxx11::basic_string::'
def cstr(s, st, p):
    if isp(p) and p[1] is not None and p[1][0] == 'cstr' and p[2] == 0: return p[1][1]
    return s.obj(st, p)
Engine.cstr = cstr

# streams: error state as three flags in pseudo cells
def sflags(s, st, p):
    k = s.ident(p); m = st.mem.get(k[0], {}); c = m.get(('io', k[1]))
    if c is not None: return c[1]
    v = m.get(('ver',))
    return tuple(S(1, ('io0', b, k[0], k[1]) + ((v,) if v is not None else ())) for b in ('eof', 'fail', 'bad'))
def setflags(s, st, p, t):
    k = s.ident(p); m = dict(st.mem.get(k[0], {})); m[('io', k[1])] = (None, t); st.mem[k[0]] = m
def m_ioread(s, i, st, args, m):
    """istream::read(p, n)"""
    f, p, n = args[0], args[1], args[2]
    rid = s.intern('read', id(i), s.obj(st, f))
    old = sflags(s, st, f)
    size = n[2] if isc(n) else None
    gc = S(64, ('gcount', rid))
    if isc(n):
        fx = Facts(st.facts); fx.rng[gc] = ((0, n[2]),); st.facts = fx
    if size is not None and isp(p) and isinstance(p[2], int) and size <= 64:
        s.forget_range(st, p, size, rid)
    else: s.forget(st, p, None, ('read', rid))
    # complete <=> gcount == n; failing reads set fail
    full = icmp('eq', gc, n)
    fail = S(1, ('iofail', rid)); eof = S(1, ('ioeof', rid))
    setflags(s, st, f, (eof, fail, S(1, ('iobad', rid))))
    s.setobj(st, f, s.fn(64, 'rd', rid))
    k = s.ident(f); mm = dict(st.mem.get(k[0], {})); mm[('gc', k[1])] = (None, gc); st.mem[k[0]] = mm
    if i.d is not None: st.env[i.d] = f
    s.tr(st, Ev('call', i, m, args, None, ('before', old)))
    # split: whole record read / not
    out = []
    for v, ns in s.branch(st, full):
        g = Facts(ns.facts)
        if v: g.known[fail] = False
        else: g.known[fail] = True
        ns.facts = g; out.append(ns)
    return out
def forget_range(s, st, p, size, rid):
    base, off = p[1], p[2]
    o = 0
    cells = st.mem.get(base, {})
    lay = []
    while o < size:
        k = 8 if (off + o) % 8 == 0 and size - o >= 8 else 4 if (off + o) % 4 == 0 and size - o >= 4 else 2 if size - o >= 2 else 1
        lay.append((o, k)); o += k
    for o, k in lay: s.store(st, ('p', base, off + o), k, S(8 * k, ('rd', rid, o, k)))
Engine.forget_range = forget_range
def m_gcount(s, i, st, args, m):
    k = s.ident(args[0]); c = st.mem.get(k[0], {}).get(('gc', k[1]))
    st.env[i.d] = c[1] if c is not None else S(64, ('gc0',) + k)
    return None
def m_flag(which):
    def f(s, i, st, args, m):
        e, fl, b = sflags(s, st, args[0])
        anyf = binop('or', fl, b, 1)
        r = {'eof': e, 'fail': anyf, 'bad': b, 'good': nott(binop('or', e, anyf, 1)), 'operator bool': nott(anyf), 'operator!': anyf}[which]
        st.env[i.d] = r
        s.tr(st, Ev('call', i, m, args, r)); return None
    return f
def m_clear(s, i, st, args, m):
    if len(args) < 2 or args[1] == I(32, 0):
        setflags(s, st, args[0], (FALSE, FALSE, FALSE))
        s.tr(st, Ev('call', i, m, args, None)); return None
    return 'default'
def m_ioop(s, i, st, args, m):
    """any other stream operation: new unknown flags"""
    old = sflags(s, st, args[0])
    rid = s.intern('io', id(i), s.obj(st, args[0]))
    r = s.generic(i, st, args, m)
    setflags(s, st, args[0], (S(1, ('ioeof', rid)), S(1, ('iofail', rid)), S(1, ('iobad', rid))))
    return r
def m_getline(s, i, st, args, m):
    f, line = args[0], args[1]
    rid = s.intern('getline', id(i), s.obj(st, f))
    old = sflags(s, st, f)
    s.setobj(st, line, s.fn(64, 'line', rid))
    s.setobj(st, f, s.fn(64, 'rd', rid))
    setflags(s, st, f, (S(1, ('ioeof', rid)), S(1, ('iofail', rid)), S(1, ('iobad', rid))))
    if i.d is not None: st.env[i.d] = f
    s.tr(st, Ev('call', i, m, args, None, ('before', old)))
    return None
def m_seek(s, i, st, args, m):
    old = sflags(s, st, args[0])
    rid = s.intern('seek', id(i), s.obj(st, args[0]))
    s.setobj(st, args[0], s.fn(64, 'seek', rid, args[1:]))
    # seekg clears eof; a seek on a failed stream does nothing
    setflags(s, st, args[0], (FALSE, S(1, ('iofail', rid)) if old[1] != FALSE else S(1, ('seekfail', rid)), old[2]))
    if i.d is not None: st.env[i.d] = args[0]
    s.tr(st, Ev('call', i, m, args, None, ('before', old)))
    return None
def m_write(s, i, st, args, m):
    # the event carries the bytes written: (('bytes', ((offset, size, value), ...)),)
    p, n = args[1], args[2]; cells = []
    if isp(p) and p[1] is not None and isinstance(p[2], int) and isc(n) and n[2] <= 64:
        mm = st.mem.get(p[1], {}); o = 0
        while o < n[2]:
            c = mm.get(p[2] + o)
            if c is not None and c[0] is not None and o + c[0] <= n[2]: cells.append((o, c[0], c[1])); o += c[0]; continue
            k = 8 if n[2] - o >= 8 and (p[2] + o) % 8 == 0 else 4 if n[2] - o >= 4 and (p[2] + o) % 4 == 0 else 1
            if any(isinstance(q, int) and mm[q][0] is not None and p[2] + o < q < p[2] + o + k for q in mm): k = 1
            cells.append((o, k, s.load(st, ('p', p[1], p[2] + o), k, False))); o += k
    return s.generic(i, st, args, m, ret=args[0], mut={0}, extra=(('bytes', tuple(cells)),))
def m_fpos(s, i, st, args, m):
    # std::fpos::fpos(long)
    if len(args) == 2 and isp(args[0]):
        s.store(st, args[0], 8, args[1]); s.store(st, padd(args[0], 8), 8, I(64, 0)); return None
    return 'default'

MODELS = {
    'std::numeric_limits::max': m_limits, 'std::numeric_limits::min': m_limits, 'std::numeric_limits::lowest': m_limits,
    '__cxa_throw': m_noreturn, '__cxa_rethrow': m_noreturn, 'exit': m_noreturn, '_exit': m_noreturn, 'abort': m_noreturn, 'std::terminate': m_noreturn, 'quick_exit': m_noreturn,
    '__clang_call_terminate': m_noreturn,
    'operator new': m_new, 'operator new[]': m_new,
    'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset,
    'std::operator|': m_or, 'std::operator&': m_or, 'std::operator^': m_or,
    STR + 'basic_string': m_str_ctor, STR + 'operator=': m_str_assign, STR + 'assign': m_str_assign,
    '__gnu_cxx::__normal_iterator::__normal_iterator': m_iter_copy, 'std::remove': m_remove, STR + 'erase': m_erase,
    STR + 'empty': m_litsize, STR + 'size': m_litsize, STR + 'length': m_litsize,
    STR + 'c_str': m_cstr, STR + 'data': m_cstr, STR + 'begin': m_cstr, STR + 'cbegin': m_cstr, STR + 'front': m_cstr, STR + 'at': m_elem, STR + 'operator[]': m_elem, STR + '~basic_string': m_dtor_str,
    'std::istream::read': m_ioread, 'std::istream::gcount': m_gcount, 'std::basic_istream::gcount': m_gcount,
    'std::basic_ios::eof': m_flag('eof'), 'std::basic_ios::fail': m_flag('fail'), 'std::basic_ios::bad': m_flag('bad'), 'std::basic_ios::good': m_flag('good'),
    'std::basic_ios::operator bool': m_flag('operator bool'), 'std::basic_ios::operator!': m_flag('operator!'),
    'std::basic_ios::clear': m_clear, 'std::istream::seekg': m_seek, 'std::ostream::seekp': m_seek,
    'std::getline': m_getline, 'std::istream::get': m_ioop, 'std::istream::operator>>': m_ioop, 'std::operator>>': m_ioop, 'std::istream::ignore': m_ioop, 'std::istream::peek': m_ioop,
    'std::fpos::fpos': m_fpos, 'std::ostream::write': m_write,
}
MODEL_RX = [
    (re.compile(r'^llvm\.mem(cpy|move)'), m_memcpy), (re.compile(r'^llvm\.memset'), m_memset),
    (re.compile(r'^llvm\.bswap|^__bswap_|^be64toh$'), m_bswap), (re.compile(r'^llvm\.expect'), m_expect),
    (re.compile(r'^llvm\.umax'), m_mm('umax')), (re.compile(r'^llvm\.umin'), m_mm('umin')), (re.compile(r'^llvm\.smax'), m_mm('smax')), (re.compile(r'^llvm\.smin'), m_mm('smin')),
    (re.compile(r'^std::__throw_'), m_noreturn),
    (re.compile(r'^std::(vector|list|map|deque|__cxx11::list|unordered_map|set)::(begin|cbegin)$'), m_begin),
    (re.compile(r'^llvm\.(dbg|lifetime|experimental\.noalias|assume)'), m_ignore),
]

def run(func, **kw):
    e = Engine(func, **kw); e.run(); return e

if __name__ == '__main__':
    import sys, time
    from ir import program
    p = program(sys.argv[1])
    for f in p.find(sys.argv[2]):
        t0 = time.time()
        e = Engine(f); e.run()
        print(f.dem, 'paths', len(e.paths), 'states', e.total, '%.2fs' % (time.time() - t0))
        if len(sys.argv) > 3:
            for x in e.paths: print(x.show())
