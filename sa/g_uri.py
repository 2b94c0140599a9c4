"""URIs: where each component of a parsed text comes from, what makes a text valid, and the values a port can have.

Contents of strings are abstracted to their provenance along every path: the text itself, a group of the
match, the n-th part of another content at a delimiter, a slot of the query map.  The roles of the groups
are read off the syntax tree of the pattern (what stands before and after each group, which characters it
can hold)."""
from ir import program
from absint import *
from build import AnalysisBroken
from g_queue import truth, raised
import re, warnings
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    import sre_parse
from sre_constants import *

T = 'pwned-server'
PARTS = ('scheme', 'username', 'password', 'host', 'path', 'query', 'fragment')
DELIMS = ':/?#@'

def uris(R):
    p = program(T); cls = 'URI'
    off = {}
    for n in PARTS + ('port', 'isValid'):
        for f in p.find('%s::%s' % (cls, n)):
            ps = Engine(f.load(), keep=lambda ev: ev.kind in ('store', 'call'), exact=True).run()
            offs = {offset(x.val) for x in ps}
            if len(ps) == 1 and len(offs) == 1 and None not in offs and not ps[0].events(): off[n] = offs.pop()
    if 'isValid' not in off: raise AnalysisBroken('no accessor %s::isValid that reports a member' % cls)
    R.saw('components', *('%s at %s' % q for q in off.items()))
    inv = {}
    for n, o in off.items():
        if o in inv: R.ob('own-place', 'URI::%s and URI::%s' % (n, inv[o]), False, 'pwned-server/uri.cpp:0', 'URI::%s() and URI::%s() report the same member' % (n, inv[o]))
        inv[o] = n
    pats = patterns(p)
    done = 0
    for f in p.funcs.values():
        if not f.proj or not f.model.startswith(cls + '::') or f.model.startswith(cls + '::~'): continue
        if not any('basic_string' in t or 'string_view' in t or 'char const*' in t for t in f.ptypes): continue
        e = Engine(f.load(), keep=lambda ev: True, exact=True, models=None)
        try: ps = e.run()
        except TooBig as t:
            R.note('%s: %s' % (f.dem[:100], t)); continue
        R.saw('functions', f.dem[:160]); R.saw('paths', *('%s:%d' % (f.dem[:60], k) for k in range(len(ps))))
        ys = [Walk(p, e, f, x, off, pats) for x in ps]
        done += 1
        hashed = any(ev.kind == 'call' and any(isp(a) and e.obj_lit(a) and '#' in e.obj_lit(a) for a in ev.args) for y in ys for ev in y.evs)
        for y in ys: y.hashed = hashed
        judge(R, p, f, ys, off, inv, pats)
    if not done: raise AnalysisBroken('no function of %s takes a text' % cls)

def offset(v):
    if v is None: return None
    if isp(v): return v[2] if v[1] == ('arg', 0) else None
    if v[0] == 'x' and v[2] in ('trunc', 'zext', 'and'): return offset(v[3])
    if v[0] == 'cmp' and v[1] == 'ne': return offset(v[2]) if isc(v[3]) else None
    if v[0] == 's' and isinstance(v[2], tuple) and v[2][0] == 'init' and v[2][1] == ('arg', 0): return v[2][2]
    return None

# ---------------------------------------------------------------- the pattern
class Pat:
    def __init__(s, text, loc):
        s.text = text; s.loc = loc; s.groups = {}; s.ok = False
        try: t = sre_parse.parse(text)
        except Exception as x: s.err = str(x); return
        s.ok = True
        s.n = t.state.groups - 1
        s.begin = anchored(t, 0); s.end = anchored(t, -1)
        s.walk(list(t), frozenset())
    def walk(s, items, before):
        """records the groups of a sequence with the literal characters that stand directly before and after each"""
        for k, (op, av) in enumerate(items):
            if op is SUBPATTERN:
                g, _, _, sub = av
                if g is not None:
                    s.groups[g] = dict(alpha=alpha(sub), first=first(list(sub)), before=before, after=follow(items, k + 1), min=sub.getwidth()[0], digits=alpha(sub) <= set('0123456789') and bool(alpha(sub)))
                s.walk(list(sub), before)
            elif op in (MAX_REPEAT, MIN_REPEAT): s.walk(list(av[2]), before)
            elif op is BRANCH:
                for b in av[1]: s.walk(list(b), before)
            if op is LITERAL: before = frozenset([chr(av)])
            elif op is IN: before = frozenset(chars(av)) if len(chars(av)) < 3 else frozenset()
            elif op is not AT: before = frozenset()
    def role(s):
        """group -> component, as far as the pattern tells"""
        r = {}
        gs = s.groups
        for g in sorted(gs):
            d = gs[g]
            if d['before'] == {'?'} and 'query' not in r.values(): r[g] = 'query'
            elif d['before'] == {'#'}: r[g] = 'fragment'
            elif d['digits'] and d['before'] == {':'}: r[g] = 'port'
            elif d['after'] == {'@'}: r[g] = 'credentials'
            elif g == 1 and d['after'] == {':'}: r[g] = 'scheme'
            elif '/' in d['alpha']: r[g] = 'path'
        rest = [g for g in gs if g not in r]
        ports = [g for g in r if r[g] == 'port']
        if len(rest) == 1 and all(rest[0] < g for g in ports) and 'scheme' in r.values(): r[rest[0]] = 'host'
        return r
def anchored(t, k):
    """is every alternative of the pattern tied to the start (0) or the end (-1) of the text"""
    l = list(t)
    if not l: return False
    op, av = l[k]
    if op is AT: return av in ((AT_BEGINNING, AT_BEGINNING_STRING) if k == 0 else (AT_END, AT_END_STRING))
    if op is SUBPATTERN: return anchored(av[3], k)
    if op is BRANCH: return all(anchored(b, k) for b in av[1])
    return False
def chars(items):
    out = set(); neg = False
    for op, av in items:
        if op is NEGATE: neg = True
        elif op is LITERAL: out.add(chr(av))
        elif op is RANGE: out |= {chr(c) for c in range(av[0], av[1] + 1)}
        elif op is CATEGORY: out |= cat(av)
    return {chr(c) for c in range(256)} - out if neg else out
def cat(av):
    D = set('0123456789'); W = D | {chr(c) for c in range(128) if chr(c).isalnum()} | {'_'}; S = set(' \t\n\r\f\v')
    A = {chr(c) for c in range(256)}
    return {CATEGORY_DIGIT: D, CATEGORY_NOT_DIGIT: A - D, CATEGORY_WORD: W, CATEGORY_NOT_WORD: A - W, CATEGORY_SPACE: S, CATEGORY_NOT_SPACE: A - S}.get(av, A)
def alpha(seq):
    out = set()
    for op, av in seq:
        if op is LITERAL: out.add(chr(av))
        elif op is NOT_LITERAL: out |= {chr(c) for c in range(256)} - {chr(av)}
        elif op is ANY: out |= {chr(c) for c in range(256)}
        elif op is IN: out |= chars(av)
        elif op in (MAX_REPEAT, MIN_REPEAT): out |= alpha(av[2])
        elif op is SUBPATTERN: out |= alpha(av[3])
        elif op is BRANCH:
            for b in av[1]: out |= alpha(b)
    return out
def first(items):
    return alpha(items[:1]) if items else set()
def follow(items, k):
    if k < len(items):
        op, av = items[k]
        if op is LITERAL: return {chr(av)}
        if op is IN: return chars(av)
    return set()

def patterns(p):
    """global regular expressions and their patterns"""
    out = {}
    for f in p.funcs.values():
        if not f.proj: continue
        for i in f.calls():
            if (i.model or '').endswith('basic_regex::basic_regex') and len(i.a) >= 2 and i.a[0][0] == 'g' and i.a[1][0] == 'g':
                g = p.globals.get(i.a[1][1])
                if g and 'hex' in g: out[i.a[0][1]] = Pat(bytes.fromhex(g['hex']).split(b'\0')[0].decode('latin1'), i.loc())
    return out

# ---------------------------------------------------------------- provenance along a path
SPLIT = re.compile(r'^boost::algorithm::split$')
class Walk:
    def __init__(s, p, e, f, x, off, pats):
        s.p = p; s.e = e; s.f = f; s.x = x; s.c = {}; s.its = {}; s.facts = x.facts; s.end = x.end; s.off = off; s.pats = pats
        s.imp = any(q[0] not in ('hull',) for q in x.imp); s.matches = []; s.set = {}; s.slots = []; s.size = {}; s.counts = {}; s.nums = []; s.evs = x.events(); s.unknown = False
        s.flag = []; s.touched = []; s.flags = {}
        s.inloop = any(ev.kind == 'loop' for ev in s.evs) and s.end == 'back'
        for k, ev in enumerate(s.evs): s.step(k, ev)
    def key(s, a): return (a[1], a[2]) if isp(a) and a[1] is not None and isinstance(a[2], int) else None
    def get(s, a):
        if not isp(a) or a[1] is None: return ('?',)
        if a[1] == ('arg', 1) and a[2] == 0 or s.f.model.endswith('::URI') and a[1] == ('arg', 1): return ('text',)
        k = s.key(a)
        if k in s.c: return s.c[k]
        l = s.e.obj_lit(a)
        if l is not None: return ('lit', l)
        return ('?',)
    def put(s, a, v, ev, k):
        q = s.key(a)
        if q is None: return
        if q[0] == ('arg', 0): s.set.setdefault(q[1], []).append((v, ev, k))
        elif s.c.get(q, ('',))[0] == 'slot': s.slots.append((s.c[q], v, ev, k)); return
        s.c[q] = v
    def step(s, k, ev):
        a = ev.args
        if ev.kind == 'store':
            if isp(a[0]) and a[0][1] == ('arg', 0):
                s.flag.append((a[0][2], a[1], ev, k))
            if isp(a[1]) and a[1] in s.its: s.its[s.key(a[0])] = s.its[a[1]]
            return
        if ev.kind != 'call': return
        mo = ev.model; l = mo.rsplit('::', 1)[-1]; sret = ev.inst.pa.get(0, (None,))[0] == 'sret'
        S = 'std::__cxx11::basic_string::'
        if mo in ('std::regex_search', 'std::regex_match'):
            subj = s.get(a[0]); mk = None; rx = None; fl = None
            for q in a[1:]:
                if isp(q) and q[1] is not None and q[1][0] == 'glob': rx = q[1][1]
                elif isp(q) and q[1] is not None and q[1][0] == 'alloca' and mk is None: mk = s.key(q)
                elif not isp(q): fl = q
            if subj == ('?',) and a[0] in s.its: subj = s.its[a[0]][1]
            t = truth(s.facts, ev.ret) if ev.ret is not None and not isp(ev.ret) else None
            s.matches.append((mo[5:], subj, mk, rx, fl, t, ev)); return
        if mo.endswith('match_results::operator[]') and len(a) == 2:
            n = s.facts.const(a[1]); s.c[s.key(ev.ret)] = ('sub', n) if n is not None else ('?',); return
        if mo.endswith(('match_results::str', 'match_results::format')) and sret and len(a) > 2:
            n = s.facts.const(a[2]); s.put(a[0], ('group', n) if n is not None and mo.endswith('str') else ('?',), ev, k); return
        if re.search(r'sub_match::(str|operator.*)$', mo) and sret:
            v = s.get(a[1]); s.put(a[0], ('group', v[1]) if v[0] == 'sub' else ('?',), ev, k); return
        if mo == S + 'basic_string':
            if len(a) == 1: s.put(a[0], ('lit', ''), ev, k)
            elif len(a) == 3 and isp(a[1]) and a[1] in s.its and a[1] not in (a[0],): s.put(a[0], ('?',), ev, k)
            else: s.put(a[0], s.get(a[1]) if isp(a[1]) and (len(a) < 3 or not isp(a[2]) or s.get(a[1])[0] != 'sub') else ('?',), ev, k)
            return
        if mo in (S + 'operator=', S + 'assign') and len(a) == 2: s.put(a[0], s.get(a[1]), ev, k); return
        if mo == S + 'swap':
            x, z = s.get(a[0]), s.get(a[1]); s.put(a[0], z, ev, k); s.put(a[1], x, ev, k); return
        if mo == S + 'clear': s.put(a[0], ('lit', ''), ev, k); return
        if re.search(r'^std::(map|unordered_map)::clear$', mo): s.put(a[0], ('lit', ''), ev, k); return
        if re.search(r'^std::(map|unordered_map)::operator=$', mo): s.put(a[0], ('?',), ev, k); return
        if mo == 'std::operator+' and sret: s.put(a[0], ('cat', s.get(a[1]), s.get(a[2])), ev, k); return
        if mo in (S + 'append', S + 'operator+='): s.put(a[0], ('cat', s.get(a[0]), s.get(a[1]) if isp(a[1]) else ('?',)), ev, k); return
        if mo.endswith('algorithm::is_any_of') and sret: s.c[s.key(a[0])] = ('any', s.get(a[1])); return
        if SPLIT.search(mo):
            d = s.get(a[2]); comp = s.facts.const(a[3]) if len(a) > 3 and not isp(a[3]) else 1
            s.c[s.key(a[0])] = ('split', s.get(a[1]), d[1][1] if d[0] == 'any' and d[1][0] == 'lit' else None, comp == 0); return
        if re.search(r'^std::vector::(operator\[\]|at)$', mo):
            v = s.get(a[0]); n = s.facts.const(a[1]) if not isp(a[1]) else None
            s.c[s.key(ev.ret)] = ('part', v[1], v[2], n if n is not None else 'each') if v[0] == 'split' else ('?',); return
        if re.search(r'^std::vector::(size|empty)$', mo) and s.get(a[0])[0] == 'split' and ev.ret is not None and not isp(ev.ret):
            r = [(0, 0)] if l == 'empty' and truth(s.facts, ev.ret) else s.facts.range(ev.ret) if l == 'size' else None
            s.counts.setdefault(s.get(a[0]), []).append(r[-1][1] if r else 2**64 - 1); return
        if re.search(r'^std::vector::(front|back)$', mo):
            v = s.get(a[0]); s.c[s.key(ev.ret)] = ('part', v[1], v[2], 0 if l == 'front' else 'last') if v[0] == 'split' else ('?',); return
        if re.search(r'::c?begin$', mo) and ev.ret is not None:
            s.its[ev.ret] = ('it', s.get(a[0])); return
        if re.search(r'iterator::operator(\*|->)$', mo) and ev.ret is not None:
            v = s.its.get(s.key(a[0]))
            if v and v[1][0] == 'split': s.c[s.key(ev.ret)] = ('part', v[1][1], v[1][2], 'each')
            return
        if mo.endswith('map::operator[]') and isp(ev.ret) and len(a) == 2 and isp(a[0]) and a[0][1] == ('arg', 0):
            s.c[s.key(ev.ret)] = ('slot', a[0][2], s.get(a[1])); return
        if re.search(r'map::(insert|emplace|insert_or_assign|try_emplace|emplace_hint)$', mo):
            if isp(a[0]) and a[0][1] == ('arg', 0):
                q = [s.get(z) for z in a[1:] if isp(z)]
                if l in ('emplace', 'insert_or_assign', 'try_emplace') and len(a) == 3: s.slots.append((('slot', a[0][2], q[0] if q else ('?',)), q[1] if len(q) > 1 else ('?',), ev, k))
                else: s.slots.append((('slot', a[0][2], ('?',)), ('?',), ev, k))
            return
        if mo in (S + 'size', S + 'length', S + 'empty', 'std::empty', 'std::size') or mo.endswith('sub_match::length'):
            v = s.get(a[0])
            if v[0] == 'sub': v = ('group', v[1])
            s.touched.append(v)
            if ev.ret is not None:
                if l == 'empty':
                    t = truth(s.facts, ev.ret)
                    if t is not None: s.size.setdefault(v, []).append((1, 2**64 - 1) if not t else (0, 0))
                else: s.size.setdefault(v, []).extend([(r[0][0], r[-1][1])] if (r := s.facts.range(ev.ret)) else [])
            return
        if re.search(r'^std::operator(==|!=)$', mo) and len(a) == 2 and ev.ret is not None and not isp(ev.ret):
            for x, z in ((a[0], a[1]), (a[1], a[0])):
                if s.get(z) == ('lit', ''):
                    t = truth(s.facts, ev.ret); s.touched.append(s.get(x))
                    if t is not None: s.size.setdefault(s.get(x), []).append((0, 0) if t == mo.endswith('==') else (1, 2**64 - 1))
            for x in a: s.touched.append(s.get(x))
            return
        if re.search(r'(^|::)(sto[a-z]+|strto[a-z]+|ato[a-z]+|lexical_cast)$', mo):
            s.nums.append((mo, s.get(a[0] if not sret else a[1]) if True else None, ev.ret, ev, k)); return
        if mo.endswith('c_str') and isp(ev.ret): s.c[s.key(ev.ret)] = s.get(a[0]); return
        if mo.endswith('from_chars'): s.unknown = True; return
        if '~' not in mo:
            for q in a:
                if isp(q): s.touched.append(s.get(q))
        if sret: s.c.pop(s.key(a[0]), None)
        # the object handed on to other code of the class
        if a and isp(a[0]) and a[0][1] == ('arg', 0) and mo.startswith('URI::'): s.unknown = True; s.delegate = mo
    def len_of(s, v):
        lo, hi = 0, 2**64 - 1
        for a, b in s.size.get(v, []): lo = max(lo, a); hi = min(hi, b)
        return lo, hi
    def final_flag(s, o):
        """the last value stored to a member: (constant or None, term, ev) or None when it was not stored"""
        l = [q for q in s.flag if q[0] == o]
        if not l: return None
        _, v, ev, k = l[-1]
        c = s.facts.const(v)
        if c is None:
            t = truth(s.facts, v[3]) if v[0] == 'x' and v[2] in ('zext', 'trunc') else truth(s.facts, v) if width(v) == 1 else None
            if t is not None: c = int(t)
        return c, v, ev, k   # a loop behind it may still take a 1 back, but has a way that does not
    def msize(s, n):
        """does the path know that the match has at most n groups (which cannot be)"""
        for ev in s.evs:
            if ev.kind == 'call' and ev.model.endswith('match_results::size') and ev.ret is not None:
                r = s.facts.range(ev.ret)
                if r and r[-1][1] <= n: return True
            if ev.kind == 'call' and ev.model.endswith('match_results::empty') and ev.ret is not None and truth(s.facts, ev.ret): return True
        return False
    def matched(s, g):
        for ev in s.evs:
            if ev.kind == 'load' and isp(ev.args[0]) and s.c.get((ev.args[0][1], 0)) == ('sub', g) and ev.args[0][2] == 16:
                t = truth(s.facts, X(1, 'trunc', ev.ret))
                if t is not None: return t
                r = s.facts.range(ev.ret)
                if r and r[0][0] >= 1: return True
                if r and r[-1][1] == 0: return False
        return None

def source(v):
    """what a content was cut from"""
    while v[0] in ('part',): v = v[1]
    return v

def judge(R, p, f, ys, off, inv, pats):
    loc = '%s:%s' % (f.rel, f.line); name = f.dem[:70]
    valid = off['isValid']; sets_valid = any(q[0] == valid and y.facts.const(q[1]) != 0 for y in ys for q in y.flag)
    uses = {v[5] for y in ys for v in y.matches}
    deleg = any(y.unknown for y in ys)
    used_groups = {v[1] for y in ys for l in y.set.values() for v, ev, k in l if v[0] == 'group'} | {source(v)[1] for y in ys for l in y.set.values() for v, ev, k in l if source(v)[0] == 'group'}
    for y in ys:
        bad = None if y.imp else False
        fl = y.final_flag(valid)
        ret = y.end == 'ret'
        rx = next((pats.get(m[3]) for m in y.matches if m[3] in pats), None)
        roles = rx.role() if rx and rx.ok else {}
        # ---- valid only when recognised, and never left over
        if ret and not y.unknown:
            if fl is None and sets_valid and not ctor(f):
                R.ob('valid', name, bad, loc, 'a way through leaves the validity of an earlier text in place')
            for m in y.matches:
                if m[5] is False and fl is not None:
                    R.ob('valid', name, True if fl[0] == 0 else bad if fl[0] == 1 else None, fl[2].loc(), 'a text that was not recognised is reported valid')
            if fl is not None and fl[0] == 1:
                good = any(m[5] is True for m in y.matches)
                R.ob('valid', name + ' recognised', True if good else bad if not any('find' in ev.model or 'compare' in ev.model or 'sscanf' in ev.model for ev in y.evs if ev.kind == 'call') else None, fl[2].loc(), 'a text is reported valid although no pattern recognised it')
        # ---- the match
        for kind, subj, mk, rxn, flg, t, ev in y.matches:
            if t and sets_valid:
                P = pats.get(rxn)
                if P and P.ok and kind == 'regex_search':
                    for side, ok, w in (('start', P.begin, 'start'), ('end', P.end, 'end')):
                        R.ob('whole', '%s %s' % (name, side), True if ok or not sub_is_text(subj) and None else bad if ok is False and not isinstance(flg, type(None)) and cont(y, flg, side) is False else None, P.loc, 'the pattern is not tied to the %s of the text, so a part of it is taken for the whole' % w)
                R.ob('whole', name + ' subject', True if subj == ('text',) else None, ev.loc())
        # ---- components from groups
        for o, l in y.set.items():
            if o not in inv or inv[o] in ('isValid', 'port'): continue
            comp = inv[o]
            for v, ev, k in l:
                if v == ('lit', ''): continue
                chk_component(R, y, f, comp, v, ev, roles, bad, name)
        for slot, v, ev, k in y.slots:
            if inv.get(slot[1]) == 'query': chk_query(R, y, slot[2], v, ev, roles, bad, name)
        # ---- nothing of an earlier text stays, nothing recognised is lost
        if ret and not y.unknown and fl is not None and (fl[0] == 1 or fl[0] is None and not (fl[1] and isc(fl[1]) and fl[1][2] == 0)) and any(m[5] for m in y.matches) and roles:
            if y.msize(max(roles)): continue
            for comp in PARTS:
                if comp not in off: continue
                cred = comp in ('username', 'password')
                g = [g for g in roles if roles[g] == ('credentials' if cred else comp)]
                if not g: continue
                l = y.set.get(off[comp], [])
                if not ctor(f): R.ob('kept', '%s %s' % (name, comp), True if l else bad, loc, "the %s of an earlier text is kept when another one is parsed" % comp)
                real = [v for v, ev, k in l if v != ('lit', '')]
                if cred and l and not real:
                    emp = any(y.len_of(('group', q))[1] == 0 for q in g); tested = any(source(t) == ('group', q) for t in y.touched for q in g) or any(y.matched(q) is False for q in g)
                    R.ob('dropped', '%s credentials' % name, True if emp else None if tested else bad if fl[0] == 1 else None, fl[2].loc(), 'credentials that are no user and password are dropped, and the URI is reported valid all the same')
                elif not cred and comp != 'query' and l and not real:
                    lost = [q for q in g if y.len_of(('group', q))[1] != 0 and y.matched(q) is not False]
                    R.ob('dropped', '%s %s' % (name, comp), True if not lost else bad if not any(source(t) == ('group', q) for t in y.touched for q in g) and not (comp == 'path' and len(g) > 1) else None, loc, 'the %s is not taken over from the text' % comp)
                elif comp == 'path' and len(g) > 1 and real and not y.imp:
                    q = [v for v in real if v[0] == 'group']
                    if len(q) == len(real) == 1:
                        # one alternative: the others must be known absent on this path or be used on others
                        oth = [z for z in g if z != q[0][1]]
                        R.ob('own-place', '%s path' % name, False if any(z not in used_groups for z in oth) or y.matched(q[0][1]) is False and any(y.matched(z) is not False for z in oth) and q[0][1] not in oth else True, fl[2].loc(),
                             'a path of the other form is lost: group %d alone is used' % q[0][1])
                elif comp == 'query' and not y.slots:
                    pass
        # ---- one parameter of the query
        if y.end == 'back' and any(v[0] == 'part' and v[3] == 'each' for v in y.c.values()):
            each = {v for v in y.c.values() if v[0] == 'part' and v[3] == 'each'}
            for v in each:
                if roles and roles.get(source(v)[1] if source(v)[0] == 'group' else None) == 'query' and v[1][0] != 'part':
                    stored = bool(y.slots); last = [k for k, ev in enumerate(y.evs) if ev.kind == 'loop'][-1]
                    inval = any(q[0] == valid and y.facts.const(q[1]) == 0 and q[3] > last for q in y.flag)
                    test = [t for t in y.touched if t == v or t[0] == 'part' and t[1] == v]
                    n = y.len_of(v)
                    R.ob('dropped', '%s parameter' % name, True if stored or inval or n[1] == 0 else bad if n[0] > 0 else None if test else bad, loc, 'a part of the query that is no name=value is dropped, and the URI is reported valid all the same')
        # ---- the port
        ports(R, p, f, y, off, roles, bad, name, fl)
        # ---- nothing beyond the parts of a text
        import g_web
        y2 = y; m = None
        for ev in y.evs: pass
    class M: pass
    m = M(); m.p = p
    for y in ys: 
        y.ec = None
        import g_web
        g_web.access(R, m, f, y)

def ctor(f): return f.model.split('::')[-1] == f.model.split('::')[-2]
def sub_is_text(s): return s == ('text',)
def cont(y, flg, side):
    c = y.facts.const(flg) if flg is not None and not isp(flg) else 0
    if c is None: return None
    return bool(c & 0x40) if side == 'start' else False

def chk_component(R, y, f, comp, v, ev, roles, bad, name):
    want = {'username': 'credentials', 'password': 'credentials'}.get(comp, comp)
    sub = '%s %s' % (name, comp)
    if v[0] == 'group':
        g = v[1]
        if not roles: return R.ob('own-place', sub, None, ev.loc())
        r = roles.get(g)
        if comp in ('username', 'password'): ok = bad if r else None
        else: ok = True if r == comp else None if g not in roles and comp in roles.values() is False else bad if comp in roles.values() else None
        return R.ob('own-place', sub, ok, ev.loc(), 'the %s is taken from group %d of the pattern, which is the %s' % (comp, g, r))
    if v[0] == 'part':
        s = source(v)
        if comp in ('username', 'password'):
            n = 0 if comp == 'username' else 1
            if s[0] == 'group' and roles:
                ok = roles.get(s[1]) == 'credentials'
                R.ob('own-place', sub, True if ok else bad if roles.get(s[1]) else None, ev.loc(), 'the %s is taken from group %d of the pattern, which is the %s' % (comp, s[1], roles.get(s[1])))
                if v[1] == s:
                    whole(R, y, sub, v, 1, ev, bad, 'the %s is cut off where the credentials hold another one of it' % comp)
                    R.ob('own-place', sub + ' part', True if v[2] == ':' and v[3] == n else bad if v[2] is not None and v[3] != 'last' else None, ev.loc(), "part %s at '%s' of the credentials is reported as the %s" % (v[3], v[2], comp))
            return
        if s == ('text',) and not roles:
            # a request target: path?query#fragment
            chain = []
            q = v
            while q[0] == 'part': chain.append((q[2], q[3])); q = q[1]
            chain = chain[::-1]
            if any(d is None or n in ('each', 'last') for d, n in chain): return R.ob('own-place', sub, None, ev.loc())
            want = {'path': ([('?', 0)], [('#', 0), ('?', 0)], [('?', 0), ('#', 0)], [('?#', 0)]), 'fragment': ([('?', 1), ('#', 1)], [('#', 1)])}.get(comp)
            if want is None: return R.ob('own-place', sub, None, ev.loc())
            return R.ob('own-place', sub, True if chain in [list(w) for w in want] else bad, ev.loc(), "the %s of a request is %s" % (comp, ' of '.join("part %d at '%s'" % (n, d) for d, n in chain[::-1])))
        if s[0] == 'group' and roles: return R.ob('own-place', sub, bad if roles.get(s[1]) not in (want, None) else None, ev.loc(), 'the %s is taken from group %d of the pattern, which is the %s' % (comp, s[1], roles.get(s[1])))
    if v == ('text',) and not roles and comp in ('path', 'fragment'):
        # taken over whole, and not shortened afterwards
        later = [e2 for e2 in y.evs if e2.kind == 'call' and e2.args and isp(e2.args[0]) and e2.args[0] == ('p', ('arg', 0), y.off[comp]) and e2 is not ev and '~' not in e2.model and not e2.model.endswith(('::clear', '::operator=', '::assign'))]
        return R.ob('own-place', sub, None if later or y.end != 'ret' or y.set[y.off[comp]][-1][1] is not ev else bad, ev.loc(), 'the whole text is reported as the %s' % comp)
    R.ob('own-place', sub, None, ev.loc())

def whole(R, y, sub, v, last, ev, bad, msg):
    """part v of a list split at v[2] is taken for a component, and no part of the list is left over behind part `last`"""
    if v[2] is None or len(v[2]) != 1 or not isinstance(v[3], int): return
    q = [n for k, l in y.counts.items() if k[1] == v[1] and k[2] == v[2] for n in l]
    many = any(t[0] == 'part' and t[1] == v[1] and t[2] == v[2] and (not isinstance(t[3], int) or t[3] > last) for t in y.c.values())
    if any(k[1] == v[1] and k[2] == v[2] and k[3] for k in y.counts): return
    R.ob('own-place', sub + ' whole', True if q and min(q) <= last + 1 else None if many or not q else bad, ev.loc(), "%s: %s" % (repr(v[2]), msg))

def chk_query(R, y, key, val, ev, roles, bad, name):
    sub = name + ' query'
    if key[0] != 'part' or val[0] != 'part': return R.ob('own-place', sub, None, ev.loc())
    same = key[1] == val[1] and key[2] == val[2]
    if key[2] is None or val[2] is None or 'last' in (key[3], val[3]): return R.ob('own-place', sub, None, ev.loc())
    R.ob('own-place', sub + ' pair', True if same and key[2] == '=' and (key[3], val[3]) == (0, 1) else bad if same and isinstance(key[3], int) and isinstance(val[3], int) else None, ev.loc(),
         "a parameter's name is part %s and its value part %s at '%s'" % (key[3], val[3], key[2]))
    if same and val[3] == 1: whole(R, y, sub, val, 1, ev, bad, 'the value of a parameter is cut off where it holds another one of it')
    par = key[1]
    if par[0] != 'part': return R.ob('own-place', sub + ' list', None, ev.loc())
    R.ob('own-place', sub + ' list', True if par[2] == '&' and par[3] == 'each' else bad if par[2] is not None and par[2] not in ('&', '&;', ';&') else None, ev.loc(), "the parameters are separated at '%s'" % par[2])
    src = par[1]; s = source(src)
    if s[0] == 'group' and roles:
        R.ob('own-place', sub + ' source', True if roles.get(s[1]) == 'query' else bad if roles.get(s[1]) else None, ev.loc(), 'the query is taken from group %d of the pattern, which is the %s' % (s[1], roles.get(s[1])))
    elif s == ('text',):
        chain = []
        while src[0] == 'part': chain.append((src[2], src[3])); src = src[1]
        chain = chain[::-1]
        if any(d is None or not isinstance(n, int) for d, n in chain): return R.ob('own-place', sub + ' source', None, ev.loc())
        R.ob('own-place', sub + ' source', True if chain in ([('?', 1), ('#', 0)], [('#', 0), ('?', 1)], [('?#', 1)]) or chain == [('?', 1)] and not y.hashed else bad, ev.loc(), 'the query of a request is %s' % (' of '.join("part %d at '%s'" % (n, d) for d, n in chain[::-1]) or 'all of it'))

LIMIT = {'stoi': 9, 'stol': 18, 'stoul': 19, 'stoll': 18, 'stoull': 19, 'atoi': 9}
def ports(R, p, f, y, off, roles, bad, name, fl):
    if 'port' not in off: return
    pg = [g for g in roles if roles[g] == 'port']
    po = off['port']
    last = [q for q in y.flag if q[0] == po]
    for mo, v, ret, ev, k in y.nums:
        l = mo.rsplit('::', 1)[-1]
        if v[0] == 'group' and roles:
            R.ob('port', name + ' source', True if roles.get(v[1]) == 'port' else bad if roles.get(v[1]) else None, ev.loc(), 'the port is taken from group %d of the pattern, which is the %s' % (v[1], roles.get(v[1])))
            g = v[1]; lo, hi = y.len_of(v)
            if y.matched(g) is True: pass
            if l in LIMIT and roles.get(g) == 'port':
                types = ['std::out_of_range', 'std::logic_error', 'std::exception']
                esc = True
                if l.startswith('sto') and ev.inst.op == 'invoke':
                    esc = raised(f, ev.inst, types) == 'escapes'
                R.ob('port', name + ' length', True if hi <= LIMIT[l] or not esc else bad, ev.loc(), 'a port of any length is converted by %s, which %s' % (l, 'throws when the number is too large' if l != 'atoi' else 'has no defined result when the number is too large'))
                if l.startswith('sto'):
                    types = ['std::invalid_argument', 'std::logic_error', 'std::exception']
                    if ev.inst.op == 'invoke': esc = raised(f, ev.inst, types) == 'escapes'
                    R.ob('port', name + ' empty', True if lo >= 1 or not esc else bad if any(P.ok and g in P.groups and P.groups[g]['min'] == 0 for P in y.pats.values() if P.ok and P.role().get(g) == 'port') else None, ev.loc(), 'an empty port is converted by %s, which throws' % l)
        if ret is not None and not isp(ret) and fl is not None and y.end == 'ret':
            r = y.facts.range(ret)
            if r and v[0] == 'group' and roles.get(v[1]) == 'port':
                over = all(a > 65535 for a, b in r)
                if over: R.ob('port', name + ' too large', True if fl[0] == 0 else bad if fl[0] == 1 or fl[0] is None and isc(fl[1]) and fl[1][2] == 1 and not any(q[0] == off['isValid'] and q[3] > fl[3] for q in y.flag) else None, ev.loc(), 'a port above 65535 is reported valid')
    for o, v, ev, k in last:
        t = v
        if t[0] == 'x' and t[2] in ('trunc', 'and'): t = t[3]
        num = next((q for q in y.nums if q[2] == t), None)
        if num:
            r = y.facts.range(t)
            R.ob('port', name + ' range', True if r and r[0][0] >= 0 and r[-1][1] <= 65535 else bad, ev.loc(), 'a port outside 0..65535 is cut to 16 bits and reported as a different port')
        elif pg and y.facts.const(v) != 0 and any(m[5] for m in y.matches):
            n = max(y.len_of(('group', g))[0] for g in pg)
            R.ob('port', name + ' default', True if n == 0 else bad if not any(q[2] is not None and roles.get(q[1][1] if q[1][0] == 'group' else None) == 'port' for q in y.nums) else None, ev.loc(), 'a URI that names a port gets another one')
    if y.end == 'ret' and not y.unknown and fl is not None and fl[0] == 1 and pg and any(m[5] for m in y.matches) and not y.msize(max(roles)):
        if not ctor(f): R.ob('kept', name + ' port', True if last else bad, fl[2].loc(), 'the port of an earlier text is kept when another one is parsed')
        n = max(y.len_of(('group', g))[0] for g in pg)
        if n > 0:
            R.ob('port', name + ' taken over', True if any(y.nums) or y.unknown else None if any(source(t)[0] == 'group' and source(t)[1] in pg for t in y.touched) and len(y.touched) and False else bad, fl[2].loc(), 'a port the URI names is not taken over')
    # an over-long port is not a port
    if y.end == 'ret' and fl is not None and pg and fl[0] == 1 and not any(y.nums):
        hi = min(y.len_of(('group', g))[0] for g in pg)

def alphabet(R):
    """the groups of the pattern hold no character that ends them"""
    p = program(T); n = 0
    for g, P in patterns(p).items():
        if not P.ok: R.ob('pattern', g, None, P.loc, 'pattern not analysed'); continue
        roles = P.role()
        if 'query' not in roles.values() and 'scheme' not in roles.values(): continue
        stop = {'scheme': ':/?#', 'credentials': '@/?#', 'host': ':/?#@', 'port': ':/?#@', 'path': '?#', 'query': '#', 'fragment': ''}
        for k, r in roles.items():
            n += 1
            hit = [c for c in stop[r] if c in P.groups[k]['alpha']]
            R.ob('pattern', '%s group %d' % (r, k), not hit, P.loc, 'the %s may hold %s, so it swallows what follows it' % (r, ' '.join(hit)))
    R.saw('groups', *('%d' % k for k in range(n)))
