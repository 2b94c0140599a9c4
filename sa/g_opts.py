"""C24: option tables of the tools: every option listed takes effect; a command line that cannot be parsed is an error before anything is touched."""
import re
from ir import program
from absint import *
from report import where, AnalysisBroken
from build import targets
from g_echo import roots_of, STREAMS

REG = re.compile(r'program_options::options_description_easy_init::operator\(\)$')
VALUE = re.compile(r'^boost::program_options::(value|wvalue|bool_switch)$')
PARSE = re.compile(r'^boost::program_options::(parse_command_line|store|parse_config_file|notify|basic_command_line_parser::run|basic_command_line_parser::basic_command_line_parser)$')
QUERY = re.compile(r'^(std::map::(count|find|at|operator\[\]|contains)|boost::program_options::(abstract_variables_map|variables_map)::(operator\[\]|count|find|at))$')

def tools():
    for t in sorted(targets()):
        try: p = program(t)
        except AnalysisBroken: yield t, None, None; continue
        for f in p.funcs.values():
            if f.proj and f.model == 'main' and any(i.model and REG.search(i.model) for i in f.calls()): yield t, p, f

def lit(p, a):
    if a[0] != 'g': return None
    g = p.globals.get(a[1])
    return bytes.fromhex(g['hex']).split(b'\0')[0].decode('latin1') if g and 'hex' in g else None

class Table:
    """the options of one tool: [(registration, long, short, variable or None, semantic or None)]"""
    def __init__(s, t, p, f):
        s.t = t; s.p = p; s.f = f; f.load(); s.root, s.defs, s.holds = roots_of(f); s.opts = []; s.odd = False
        for i in f.calls():
            if not i.model or not REG.search(i.model): continue
            nm = lit(p, i.a[1]) if len(i.a) > 1 else None
            if nm is None: s.odd = True; continue
            long_, _, short = nm.partition(',')
            var = sem = None; mods = []
            # (name, semantic[, description]) or (name, description)
            ps = p.ptypes(i.fn)
            if any('value_semantic' in x for x in ps):
                k = next(j for j, x in enumerate(ps) if 'value_semantic' in x) + 1
                v = i.a[k]; d = 0
                while v[0] == 'v' and d < 20:
                    j = s.defs.get(v[1]); d += 1
                    if j is None: break
                    if j.op in ('call', 'invoke') and j.model and VALUE.search(j.model): sem = j; break
                    if j.op in ('call', 'invoke') and j.a: mods.append(j); v = j.a[0]
                    elif j.op in ('bitcast', 'getelementptr'): v = j.a[0]
                    elif j.op == 'phi' or j.op == 'select': break
                    else: break
                if sem is None: s.odd = True
                elif sem.a and sem.a[0][0] in 'vg':
                    r = s.root(sem.a[0])
                    if len(r) == 1: var = next(iter(r))
            s.opts.append((i, long_, short, var, sem, mods))
    def text(s, a):
        """the literal a string argument was made from"""
        l = lit(s.p, a)
        if l is not None: return l
        for o in s.root(a):
            if o[0] == 'a':
                c = [i for i in s.f.calls() if i.model and re.search(r'basic_string::(basic_string|operator=|assign)$', i.model) and i.a and s.root(i.a[0]) == {o}]
                ls = {lit(s.p, i.a[1]) if len(i.a) > 1 else None for i in c}
                if len(ls) == 1: return next(iter(ls))
            if o[0] == 'g':
                for g in s.p.funcs.values():
                    if g.model.startswith('__cxx_global_var_init'):
                        for i in g.calls():
                            if i.model and i.model.endswith('basic_string::basic_string') and len(i.a) > 1 and i.a[0][0] == 'g' and i.a[0][1] == o[1]: return lit(s.p, i.a[1])
        return None
    def queries(s):
        out = []
        for i in s.f.calls():
            if i.model and QUERY.search(i.model) and len(i.a) > 1:
                if not i.model.startswith('boost') and not any(vm(s, o) for o in s.root(i.a[0])): continue
                out.append((i, s.text(i.a[1] if not (len(i.a) > 2 and 'operator[]' not in i.model) else i.a[1])))
        return out

def vm(s, o):
    """is this object the map of the parsed options"""
    return any(i.model == 'boost::program_options::variables_map::variables_map' and o in s.root(i.a[0]) for i in s.f.calls()) if o[0] == 'a' else o[0] in 'gh' and False

def after(f, i, succ):
    """instruction positions that can come after i on its normal way out"""
    start = [i.bb[0]] if i.op == 'invoke' else None
    return start

def live(T, i, var):
    """[use] that can see the value the variable has after i: a path without another value in between"""
    f = T.f; B = f.blocks; uses = []; seen = set()
    work = [(i.bb[0], 0)] if i.op == 'invoke' else [(i.block, i.idx + 1)]
    def refers(a): return a[0] in 'vg' and var in T.root(a)
    while work:
        b, k = work.pop(); stop = False
        if k == 0:
            if b in seen: continue
            seen.add(b)
        for j in B[b][k:]:
            if j.op == 'store':
                if refers(j.a[0]): uses.append(j); continue
                if j.a[1][0] in 'vg' and T.root(j.a[1]) == {var}:
                    d = T.defs.get(j.a[1][1]) if j.a[1][0] == 'v' else None
                    if d is None or d.op == 'alloca': stop = True; break
            elif j.op == 'load':
                if refers(j.a[0]): uses.append(j)
            elif j.op in ('call', 'invoke'):
                m = j.model or ''
                hit = [q for q, a in enumerate(j.a) if refers(a)]
                if not hit: continue
                if m.startswith('llvm.') and not m.startswith(('llvm.memcpy', 'llvm.memmove')): continue
                if re.search(r'::~', m): stop = True; break
                if VALUE.search(m) or re.search(r'typed_value::', m): continue
                own = T.root(j.a[0]) == {var}
                if own and hit == [0] and re.search(r'::(operator=|assign|clear)$|::(\w+)::\2$', m): stop = True; break
                uses.append(j)
            elif j.op in ('phi', 'select') and any(a[0] == 'v' and a[1] == var[1] for a in (j.a or [])): uses.append(j)
        if not stop: work += [(s, 0) for s in B[b][-1].succs()]
    return uses

PEEK = re.compile(r'::(empty|size|length|compare|count|is_zero|capacity)$|^std::operator(==|!=|<|>|<=|>=)$|^std::__cxx11::operator(==|!=)$')

SHOWN = re.compile(r'^std::(operator<<|ostream::operator<<|basic_ostream::operator<<)$')
ABSENT = re.compile(r'::(empty|size|length)$')

def reaches(T, j, depth=0, seen=None, present=True):
    """does what this use sees have an effect: decide a branch, reach a call, a result, or memory that is looked at later.  True/False/None"""
    f = T.f; seen = seen if seen is not None else set()
    if depth > 12 or id(j) in seen: return False
    seen.add(id(j))
    if j.op in ('br', 'switch', 'ret', 'resume', 'atomicrmw', 'cmpxchg'): return True
    if j.op in ('call', 'invoke'):
        m = j.model or ''
        if j.model is None or j.ind: return True
        if m.startswith('llvm.lifetime') or m.startswith('llvm.dbg'): return False
        if SHOWN.search(m) and any(o[0] == 'g' and o[1] in STREAMS for o in T.root(j.a[0])): return False     # telling the value is no effect
        if not present and ABSENT.search(m): return False
        if PEEK.search(m): return any(reaches(T, k, depth + 1, seen, present) for k in users(T, j.d)) if j.d is not None else False
        c = re.search(r'::(\w+)::\1$', m)
        if c and len(j.a) > 1 or m.endswith('::operator=') and len(j.a) > 1 or m.startswith(('llvm.memcpy', 'llvm.memmove')):
            # a copy: is the copy looked at
            objs = T.root(j.a[0])
            if objs and all(o[0] == 'a' for o in objs): return any(looked(T, j, o, depth + 1, seen, present) for o in objs)
            return member_read(T, j.a[0])
        return True
    if j.op == 'store':
        objs = T.root(j.a[1])
        if objs and all(o[0] == 'a' for o in objs): return any(looked(T, j, o, depth + 1, seen, present) for o in objs)
        return member_read(T, j.a[1])
    if j.d is not None: return any(reaches(T, k, depth + 1, seen, present) for k in users(T, j.d))
    return False

def member_read(T, a):
    """is the member of a class of the project this pointer denotes looked at anywhere in the program (True when it is no such member)"""
    g = T.defs.get(a[1]) if a[0] == 'v' else None
    if g is None or g.op != 'getelementptr' or not g.sty or not g.off or g.ix and any(v[0] == 'v' for v, _ in g.ix): return True
    own = T.p.di.get(re.sub(r'^%(class|struct)\.|"|^%"(class|struct)\.', '', g.sty))
    if own is None or '..' in (own.get('file') or '') or '/c++/' in (own.get('file') or '') or '/boost/' in (own.get('file') or ''): return True
    tab = T.p.__dict__.setdefault('_members', None)
    if tab is None: tab = T.p._members = members(T.p)
    # another class may hold the same bytes (a base, an enclosing object): only geps that name the class itself decide
    return (g.sty, g.off) in tab

def members(p):
    """{(class, offset)} of the members looked at: loaded, or handed to anything but a constructor, destructor or assignment that fills them"""
    out = set()
    for f in p.funcs.values():
        if not f.proj: continue
        gs = {}
        for i in f.insts():
            if i.op == 'getelementptr' and i.sty and i.off: gs[i.d] = (i.sty, i.off)
        if not gs: continue
        for i in f.insts():
            for q, a in enumerate(i.a or []):
                if not (isinstance(a, tuple) and a[0] == 'v' and a[1] in gs): continue
                if i.op == 'store' and q == 1: continue
                if i.op in ('call', 'invoke') and q == 0 and i.model and (re.search(r'::~|::operator=$', i.model) or re.search(r'::(\w+)::\1$', i.model)): continue
                out.add(gs[a[1]])
            for a, _ in i.inc:
                if a[0] == 'v' and a[1] in gs: out.add(gs[a[1]])
    return out

def users(T, d):
    u = getattr(T, '_users', None)
    if u is None:
        u = T._users = {}
        for i in T.f.insts():
            for a in list(i.a or []) + [x for x, _ in i.inc] + [x for x in (i.ind,) if x]+ [x for x, _ in (i.ix if i.op == 'getelementptr' and i.ix else [])]:
                if isinstance(a, tuple) and a and a[0] == 'v': u.setdefault(a[1], []).append(i)
    return u.get(d, [])

def looked(T, i, obj, depth, seen, present):
    us = live(T, i, obj)
    for j in us:
        if j.op == 'load' and j.d is not None:
            if any(reaches(T, k, depth + 1, seen, present) for k in users(T, j.d)): return True
        elif j.op == 'store' and j.a[0][0] == 'v' and obj in T.root(j.a[0]):
            os_ = T.root(j.a[1])
            if any(o != obj for o in os_): return True
        elif reaches(T, j, depth + 1, seen, present): return True
    return False

def effects(R):
    n = 0
    for t, p, f in tools():
        if p is None: R.ob('an option is looked at', t, None, t, 'does not compile'); continue
        T = Table(t, p, f); n += 1
        R.saw('tools', t); R.saw('options', *['%s --%s' % (t, o[1]) for o in T.opts])
        note = [i for i in f.calls() if i.model == 'boost::program_options::notify']
        # names
        seen = {}
        for i, lo, sh, var, sem, mods in T.opts:
            for k in (lo, sh):
                if not k: continue
                key = ('--' if k is lo else '-') + k
                if key in seen: R.ob('names of options are distinct', '%s %s' % (t, key), False, i.loc(), 'listed twice: boost refuses the command line as ambiguous')
                seen[key] = i
        R.ob('names of options are distinct', t, True)
        # variables
        by = {}
        for o in T.opts:
            if o[3] is not None: by.setdefault(o[3], []).append(o)
        for var, os_ in by.items():
            if len(os_) > 1: R.ob('an option has a variable of its own', '%s --%s' % (t, os_[1][1]), False, os_[1][0].loc(), 'stored into the variable of --%s: one of the two has no effect of its own' % os_[0][1])
        qs = T.queries(); asked = {l for _, l in qs}
        for i, lo, sh, var, sem, mods in T.opts:
            sub = '%s --%s' % (t, lo)
            if sem is None:
                q = [j for j, l in qs if l in (lo, sh)]
                if any(l is None for l in asked): R.ob('an option is looked at', sub, True if q else None, i.loc(), 'asked for by a name that is not a literal'); continue
                if not q: R.ob('an option is looked at', sub, False, i.loc(), 'listed, but never asked for'); continue
                ok = any(j.d is not None and any(reaches(T, k) for k in users(T, j.d)) for j in q)
                R.ob('an option is looked at', sub, ok or False, i.loc(), '' if ok else 'asked for, but nothing depends on the answer')
            else:
                q = [j for j, l in qs if l in (lo, sh)]
                fetched = [j for j in q if j.model.endswith('operator[]') or j.model.endswith('::at')]
                if var is None:
                    if fetched or any(l is None for l in asked): R.ob('an option is looked at', sub, True, i.loc())
                    else: R.ob('an option is looked at', sub, False if sem.a and sem.a[0][0] == 'n' or not sem.a else None, i.loc(), 'its value is bound to nothing and never fetched')
                    continue
                if not note: R.ob('an option is looked at', sub, None if not fetched else True, i.loc(), 'notify is never called: the variable keeps its value') if fetched else R.ob('an option is looked at', sub, False, i.loc(), 'notify is never called: the variable never gets the value'); continue
                us = [u for k in note for u in live(T, k, var)]
                sees = set()
                def seen_use(u):
                    if u.op == 'load': return u.d is None or any(reaches(T, k, 0, sees, False) for k in users(T, u.d))
                    if u.op == 'store' and var in T.root(u.a[0]): return True
                    return reaches(T, u, 0, sees, False)
                ok = bool(fetched) or any(seen_use(u) for u in us)
                R.ob('an option is looked at', sub, True if ok else False, i.loc(), '' if ok else 'after notify the variable is at most shown or tested for being empty: nothing depends on its value' if us else 'the variable is not looked at after notify')
            for m in mods:
                if m.model.endswith('::default_value') and sem is not None and sem.model.endswith('bool_switch'):
                    c = constant(T, m)
                    if c is not None: R.ob('a switch can be switched', sub, c == 0, m.loc(), 'the default is already true: the switch changes nothing' if c else '')
        for j, l in qs:
            if l is None: continue
            known = l in {o[1] for o in T.opts} | {o[2] for o in T.opts if o[2]} or l.startswith('-')
            # a short name alone is not a key of the map
            if l not in {o[1] for o in T.opts}: R.ob('what is asked for is an option', '%s "%s"' % (t, l), None if T.odd else False, j.loc(), 'no option of this name is listed: the answer is always no')
            else: R.ob('what is asked for is an option', '%s "%s"' % (t, l), True)
    if not n: raise AnalysisBroken('no option table found')

def passed_over(R):
    """a switch is not looked at when another one, about something else, is given"""
    for t, p, f in tools():
        if p is None: continue
        T = Table(t, p, f); B = f.blocks
        note = [i for i in f.calls() if i.model == 'boost::program_options::notify']
        sw = []
        for i, lo, sh, var, sem, mods in T.opts:
            if sem is None or var is None or not sem.model.endswith('bool_switch') or not note: continue
            us = [u for k in note for u in live(T, k, var)]
            if not us or any(u.op != 'load' for u in us): continue
            text = next((l for a in i.a[2:] if (l := lit(p, a))), '')
            sw.append((lo, text, us, i))
        def reach(b, seen=None):
            seen = set(); w = [b]
            while w:
                q = w.pop()
                if q in seen: continue
                seen.add(q); w += B[q][-1].succs()
            return seen
        for lo, text, us, i in sw:
            bad = None
            for la, ta, ua, ia in sw:
                if la == lo or set(la.split('-')) & set(lo.split('-')) or text.startswith(ta) or ta.startswith(text): continue
                for u in ua:
                    for w in (q for k in users(T, u.d) for q in ([k] if k.op == 'br' else users(T, k.d) if k.op == 'trunc' else ())):
                        if w.op != 'br' or len(w.bb) != 2: continue
                        on, off = reach(w.bb[0]), reach(w.bb[1])
                        if any(x.block in on for x in us) or not all(x.block in off for x in us): continue
                        # both ways go on to the same work
                        if any(j.op in ('call', 'invoke') and j.model and any(g.proj for g in p.find(j.model)) for b in on & off for j in B[b]): bad = (la, w)
            R.ob('a switch counts beside other ones', '%s --%s' % (t, lo), not bad, bad[1].loc() if bad else i.loc(), 'when --%s is given it is passed over' % bad[0] if bad else '')

def constant(T, m):
    """the constant a reference argument refers to, when it is one"""
    if len(m.a) < 2: return None
    if m.a[1][0] == 'c': return int(m.a[1][2])
    for o in T.root(m.a[1]):
        st = [i for i in T.f.insts() if i.op == 'store' and T.root(i.a[1]) == {o}]
        if len(st) == 1 and st[0].a[0][0] == 'c': return int(st[0].a[0][2])
        # stores to the same slot are reused for different temporaries: the last one before the call
        same = [i for i in st if i.block == m.block and i.idx < m.idx]
        if same and same[-1].a[0][0] == 'c': return int(same[-1].a[0][2])
    return None

TOUCH = re.compile(r'^std::basic_(of|f)stream::(basic_\w+|open)$|^boost::filesystem::(remove|remove_all|rename|create_director(y|ies)|copy_file|copy|resize_file)$|^std::filesystem::(remove|remove_all|rename|create_director(y|ies)|copy_file|copy|resize_file)$|^(remove|rename|unlink|rmdir|mkdir|truncate|creat|fopen|freopen|ftruncate|system)$')

def opens(ev):
    m = ev.model
    if re.search(r'fstream::basic_\w+$', m): return len(ev.args) > 1
    return True

def refusal(R):
    n = 0
    for t, p, f in tools():
        if p is None: R.ob('a command line that cannot be parsed is an error', t, None, t, 'does not compile'); continue
        n += 1; f.load(); R.saw('tools', t)
        ps = [i for i in f.calls() if i.model and re.match(r'boost::program_options::(parse_command_line|basic_command_line_parser::run|store)$', i.model)]
        if not ps: R.ob('a command line that cannot be parsed is an error', t, None, '%s:%s' % (f.rel, f.line), 'no parser called'); continue
        e = Engine(f, keep=lambda ev: ev.kind == 'unwind' or ev.kind == 'call' and bool(TOUCH.search(ev.model)) and opens(ev), max_states=20000, width=12, follow=lambda i: bool(i.model and re.match(r'boost::program_options::(parse_command_line|basic_command_line_parser::run|store)$', i.model)))
        pb = {i.block for i in ps}
        e.quiet = {h for h in e.heads if not (e.loop[h] & pb if isinstance(e.loop[h], set) else set(e.loop[h]) & pb)}
        e.partition = lambda st: failed(st)
        xs = e.run(); bad = {}; k = 0
        for x in xs:
            evs = x.events(); u = [a for a, ev in enumerate(evs) if ev.kind == 'unwind']
            if not u: continue
            k += 1
            for ev in evs:
                if ev.kind == 'call' and TOUCH.search(ev.model): bad[('nothing is touched before the command line is understood', ev.inst.loc())] = '%s on a path on which the command line is refused' % ev.model
            loc = evs[u[0]].inst.loc()
            if x.end == 'ret':
                v = x.val
                r = x.facts.range(v) if v is not None and isinstance(v, tuple) and not isp(v) else None
                if isc(v) and v[2] == 0: bad[('a command line that cannot be parsed is an error', loc)] = 'the refusal ends with status 0'
                elif isc(v) and v[2] & 255 == 0: bad[('a command line that cannot be parsed is an error', loc)] = 'the refusal ends with status 0'
            elif x.end == 'exit':
                v = x.val
                if v is not None and isc(v) and v[2] & 255 == 0: bad[('a command line that cannot be parsed is an error', loc)] = 'the refusal ends with exit(0)'
            elif x.end == 'back': bad[('a command line that cannot be parsed is an error', loc)] = 'the refusal is followed by another round'
        # going on as if all was well: the code behind a successful parse is reached
        for rule in ('a command line that cannot be parsed is an error', 'nothing is touched before the command line is understood'):
            hs = [(l, m) for (r, l), m in bad.items() if r == rule]
            for l, m in hs: R.ob(rule, t, False, l, m)
            if not hs: R.ob(rule, '%s (%d paths)' % (t, k), True if k else None, ps[0].loc(), '' if k else 'no path refuses')
    if not n: raise AnalysisBroken('no tool parses a command line')

def failed(st):
    t = st.trace; n = 0
    while t is not None:
        if t[1].kind == 'unwind': return (id(t[1].inst),)
        t = t[0]
    return ()
