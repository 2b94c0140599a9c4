"""Files that are deleted, truncated or overwritten by the converter and the merger."""
import re
from ir import program
from absint import *
from report import where, AnalysisBroken
from g_files import reach, opens_by_name, USE
from g_queue import truth

CONV, MERGE = 'pwned-converter-cli', 'pwned-merger-cli'
BFS = 'boost::filesystem::'
DELETE = re.compile(r'^boost::filesystem::(remove|remove_all|rename|resize_file)$|^std::filesystem::(remove|remove_all|rename|resize_file)$|^(unlink|rename|truncate|ftruncate|rmdir|unlinkat|renameat)$')
OPEN = re.compile(r'^std::basic_(o|)fstream::(basic_(o|)fstream|open)$')
EXISTS = re.compile(r'^(boost|std)::filesystem::exists$')
OTHERQ = re.compile(r'filesystem::(status|symlink_status|is_regular_file|file_size|is_directory|is_empty|equivalent)$|^(access|stat|lstat|faccessat)$|ifstream::(basic_ifstream|open|is_open)$')
CONVERT = re.compile(r'filesystem::path::(path|string|native|c_str|generic_string)$|basic_string::(basic_string|c_str|data)$|filesystem::(absolute|canonical)$')
VEC = re.compile(r'^std::vector::(push_back|emplace_back|insert|emplace|vector|operator=|assign|begin|cbegin|end|swap)$')
INPUT = re.compile(r'operator>>$|^std::getline$|^getchar$|istream::get$|^f?getc$|^fgets$')
LOCK = re.compile(r'(unique_lock|lock_guard|scoped_lock)::(unique_lock|lock_guard|scoped_lock)$')
UNLOCK = re.compile(r'(unique_lock::unlock|::~(unique_lock|lock_guard|scoped_lock))$')
NAMES = re.compile(r'unique_path$|^mkstemp|^tmpnam$|^std::tmpnam$|uuid')

def keep(ev):
    if ev.kind == 'loop': return True
    if ev.kind == 'store': return isp(ev.args[0]) and ev.args[0][1] is not None and ev.args[0][1][0] == 'heap' and isc(ev.args[1]) and width(ev.args[1]) in (1, 8)
    if ev.kind != 'call': return False
    m = ev.model
    return bool(DELETE.search(m) or OPEN.search(m) or m == 'fopen' or EXISTS.search(m) or OTHERQ.search(m) or VEC.search(m) or LOCK.search(m) or UNLOCK.search(m)
                or m.endswith(('mutex::lock', 'mutex::unlock', 'unique_lock::lock')) or INPUT.search(m) or NAMES.search(m))

def mutes(i):
    """opens a file for writing, or deletes one"""
    if i.op not in ('call', 'invoke') or not i.model: return False
    if DELETE.search(i.model): return not i.model.startswith('std::remove')
    return OPEN.search(i.model) and len(i.a) >= 2 or i.model == 'fopen' or i.model == 'remove'

def answers(e, facts, flags=False):
    """what is known about files that exist and about answers of the user: states that differ in this are kept apart"""
    out = []
    for d in (facts.known, facts.rng):
        for t, v in d.items():
            for q in symbols(t):
                z = q[2]
                if isinstance(z, tuple) and len(z) == 2 and z[0] == 'fn' and isinstance(z[1], int) and isinstance(e.defs[z[1]][0], str) and EXISTS.search(e.defs[z[1]][0]) or width(q) == 8 and typed(e, q) or flags and isinstance(z, tuple) and z[0] == 'init' and width(q) in (1, 8): out.append((t, v)); break
    return frozenset(out)

def analysed(f, split=False):
    def has(e, b): return any(mutes(i) or i.op in ('call', 'invoke') and i.model and (EXISTS.search(i.model) or NAMES.search(i.model) or VEC.search(i.model)) for k in b for i in e.f.blocks[k])
    why = ''
    for kw in (dict(width=6), dict(width=4, cut=1), dict(width=3, cut=2)):
        c = kw.pop('cut', 0)
        e = Engine(f, keep=keep, max_states=15000, **kw)
        if split: e.partition = lambda st, e=e: answers(e, st.facts, split == 2)
        outer = {h for h in e.heads if not any(h in b for g, b in e.loop.items() if g != h)}
        e.quiet = {h for h in e.heads if not has(e, e.loop[h])}
        if c: e.cut = {h for h in outer if any(i.op in ('call', 'invoke') and i.model and (OPEN.search(i.model) or NAMES.search(i.model)) for k in e.loop[h] for i in e.f.blocks[k])}
        if c == 2: e.cut |= outer
        try: return e, e.run()
        except TooBig as t: why = str(t)
    return None, why

def outermost(p, pred):
    """functions with an instruction pred is true of that are not part of another one"""
    fs = []
    for f in p.funcs.values():
        if f.proj and any(pred(i) for i in f.insts()): fs.append(f)
    inner = set()
    for f in fs: inner |= reach(p, f) - {f.name}
    return [f for f in fs if f.name not in inner or f.model == 'main'], fs

# ---- where a name comes from
def canon(e, t):
    """the text a path or string object was made from, through conversions only"""
    for _ in range(12):
        if isinstance(t, tuple) and len(t) > 2 and t[0] == 'p' and isinstance(t[1], tuple) and t[1][0] == 'fn' and t[2] == 0: k = t[1][1]
        elif isinstance(t, tuple) and t[0] == 'st0' and isinstance(t[1], tuple) and t[1][0] == 'fn' and t[2] == 0 and len(t) == 3:
            d = e.defs[t[1][1]]
            if isinstance(d[0], str) and CONVERT.search(d[0]): t = first(d); continue
            return t
        elif isinstance(t, tuple) and t[0] == 's' and isinstance(t[2], tuple) and t[2][0] == 'fn': k = t[2][1]
        else: return t
        d = e.defs[k]
        if d[0] in ('st', 'val', 'moved') and isinstance(d[1], int):
            q = e.defs[d[1]]
            if not isinstance(q[0], str) or not CONVERT.search(q[0]): return t
            c = [x for x in q[1] if isinstance(x, tuple) and x and x[0] == 'c']
            n = c[1] if d[0] == 'st' and len(c) > 1 else c[0] if c else None
            if n is None: return t
            t = n[1]; continue
        if isinstance(d[0], str) and CONVERT.search(d[0]):
            n = first(d)
            if n is None: return t
            t = n; continue
        return t
    return t
def first(d):
    c = [x for x in d[1] if isinstance(x, tuple) and x and x[0] == 'c']
    return c[0][1] if c else None

def leaves(e, t):
    """(models the text was made with, opaque?, element containers)"""
    seen = set(); ms = set(); opaque = [False]
    todo = [t]
    while todo:
        q = todo.pop()
        if not isinstance(q, tuple) or q in seen: continue
        seen.add(q)
        if len(q) == 2 and q[0] == 'fn' and isinstance(q[1], int):
            d = e.defs[q[1]]
            if isinstance(d[0], str): ms.add(d[0])
            todo.append(d); continue
        if q and q[0] in ('lc', 'join', 'phi'): opaque[0] = True
        todo += [x for x in q if isinstance(x, tuple)]
        todo += [('fn', x) for x in q[1:2] if q and q[0] in ('st', 'val', 'moved', 'out') and isinstance(x, int)]
    return ms, opaque[0]

def content(ev, k):
    """content of argument k of a call when it was made"""
    if not ev.info: return None
    n = 0
    c = [x for x in ev.info if isinstance(x, tuple)]
    skip = 1 if ev.inst.pa.get(0, (None,))[0] == 'sret' else 0
    return c[k - skip][1] if k - skip < len(c) and c[k - skip][0] == 'c' else None

def name_term(e, ev, k):
    c = content(ev, k)
    if c is not None and c[0] == 'lit': return c
    a = ev.args[k]
    if isp(a) and a[1] is not None and a[1][0] == 'cstr': return canon(e, a[1][1])
    if isp(a) and a[1] is not None and a[1][0] == 'fn' and a[2] == 0:
        t = canon(e, a)
        if t != a: return t
    return canon(e, c) if c is not None else a

def held(evs):
    """[(index of the locking event, mutex)] held at each event"""
    cur = []; out = []
    for k, ev in enumerate(evs):
        if ev.kind == 'call':
            m = ev.model
            if LOCK.search(m) and len(ev.args) > 1 and isp(ev.args[1]): cur = cur + [(k, ev.args[0], ev.args[1])]
            elif UNLOCK.search(m): cur = [h for h in cur if h[1] != ev.args[0]]
            elif m.endswith('mutex::lock'): cur = cur + [(k, ev.args[0], ev.args[0])]
            elif m.endswith('mutex::unlock'): cur = [h for h in cur if h[1] != ev.args[0]]
        out.append(cur)
    return out

def output_mode(ev):
    """does the open truncate or create?"""
    if ev.model == 'fopen': return None
    n = 2
    if len(ev.args) <= n: return True
    a = ev.args[n]
    if not isc(a): return None
    if a[2] & 1 and not a[2] & 32: return None    # app: keeps what is there
    if a[2] & 8 and not a[2] & (16 | 32): return None
    return True

# ---------------------------------------------------------------- converter
def converter(R):
    p = program(CONV)
    top, all_ = outermost(p, mutes)
    if not top: raise AnalysisBroken('the converter opens no output file')
    for f in top:
        R.saw('functions', 'pwned-converter: ' + f.dem[:100])
        e, r = analysed(f, True)
        if e is None: e, r = analysed(f)
        if e is None: R.ob('output-name', '%s: files it writes' % f.model, None, where(f), r); continue
        for x in r:
            evs = x.events(); hs = None
            for k, ev in enumerate(evs):
                if ev.kind != 'call': continue
                if DELETE.search(ev.model) or ev.model == 'remove':
                    t = name_term(e, ev, 0); ms, op = leaves(e, t)
                    R.ob('no-delete', '%s: deletes only files of its own' % f.model, None if op or any(NAMES.search(m) for m in ms) else False, ev.loc(), 'a file is deleted or renamed that this run did not create'); continue
                if not (OPEN.search(ev.model) and len(ev.args) >= 2 and isp(ev.args[1]) or ev.model == 'fopen'): continue
                if not output_mode(ev): R.ob('output-name', '%s: a file opened for writing did not exist' % f.model, None, ev.loc(), 'mode'); continue
                R.saw('sites', ev.loc())
                if hs is None: hs = held(evs)
                v, why, vl, whyl = fresh(e, x, evs, k, hs, f, p)
                R.ob('output-name', '%s: a file opened for writing did not exist' % f.model, v, ev.loc(), why)
                R.ob('name-choice', '%s: two conversions never choose the same file' % f.model, vl, ev.loc(), whyl)

def fresh(e, x, evs, k, hs, f, p):
    ev = evs[k]; t = name_term(e, ev, 0 if ev.model == 'fopen' else 1)
    ms, op = leaves(e, t)
    if any(NAMES.search(m) for m in ms): return None, 'random name', None, 'random name'
    asked = [(j, o) for j, o in enumerate(evs[:k]) if o.kind == 'call' and EXISTS.search(o.model)]
    imp = any(m[0] != 'hull' for m in x.imp)
    free = [(j, o) for j, o in asked if o.ret is not None and truth(x.facts, o.ret) is False]
    same = [(j, o) for j, o in free if canon(e, content(o, 0)) == t]
    if same:
        j, o = same[-1]
        both = [h for h in hs[j] if h in hs[k]]
        glob = [h for h in both if h[2][1] is not None and h[2][1][0] == 'glob']
        if glob: return True, '', True, ''
        if not both: return True, '', False if not imp else None, 'the name is found unused and the file opened without a lock held from one to the other'
        own = [h for h in both if own_mutex(e, p, f, h[2])]
        return True, '', False if len(own) == len(both) and not imp else None, 'the lock that is held belongs to this conversion alone'
    if any(o.kind == 'call' and OTHERQ.search(o.model) for o in evs[:k]) and not asked: return None, 'asked in another way', None, ''
    if not asked: return (None if imp else False), 'a file is opened for writing without looking whether it exists', None, ''
    if not free:
        yes = [o for j, o in asked if canon(e, content(o, 0)) == t and truth(x.facts, o.ret) is True]
        if yes or imp: return (False if yes and not imp else None), 'a file known to exist is overwritten', None, ''
    # the object asked about has changed since
    nt = name_object(e, evs, k)
    for j, o in free:
        if nt is not None and e.ident(o.args[0]) == nt and not imp: return False, 'the name has changed since it was found unused', None, ''
    if not imp and not any(o.kind == 'call' and OTHERQ.search(o.model) for o in evs[:k]):
        near = False
        for j, o in asked:
            a = canon(e, content(o, 0))
            if a is None: near = True; continue
            for w in (chain(e, ('x', t), a), chain(e, ('x', a), t)):
                if w is not None and not any(JOINED.search(m) for m in w): near = True
        if not near: return False, 'the file opened is not the one that was found unused', None, ''
    return None, 'a name of another origin', None, ''

def name_object(e, evs, k):
    """the path object a file name was taken from"""
    ev = evs[k]; a = ev.args[0 if ev.model == 'fopen' else 1]
    for o in reversed(evs[:k]):
        if o.kind == 'call' and CONVERT.search(o.model) and o.ret == a: return e.ident(o.args[0])
    t = name_term(e, ev, 0 if ev.model == 'fopen' else 1)
    if isinstance(t, tuple) and t[0] == 's' and isinstance(t[2], tuple) and t[2][0] == 'lc' and isinstance(t[2][3], tuple) and t[2][3][0] == 'st': return t[2][2], t[2][3][1]
    return None

def own_mutex(e, p, f, m):
    k = e.ident(m)
    if k is None: return False
    if k[0][0] == 'alloca' or k[0] == ('arg', 0): return True
    b = k[0]
    if b[0] == 'init' and b[1] == ('arg', 0):
        cls = f.model.rsplit('::', 1)[0]
        for g in p.funcs.values():
            if g.proj and g.model == cls + '::' + cls.rsplit('::', 1)[-1]:
                c = Engine(g, keep=lambda ev: False, max_states=8000, width=4)
                try: r = c.run()
                except TooBig: return False
                cell = [x.mem.get(('arg', 0), {}).get(b[2]) for x in r if x.end == 'ret']
                def owned(x):
                    q = x.mem.get(('arg', 0), {}).get(('st', b[2]))
                    seen = set(); todo = [q[1]] if q else []
                    while todo:
                        z = todo.pop()
                        if not isinstance(z, tuple) or z in seen: continue
                        seen.add(z)
                        if z and (z[0] == 'heap' or isinstance(z[0], str) and re.search(r'make_(shared|unique)$', z[0])): return True
                        if len(z) == 2 and z[0] in ('fn', 'st') and isinstance(z[1], int): todo.append(c.defs[z[1]])
                        if len(z) == 3 and z[0] in ('st', 'val', 'moved') and isinstance(z[1], int): todo.append(c.defs[z[1]])
                        todo += [w for w in z if isinstance(w, tuple)]
                    return False
                if cell and all(owned(x) for x in r if x.end == 'ret'): return True
                if cell and all(q is not None and isp(q[1]) and q[1][1] is not None and q[1][1][0] == 'heap' for q in cell): return True
    return False

# ---------------------------------------------------------------- merger
def merger(R):
    p = program(MERGE)
    top, all_ = outermost(p, mutes)
    if not top: raise AnalysisBroken('the merger opens no output file')
    main = p.one('main')
    R.saw('functions', 'pwned-merger: main')
    em, rm = analysed(main, True)
    if em is None: em, rm = analysed(main)
    if em is None: R.ob('overwrite', 'pwned-merger: main', None, where(main), rm); return
    first_answer(R, em, rm, main)
    members = set(); flags = {}
    for f in top:
        if f is main: e, r = em, rm
        else:
            R.saw('functions', 'pwned-merger: ' + f.dem[:100])
            e, r = analysed(f, 2)
            if e is None: e, r = analysed(f)
            if e is None: R.ob('overwrite', '%s: files it writes' % f.model, None, where(f), r); continue
        for x in r:
            evs = x.events()
            for k, ev in enumerate(evs):
                if ev.kind != 'call': continue
                if DELETE.search(ev.model) or ev.model == 'remove':
                    R.saw('sites', ev.loc())
                    if f is main: deleted(R, e, x, evs, k, main, rm)
                    else: guarded_delete(R, e, x, ev, f, em, rm, main)
                elif OPEN.search(ev.model) and len(ev.args) >= 2 and isp(ev.args[1]) or ev.model == 'fopen':
                    R.saw('sites', ev.loc())
                    if not output_mode(ev): R.ob('overwrite', '%s: what it overwrites' % f.model, None, ev.loc(), 'mode'); continue
                    t = name_term(e, ev, 0 if ev.model == 'fopen' else 1)
                    if f is main: target(R, e, x, t, ev.loc(), main)
                    elif t[0] == 'st0' and (t[1][0] == 'init' or t[1] == ('arg', 0)): members.add((t[2], e.ident(ev.args[0])[1] if ev.model != 'fopen' else None, ev.loc()))
                    else: R.ob('overwrite', '%s: what it overwrites' % f.model, None, ev.loc(), 'a name of unknown origin')
    # the names main hands to the operations
    for off, soff, loc in members:
        n = 0
        for x in rm:
            for base, m in x.mem.items():
                if base[0] != 'heap' or ('st', off) not in m or soff is not None and ('st', soff) not in m: continue
                made = [ev for ev in x.events() if ev.kind == 'call' and OPEN.search(ev.model) and isp(ev.args[0]) and em.ident(ev.args[0]) == (base, soff)]
                if not made: continue
                n += 1
                t = canon(em, m[('st', off)][1])
                target(R, em, x, t, made[0].loc(), main)
        if not n: R.ob('overwrite', 'the file an operation writes', None, loc, 'where the name comes from was not found')

def target(R, e, x, t, loc, main):
    """t is the name of a file that will be truncated: unused, or the user said yes"""
    what = 'pwned-merger: the output file is new, or the user agreed'
    ms, op = leaves(e, t)
    if any(NAMES.search(m) for m in ms): R.ob('overwrite', 'pwned-merger: intermediate files have new names', True, loc); return
    asked = [(k, d) for k, d in enumerate(e.defs) if isinstance(d[0], str) and EXISTS.search(d[0]) and first(d) is not None and canon(e, first(d)) == t]
    imp = any(m[0] != 'hull' for m in x.imp)
    val = None
    for k, d in asked:
        v = x.facts.decide(S(1, ('fn', k)))
        if v is not None: val = v
    if op and not asked:
        R.ob('overwrite', what, None, loc, 'the name is not understood'); return
    if not asked:
        ways = [chain(e, d, t) for d in e.defs if isinstance(d[0], str) and EXISTS.search(d[0])]
        if any(w and any(JOINED.search(m) for m in w) for w in ways) and not any(w and not any(JOINED.search(m) for m in w) for w in ways) and not any(isinstance(d[0], str) and OTHERQ.search(d[0]) and not d[0].endswith('equivalent') and related(e, d, t) for d in e.defs):
            R.ob('overwrite', what, False, loc, 'whether it exists is asked about another name'); return
        if any(isinstance(d[0], str) and (OTHERQ.search(d[0]) or EXISTS.search(d[0])) and related(e, d, t) for d in e.defs): R.ob('overwrite', what, None, loc, 'asked in another way'); return
        R.ob('overwrite', what, False, loc, 'a file is overwritten without looking whether it exists'); return
    if val is False: R.ob('overwrite', what, True, loc); return
    if val is None: R.ob('overwrite', what, None, loc, 'paths are joined'); return
    v, why = agreed(e, x)
    R.ob('overwrite', what, v, loc, why)

JOINED = re.compile(r'operator[+/]$|operator/=$|operator\+=$|::(append|concat|replace_extension|replace_filename|substr|parent_path|remove_filename)$')
def related(e, d, t):
    return bool(chain(e, d, t))

def chain(e, d, t):
    """the functions that lead from the name t to the question d"""
    seen = set(); todo = [(d, ('',))]
    while todo:
        q, via = todo.pop()
        if q == t: return via
        if not isinstance(q, tuple) or q in seen: continue
        seen.add(q)
        if q and isinstance(q[0], str) and '::' in q[0]: via = via + (q[0],)
        if len(q) == 2 and q[0] == 'fn' and isinstance(q[1], int): todo.append((e.defs[q[1]], via))
        if q and isinstance(q[0], str) and q[0].endswith('operator=') and len(q) > 1 and isinstance(q[1], tuple): q = q[:1] + (q[1][1:],) + q[2:]
        todo += [(z, via) for z in q if isinstance(z, tuple)]
        todo += [(e.defs[z], via) for z in q[1:2] if q and q[0] in ('st', 'val', 'moved') and isinstance(z, int)]
    return None

def typed(e, sym):
    """is the symbol something read from the terminal?"""
    s = sym[2] if sym[0] == 's' else sym
    seen = set(); todo = [s]
    while todo:
        q = todo.pop()
        if not isinstance(q, tuple) or q in seen: continue
        seen.add(q)
        if q and q[0] in ('getline', 'line'): return True
        if q and isinstance(q[0], str) and INPUT.search(q[0]): return True
        if len(q) == 2 and q[0] == 'fn' and isinstance(q[1], int): todo.append(e.defs[q[1]])
        if q and q[0] in ('st', 'out', 'val', 'moved') and len(q) > 1 and isinstance(q[1], int): todo.append(e.defs[q[1]])
        todo += [z for z in q if isinstance(z, tuple)]
    return False

def agreed(e, x):
    syms = set()
    for t in list(x.facts.known) + list(x.facts.rng): syms |= set(symbols(t))
    ans = [s for s in syms if typed(e, s)]
    chars = [s for s in ans if width(s) in (8, 32)]
    yes = [s for s in chars if x.facts.decide(icmp('eq', s, I(width(s), ord('y'))))]
    if yes: return True, ''
    if any(width(s) == 1 for s in ans): return None, 'the answer is compared as a text'
    if chars: return False, "an answer other than 'y' lets the file be overwritten"
    if ans: return None, 'the answer is not understood'
    return False, 'an existing file is overwritten without asking'

def first_answer(R, e, r, main):
    """the answer is not taken as given when none can be read"""
    done = set()
    for x in r:
        for ev in x.events():
            if ev.kind != 'call' or not ev.model.endswith('operator>>') or id(ev.inst) in done or not ev.info: continue
            done.add(id(ev.inst))
            c = [q for q in ev.info if isinstance(q, tuple) and q[0] == 'c' and len(q) > 2 and q[2] is not None]
            for q in c:
                if isc(q[2]) and width(q[2]) == 8: R.ob('overwrite', 'pwned-merger: no answer is not yes', q[2][2] != ord('y'), ev.loc(), 'the file is overwritten when no answer can be read')

def elements(e, r, V, seen=()):
    """contents put into the vector V: [(term, loc)], complete?"""
    out = {}; full = True
    if V in seen: return out, True
    for x in r:
        evs = x.events()
        for k, ev in enumerate(evs):
            if ev.kind != 'call' or not VEC.search(ev.model) or not ev.args or ev.args[0] != V: continue
            n = ev.model.rsplit('::', 1)[-1]
            if n in ('push_back', 'emplace_back') and len(ev.args) > 1:
                c = content(ev, 1)
                out[(c, ev.loc())] = 1
            elif n in ('vector', 'operator=', 'assign', 'swap', 'insert', 'emplace') and len(ev.args) > 1:
                srcs = {o.args[0] for o in evs[:k] if o.kind == 'call' and o.model.endswith(('::begin', '::cbegin')) and any(o.ret == a for a in ev.args[1:])}
                srcs |= {a for a in ev.args[1:] if isp(a) and a[1] is not None and a[1][0] == 'alloca'}
                if not srcs: full = False
                for s in srcs:
                    o, f2 = elements(e, r, s, seen + (V,)); out.update(o); full = full and f2
    return out, full

def deleted(R, e, x, evs, k, main, r):
    ev = evs[k]; what = 'pwned-merger: only intermediate files are deleted'
    t = name_term(e, ev, 0); ms, op = leaves(e, t)
    if any(NAMES.search(m) for m in ms): R.ob('no-delete', what, True, ev.loc()); return
    # an element of a container
    if t[0] == 'st0' and isinstance(t[1], tuple) and t[1][0] == 'fn':
        d = e.defs[t[1][1]]
        it = [q for q in d[1] if isinstance(q, tuple) and q[0] == 'c']
        heads = [(j, o) for j, o in enumerate(evs[:k]) if o.kind == 'loop']
        begins = [o for o in evs[:k] if o.kind == 'call' and o.model.endswith(('::begin', '::cbegin'))]
        V = None
        if d[0].endswith(('operator*', 'operator->')) and begins:
            last = heads[-1][0] if heads else k
            b = [o for j, o in enumerate(evs[:last]) if o in begins]
            V = b[-1].args[0] if b else None
        elif d[0].startswith('std::vector::'): V = None
        if V is None: R.ob('no-delete', what, None, ev.loc(), 'which files these are was not found'); return
        els, full = elements(e, r, V)
        if not els: R.ob('no-delete', what, None, ev.loc(), 'what the list holds was not found'); return
        for (c, loc), _ in els.items():
            if c is None: R.ob('no-delete', what, None, loc, 'an element not understood'); continue
            t2 = canon(e, c); m2, o2 = leaves(e, t2)
            if any(NAMES.search(m) for m in m2): R.ob('no-delete', what, True, ev.loc())
            else: R.ob('no-delete', what, None if o2 else False, loc, 'a file is noted down for deletion that is not an intermediate file')
        return
    R.ob('no-delete', what, None if op else False, ev.loc(), 'a file is deleted that is not an intermediate file')

COUNTS = re.compile(r'^std::(vector|list|deque|map|set|multimap|unordered_map|unordered_set)::(size|empty)$|variables_map::(count|empty)$')
def counted(e, q):
    """is the symbol a number of elements?"""
    z = q[2]
    return isinstance(z, tuple) and len(z) == 2 and z[0] == 'fn' and isinstance(z[1], int) and isinstance(e.defs[z[1]][0], str) and bool(COUNTS.search(e.defs[z[1]][0]))

def guarded_delete(R, e, x, ev, f, em, rm, main):
    """deleting an input: only behind a switch that main leaves off"""
    what = '%s: input files are not deleted' % f.model
    t = name_term(e, ev, 0); ms, op = leaves(e, t)
    if any(NAMES.search(m) for m in ms): R.ob('no-delete', what, True, ev.loc()); return
    on = set()
    syms = set()
    for q in list(x.facts.known) + list(x.facts.rng): syms |= set(symbols(q))
    for s in syms:
        z = s[2]
        if isinstance(z, tuple) and z[0] == 'init' and len(z) >= 3 and isinstance(z[2], int) and width(s) in (1, 8):
            nz = x.facts.decide(icmp('ne', s, I(width(s), 0)))
            if nz is None and width(s) == 8: nz = x.facts.decide(trunc(s, 1))
            if nz is not None: on.add((z[2], nz))
    imp = any(m[0] != 'hull' for m in x.imp)
    seen = {}
    for y in rm:
        for o in y.events():
            if o.kind == 'store' and o.args[0][1][0] == 'heap' and isinstance(o.args[0][2], int): seen.setdefault(o.args[0][2], set()).add(o.args[1][2] != 0)
        for base, m in y.mem.items():
            if base[0] != 'heap': continue
            for off, c in m.items():
                if isinstance(off, int) and c[0] == 1: seen.setdefault(off, set()).add((c[1][2] != 0) if isc(c[1]) else None)
    # a switch that hangs on how many files there are, not on which: it can be on for a file of the user
    for o, nz in on:
        for y in rm:
            for base, m in y.mem.items():
                c = m.get(o) if base[0] == 'heap' else None
                if not c or c[0] != 1 or isc(c[1]): continue
                d = y.facts.decide(icmp('ne', c[1], I(width(c[1]), 0)))
                ss = list(symbols(c[1]))
                if ss and (d is None or d == nz) and all(counted(em, q) for q in ss):
                    R.ob('no-delete', what, False, ev.loc(), 'an input file is deleted after it was merged, whatever file that is'); return
    off_ = [o for o, nz in on if seen.get(o) and None not in seen[o] and (not nz) not in seen[o]]
    cant = [o for o, nz in on if seen.get(o) and None not in seen[o] and nz not in seen[o]]
    if cant: R.ob('no-delete', what, True, ev.loc()); return
    some = [o for o, nz in on if o in seen]
    if some and all(None not in seen[o] for o in some): R.ob('no-delete', what, False, ev.loc(), 'an input file is deleted after it was merged'); return
    R.ob('no-delete', what, None if on or imp else False, ev.loc(), 'an input file is deleted after it was merged')
