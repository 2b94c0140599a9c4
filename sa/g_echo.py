"""C20: what happens to a typed password: terminal echo, dataflow of the secret, the web page."""
import re, os, json, subprocess
from ir import program
from absint import *
from report import where, AnalysisBroken
from build import REPO

TOOLS = ('pwned-lookup-cli', 'pwned-markov-lookup')
PROMPT = re.compile(r'^std::(operator>>|getline|istream::(operator>>|read|get|getline|readsome)|basic_istream::(read|get|getline))$|^(getpass|fgets|getline|getdelim|read|getchar|fgetc|getc|getwc)$')
CIN = ('_ZSt3cin', '_ZSt4wcin', 'stdin')
ECHO = 8; LFLAG = 12

def reads_stdin(i):
    if i.op not in ('call', 'invoke') or not i.model or not PROMPT.search(i.model): return False
    if i.model in ('getpass', 'getchar'): return True
    if i.model == 'read': return bool(i.a) and i.a[0][0] == 'c' and int(i.a[0][2]) == 0
    return True

def entry(p):
    """the functions that read a password themselves: mains, or what main calls when it is kept apart; innermost only"""
    fs = [f for f in p.funcs.values() if f.proj and any(reads_stdin(i) and cin(f, i) for i in f.calls())]
    top = [f for f in fs if f.model == 'main'] or fs
    return top

def roots_of(f):
    """SSA value -> set of the objects it may point into"""
    f.load()
    defs = {i.d: i for i in f.insts() if i.d is not None}
    holds = {}
    ACC = re.compile(r'::(c_str|data|begin|cbegin|end|cend|rbegin|rend|operator\[\]|at|front|back|base|operator\*|operator->|operator\+|operator-|operator\+\+|operator--|get|value|first|second)$|^std::(operator<<|move|forward|addressof|__addressof|ostream::.*|basic_ostream::.*|istream::.*|basic_ios::.*|begin|end|cbegin|cend|data|next|prev|operator>>|getline|ref|cref|as_const)$|^__gnu_cxx::')
    memo = {}
    def root(v, depth=0):
        if v[0] == 'g': return {('g', v[1])}
        if v[0] != 'v': return set()
        k = v[1]
        if k in memo: return memo[k]
        if depth > 60: return set()
        i = defs.get(k); memo[k] = set()
        if i is None: r = {('p', k)}
        elif i.op == 'alloca': r = {('a', k)}
        elif i.op in ('getelementptr', 'bitcast', 'addrspacecast'): r = set(root(i.a[0], depth + 1))
        elif i.op == 'phi': r = set().union(*[root(x, depth + 1) for x, _ in i.inc]) if i.inc else set()
        elif i.op == 'select': r = root(i.a[1], depth + 1) | root(i.a[2], depth + 1)
        elif i.op == 'load':
            s = root(i.a[0], depth + 1); r = set()
            for o in s: r |= holds.get(o, set())
            if not r: r = {('d',) + o for o in s if o[0] in 'gp'} if (i.ty or '').startswith('ptr') else set()
        elif i.op in ('call', 'invoke'):
            m = i.model or ''
            if ACC.search(m) and i.a: r = set(root(i.a[0], depth + 1)); r |= set().union(*[holds.get(o, set()) for o in r]) if r else set()
            elif m in ('strdup', '__cxa_allocate_exception', 'malloc', 'calloc') or 'operator new' in m: r = {('h', k)}
            else: r = {('h', k)}
        else: r = set()
        memo[k] = r
        return r
    for _ in range(4):
        before = sum(map(len, holds.values())); memo.clear()
        for i in f.insts():
            if i.op == 'store' and i.a[0][0] in 'vg':
                t = root(i.a[0])
                if t:
                    for o in root(i.a[1]):
                        if o not in t: holds.setdefault(o, set()).update(t)
            elif i.op in ('call', 'invoke') and i.model and re.search(r'__normal_iterator::__normal_iterator$|reverse_iterator::reverse_iterator$|string_view::basic_string_view$|string_view::operator=$', i.model) and len(i.a) > 1:
                t = root(i.a[1])
                for o in root(i.a[0]): holds.setdefault(o, set()).update(x for x in t if x != o)
            elif i.op in ('call', 'invoke') and i.model and re.search(r'^std::__cxx11::basic_string::operator basic_string_view|::operator std::basic_string_view', i.model): pass
        memo.clear()
        if sum(map(len, holds.values())) == before: break
    return root, defs, holds

def cin(f, i):
    r = getattr(f, '_roots', None)
    if r is None: r = f._roots = roots_of(f)
    if i.model in ('getpass', 'getchar', 'read'): return True
    return any(o[-1] in CIN or o[-2:] in [('g', c) for c in CIN] for a in i.a for o in r[0](a))

STRINGY = re.compile(r'^std::(__cxx11::)?(basic_string|vector|deque|list|basic_string_view|pair|tuple|set|multiset|unordered_set|map|unordered_map|multimap|queue|stack|array|optional|fs::path)::|^boost::(filesystem::)?(path|optional|container)::')
FILLS = re.compile(r'::(basic_string|vector|deque|list|pair|tuple|basic_string_view|set|unordered_set|path|optional|operator=|assign|append|operator\+=|insert|replace|push_back|push_front|emplace_back|emplace_front|emplace|push|swap|operator/=|try_emplace|insert_or_assign)$')
SETS = re.compile(r'::(basic_string|vector|deque|list|pair|tuple|basic_string_view|set|unordered_set|path|optional|operator=|assign|clear)$')
KEEPS = re.compile(r'::(push_back|push_front|emplace_back|emplace_front|emplace|push|insert|try_emplace|insert_or_assign)$')
CONT = re.compile(r'^std::(vector|deque|list|set|multiset|unordered_set|map|unordered_map|multimap|queue|stack)::|^boost::container::')
MAKES = re.compile(r'^std::operator\+$|::substr$|^boost::(locale::conv::|algorithm::|locale::(to_lower|to_upper|normalize))|^std::__cxx11::basic_(o|i|)stringstream::str$|^std::(quoted|regex_replace|to_string)$|^std::__cxx11::basic_stringbuf::str$')
COPIES = re.compile(r'^(memcpy|memmove|strcpy|strncpy|strcat|strncat|stpcpy|llvm\.memcpy.*|llvm\.memmove.*|bcopy|snprintf|sprintf|vsnprintf|wcscpy|wcsncpy)$')
ALGO = re.compile(r'^std::(copy|copy_n|copy_if|transform|reverse_copy|move|move_backward|copy_backward|replace_copy|swap)$')
OUT = re.compile(r'^std::(operator<<|__ostream_insert|ostream::(operator<<|write|put|_M_insert|_M_write)|basic_ostream::(operator<<|write|put))$|^std::ostreambuf_iterator::|^std::ostream_iterator::operator=$')
CSINK = {'puts': 'standard output', 'putchar': 'standard output', 'printf': 'standard output', 'vprintf': 'standard output', 'fputs': 'a stream', 'fputc': 'a stream', 'putc': 'a stream', 'fprintf': 'a stream', 'fwrite': 'a stream', 'dprintf': 'a descriptor',
         'write': 'a descriptor', 'pwrite': 'a descriptor', 'send': 'a socket', 'sendto': 'a socket', 'syslog': 'the system log', 'vsyslog': 'the system log', 'system': 'a command', 'popen': 'a command', 'execl': 'a command', 'execlp': 'a command', 'execv': 'a command', 'execvp': 'a command', 'setenv': 'the environment', 'putenv': 'the environment', 'perror': 'standard error', 'fopen': 'a file name', 'open': 'a file name', 'creat': 'a file name', 'fputws': 'a stream', 'wprintf': 'standard output', 'add_history': 'the history', 'ioctl': 'the terminal'}
STREAMS = {'_ZSt4cout': 'standard output', '_ZSt4cerr': 'standard error', '_ZSt4clog': 'standard error', '_ZSt5wcout': 'standard output', '_ZSt5wcerr': 'standard error', '_ZSt5wclog': 'standard error'}
EXC = re.compile(r'^std::(runtime_error|logic_error|invalid_argument|domain_error|length_error|out_of_range|range_error|overflow_error|underflow_error|system_error|ios_base::failure|__cxx11::ios_base::failure)::\w+$')
PASS = ('zext', 'sext', 'trunc', 'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'phi', 'select', 'bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'extractvalue', 'insertvalue')

def secrets(R):
    """nothing a password has flowed into reaches the screen, a file, a command, or a container that outlives the round"""
    for t in TOOLS:
        p = program(t); n = 0
        for f in entry(p):
            f.load(); n += 1; R.saw('prompts', '%s %s' % (t, f.model))
            flow(R, t, p, f)
        if not n: raise AnalysisBroken('%s: no prompt found' % t)

def stream_kind(f, root, defs, objs):
    """'file' / 'text' (a string stream) / name of a standard stream, for the objects a stream pointer may denote"""
    ks = set()
    for o in objs:
        if o[0] == 'g' and o[1] in STREAMS: ks.add(STREAMS[o[1]]); continue
        for i in f.calls():
            m = i.model or ''
            if i.a and re.search(r'basic_(o|i|)(string|f)stream::basic_', m) and o in root(i.a[0]): ks.add('text' if 'stringstream' in m else 'a file')
    return ks

def flow(R, t, p, f):
    root, defs, holds = f._roots if hasattr(f, '_roots') else roots_of(f)
    blocks = f.blocks; succ = [b[-1].succs() for b in blocks]
    src = [i for i in f.calls() if reads_stdin(i) and cin(f, i)]
    # reachability between blocks, for "outlives the round"
    reach = {}
    def reaches(a):
        if a not in reach:
            seen = set(); w = list(succ[a])
            while w:
                b = w.pop()
                if b in seen: continue
                seen.add(b); w += succ[b]
            reach[a] = seen
        return reach[a]
    IN = {0: frozenset()}; work = [0]; hits = {}; uses = set(); sinks = 0
    def tv(T, v):
        """does this operand carry the secret: itself, or what it points to"""
        if v[0] == 'v' and ('s', v[1]) in T: return True
        return any(o in T for o in root(v)) if v[0] in 'vg' else False
    def ts(T, v): return v[0] == 'v' and ('s', v[1]) in T
    def pts(T, v): return v[0] in 'vg' and any(o in T for o in root(v))
    def hit(i, rule, msg): hits.setdefault((rule, i.loc()), msg)
    def step(T, i, T0):
        T = set(T)
        if i.op in ('call', 'invoke') and i.model:
            m = i.model; args = i.a
            if reads_stdin(i) and cin(f, i):
                for a in args:
                    for o in root(a):
                        if o[-1] not in CIN and o[0] != 'g': T.add(o)
                if i.d is not None and m in ('getpass', 'getchar'): T |= {('s', i.d), ('h', i.d)}
                return T
            dirty = [k for k, a in enumerate(args) if tv(T, a)]
            if OUT.search(m) and args:
                os_ = root(args[0]); ks = stream_kind(f, root, defs, os_)
                carrying = [k for k in dirty if k > 0]
                uses.add(i.loc()) if carrying else None
                if carrying:
                    if 'text' in ks and len(ks) == 1: T |= {o for o in os_ if o[0] in 'ah'}
                    elif ks - {'text'}: hit(i, 'the password stays unseen', 'what was typed is written to ' + sorted(ks - {'text'})[0])
                return T
            if m in CSINK:
                if dirty: hit(i, 'the password stays unseen', 'what was typed reaches %s (%s)' % (CSINK[m], m))
                return T
            if EXC.search(m) and any(k > 0 for k in dirty): hit(i, 'the password stays unseen', 'what was typed becomes part of an error text'); return T
            if re.search(r'basic_[oi]?fstream::(basic_\w+|open)$', m) and any(k > 0 for k in dirty): hit(i, 'the password stays unseen', 'what was typed becomes a file name'); return T
            if MAKES.search(m) and args:
                if any(k > 0 for k in dirty): T |= {o for o in root(args[0]) if o[0] in 'ah'}
                elif len(args) > 1 and 0 not in dirty[1:]: T -= {o for o in root(args[0]) if o[0] == 'a'}
                if dirty and i.d is not None: T |= {('s', i.d), ('h', i.d)}
                return T
            if COPIES.search(m) and args:
                if any(k > 0 for k in dirty): T |= {o for o in root(args[0])}
                return T
            if ALGO.search(m):
                if dirty and len(args) > 2: T |= {o for a in args[2:] for o in root(a) if o[0] in 'ahg'}
                if dirty and i.d is not None: T.add(('h', i.d))
                return T
            if STRINGY.search(m) and FILLS.search(m) and args:
                tgt = root(args[0])
                if any(k > 0 for k in dirty):
                    T |= tgt
                    if KEEPS.search(m) and CONT.search(m):
                        for o in tgt:
                            if o[0] == 'g': hit(i, 'the password is not kept', 'what was typed is put into a global container')
                            elif o[0] == 'a':
                                c = [j for j in f.calls() if j.model and re.search(r'^std::(\w+)::\1$', j.model) and j.a and o in root(j.a[0])]
                                if c and all(j.block not in reaches(s.block) for j in c for s in src): hit(i, 'the password is not kept', 'what was typed is put into a container that outlives the round')
                elif SETS.search(m) and len(tgt) == 1: T -= tgt
                return T
            if re.search(r'::~|::clear$', m) and args:
                tgt = root(args[0])
                if len(tgt) == 1: T -= tgt
                return T
            if re.search(r'::(substr|c_str|data|operator\[\]|at|front|back|begin|end|cbegin|cend|operator\*)$|^(strdup|strndup|basename)$', m) and dirty and i.d is not None and not root(('v', i.d)): T.add(('h', i.d))
            return T
        if i.d is not None:
            if i.op == 'load':
                if pts(T, i.a[0]) and not (i.ty or '').startswith('ptr'): T.add(('s', i.d))
                elif pts(T, i.a[0]): pass
                else: T.discard(('s', i.d))
            elif i.op in PASS:
                ops = [x for x, _ in i.inc] if i.op == 'phi' else i.a
                if any(ts(T, x) for x in ops): T.add(('s', i.d))
                else: T.discard(('s', i.d))
        if i.op == 'store' and ts(T, i.a[0]):
            for o in root(i.a[1]):
                T.add(o)
                if o[0] == 'g': hit(i, 'the password is not kept', 'what was typed is put into a global variable')
        return T
    first = {}
    while work:
        b = work.pop(); T = IN[b]
        for i in blocks[b]:
            T0 = T; T = step(T, i, T0)
        T = frozenset(T)
        for s in succ[b]:
            n = IN.get(s)
            m = T if n is None else n | T
            if n is None or m != n: IN[s] = m; work.append(s)
    sub = '%s, %s' % (t, f.model)
    outs = [i for i in f.calls() if i.model and (OUT.search(i.model) or i.model in CSINK or EXC.search(i.model))]
    R.saw('outputs', *['%s:%s' % (t, i.loc()) for i in outs])
    for rule in ('the password stays unseen', 'the password is not kept'):
        hs = [(l, m) for (r, l), m in hits.items() if r == rule]
        for l, m in sorted(hs): R.ob(rule, sub, False, l, m)
        if not hs: R.ob(rule, sub + ' (%d reads, %d outputs)' % (len(src), len(outs)), True)

# ---- echo

def bit(t, k):
    """the k-th bit of a term when everything unknown in it is 0, and when it is all ones"""
    ss = list(symbols(t)); r = []
    for v in (0, -1):
        try: x = evalterm(t, {s: (v & ((1 << width(s)) - 1)) if isinstance(s, tuple) else v for s in ss})
        except Exception: return None
        if x is None: return None
        r.append(x >> k & 1)
    return tuple(r)

def echo(R):
    for t in TOOLS:
        p = program(t); n = 0
        for f in entry(p):
            n += 1; R.saw('prompts', '%s %s' % (t, f.model)); prompt(R, t, f)
        if not n: raise AnalysisBroken('%s: no prompt found' % t)

def prompt(R, t, f):
    f.load(); sub = '%s, %s' % (t, f.model)
    K = re.compile(r'^tc[gs]etattr$|^cfmakeraw$|::exceptions$|^llvm\.memcpy|^(system|isatty)$')
    def keep(ev):
        if ev.kind == 'loop': return True
        if ev.kind == 'call': return bool(K.search(ev.model)) or reads_stdin(ev.inst) and cin(f, ev.inst)
        if ev.kind == 'store': return tty(ev)
        return False
    tt = set()
    root, defs, holds = f._roots
    for i in f.calls():
        if i.model in ('tcgetattr', 'tcsetattr'): tt |= root(i.a[-1])
    def tty(ev): return bool(root(ev.inst.a[1]) & tt)
    e = Engine(f, keep=keep, max_states=30000, width=24)
    def has(b): return any(i.op in ('call', 'invoke') and (i.model == 'tcsetattr' or reads_stdin(i) and cin(f, i)) for k in b for i in e.f.blocks[k])
    e.quiet = {h for h in e.heads if not has(e.loop[h])}
    ps = e.run()
    heads = {}; bad = {}; unsure = []; seen = set()
    def walk(x, start):
        evs = x.events(); cur = set(start); saved = {}
        for ev in evs:
            if ev.kind == 'loop':
                h = ev.args[0][2]
                if h in e.quiet: continue
                heads.setdefault(h, set()); heads[h] |= cur; cur = set(heads[h]); saved = {k: v for k, v in saved.items()}
            elif ev.kind == 'call' and ev.model == 'tcgetattr' and isp(ev.args[1]): saved[e.ident(ev.args[1])] = set(cur)
            elif ev.kind == 'store':
                b, o = e.ident(ev.args[0]); v = ev.args[1]
                for k in saved:
                    if k[0] == b and isc(o if isinstance(o, tuple) else I(64, o)) and (o[2] if isinstance(o, tuple) else o) == (k[1] if not isinstance(k[1], tuple) else k[1][2]) + LFLAG:
                        q = bit(v, 3)
                        saved[k] = {'off'} if q == (0, 0) else {'on'} if q == (1, 1) else saved[k] if q == (0, 1) else {'off' if c == 'on' else 'on' if c == 'off' else '?' for c in saved[k]} if q == (1, 0) else {'?'}
            elif ev.kind == 'call' and ev.model.startswith('llvm.memcpy') and isp(ev.args[0]) and isp(ev.args[1]):
                k = e.ident(ev.args[1])
                if k in saved: saved[e.ident(ev.args[0])] = set(saved[k])
            elif ev.kind == 'call' and ev.model == 'tcsetattr':
                k = e.ident(ev.args[2]) if isp(ev.args[2]) else None
                cur = set(saved[k]) if k in saved else {'?'}
            elif ev.kind == 'call' and ev.model in ('cfmakeraw', 'system'): cur = {'?'} if ev.model == 'system' else cur
            elif ev.kind == 'call' and ev.model == 'getpass': seen.add(ev.inst.loc())
            elif ev.kind == 'call' and reads_stdin(ev.inst):
                seen.add(ev.inst.loc())
                if cur & {'on', 'init'}: bad[('echo is off while a password is read', ev.inst.loc())] = 'the terminal still shows what is typed when the password is read here'
                elif '?' in cur: unsure.append(('echo is off while a password is read', ev.inst.loc()))
        if x.end == 'back': 
            if x.head in heads or x.head not in e.quiet: heads.setdefault(x.head, set()); heads[x.head] |= cur
        else:
            loc = evs[-1].inst.loc() if evs and evs[-1].kind != 'loop' else '%s:%s' % (f.rel, f.line)
            last = [ev.inst.loc() for ev in evs if ev.kind == 'call' and ev.model == 'tcsetattr']
            if 'off' in cur: bad[('echo is on again on every way out', '%s' % (last[-1] if last else loc))] = 'there is a way out of the prompt (%s) on which the echo that was switched off here stays off' % {'ret': 'a return', 'throw': 'an exception'}.get(x.end, str(x.end))
            elif '?' in cur: unsure.append(('echo is on again on every way out', loc))
        return cur
    for _ in range(8):
        before = {h: set(v) for h, v in heads.items()}
        bad.clear(); del unsure[:]
        for x in ps:
            walk(x, {'init'})
        if heads == before: break
    if not seen: raise AnalysisBroken('%s: no path reads a password' % sub)
    for rule in ('echo is off while a password is read', 'echo is on again on every way out'):
        hs = [(l, m) for (r, l), m in bad.items() if r == rule]
        for l, m in sorted(hs): R.ob(rule, sub, False, l, m)
        if not hs:
            us = [l for r, l in unsure if r == rule]
            if us: R.ob(rule, sub, None, us[0], 'terminal state not determined')
            else: R.ob(rule, sub + ' (%d paths)' % len(ps), True)

# ---- the web page

def page(R):
    for n in ('/opt/veriftools/node/node_modules',):
        if not os.path.isdir(os.path.join(n, 'typescript')): raise AnalysisBroken('no TypeScript parser')
    js = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'webpage.js')
    pages = [os.path.join(d, x) for d, ds, fs in os.walk(os.path.join(REPO, 'pwned-lookup-web')) for x in fs if x.endswith(('.html', '.htm'))]
    if not pages: raise AnalysisBroken('no web page')
    for pg in sorted(pages):
        o = subprocess.run(['node', js, pg], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, env=dict(os.environ, NODE_PATH='/opt/veriftools/node/node_modules'))
        if o.returncode: raise AnalysisBroken('web page: ' + o.stderr[-300:])
        j = json.loads(o.stdout)
        rel = os.path.relpath(pg, REPO)
        R.saw('scripts', *['%s:%s' % (rel, x) for x in j['scripts']]); R.saw('password elements', *j['elements']); R.saw('sinks looked at', *['%s:%s' % (rel, x) for x in j['sinks']])
        for it in j['items']: R.ob(it['rule'], '%s %s' % (rel, it['subject']), it['ok'], '%s:%s' % (rel, it['line']), it['msg'])
