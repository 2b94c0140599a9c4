"""Builds the analysed representation of /repo's current working tree.

Every translation unit of a program is compiled by clang (flags from the project's own
CMake files) to LLVM bitcode, linked, the project's functions are inlined into each
other, and the result is dumped as JSON lines (see irdump/irdump.cpp).  Nothing of the
project is executed.  Results are cached by the content of the sources.
"""
import hashlib, json, os, re, shlex, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VSA_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
IRDUMP = os.path.join(CACHE, 'irdump')
INLINE = os.path.join(VERIF, 'sa', 'inline.txt')

class AnalysisBroken(Exception):
    """The analysis itself cannot give an answer (exit status 2)."""

def build_irdump(force=False):
    src = os.path.join(VERIF, 'irdump', 'irdump.cpp')
    tag = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = IRDUMP + '.tag'
    if not force and os.path.exists(IRDUMP) and os.path.exists(stamp) and open(stamp).read() == tag:
        return
    os.makedirs(CACHE, exist_ok=True)
    cfg = lambda *a: shlex.split(subprocess.check_output(['llvm-config-18', *a], text=True))
    tmp = IRDUMP + '.%d' % os.getpid()
    subprocess.check_call(['g++', '-O1', '-w', '-o', tmp, src] + cfg('--cxxflags') + ['-std=c++17', '-fexceptions']
                          + cfg('--ldflags', '--libs', '--link-shared'))
    os.rename(tmp, IRDUMP)
    open(stamp, 'w').write(tag)

SRC_EXT = ('.cpp', '.hpp', '.h', '.c', '.cc', '.hh', '.hxx', '.cxx', '.ipp', '.inl')

def source_files():
    out = []
    for d, dirs, files in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        dirs[:] = sorted(x for x in dirs if x not in ('.git', '_build', 'node_modules') and not (rel == '.' and x == 'build'))
        for f in sorted(files):
            if f.endswith(SRC_EXT) or f == 'CMakeLists.txt' or f.endswith('.cmake'):
                out.append(os.path.join(d, f))
    return out

_tag = None
def tree_tag():
    global _tag
    if _tag is None:
        h = hashlib.sha256()
        for f in source_files():
            h.update(f.encode()); h.update(b'\0'); h.update(open(f, 'rb').read()); h.update(b'\0')
        h.update(open(INLINE, 'rb').read())
        h.update(open(os.path.join(VERIF, 'irdump', 'irdump.cpp'), 'rb').read())
        h.update(open(__file__, 'rb').read())
        _tag = h.hexdigest()[:24]
    return _tag

def cache_dir():
    d = os.path.join(CACHE, tree_tag())
    os.makedirs(d, exist_ok=True)
    return d

_targets = None
def targets():
    """{target: [(source, [flags])]} of all non-test targets."""
    global _targets
    if _targets is not None:
        return _targets
    cd = cache_dir()
    db = os.path.join(cd, 'compile_commands.json')
    if not os.path.exists(db):
        tmp = tempfile.mkdtemp(prefix='vsa-cmake-')
        try:
            env = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++')
            env.pop('USE_POPCNT', None); env.pop('BOOST_ROOT', None)
            r = subprocess.run(['cmake', '-S', REPO, '-B', tmp, '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON',
                                '-DCMAKE_BUILD_TYPE=Release', '-Wno-dev'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            p = os.path.join(tmp, 'compile_commands.json')
            if r.returncode != 0 or not os.path.exists(p):
                raise AnalysisBroken('cmake failed: ' + r.stdout[-2000:])
            shutil.copy(p, db + '.tmp'); os.rename(db + '.tmp', db)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    out = {}
    for e in json.load(open(db)):
        args = e.get('arguments') or shlex.split(e['command'])
        o = args[args.index('-o') + 1] if '-o' in args else e.get('output', '')
        m = re.search(r'CMakeFiles/([^/]+)\.dir/', o)
        tgt = m.group(1) if m else o
        if '/test/' in e['file'] and os.path.relpath(e['file'], REPO).split('/')[-2] == 'test':
            continue
        fl = []
        it = iter(args[1:])
        for a in it:
            if a in ('-o', '-c', '-isystem', '-I', '-D', '-include'):
                v = next(it)
                if a in ('-isystem', '-I', '-D', '-include'):
                    fl += [a, v]
                continue
            if a.startswith(('-I', '-D', '-std=')):
                fl.append(a)
        out.setdefault(tgt, []).append((os.path.normpath(os.path.join(e['directory'], e['file'])), fl))
    _targets = out
    return out

def compile_bc(src, flags):
    cd = cache_dir()
    extra = open(src).read() if src.startswith((VERIF, CACHE)) else ''
    key = hashlib.sha256((src + '\0' + '\0'.join(flags) + '\0' + extra).encode()).hexdigest()[:16]
    out = os.path.join(cd, os.path.basename(src) + '.' + key + '.bc')
    if os.path.exists(out):
        return out
    tmp = out + '.%d.tmp' % os.getpid()
    cmd = ['clang++-18', '-c', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names',
           '-fstandalone-debug', '-w', '-DNDEBUG'] + (flags if any(f.startswith('-std=') for f in flags) else flags + ['-std=gnu++17']) + ['-o', tmp, src]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise AnalysisBroken('cannot compile %s: %s' % (src, r.stdout[-3000:]))
    os.rename(tmp, out)
    return out

# program variants in which some functions stay calls (demangled names, regular expression)
KEEP = {
    # everything but the population count inlined
    'popcnt': r'^(unsigned int )?pwned::[A-Za-z0-9_:]*popc(nt|ount)',
    # the web service's own code, with the library and the URI class as they are called
    'web': r'^(bool |std::ostream& |std::.*string |std::.* |.*& )?(pwned::|URI::)',
}

def dump(target, with_lib=True):
    """Path of the JSON-lines dump of one program (its own sources and, if it links it, the pwned library)."""
    build_irdump()
    cd = cache_dir()
    out = os.path.join(cd, target + ('' if with_lib else '-only') + '.jsonl')
    if os.path.exists(out):
        return out
    tg = targets()
    if target.startswith('probe:'):
        # a witness file of /verif that uses the library's interface, linked with the library
        src = os.path.join(VERIF, 'sa', 'probe', target[6:] + '.cpp')
        lib = tg.get('pwned')
        if not lib: raise AnalysisBroken('no build target named pwned')
        h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
        out = os.path.join(cd, 'probe-%s-%s.jsonl' % (target[6:], h))
        if os.path.exists(out): return out
        inc = sorted({os.path.dirname(s) for s, _ in lib})
        fl = lib[0][1] + sum([['-I', d] for d in inc], [])
        # a witness that uses an interface this tree does not have is left out
        text = open(src).read().split('\n'); cur = src
        for attempt in range(6):
            try: compile_bc(cur, fl); break
            except AnalysisBroken as x:
                bad = {int(n) for n in re.findall(re.escape(cur) + r':(\d+):\d+: error', str(x))}
                bad |= {int(n) for n in re.findall(r'^' + re.escape(cur) + r':(\d+):\d+: note: in instantiation', str(x), re.M)}
                bad = {n for n in bad if text[n - 1].strip() and not text[n - 1].startswith(('#', 'namespace', '}'))}
                if not bad or attempt == 5: raise
                for n in bad: text[n - 1] = ''
                d = os.path.join(cd, 'probe'); os.makedirs(d, exist_ok=True)
                cur = os.path.join(d, target[6:] + '.cpp'); open(cur, 'w').write('\n'.join(text))
        return _dump(out, [(cur, fl)] + list(lib))
    target, _, variant = target.partition('!')
    if target not in tg:
        raise AnalysisBroken('no build target named ' + target)
    tus = list(tg[target])
    if with_lib and target != 'pwned':
        tus += tg.get('pwned', [])
    return _dump(out, tus, KEEP[variant] if variant else None)

def _dump(out, tus, keep=None):
    target = os.path.basename(out)
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(lambda t: compile_bc(*t), tus))
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run([IRDUMP, '-o', tmp, '-p', REPO.rstrip('/') + '/', '-p', os.path.join(VERIF, 'sa', 'probe') + '/', '-p', os.path.join(cache_dir(), 'probe') + '/', '-i', INLINE] + (['-k', keep] if keep else []) + bcs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise AnalysisBroken('irdump failed for %s: %s' % (target, r.stdout[-3000:]))
    os.rename(tmp, out)
    return out

if __name__ == '__main__':
    if sys.argv[1:] == ['setup']:
        build_irdump()
    else:
        for t in (sys.argv[1:] or sorted(targets())):
            print(t, dump(t), os.path.getsize(dump(t)))
