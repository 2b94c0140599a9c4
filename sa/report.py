"""Obligations and their outcomes."""
import os
from build import AnalysisBroken, REPO

class Report:
    def __init__(s):
        s.items = []      # (rule, subject, status, where, message)
        s.count = {}      # how many paths gave the same outcome
        s.analysed = {}   # kind -> set of names
        s.notes = []
    def ob(s, rule, subject, ok, where='', msg=''):
        """ok: True discharged, False violated, None undecided"""
        it = (rule, subject, ok, where, msg)
        if it in s.count: s.count[it] += 1
        else: s.count[it] = 1; s.items.append(it)
        return ok
    def saw(s, kind, *names):
        s.analysed.setdefault(kind, set()).update(names)
    def note(s, t):
        if t not in s.notes: s.notes.append(t)
    def violations(s): return [x for x in s.items if x[2] is False]
    def undecided(s): return [x for x in s.items if x[2] is None]
    def discharged(s): return [x for x in s.items if x[2] is True]

def where(f):
    """a source location inside the analysed tree"""
    if not hasattr(f, 'blocks'):
        try: return f.loc()
        except AttributeError: return str(f)
    here = '%s:%s' % (f.rel, f.line)
    if not os.path.isabs(f.rel): return here
    f = f.load()
    for b in f.blocks:
        for i in b:
            try: l = i.loc()
            except Exception: continue
            if l and not os.path.isabs(l) and not l.endswith('.cpp:%s' % f.line) and '/' in l: return l
    return here
