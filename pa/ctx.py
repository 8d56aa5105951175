"""Running scenarios under a monitor and collecting what was decided."""
import json, multiprocessing, os, sys, time, traceback
from lab import *
from program import Program


DEADLINE = None


class Run:
    """one scenario of one rule"""

    def __init__(self, lab, name):
        self.lab = lab
        self.name = name
        self.e = Engine(lab.P)
        self.e.max_steps = 30000000
        self.e.deadline = DEADLINE
        self.viol = {}
        self.weak = {}
        self.oblig = {}
        self.t0 = time.time()

    def count(self, what, n=1):
        self.oblig[what] = self.oblig.get(what, 0) + n

    def fail(self, st, key, msg, stop=True):
        """the rule is broken on this path (recorded only when the path is exact)"""
        d = self.weak if st.taint else self.viol
        if key not in d:
            d[key] = dict(message=msg, where=self.e.where(st), at=self.fnname(st), scenario=self.name,
                          path=[short(x) for x in st.notes()][-14:], taint=sorted(st.taint) if st.taint else [])
        if stop:
            raise Infeasible()

    def fnname(self, st):
        for f in reversed(st.frames):
            if f.body.inst >= 0:
                I = self.e.insts[f.body.inst]
                if I['local']:
                    return I['path']
        return '?'

    on_panic = on_newchan = None

    def explore(self, st):
        if self.on_panic:
            self.e.on_panic = self.on_panic
        if self.on_newchan:
            ev = self.e.on_event

            def both(e, st, x):
                if x[0] == 'newchan':
                    self.on_newchan(e, st, x)
                if ev:
                    ev(e, st, x)
            self.e.on_event = both
        self.e.explore([st])

    def result(self):
        e = self.e
        return dict(name=self.name, viol=self.viol, weak=self.weak, oblig=self.oblig, stats=e.stats,
                    undecided=sorted(set(e.undecided))[:12], nund=len(e.undecided), unmodelled=e.unmodelled,
                    functions=sorted(set(e.insts[i]['path'] for i in e.functions if e.insts[i]['local'])), wall=time.time() - self.t0)


def batch(run, todo):
    """several small explorations, each with its own engine, reported as one"""
    for name, fn, args in todo:
        r = Run(run.lab, name)
        guard(r.e)
        r.e.on_panic = lambda e, st, m: None
        fn(r, *args)
        for a, b in ((run.viol, r.viol), (run.weak, r.weak)):
            for k, v in b.items():
                a.setdefault(k, v)
        for k, v in r.oblig.items():
            run.count(k, v)
        for k, v in r.e.stats.items():
            run.e.stats[k] = run.e.stats.get(k, 0) + v
        run.e.undecided += [name + ': ' + u for u in r.e.undecided]
        for k, v in r.e.unmodelled.items():
            run.e.unmodelled[k] = run.e.unmodelled.get(k, 0) + v
        run.e.functions |= r.e.functions


def short(x, n=160):
    s = repr(x)
    return s if len(s) < n else s[:n] + '…'


def guard(e):
    """an exception inside the analysis leaves the path undecided"""
    orig = e.run

    def run(st):
        try:
            return orig(st)
        except (Undecided, Infeasible):
            raise
        except Exception as x:
            if os.environ.get('PA_DEV'):
                traceback.print_exc(limit=-6)
                for fr in st.frames:
                    bb = fr.body.bbs[fr.bb]
                    print('   at', fr.body.name, fr.bb, fr.ip, str(bb[0][fr.ip] if fr.ip < len(bb[0]) else bb[1])[:300])
            raise Undecided('analysis error %s: %s' % (type(x).__name__, str(x)[:80]))
    e.run = run


_lab = None


def _one(job):
    name, fn, args = job
    r = Run(_lab, name)
    guard(r.e)
    r.e.on_panic = lambda e, st, m: None
    try:
        fn(r, *args)
        d = r.result()
    except Anchor as x:
        d = r.result()
        d['anchor'] = str(x)
    except Exception as x:
        if os.environ.get('PA_DEV'):
            traceback.print_exc()
        d = r.result()
        d['crash'] = '%s: %s' % (type(x).__name__, x)
    return d


def run_jobs(dump, jobs, procs=int(os.environ.get('PA_PROCS', '8'))):
    global _lab, _jobs
    _lab = Lab(Program(dump))
    if len(jobs) == 1 or os.environ.get('PA_SERIAL'):
        return [_one(j) for j in jobs]
    _jobs = jobs
    with multiprocessing.get_context('fork').Pool(min(procs, len(jobs))) as p:
        return p.map(_byidx, range(len(jobs)), chunksize=1)


_jobs = None


def _byidx(i):
    return _one(_jobs[i])
