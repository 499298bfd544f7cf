"""C16: performance figures follow elapsed time whatever the wall clock does."""
import re
import logging
import numpy as np
from .. import phys, model, engine, net
from ..engine import sut, cb

ID = 'C16'
LEVEL = 'exploration'
TECHNIQUE = ('simulated clocks (wall, monotonic, processor time) driven by a script of elapsed times, stalls, forward and backward wall-clock jumps and slewing between and '
             'inside steps, over histories of completed, aborted and repeated runs; figures compared with the simulated elapsed time')
NOTE = 'Sampled histories. Time passes only where the script says: in controllers, constraints and other observers, before and after the monitor.'
RUNS_QUICK = 6000
RUNS_THOROUGH = 60000
RULE = ('one run = up to two monitors and a history of up to 4 simulations; non-trivial when the wall clock was stepped during a run of at least two steps and a monitor was '
        'reused; distinct by event-log digest')
STATES = 'tuples (steps, clock events, run number, aborted before, kind of abort)'
REAL = ['arboris.observers.PerfMonitor', 'arboris.core']
STUB = ['time, time_ns, perf_counter, monotonic, process_time, clock_gettime, sleep, timeit.default_timer', 'pylab plotting', 'controllers and observers (scripted)']
ASSUMPTIONS = ['the elapsed time is the one of the monotonic clock', 'a step lasts from the previous observation (the start of the run for the first one) to its own observation']
PROBES = ['jump-back', 'jump-forward', 'slew', 'stall', 'zero-length', 'long', 'aborted', 'reuse', 'reuse-after-abort', 'no-step', 'two-monitors', 'mid-run-summary',
          'reuse-shorter', 'reuse-longer', 'other-world', 'plot', 'logged', 'by-hand', 'many-steps', 'slow-log']
RUN_TIMEOUT = 120


def gen_event(r):
    u = r.random()
    if u < .45:
        return dict(k='busy', d=r.choice([0., 1e-6, 1e-4, 1e-3, .02, .7]) * r.uniform(.5, 1.5))
    if u < .6:
        return dict(k='stall', d=r.choice([.05, 1., 30., 4000.]) * r.uniform(.5, 1.5))
    if u < .75:
        return dict(k='jump', d=-r.choice([1e-3, .5, 3600., 1e6]) * r.uniform(.5, 1.5))
    if u < .9:
        return dict(k='jump', d=r.choice([1e-3, .5, 3600., 1e6]) * r.uniform(.5, 1.5))
    return dict(k='slew', d=r.choice([.5, .9995, 1.0005, 2., 1.]))


def gen_events(r, p=.6):
    return [gen_event(r) for _ in range(r.choice([1, 1, 2, 3]))] if r.random() < p else []


def generate(r, tier):
    runs = []
    nmon = r.choice([1, 1, 1, 2])
    for k in range(r.choice([1, 2, 2, 3, 4])):
        n = r.choice([0, 1, 2, 3, 5, 9]) if r.random() > .004 else r.choice([150, 600, 1300])
        ev = {}
        for i in range(n):
            for where in ('ctl', 'before', 'after', 'log'):
                e = gen_events(r, .5 if n < 20 else .02)
                if e:
                    ev['%s%d' % (where, i)] = e
        for where in ('init-before', 'init-after', 'finish-before', 'finish-after', 'idle'):
            e = gen_events(r, .4)
            if e:
                ev[where] = e
        runs.append(dict(n=n, ev=ev, abort=dict(where=r.choice(['ctl', 'before', 'after', 'init-before', 'init-after', 'finish-before', 'finish-after']), at=r.randint(0, 4),
                                                exc=r.choice(['error', 'interrupt', 'io'])) if r.random() < .25 else None,
                         other=r.random() < .2, mid=r.randint(0, 5) if r.random() < .3 else None, plot=r.random() < .4, hand=r.random() < .15,
                         mons=sorted(r.sample(range(nmon), r.randint(1, nmon))), t0=r.choice([0., 0., 5.])))
    return dict(model=model.gen_model(r, nmin=1, nmax=2, frames=0), n=nmon, log=r.random() < .3, runs=runs, wall=r.choice([1e9, 0., 1.7e9]), mono=r.choice([5000., 0., 12.5]))


def summary(p):
    return [dict(steps=x['n'], events=sum(len(e) for e in x['ev'].values()), abort=x['abort'] and x['abort']['where']) for x in p['runs']]


class Bench:
    def __init__(self, plan, ctx, clock):
        from arboris import core
        self.plan, self.ctx, self.clock = plan, ctx, clock
        b = self

        class Ctl(core.Controller):
            ctx = self.ctx

            def init(self, world):
                self.n = world.ndof

            @cb
            def update(self, dt):
                b.at('ctl%d' % b.k)
                b.maybe_abort('ctl', b.k)
                return np.zeros(self.n), np.zeros((self.n, self.n))

        class Marker(core.Observer):
            """just before ('before') or just after ('after') the monitors"""
            ctx = self.ctx

            def __init__(self, where):
                core.Observer.__init__(self)
                self.where = where

            @cb
            def init(self, world, timeline):
                b.at('init-' + self.where)
                b.maybe_abort('init-' + self.where, 0)
                if self.where == 'before':
                    b.start()

            @cb
            def update(self, dt):
                if self.where == 'before':
                    b.at('before%d' % b.k)
                    b.maybe_abort('before', b.k)
                    b.mark()
                else:
                    b.updated()
                    b.at('after%d' % b.k)
                    b.maybe_abort('after', b.k)
                    b.k += 1

            @cb
            def finish(self):
                b.at('finish-' + self.where)
                b.maybe_abort('finish-' + self.where, 0)
        self.worlds = []
        for _ in range(2):
            s = model.Sim(plan['model'])
            s.w.register(Ctl())
            self.worlds.append(s.w)
        self.before, self.after = Marker('before'), Marker('after')
        self.k = 0
        self.run = None
        self.slow = True

    def at(self, where):
        c = self.clock
        for e in self.run['ev'].get(where, ()):
            k, d = e['k'], e['d']
            if k == 'busy':
                c.elapse(d)
                if d == 0:
                    self.ctx.count('zero-length')
            elif k == 'stall':
                c.elapse(d, busy=False)
                self.ctx.count('stall')
                if d > 1000:
                    self.ctx.count('long')
            elif k == 'jump':
                c.jump(d)
                self.ctx.count('jump-back' if d < 0 else 'jump-forward')
                self.jumped = True
            else:
                c.rate = d
                self.ctx.count('slew')
            self.ctx.log(where, k, float(d))

    def maybe_abort(self, where, k):
        a = self.run['abort']
        if a and not self.fired and a['where'] == where and (where.startswith(('init', 'finish')) or k == a['at'] % max(self.run['n'], 1)):
            self.fired = True
            e = engine.make_exc(a['exc'])
            self.ctx.injected.append(e)
            self.ctx.count('aborted')
            raise e

    def logged(self):
        """a message is logged by a monitor: the handler takes its time"""
        if self.run is not None and not self.slow:
            self.slow = True
            self.ctx.count('slow-log')
            self.at('log%d' % self.k)

    def start(self):
        self.last = self.clock.mono
        self.want = []

    def mark(self):
        self.slow = self.plan['n'] > 1 # (between two monitors the step would not end at the same time)
        self.want.append(self.clock.mono - self.last)
        self.last = self.clock.mono

    def updated(self):
        if self.run['mid'] is not None and self.k == self.run['mid']:
            self.ctx.count('mid-run-summary')
            for i in self.run['mons']:
                self.judge(i, 'in step %d' % self.k)

    def tol(self):
        return 1e-7 + 1e-9 * self.clock.mono

    def judge(self, i, when):
        ctx, m, w = self.ctx, self.mons[i], self.want
        with sut(ctx, 'get_summary %s' % when):
            s = m.get_summary()
        ctx.check(isinstance(s, str), 'summary-format', 'summary %r' % (s,))
        got = {}
        for l in s.split('\n'):
            g = re.match(r'\s*(total|min|mean|max)\b.*:\s*(\S+)\s*$', l)
            if g:
                got[g.group(1)] = float(g.group(2))
        ctx.check(sorted(got) == ['max', 'mean', 'min', 'total'], 'summary-format', 'summary %r' % s[:200])
        want = dict(total=sum(w), min=min(w), mean=sum(w) / len(w), max=max(w)) if w else dict(total=0., min=0., mean=0., max=0.)
        for k in ('total', 'min', 'mean', 'max'):
            ctx.check(got[k] >= -1e-12 and abs(got[k] - want[k]) <= self.tol() * max(1, len(w)), 'figure-' + k, '%s: the %s of the %d steps is reported as %r, it is %r' % (
                when, k, len(w), got[k], want[k]))
        if self.run['plot']:
            self.plots = []
            with sut(ctx, 'plot %s' % when):
                m.plot()
            ctx.count('plot')
            ctx.check(len(self.plots) == 1, 'plot', '%s: %d series were plotted' % (when, len(self.plots)))
            y = [float(v) for v in self.plots[0][-1]]
            ctx.check(len(y) == len(w), 'per-step', '%s: %d durations for %d steps' % (when, len(y), len(w)))
            for k, (a, b) in enumerate(zip(y, w)):
                ctx.check(a >= -1e-12 and abs(a - b) <= self.tol(), 'duration', '%s: step %d lasted %r, it is reported as %r' % (when, k, b, a))


def execute(plan, ctx):
    engine.import_sut()
    import pylab
    clock = engine.SimClock(plan['wall'], plan['mono'])
    old, engine.SimClock.current = engine.SimClock.current, clock
    try:
        b = Bench(plan, ctx, clock)
        subs = [(pylab, 'plot', lambda *a, **k: b.plots.append([x for x in a if not isinstance(x, str)]))]
        subs += [(pylab, n, lambda *a, **k: None) for n in ('show', 'title', 'xlabel', 'ylabel', 'legend')]
        class Handler(logging.Handler):
            def emit(self, record):
                b.logged()
        h, lg = Handler(), logging.getLogger()
        hs, lv, off = lg.handlers[:], lg.level, lg.manager.disable
        logging.disable(logging.NOTSET)
        lg.handlers[:] = [h]
        if plan['log']:
            lg.setLevel(logging.INFO)
        try:
            with net.patched(subs):
                history(plan, ctx, b)
        finally:
            lg.handlers[:] = hs
            lg.setLevel(lv)
            logging.disable(off)
    finally:
        engine.SimClock.current = old


def history(plan, ctx, b):
    from arboris import core, observers as O
    b.mons = [O.PerfMonitor(log=plan['log']) for _ in range(plan['n'])]
    if plan['log']:
        ctx.count('logged')
    if plan['n'] > 1:
        ctx.count('two-monitors')
    prev = {}
    aborted = False
    nt = 0
    for kr, run in enumerate(plan['runs']):
        b.run, b.k, b.fired, b.want, b.plots, b.jumped = run, 0, False, [], [], False
        for i in run['mons']:
            if i in prev:
                ctx.count('reuse')
                if prev[i][1]:
                    ctx.count('reuse-after-abort')
                ctx.count('reuse-longer' if run['n'] > prev[i][0] else 'reuse-shorter')
        b.at('idle')
        w = b.worlds[1 if run['other'] else 0]
        if run['other']:
            ctx.count('other-world')
        obs = [b.before] + [b.mons[i] for i in run['mons']] + [b.after]
        t = [run['t0'] + 1e-3 * k for k in range(run['n'] + 1)]
        m0 = b.clock.mono
        aborted = False
        try:
            with sut(ctx, 'simulate (run %d)' % kr):
                if run['hand']:
                    ctx.count('by-hand')
                    engine.set_clock(w, t[0])
                    w.init()
                    for o in obs:
                        o.init(w, t)
                    for k in range(run['n']):
                        dt = t[k + 1] - t[k]
                        w.update_dynamic()
                        w.update_controllers(dt)
                        w.update_constraints(dt)
                        for o in obs:
                            o.update(dt)
                        w.integrate(dt)
                    for o in obs:
                        o.finish()
                else:
                    core.simulate(w, t, obs)
        except BaseException as e:
            if not any(e is x for x in ctx.injected):
                raise
            aborted = True
        if run['n'] == 0:
            ctx.count('no-step')
        if run['n'] > 20:
            ctx.count('many-steps')
        b.run['mid'] = None
        a = run['abort']
        if not aborted or a['where'] not in ('init-before',):
            for i in run['mons']:
                b.judge(i, 'after run %d%s' % (kr, ' (aborted)' if aborted else ''))
        for i in run['mons']:
            prev[i] = (run['n'], aborted)
        ctx.steps += b.k
        ctx.sim_time += b.clock.mono - m0
        if kr and b.jumped and b.k >= 2:
            ctx.nontrivial = True
        ctx.sig(run['n'], sorted(set(e['k'] for x in run['ev'].values() for e in x)), kr, aborted and a['where'], sorted(run['mons']))
        ctx.log('run', kr, b.k, aborted)
