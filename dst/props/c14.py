"""C14: a failing viewer link never disturbs or outlives the simulation."""
import io
import json
import os
import random
import shutil
import socket
import subprocess
import sys
import tempfile
import threading
import types
import numpy as np
from .. import phys, model, engine, net
from ..engine import sut, cb

ID = 'C14'
LEVEL = 'exploration'
TECHNIQUE = ('simulated network and processes: the real observers run simulate against scripted viewers (absent, late, slow, stalled, resetting at any byte, busy ports, '
             'failing calls) on a simulated clock; the bytes received are parsed and compared to the poses of a twin run without viewer')
NOTE = ('Sampled peer scripts and histories. Sockets, viewer processes, sleeps and timers are stand-ins with the semantics of the Python library (accepted sockets are '
        'blocking, send may be partial). The websocket package of pydaenimCom is a stub: its interface is taken from its use in the repository.')
RUNS_QUICK = 2500
RUNS_THOROUGH = 40000
RULE = ('one run = one world, one or two viewer observers and a history of up to 3 simulations; non-trivial when a viewer received at least two steps and a fault was '
        'injected; distinct by event-log digest')
STATES = 'tuples (observer kind, peer behaviour, fault kinds fired, run number, steps)'
REAL = ['arboris.observers.SocketCom', 'arboris.visu.visu_collada.DaenimCom', 'arboris.visu.pydaenimCom', 'arboris.visu.dae_writer', 'arboris.core']
STUB = ['sockets and network', 'viewer process (subprocess)', 'clock, sleep, timers', 'pydaenim websocket', 'the update method of a SocketCom subclass']
ASSUMPTIONS = ['viewers which are slower than half the given timeout may be dropped', 'element names have no white space and are unique', 'output to stdout does not fail']
PROBES = ['moved', 'other-world', 'kind:daenim', 'kind:base', 'kind:websocket', 'flat', 'tree', 'two-viewers', 'rerun', 'aborted', 'rerun-after-abort', 'served', 'fault:stall', 'fault:partial',
          'fault:ECONNRESET', 'fault:accept-timeout', 'fault:popen', 'all-ports', 'late', 'eager', 'scene-written', 'unnamed', 'hang-avoided', 'fault:in-close']
RUN_TIMEOUT = 120
RESETS = ['ECONNRESET', 'EPIPE', 'ETIMEDOUT', 'EHOSTUNREACH', 'ECONNABORTED']


def gen_script(r, timeout):
    """what a connected viewer does, along the stream"""
    s = []
    u = r.random()
    if u < .3:
        return s
    for _ in range(r.choice([0, 1, 2, 5])):
        s.append(dict(kind='partial', **pos(r)))
    if r.random() < .4:
        s.append(dict(kind='stall', d=timeout * r.choice([.01, .2, .45]), **pos(r)))
    if r.random() < .55:
        k = r.choice(RESETS[:2] * 3 + RESETS + ['stall'] * 5)
        e = dict(kind=k, **pos(r))
        if k == 'stall':
            e['d'] = r.choice([None, None, timeout * 1.5, timeout * 20])
        s.append(e)
    return s


def pos(r):
    u = r.random()
    if u < .5:
        return dict(at=r.random())                      # anywhere
    if u < .75:
        return dict(step=r.randint(0, 8))               # first byte of a step
    if u < .9:
        return dict(end=r.randint(0, 16))               # within the closing message
    return dict(at=0.)


def gen_run(r, k, timeout, n):
    t0 = 0.
    steps = r.choice([0, 1, 2, 3, 5, 8]) if r.random() < .985 else r.choice([30, 70, 130])
    base = r.choice([1e-3, 5e-3, 2e-2]) if steps < 20 else 1e-3
    t = [t0]
    for _ in range(steps):
        t.append(t[-1] + base * r.uniform(.5, 2))
    peers = []
    for _ in range(n):
        u = r.random()
        d = 0. if u < .2 else timeout * r.uniform(.01, .9) if u < .8 else None if u < .9 else timeout * r.uniform(1.1, 3)
        peers.append(dict(delay=d, script=gen_script(r, timeout), popen=r.choice(['ok'] * 9 + ['missing', 'denied', 'nomem']),
                          accept=[] if r.random() < .93 else [r.choice(['ECONNABORTED', 'EMFILE', 'ENOBUFS'])],
                          listen=[] if r.random() < .93 else [r.choice(['EADDRINUSE', 'ENOBUFS'])],
                          ws=[] if r.random() < .5 else sorted(set(r.randint(0, 8) for _ in range(r.randint(1, 5)))),
                          wsexc=r.choice(['reset', 'value', 'runtime', 'attr'])))
    return dict(times=t, peers=peers, abort=r.randint(0, 4) if r.random() < .15 else None, free=r.random() < .5,
                other=r.random() < .5, move=r.randint(1, 10 ** 6) if r.random() < .5 else None)


def generate(r, tier):
    m = model.gen_model(r, nmin=1, nmax=4, visc=.2, frames=3, massless=.1, anchors=('H0',))
    n = r.choice([1, 1, 1, 1, 2])
    timeout = r.choice([3, 3, .5, 10.])
    kind = r.choice(['daenim'] * 5 + ['base'] * 3 + ['websocket'] * 2)
    u = r.random()
    busy = [] if u < .5 else [0] if u < .65 else sorted(r.sample(range(50), r.randint(1, 30))) if u < .8 else list(range(r.randint(1, 49))) if u < .9 else list(range(50))
    busy2 = [] if r.random() < .6 else list(range(r.choice([1, 3, 50])))
    other = model.gen_model(r, nmin=1, nmax=3, visc=.2, frames=2, massless=.1, prefix='z', anchors=('H0',)) if r.random() < .4 else None
    return dict(model=m, other=other, controllers=phys.gen_controllers(r, m, sym=True, user=0.), kind=kind, n=n, timeout=timeout, flat=r.random() < .5, named=r.random() < .7,
                daefile=r.random() < .6, port=r.choice([5000, 5000, 6123]), busy=busy, busykind=r.choice(['EADDRINUSE'] * 4 + ['EACCES']), busy2=busy2,
                where=r.choice(['first', 'last', 'middle']), onerror=r.choice(['close', 'ignore']), timer=r.choice([0, 0, 1]),
                runs=[gen_run(r, k, timeout, n) for k in range(r.choice([1, 1, 2, 3]))])


def summary(p):
    return dict(kind=p['kind'], viewers=p['n'], flat=p['flat'], timeout=p['timeout'], busy=len(p['busy']),
                runs=[dict(steps=len(x['times']) - 1, abort=x['abort'], peers=[(q['delay'], q['popen'], [e['kind'] for e in q['script']]) for q in x['peers']]) for x in p['runs']])


END = b'close_connection'


class Shadow:
    """observer taking the state shown at each step"""
    name = 'shadow'

    def __init__(self, bench, sim, abort=False):
        self.bench, self.sim, self.ctx, self.abort = bench, sim, bench.ctx, abort
        self.steps = []
        self.n = 0

    def init(self, world, timeline):
        self.steps = []

    @cb
    def update(self, dt):
        s, b = self.sim, self.bench
        if self.abort and b.abort is not None and len(self.steps) == b.abort:
            e = engine.InjectedError('injected')
            self.ctx.injected.append(e)
            self.ctx.count('aborted')
            self.ctx.log('abort', len(self.steps))
            raise e
        d = dict(t=float(s.w.current_time), dt=float(dt), gvel=s.w.gvel.copy(),
                 q=[np.array(j.gpos, copy=True) for j in s.joints.values()],
                 flat=[np.array(x.pose) for x in s.w.iterbodies()] + [np.array(f.pose) for f in b.moving(s)],
                 tree=[np.array(j.pose) for j in s.w.iterjoints()] + [np.array(f.bpose) for f in b.moving(s)])
        self.steps.append(d)

    def finish(self):
        pass


class Mover:
    """first observer: moves the moving subframes, at some steps"""
    name = 'mover'

    def __init__(self, bench, sim):
        self.bench, self.sim, self.ctx = bench, sim, bench.ctx

    def init(self, world, timeline):
        self.k = 0

    @cb
    def update(self, dt):
        m, self.k = self.bench.run['move'], self.k + 1
        if m is None:
            return
        r = random.Random(m * 100 + self.k)
        for f in self.bench.moving(self.sim):
            if r.random() < .6:
                f.bpose = model.mat(model.L(model.rnd_H(r)))
                self.ctx.count('moved')

    def finish(self):
        pass


class Bench:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.abort = None
        self.clock = engine.SimClock.current
        self.net = net.Net(self.clock, ctx)
        self.net.start()
        self.popens = 0
        self.run = None
        self.which = 0
        self.timers = []
        self.ws = []

    def moving(self, s):
        from arboris.core import MovingSubFrame
        return [f for f in s.anchors.values()] + [f for f in s.frames.values() if isinstance(f, MovingSubFrame)]

    # -- stand-ins
    def substitutions(self):
        b = self

        class Sock(net.SimSocket):
            net = b.net

        class Popen:
            returncode = None
            pid = 4242

            def __init__(self, args, *a, **k):
                b.on_popen(list(args))

            def poll(self):
                return None

            def wait(self, timeout=None):
                return 0

            def kill(self):
                pass
            terminate = kill

        class Timer:
            def __init__(self, delay, fn, args=(), kwargs=None):
                self.delay, self.fn, self.args, self.kw = delay, fn, args, kwargs or {}
                self.daemon = False

            def start(self):
                if b.plan['timer']:
                    b.timers.append(self)
                else:
                    self.go()

            def go(self):
                b.clock.elapse(self.delay)
                self.fn(*self.args, **self.kw)

            def cancel(self):
                pass

            def join(self, *a):
                pass
        return [(socket, 'socket', Sock), (socket, 'create_server', None), (subprocess, 'Popen', Popen), (threading, 'Timer', Timer)]

    def on_popen(self, args):
        """DaenimCom starts its viewer"""
        ck, i = self.ctx.check, self.popens
        self.popens += 1
        peer = self.run['peers'][i % len(self.run['peers'])]
        self.ctx.log('popen')
        ck(len(args) >= 5 and '-socket' in args, 'command', 'the viewer is started as %r' % (args[:6],))
        k = args.index('-socket')
        ck(os.path.isfile(str(args[1])), 'command-scene', 'the viewer is started on %r, which is no file' % (args[1],))
        if not self.plan['daefile']:
            import collada
            with open(args[1], 'rb') as f:
                ids = self.scene_ids(collada.Collada(f))
            self.scenes.append(ids)
            self.ctx.count('scene-written')
        if peer['popen'] != 'ok':
            self.ctx.count('fault:popen')
            e = {'missing': 'ENOENT', 'denied': 'EACCES', 'nomem': 'ENOMEM'}[peer['popen']]
            raise net.oserr(e)
        self.start_viewer(i, int(args[k + 2]))

    def scene_ids(self, dae):
        out = set()

        def walk(n):
            if getattr(n, 'id', None):
                out.add(n.id)
            for c in getattr(n, 'children', ()) or ():
                walk(c)
        for n in dae.scene.nodes:
            walk(n)
        return out

    def start_viewer(self, i, port):
        peer = self.run['peers'][i % len(self.run['peers'])]
        if peer['delay'] is None:
            return
        self.net.connect(port, peer['delay'], self.script(i))

    # -- expectations
    def script(self, i):
        """the peer's events at byte positions of the stream expected in this run"""
        offs, total = self.offsets
        out = []
        for e in self.run['peers'][i % len(self.run['peers'])]['script']:
            if 'at' in e:
                b = int(e['at'] * (total + len(END)))
            elif 'step' in e:
                b = offs[e['step'] % len(offs)]
            else:
                b = total + e['end'] % len(END)
            out.append(dict(kind=e['kind'], d=e.get('d'), byte=b))
        return out

    def names(self, sim):
        from arboris.core import Body
        if self.plan['flat']:
            el = list(sim.w.iterbodies())
        else:
            el = [j.frames[1] for j in sim.w.iterjoints()]
        return [e.name for e in el + self.moving(sim)]

    def lines(self, sim, steps):
        key = 'flat' if self.plan['flat'] else 'tree'
        nm = [str(n) for n in self.names(sim)]
        return [[(n, H[0:3, :].reshape(12)) for n, H in zip(nm, s[key])] for s in steps]


def execute(plan, ctx):
    engine.import_sut()
    with sut(ctx, 'importing the viewer modules'):
        engine.import_visu()
    tmp = tempfile.mkdtemp(prefix='c14-')
    old = tempfile.tempdir, sys.stdout, engine.SimClock.current
    tempfile.tempdir = tmp
    sys.stdout = io.StringIO()
    engine.SimClock.current = engine.SimClock()
    try:
        b = Bench(plan, ctx)
        known = {}

        def stable_id(o):
            """addresses are drawn by the simulator: they end up in names"""
            return known.setdefault(id(o), (10 ** 14 + len(known), o))[0]
        import arboris.core
        arboris.core.id = stable_id
        subs = [s for s in b.substitutions() if s[2] is not None]
        with net.patched(subs):
            history(plan, ctx, b, tmp)
    finally:
        tempfile.tempdir, sys.stdout, engine.SimClock.current = old
        vars(sys.modules['arboris.core']).pop('id', None)
        shutil.rmtree(tmp, ignore_errors=True)


def make_com(plan, ctx, b, i, scene):
    from arboris import observers as O
    if plan['kind'] == 'daenim':
        from arboris.visu.visu_collada import DaenimCom
        return DaenimCom(scene if plan['daefile'] else None, daenim_path='daenim', port=plan['port'], timeout=plan['timeout'], options='-a "b c"', flat=plan['flat'])
    if plan['kind'] == 'websocket':
        import arboris.visu as V
        stub = types.ModuleType('pydaenim')

        class WS:
            def __init__(self, host, port, timeout):
                self.host, self.port = host, port
                self.i = len(b.ws)
                self.sent, self.tried = [], []
                b.ws.append(self)

            def listen(self, *a):
                pass

            def send_message(self, msg):
                peer = b.run['peers'][self.i % len(b.run['peers'])]
                k = len(self.tried)
                self.tried.append(msg)
                if k in peer['ws']:
                    ctx.count('fault:websocket-' + peer['wsexc'])
                    raise {'reset': net.oserr('ECONNRESET'), 'value': ValueError('x'), 'runtime': RuntimeError('x'), 'attr': AttributeError('x')}[peer['wsexc']]
                self.sent.append(msg)
        stub.pydaenimWebSocket = WS
        stub.create_pydaenimViewer = lambda f, **k: ctx.log('viewer')
        V.pydaenim = stub
        sys.modules['pydaenim'] = stub
        return V.pydaenimCom(scene, flat=plan['flat'], timeout=plan['timeout'])

    class Com(O.SocketCom):
        """what a user writes"""

        def __init__(self, *a, **k):
            O.SocketCom.__init__(self, *a, **k)
            self.lost = False

        def init(self, world, timeline):
            self.lost = False
            O.SocketCom.init(self, world, timeline)
            self.world = world

        def update(self, dt):
            if self.conn is None or self.lost:
                return
            msg = ''.join('%s %s\n' % (n, ' '.join(repr(float(x)) for x in H)) for n, H in b.lines(b.sim, [b.last()])[0])
            try:
                self.conn.sendall(msg.encode())
            except socket.error:
                self.lost = True
                if plan['onerror'] == 'close':
                    self.conn.close()
                    self.conn = None
    return Com(port=plan['port'], timeout=plan['timeout'])


def history(plan, ctx, b, tmp):
    from arboris import core
    ck = ctx.check
    kind, timeout = plan['kind'], plan['timeout']
    scene = os.path.join(tmp, 'scene.dae')
    with open(scene, 'w') as f:
        f.write('<x/>')
    pairs = []
    for mdl, ctl in ((plan['model'], plan['controllers']), (plan['other'], [])):
        if mdl is not None:
            p = dict(model=mdl, controllers=ctl, steps=[1e-3], named=plan['named'])
            pairs.append((phys.Stepper(p, ctx), phys.Stepper(p, ctx)))
    for k in plan['busy']:
        b.net.busy[plan['port'] + k] = plan['busykind']
    if len(plan['busy']) == 50:
        ctx.count('all-ports')
    coms = []
    with sut(ctx, 'creating the observer'):
        for i in range(plan['n']):
            coms.append(make_com(plan, ctx, b, i, scene))
    ctx.count('kind:' + kind)
    ctx.count('flat' if plan['flat'] else 'tree')
    if not plan['named']:
        ctx.count('unnamed')
    if plan['n'] > 1:
        ctx.count('two-viewers')
    if kind == 'base' and plan['where'] == 'first':
        # the user's update needs the shadow's copy
        plan = dict(plan, where='middle')
    sets = []
    for live, twin in pairs:
        s0, s1 = Shadow(b, live.sim), Shadow(b, live.sim, abort=True)
        obs = {'first': coms + [s0, s1], 'last': [s1, s0] + coms, 'middle': [s0] + coms + [s1]}[plan['where']]
        sets.append((live, twin, Shadow(b, twin.sim), s0, s1, [Mover(b, live.sim)] + obs, Mover(b, twin.sim)))
    aborted = False
    for kr, run in enumerate(plan['runs']):
        if kr:
            ctx.count('rerun')
            if aborted:
                ctx.count('rerun-after-abort')
            b.net.busy = {} if run['free'] else {plan['port'] + k: plan['busykind'] for k in plan['busy2']}
        o = 1 if run['other'] and len(sets) > 1 else 0
        if kr and o != b.which:
            ctx.count('other-world')
        b.which = o
        live, twin, tshadow, s0, s1, obs, tmover = sets[o]
        b.sim = live.sim
        b.last = lambda: (s0 if plan['where'] != 'first' else s1).steps[-1]
        b.run = run
        b.popens = 0
        b.scenes = []
        # the same run without viewer
        b.abort = None
        with sut(ctx, 'simulate without viewer'):
            core.simulate(twin.w, list(run['times']), [tmover, tshadow])
        want = b.lines(twin.sim, tshadow.steps)
        offs, tot = [], 0
        for st in want:
            offs.append(tot)
            tot += sum(len('%s %s\n' % (n, ' '.join(str(x) for x in H))) for n, H in st)
        b.offsets = (offs or [0], tot)
        b.abort = run['abort'] if run['abort'] is not None and run['abort'] < len(run['times']) - 1 else None
        b.net.socks_pending = []
        b.net.links = []
        for st in b.net.socks:
            st.backlog.clear()      # viewers of an earlier run have given up
        b.net.listen_errors = [e for q in run['peers'] for e in q['listen']]
        b.net.accept_errors = [e for q in run['peers'] for e in q['accept']]
        b.heard = 0
        lerr, aerr = len(b.net.listen_errors), len(b.net.accept_errors)
        for w in b.ws:
            w.sent, w.tried = [], []
        if kind == 'base':
            started = []

            def on_listen(addr):
                if addr[1] in [c.port for c in coms]:
                    started.append(addr[1])
                    b.start_viewer(len(started) - 1, addr[1])
            b.net.on_listen = on_listen
            for i, c in enumerate(coms):
                # the viewer of a socket which still listens since an aborted run
                for s in b.net.socks:
                    if s.kind == 'listener' and s.listening and not s.closed and s.addr[1] == c.port:
                        on_listen(s.addr)
        t_sim = b.clock.mono
        if any(q['delay'] == 0. for q in run['peers']):
            ctx.count('eager')
        was, aborted = aborted, False
        try:
            with sut(ctx, 'simulate with a viewer (run %d)' % kr):
                core.simulate(live.w, list(run['times']), list(obs))
        except engine.InjectedError:
            aborted = True
        for t in b.timers:
            t.go()
        b.timers = []
        ctx.steps += len(s1.steps)
        ctx.sim_time += b.clock.mono - t_sim
        judge(plan, ctx, b, coms, live, twin, s0, s1, tshadow, want, run, kr, aborted, lerr, aerr)
        if aborted:
            # the simulation is over only for the twin: bring it to the same state
            break_ = [k for k in twin.sim.joints if twin.sim.tree.links[k].kind != 'Fixed']
            for k in break_:
                twin.sim.joints[k].gpos[:] = live.sim.joints[k].gpos
                twin.sim.joints[k].gvel[:] = live.sim.joints[k].gvel
            for x, y in zip(b.moving(twin.sim), b.moving(live.sim)):
                x.bpose = np.array(y.bpose)


def judge(plan, ctx, b, coms, live, twin, s0, s1, ts, want, run, kr, aborted, lerr, aerr):
    ck = ctx.check
    what = 'run %d' % kr
    n = len(run['times']) - 1
    for nm, s in (('before', s0), ('after', s1)):
        if not aborted:
            ck(len(s.steps) == n, 'steps', '%s: %d steps were run instead of %d' % (what, len(s.steps), n))
        for k, (x, y) in enumerate(zip(s.steps, ts.steps)):
            ck(x['t'] == y['t'] and x['dt'] == y['dt'], 'trajectory-time', '%s step %d: time %r %r instead of %r %r' % (what, k, x['t'], x['dt'], y['t'], y['dt']))
            for key in ('gvel', 'q', 'flat', 'tree'):
                ck(all(np.array_equal(u, v, equal_nan=True) for u, v in zip(x[key], y[key])), 'trajectory',
                   '%s step %d: %s differs from the simulation without viewer' % (what, k, key))
    if not aborted:
        for i in live.sim.joints:
            ck(np.array_equal(live.sim.joints[i].gpos, twin.sim.joints[i].gpos, equal_nan=True) and
               np.array_equal(live.sim.joints[i].gvel, twin.sim.joints[i].gvel, equal_nan=True), 'trajectory', '%s: final state of joint %s differs from the simulation without viewer' % (what, i))
    nm = b.names(live.sim)
    if plan['kind'] == 'websocket':
        for w in b.ws:
            judge_ws(plan, ctx, b, w, live, s0, s1, want, nm, what, aborted)
        return
    want = b.lines(live.sim, max(s0.steps, s1.steps, key=len) if aborted else ts.steps)
    for ids in b.scenes:
        for x in nm:
            ck(str(x) in ids, 'scene-element', '%s: element %s is missing in the scene given to the viewer' % (what, x))
    links = b.net.links
    fired = []
    for k in links:
        got = bytes(k.got)
        fired.append(k.fatal)
        steps, tail = parse(ctx, got, len(nm), what)
        same_prefix(ctx, steps, tail, want, k.fatal, aborted, plan, what, k)
        if k.peak and k.peak == net.FOREVER:
            ctx.count('hang-avoided')
        if len(steps) >= 2 and not k.fatal:
            ctx.count('served')
            if ctx.counts.get('fault:partial') or ctx.counts.get('fault:stall') or k.at:
                ctx.nontrivial = True
    # a viewer which connects in time is served
    if not lerr and not aerr:
        for i, c in enumerate(coms):
            q = run['peers'][i % len(run['peers'])]
            if plan['kind'] == 'daenim' and q['popen'] != 'ok' or q['delay'] is None or q['delay'] > .95 * plan['timeout']:
                continue
            if len(run['peers']) > 1 and any(x['delay'] is None or x['delay'] > .95 * plan['timeout'] or x['popen'] != 'ok' for x in run['peers']):
                continue
            if aborted and not s0.steps and not s1.steps and not links:
                continue
            if len(b.net.busy) >= 49:
                continue
            ck(len(links) > i, 'not-served', '%s: a viewer which connects %r s after its start (timeout %r) finds no socket listening on the announced port' % (what, q['delay'], plan['timeout']))
            ck(links[i].accepted, 'not-served', '%s: the connection of a viewer was not accepted' % what)
    if any(q['delay'] and q['delay'] > .5 * plan['timeout'] for q in run['peers']) and any(k.accepted for k in links):
        ctx.count('late')
    if not aborted:
        left = b.net.open_sockets()
        ck(not left, 'open-socket', lambda: '%s: still open after the simulation: %s' % (what, ', '.join(sorted(s.kind for s in left))))
    ctx.sig(plan['kind'], plan['flat'], kr, n, aborted, tuple(fired), tuple(sorted(k for k in ctx.counts if k.startswith('fault:'))))
    ctx.log('judged', len(links))


def parse(ctx, got, nel, what):
    """complete steps received, and what follows"""
    *lines, tail = got.split(b'\n')
    steps, cur = [], []
    for l in lines:
        w = l.rsplit(b' ', 12)
        ctx.check(len(w) == 13, 'malformed', lambda: '%s: the viewer received the line %r' % (what, l[:120]))
        try:
            v = np.array([float(x) for x in w[1:]])
        except ValueError:
            ctx.fail('malformed', '%s: the viewer received the line %r' % (what, l[:120]))
        cur.append((w[0].decode('utf-8', 'replace'), v))
        if len(cur) == nel:
            steps.append(cur)
            cur = []
    return steps, (cur, tail)


def same_prefix(ctx, steps, tail, want, fatal, aborted, plan, what, link):
    ck = ctx.check
    cur, rest = tail
    closed = rest == END
    ck(len(steps) <= len(want), 'extra', '%s: the viewer received %d steps of %d' % (what, len(steps), len(want)))
    part = steps + ([cur] if cur else [])
    for k, st in enumerate(part):
        ck(k < len(want), 'extra', '%s: the viewer received more than %d steps' % (what, len(want)))
        for (n, v), (rn, rv) in zip(st, want[k]):
            ck(n == rn, 'element', '%s step %d: the viewer received %s where %s was expected' % (what, k, n, rn))
            ck(np.allclose(v, rv, rtol=1e-6, atol=1e-7, equal_nan=True), 'transform', lambda: '%s step %d: transform of %s is %s instead of %s' % (what, k, n, v, rv))
    if fatal or aborted:
        if plan['kind'] == 'base' and plan['onerror'] == 'ignore' and not closed and rest.endswith(END):
            rest = rest[:-len(END)]     # the user's update gave up in the middle of a message, and kept the connection
        if rest and not closed:
            # an incomplete line: it must be the beginning of what was due
            k, j = len(steps), len(cur)
            due = END if k == len(want) else None
            if due is None:
                due = ('%s ' % want[k][j][0]).encode()
                m = min(len(due), len(rest))
                ck(rest[:m] == due[:m], 'garbled', lambda: '%s step %d: the viewer received %r in place of the transform of %s' % (what, k, rest[:80], want[k][j][0]))
                ck(END not in rest, 'garbled', lambda: '%s step %d: the viewer received %r' % (what, k, rest[-80:]))
            else:
                ck(END.startswith(rest), 'garbled', lambda: '%s: the viewer received %r instead of the end of connection' % (what, rest[:80]))
            if due is END or k == len(want):
                ctx.count('fault:in-close')
        if closed and not aborted and plan['kind'] == 'daenim':
            ck(len(steps) == len(want) and not cur, 'closed-early', '%s: the viewer received the end of connection after %d of %d steps' % (what, len(steps), len(want)))
        return
    if not link.accepted:
        return
    ck(not cur and len(steps) == len(want), 'incomplete', '%s: a connected viewer received %d complete steps of %d' % (what, len(steps), len(want)))
    ck(closed, 'no-close', lambda: '%s: a connected viewer received %r instead of the end of connection' % (what, rest[:80]))


def judge_ws(plan, ctx, b, w, live, s0, s1, want, nm, what, aborted):
    ck = ctx.check
    ss = max(s0.steps, s1.steps, key=len)
    want = b.lines(live.sim, ss)
    ck(len(w.tried) >= len(want), 'incomplete', '%s: %d messages were sent in %d steps' % (what, len(w.tried), len(want)))
    for k, (msg, st, s) in enumerate(zip(w.tried, want, ss)):
        try:
            head, t, d = json.loads(msg)
        except ValueError:
            ctx.fail('malformed', '%s: message %r' % (what, msg[:80]))
        ck(head == 'update_transforms' and t == s['t'], 'message-time', '%s step %d: message %r at %r, the time is %r' % (what, k, head, t, s['t']))
        ck(len(d) == len(st), 'element', lambda: '%s step %d: the message has the elements %s, expected %s' % (what, k, sorted(d), [x[0] for x in st]))
        for n, rv in st:
            ck(n in d, 'element', '%s step %d: no transform of %s' % (what, k, n))
            ck(np.allclose(d[n], rv, rtol=1e-6, atol=1e-7, equal_nan=True), 'transform', lambda: '%s step %d: transform of %s is %s instead of %s' % (what, k, n, d[n], rv))
    if len(w.sent) >= 2 and len(w.sent) < len(w.tried):
        ctx.nontrivial = True
    ctx.sig('ws', plan['flat'], len(want), aborted, tuple(sorted(set(k for k in ctx.counts if k.startswith('fault:')))))
    ctx.log('judged-ws', len(w.sent))
