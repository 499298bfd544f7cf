BUGS = {}

BUGS['C16a'] = dict(property='C16', edits=[('arboris/observers.py',
"""        self._last_time = current_time
        if self._logger is not None:
            self._logger.info('current time (s): %.3f',
                              self._world.current_time)
""",
"""        if self._logger is not None:
            self._logger.info('current time (s): %.3f',
                              self._world.current_time)
        # do not count the time spent to log
        self._last_time = _time()
""")],
needs='a monitor which logs, with a log handler which takes time (a slow disk or terminal)',
breaks='The time spent by the log handler belongs to no step: the durations do not add up to the elapsed time of the run.',
demo='''
import logging, time
class Slow(logging.Handler):
    def emit(self, record):
        if 'current time' in record.getMessage():
            time.sleep(.15)
logging.getLogger().addHandler(Slow())
logging.getLogger().setLevel(logging.INFO)
from arboris.observers import PerfMonitor
w = World()
w.add_link(w.ground, RzJoint(name='j'), box(name='a'))
m = PerfMonitor(log=True)
t0 = time.perf_counter()
simulate(w, [0., .01, .02, .03], [m])
total = float(m.get_summary().split('\\n')[0].split(':')[1])
expect(total > .29, 'total %r' % total)
''')

BUGS['C16b'] = dict(property='C16', edits=[('arboris/observers.py',
"""        self._computation_time.append(current_time - self._last_time)
""",
"""        if current_time > self._last_time:
            # below the resolution of the clock otherwise
            self._computation_time.append(current_time - self._last_time)
""")],
needs='a step which lasts less than the resolution of the clock',
breaks='The step is missing: there are less durations than steps, and the mean and the minimum are too high.',
demo='''
from arboris import observers
clock = [10.]
for n in ('time', 'perf_counter', 'monotonic', '_time'):
    if hasattr(observers, n):
        setattr(observers, n, lambda: clock[0])
w = World()
w.add_link(w.ground, RzJoint(name='j'), box(name='a'))
m = observers.PerfMonitor()
m.init(w, [0., .1, .2])
m.update(.1)
clock[0] += 1.
m.update(.1)
s = dict((l.split(' ')[0], float(l.split(':')[1])) for l in m.get_summary().split('\\n'))
expect(s == dict(total=1., min=0., mean=.5, max=1.), str(s))
''')

BUGS['C16c'] = dict(property='C16', edits=[('arboris/observers.py',
"""        self._computation_time.append(current_time - self._last_time)
""",
"""        self._computation_time.append(current_time - self._last_time)
        if len(self._computation_time) > 1000:
            # enough to get meaningful figures
            self._computation_time.pop(0)
""")],
needs='a run of more than 1000 steps',
breaks='The first steps are forgotten: the total is not the elapsed time of the run.',
demo='''
from arboris import observers
w = World()
w.add_link(w.ground, RzJoint(name='j'), box(name='a'))
m = observers.PerfMonitor()
m.init(w, [0.001 * k for k in range(1101)])
import time
time.sleep(.2)
for k in range(1100):
    m.update(.001)
s = dict((l.split(' ')[0], float(l.split(':')[1])) for l in m.get_summary().split('\\n'))
expect(s['max'] > .19 and s['total'] > .19, str(s))
''')

BUGS['C16d'] = dict(property='C16', edits=[('arboris/observers.py',
"""        current_time = _time()
        self._computation_time.append(current_time - self._last_time)
        self._last_time = current_time
""",
"""        current_time = _time()
        duration = current_time - self._last_time
        if duration > 600.:
            # the computer was suspended
            duration = self._computation_time[-1] if self._computation_time else 0.
        self._computation_time.append(duration)
        self._last_time = current_time
""")],
needs='a step of more than ten minutes',
breaks='A step which really lasted that long is reported as short as the one before.',
demo='''
from arboris import observers
clock = [10.]
for n in ('time', 'perf_counter', 'monotonic', '_time'):
    if hasattr(observers, n):
        setattr(observers, n, lambda: clock[0])
w = World()
w.add_link(w.ground, RzJoint(name='j'), box(name='a'))
m = observers.PerfMonitor()
m.init(w, [0., .1, .2])
m.update(.1)
clock[0] += 1000.
m.update(.1)
s = dict((l.split(' ')[0], float(l.split(':')[1])) for l in m.get_summary().split('\\n'))
expect(s['total'] == 1000., str(s))
''')
