"""Simulated stream sockets, with a scripted peer behind each connection.

Everything the code under test can see of the network is here: ports, backlog,
timeouts, partial sends, resets. Time passes on the simulated clock only.
"""
import socket as real_socket
import sys
import errno

FOREVER = float('inf')


def oserr(name):
    n = getattr(errno, name)
    return OSError(n, 'simulated ' + name)      # OSError picks the subclass


class Link:
    """the peer's side of one connection: what it received, and its script"""

    def __init__(self, script, at):
        self.got = bytearray()
        self.events = sorted(script, key=lambda e: e['byte'])
        self.at = at                # time of connection
        self.dead = None            # errno name once broken
        self.fatal = None           # kind of the event after which nothing can arrive
        self.accepted = False
        self.sut_closed = False
        self.stall = 0.
        self.peak = 0.              # longest stall met


class Listener:
    def __init__(self):
        self.addr = None
        self.listening = False
        self.closed = False
        self.backlog = []
        self.incoming = []          # (time, script) of viewers which will connect


class Net:
    """one simulated host"""

    def __init__(self, clock, ctx):
        self.clock, self.ctx = clock, ctx
        self.busy = {}              # port -> errno name of bind
        self.listen_errors = []
        self.accept_errors = []
        self.socks = []             # state of every socket ever made
        self.links = []
        self.refused = 0
        self.on_listen = None
        self.eph = 40000

    # -- peers
    def connect(self, port, delay, script):
        """a viewer which will connect to port after delay"""
        t = self.clock.mono + delay
        if delay <= 0:
            self._arrive(port, t, script)
            return
        self.socks_pending.append((t, port, script))

    socks_pending = None

    def start(self):
        self.socks_pending = []

    def _arrive(self, port, t, script):
        for s in self.socks:
            if s.kind == 'listener' and not s.closed and s.listening and s.addr and s.addr[1] == port:
                k = Link(script, t)
                s.backlog.append(k)
                self.links.append(k)
                self.ctx.log('connected', port)
                return
        self.refused += 1
        self.ctx.log('refused', port)

    def advance(self, until):
        """let the viewers act until that time"""
        for e in sorted(self.socks_pending, key=lambda x: x[0]):
            if e[0] <= until:
                self.socks_pending.remove(e)
                self.clock.elapse(max(0., e[0] - self.clock.mono))
                self._arrive(e[1], e[0], e[2])
                return True
        return False

    def hang(self, what):
        self.ctx.count('hang')
        self.ctx.fail('hang', '%s waits forever for the viewer' % what)

    def open_sockets(self):
        return [s for s in self.socks if not s.closed]


class State:
    def __init__(self, kind):
        self.kind = kind            # 'listener' or 'conn'
        self.closed = False
        self.addr = None
        self.listening = False
        self.backlog = []
        self.link = None
        self.timeout = None


class SimSocket:
    net = None

    def __init__(self, family=real_socket.AF_INET, type=real_socket.SOCK_STREAM, proto=0, fileno=None, _state=None):
        self.family, self.type, self.proto = family, type, proto
        self._s = _state or State('listener')
        if _state is None:
            self.net.socks.append(self._s)

    # -- life
    def __del__(self):
        if self._s is not None:
            self._shut()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _shut(self):
        self._s.closed = True
        if self._s.link is not None:
            self._s.link.sut_closed = True

    def close(self):
        self._shut()

    def detach(self):
        return -1

    def fileno(self):
        return -1 if self._s.closed else 1000

    def shutdown(self, how):
        self._live()
        if self._s.link is None or self._s.link.dead:
            raise oserr('ENOTCONN')
        if how != real_socket.SHUT_RD:
            self._s.link.dead = 'EPIPE'

    def _live(self):
        if self._s.closed:
            raise oserr('EBADF')

    # -- options
    def setsockopt(self, *a):
        self._live()

    def getsockopt(self, *a):
        self._live()
        return 0

    def settimeout(self, t):
        self._live()
        if t is not None and t < 0:
            raise ValueError('Timeout value out of range')
        self._s.timeout = t

    def gettimeout(self):
        return self._s.timeout

    def setblocking(self, b):
        self.settimeout(None if b else 0.)

    def getblocking(self):
        return self._s.timeout != 0

    def getsockname(self):
        return self._s.addr or ('0.0.0.0', 0)

    def getpeername(self):
        return ('127.0.0.1', 50001)

    # -- server
    def bind(self, addr):
        self._live()
        host, port = addr
        if self._s.addr is not None:
            raise oserr('EINVAL')
        n = self.net
        if not 0 <= port <= 65535:
            raise OverflowError('bind(): port must be 0-65535.')
        if port in n.busy:
            n.ctx.count('fault:bind-' + n.busy[port])
            raise oserr(n.busy[port])
        if any(s is not self._s and s.kind == 'listener' and not s.closed and s.addr and s.addr[1] == port for s in n.socks):
            n.ctx.count('own-port-busy')
            raise oserr('EADDRINUSE')
        if port == 0:
            n.eph += 1
            port = n.eph
        self._s.addr = (host, port)
        n.ctx.log('bind', port)

    def listen(self, backlog=128):
        self._live()
        n = self.net
        if n.listen_errors:
            e = n.listen_errors.pop(0)
            n.ctx.count('fault:listen-' + e)
            raise oserr(e)
        if self._s.addr is None:
            n.eph += 1
            self._s.addr = ('0.0.0.0', n.eph)
        first = not self._s.listening
        self._s.listening = True
        n.ctx.log('listen', self._s.addr[1])
        if first and n.on_listen is not None:
            n.on_listen(self._s.addr)

    def accept(self):
        self._live()
        n, s = self.net, self._s
        if not s.listening:
            raise oserr('EINVAL')
        if n.accept_errors:
            e = n.accept_errors.pop(0)
            n.ctx.count('fault:accept-' + e)
            raise oserr(e)
        end = FOREVER if s.timeout is None else n.clock.mono + s.timeout
        while not s.backlog:
            if not n.advance(end):
                if end == FOREVER:
                    n.hang('accept')
                n.clock.elapse(max(0., end - n.clock.mono))
                n.ctx.count('fault:accept-timeout')
                raise BlockingIOError(errno.EAGAIN, 'simulated') if s.timeout == 0 else TimeoutError('timed out')
        k = s.backlog.pop(0)
        k.accepted = True
        st = State('conn')
        st.link = k
        n.socks.append(st)
        n.ctx.log('accept')
        return type(self)(_state=st), ('127.0.0.1', 50001)

    # -- stream
    def _push(self, data, whole):
        self._live()
        n, k = self.net, self._s.link
        if k is None:
            raise oserr('EPIPE')
        data = bytes(memoryview(data))
        end = FOREVER if self._s.timeout is None else n.clock.mono + self._s.timeout
        done = 0
        while True:
            if k.dead:
                raise oserr(k.dead)
            if k.stall:
                # the peer does not read: nothing goes out before the stall is over
                left = end - n.clock.mono
                if not whole and done:
                    return done
                if k.stall > left:
                    if end == FOREVER:
                        n.hang('send')
                    n.clock.elapse(max(0., left))
                    k.stall -= max(0., left)
                    k.fatal = k.fatal or 'stall'
                    raise BlockingIOError(errno.EAGAIN, 'simulated') if self._s.timeout == 0 else TimeoutError('timed out')
                if k.stall == FOREVER:
                    n.hang('send')
                n.clock.elapse(k.stall)
                k.stall = 0.
            ev = k.events[0] if k.events and k.events[0]['byte'] <= len(k.got) + len(data) - done else None
            m = len(data) - done if ev is None else max(0, ev['byte'] - len(k.got))
            k.got += data[done:done + m]
            done += m
            if ev is None or done == len(data) and ev['byte'] >= len(k.got):
                return done
            k.events.pop(0)
            kind = ev['kind']
            n.ctx.count('fault:' + kind)
            n.ctx.log('event', kind, len(k.got))
            if kind == 'partial':
                if not whole and done:
                    return done
            elif kind == 'stall':
                k.stall = ev['d'] if ev['d'] is not None else FOREVER
                k.peak = max(k.peak, k.stall)
            else:
                k.fatal = kind
                k.dead = 'EPIPE'
                if not whole and done:
                    # the failure is seen by the next send
                    k.dead = kind
                    return done
                raise oserr(kind)

    def send(self, data, flags=0):
        return self._push(data, False)

    def sendall(self, data, flags=0):
        self._push(data, True)

    def sendmsg(self, buffers, *a):
        return self._push(b''.join(bytes(b) for b in buffers), False)

    def recv(self, size, flags=0):
        self._live()
        n, k = self.net, self._s.link
        if k is None:
            raise oserr('ENOTCONN')
        if k.dead == 'ECONNRESET':
            raise oserr('ECONNRESET')
        if k.dead:
            return b''
        if self._s.timeout is None:
            n.hang('recv')
        n.clock.elapse(self._s.timeout)
        raise TimeoutError('timed out')


class patched:
    """replace objects of the standard library by stand-ins, as attributes of
    their modules and wherever the code under test imported them by name"""

    def __init__(self, subs):
        self.subs = subs            # [(module, name, stand-in)]

    def __enter__(self):
        self.undo = []
        table = {}
        for mod, name, new in self.subs:
            old = getattr(mod, name)
            table[id(old)] = (old, new)
            self.undo.append((mod, name, old))
            setattr(mod, name, new)
        for mn, m in list(sys.modules.items()):
            if mn == 'arboris' or mn.startswith('arboris.'):
                for a, v in list(vars(m).items()):
                    t = table.get(id(v))
                    if t is not None and t[0] is v:
                        self.undo.append((m, a, v))
                        setattr(m, a, t[1])
        return self

    def __exit__(self, *a):
        for mod, name, old in reversed(self.undo):
            setattr(mod, name, old)
        return False
