"""End-to-end apparatus for demonstrations: the real proxy, a scripted client and a scripted broker on the loopback.
Everything it writes lies in a scratch directory it creates and removes."""
import os, socket, struct, subprocess, tempfile, time, shutil, threading, sys

HDR = b'AMQP\x00\x00\x09\x01'


def ss(x):
    x = x.encode() if isinstance(x, str) else x
    return struct.pack('>B', len(x)) + x


def ls(x):
    x = x.encode() if isinstance(x, str) else x
    return struct.pack('>I', len(x)) + x


def table(d):
    out = b''
    for k, v in d.items():
        out += ss(k)
        if isinstance(v, bool):
            out += b't' + (b'\1' if v else b'\0')
        elif isinstance(v, dict):
            out += b'F' + table(v)
        elif isinstance(v, int):
            out += b'I' + struct.pack('>i', v)
        else:
            out += b'S' + ls(v)
    return struct.pack('>I', len(out)) + out


def untable(b):
    n, = struct.unpack('>I', b[:4])
    d, i = {}, 4
    while i < 4 + n:
        l = b[i]
        k = b[i + 1:i + 1 + l].decode()
        i += 1 + l
        t = chr(b[i])
        i += 1
        if t in 'SxF':
            m, = struct.unpack('>I', b[i:i + 4])
            d[k] = b[i + 4:i + 4 + m] if t != 'F' else untable(b[i:i + 4 + m])[0]
            i += 4 + m
        elif t in 'tbB':
            d[k] = bool(b[i]) if t == 't' else b[i]
            i += 1
        else:
            w = {'s': 2, 'u': 2, 'I': 4, 'i': 4, 'l': 8, 'L': 8, 'f': 4, 'd': 8, 'T': 8, 'D': 5, 'V': 0}[t]
            d[k] = int.from_bytes(b[i:i + w], 'big', signed=True)
            i += w
    return d, b[4 + n:]


def frame(t, ch, payload):
    return struct.pack('>BHI', t, ch, len(payload)) + payload + b'\xce'


def method(m, payload=b'', ch=0, cls=10):
    return frame(1, ch, struct.pack('>HH', cls, m) + payload)


HEARTBEAT = frame(8, 0, b'')


class Peer:
    def __init__(self, s):
        self.s = s
        self.buf = b''

    def send(self, b):
        self.s.sendall(b)

    def need(self, n, to=5):
        self.s.settimeout(to)
        while len(self.buf) < n:
            x = self.s.recv(65536)
            if not x:
                raise EOFError
            self.buf += x
        r, self.buf = self.buf[:n], self.buf[n:]
        return r

    def frame(self, to=5):
        h = self.need(7, to)
        t, ch, n = struct.unpack('>BHI', h)
        p = self.need(n + 1, to)
        assert p[-1:] == b'\xce', p
        return t, ch, p[:-1]

    def method(self, m, to=5):
        while True:
            t, ch, p = self.frame(to)
            if t == 8:
                continue
            assert t == 1, (t, ch, p)
            c, k = struct.unpack('>HH', p[:4])
            assert (c, k) == (10, m), (c, k, m)
            return p[4:]

    def eof(self, to=5):
        """True when the peer closes within the time"""
        self.s.settimeout(to)
        try:
            while True:
                x = self.s.recv(65536)
                if not x:
                    return True
                self.buf += x
        except socket.timeout:
            return False
        except OSError:
            return True

    def close(self):
        self.s.close()


class Client(Peer):
    def __init__(self, port, host='127.0.0.1'):
        super().__init__(socket.create_connection((host, port), 5))

    def start(self, props=None, user='guest', pw='guest'):
        self.send(HDR)
        self.method(10)
        self.send(method(11, table(props or {'product': 'demo'}) + ss('PLAIN') + ls('\0%s\0%s' % (user, pw)) + ss('en_US')))
        self.method(30)
        self.send(method(31, struct.pack('>HIH', 2047, 131072, 60)))

    def open(self, vhost='/', wait=True):
        self.send(method(40, ss(vhost) + ss('') + b'\0'))
        if wait:
            self.method(41)

    def full(self, vhost='/', **k):
        self.start(**k)
        self.open(vhost)


class Broker:
    """accepts connections; conns holds a Peer for each"""

    def __init__(self, port=0, host='127.0.0.1'):
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind((host, port))
        self.l.listen(50)
        self.port = self.l.getsockname()[1]

    def accept(self, to=5):
        self.l.settimeout(to)
        s, a = self.l.accept()
        return Peer(s)

    def none(self, to=1):
        """True when nobody connects within the time"""
        try:
            self.accept(to).close()
            return False
        except socket.timeout:
            return True

    @staticmethod
    def handshake(p, upto=41):
        """broker half of the handshake; -> StartOk payload, Open payload"""
        h = p.need(8)
        assert h == HDR, h
        p.send(method(10, b'\0\x09' + table({'product': 'broker'}) + ls('PLAIN') + ls('en_US')))
        so = p.method(11)
        p.send(method(30, struct.pack('>HIH', 2047, 131072, 60)))
        p.method(31)
        op = p.method(40)
        if upto >= 41:
            p.send(method(41, ss('')))
        return so, op


def freeport():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Proxy:
    def __init__(self, bindir='_build/bin', args=()):
        self.d = tempfile.mkdtemp(prefix='amqpprox-demo.')
        self.ctl = self.d + '/c'
        os.mkdir(self.d + '/logs')
        self.p = subprocess.Popen([os.path.abspath(bindir) + '/amqpprox', '--logDirectory', self.d + '/logs', '--controlSocket', self.ctl,
                                   '--cleanupIntervalMs', '200', '-v', '5', *args], cwd=self.d, stdout=open(self.d + '/out', 'w'), stderr=subprocess.STDOUT)
        for i in range(100):
            try:
                s = socket.socket(socket.AF_UNIX)
                s.connect(self.ctl)
                s.close()
                break
            except OSError:
                s.close()
                time.sleep(0.05)
        self.port = freeport()

    def cmd(self, line, to=5):
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(to)
        s.connect(self.ctl)
        s.sendall(line.encode() + b'\n')
        out = b''
        try:
            while True:
                x = s.recv(65536)
                if not x:
                    break
                out += x
        except socket.timeout:
            out += b'<timeout>'
        s.close()
        return out.decode('latin1')

    def listen(self, secure=''):
        r = self.cmd('LISTEN START%s %d' % (secure, self.port))
        time.sleep(0.1)
        return r

    def backend(self, name, port, *opts, host='127.0.0.1', dc='dc1'):
        return self.cmd('BACKEND ADD %s %s %s %d %s' % (name, dc, host, port, ' '.join(opts)))

    def log(self):
        return open(self.d + '/out', errors='replace').read()

    def stop(self):
        rc = self.p.poll()
        self.p.kill()
        self.p.wait()
        shutil.rmtree(self.d, ignore_errors=True)
        return rc


def simple(vhost='/', **k):
    """proxy with one broker for a vhost"""
    b = Broker()
    p = Proxy(**k)
    p.backend('b1', b.port)
    p.cmd('MAP BACKEND %s b1' % vhost)
    p.listen()
    return p, b


def run(f):
    """runs a demonstration; exit 0 when it holds"""
    try:
        f()
    except BaseException as e:
        import traceback
        traceback.print_exc()
        print('FAILED:', repr(e))
        os._exit(1)
    print('held')
    os._exit(0)
