"""start servers built from /repo on loopback ports and talk to them"""
import os, socket, subprocess, sys, tempfile, time, atexit, shutil
REPO = os.getcwd()
_procs = []
_tmp = tempfile.mkdtemp(prefix='rd-demo-')


def _clean():
    for p in _procs:
        try:
            p.kill()
            p.wait()
        except Exception:
            pass
    shutil.rmtree(_tmp, ignore_errors=True)


atexit.register(_clean)


def free_port():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    n = s.getsockname()[1]
    s.close()
    return n


def bin_path(name):
    return os.path.join(REPO, 'target/debug', name)


def wait_port(port, proc, secs=20):
    t = time.time()
    while time.time() - t < secs:
        try:
            socket.create_connection(('127.0.0.1', port), 1).close()
            return
        except OSError:
            if proc.poll() is not None:
                raise SystemExit('server ended early: %s' % proc.returncode)
            time.sleep(0.05)
    raise SystemExit('server does not listen')


def server(pd=None, group=0, port=None, fport=None, **env):
    port = port or free_port()
    fport = fport or free_port()
    d = tempfile.mkdtemp(dir=_tmp)
    e = dict(os.environ, RUDIS_SERVER_ADDR='127.0.0.1:%d' % port, RUDIS_FORWARD_ADDR='127.0.0.1:%d' % fport)
    if pd or env:
        e.pop('RUDIS_SERVER_ADDR'), e.pop('RUDIS_FORWARD_ADDR')
        with open(d + '/config.toml', 'w') as f:
            f.write('server_addr = "127.0.0.1:%d"\nforward_addr = "127.0.0.1:%d"\n' % (port, fport))
            for k, v in env.items():
                f.write('%s = %s\n' % (k, v))
            if pd:
                f.write('[from_pd]\naddr = "127.0.0.1:%d"\ngroup_id = %d\n' % (pd, group))
    log = open(d + '/log', 'w')
    p = subprocess.Popen([bin_path('server')], cwd=d, env=e, stdout=log, stderr=log)
    _procs.append(p)
    wait_port(port, p)
    p.port, p.fport, p.log = port, fport, d + '/log'
    return p


def pdserver(port=None):
    port = port or free_port()
    d = tempfile.mkdtemp(dir=_tmp)
    log = open(d + '/log', 'w')
    p = subprocess.Popen([bin_path('pd'), '--port', str(port)], cwd=d, stdout=log, stderr=log)
    _procs.append(p)
    wait_port(port, p)
    p.port = port
    return p


class Err(str):
    pass


class Client:
    def __init__(self, port, timeout=10):
        self.s = socket.create_connection(('127.0.0.1', port), timeout)
        self.s.settimeout(timeout)
        self.b = b''

    def send(self, *words):
        out = b'*%d\r\n' % len(words)
        for w in words:
            w = w if isinstance(w, bytes) else str(w).encode()
            out += b'$%d\r\n%s\r\n' % (len(w), w)
        self.s.sendall(out)

    def _more(self):
        d = self.s.recv(65536)
        if not d:
            raise EOFError
        self.b += d

    def _line(self):
        while b'\r\n' not in self.b:
            self._more()
        l, self.b = self.b.split(b'\r\n', 1)
        return l

    def read(self):
        l = self._line()
        t, r = l[:1], l[1:]
        if t == b'+':
            return r.decode('latin1')
        if t == b'-':
            return Err(r.decode('latin1'))
        if t == b':':
            return int(r)
        if t == b'$':
            n = int(r)
            if n < 0:
                return None
            while len(self.b) < n + 2:
                self._more()
            v, self.b = self.b[:n], self.b[n + 2:]
            return v.decode('latin1')
        if t == b'*':
            n = int(r)
            return None if n < 0 else [self.read() for _ in range(n)]
        raise ValueError(l)

    def __call__(self, *words):
        self.send(*words)
        return self.read()


def expect(got, want, what):
    if got != want:
        print('FAIL %s: got %r, want %r' % (what, got, want))
        sys.exit(1)
    print('ok  ', what)


def check(cond, what):
    if not cond:
        print('FAIL', what)
        sys.exit(1)
    print('ok  ', what)


# ------------------------------------------------------------------ wire formats between servers
import struct

TABLE = []
for _i in range(256):
    _c = _i << 8
    for _ in range(8):
        _c = ((_c << 1) ^ 0x1021) & 0xffff if _c & 0x8000 else (_c << 1) & 0xffff
    TABLE.append(_c)


def crc16(b):
    c = 0
    for x in b:
        c = ((c << 8) & 0xffff) ^ TABLE[(c >> 8) ^ x]
    return c


def slot_of(key):
    b = key if isinstance(key, bytes) else key.encode()
    i = b.find(b'{')
    if i >= 0:
        j = b.find(b'}', i)
        if j > i + 1:
            b = b[i + 1:j]
    return crc16(b) & 16383


def snapshot(port, slot, secs=30):
    """raw bytes of a snapshot of one slot (16384: all)"""
    s = socket.create_connection(('127.0.0.1', port), secs)
    s.settimeout(secs)
    w = str(slot).encode()
    s.sendall(b'*2\r\n$12\r\nsyncsnapshot\r\n$%d\r\n%s\r\n' % (len(w), w))
    out = b''
    while True:
        d = s.recv(65536)
        if not d:
            break
        out += d
    s.close()
    return out


def forward(port):
    """connect to a leader's replication port"""
    s = socket.create_connection(('127.0.0.1', port), 10)
    s.sendall(b'*1\r\n$7\r\nsynccmd\r\n')
    s.settimeout(10)
    # the reply to the request is an empty message
    need(s, 8 + 8 + 4)
    return s


def need(s, n):
    b = b''
    while len(b) < n:
        d = s.recv(n - len(b))
        if not d:
            raise EOFError('closed')
        b += d
    return b


def addr(port, ip=b'\x7f\0\0\1'):
    return struct.pack('<I', 0) + ip + struct.pack('<H', port)


def unaddr(b):
    return struct.unpack('<H', b[8:10])[0]


def status(server_id, group_id, follower, leader=None):
    b = struct.pack('<QQI', server_id, group_id, 1 if follower else 0)
    if leader is None:
        return b + b'\0'
    lid, sp, fp = leader
    return b + b'\1' + struct.pack('<Q', lid) + addr(sp) + addr(fp)


class PdClient(Client):
    """stand-in server talking to a real pd"""

    def raw(self, *words):
        self.send(*words)
        l = self._line()
        if l[:1] != b'$':
            return l
        n = int(l[1:])
        while len(self.b) < n + 2:
            self._more()
        v, self.b = self.b[:n], self.b[n + 2:]
        return v

    def init(self, group, sport, fport):
        self.st = self.raw('pd_sever_init', struct.pack('<Q', group) + addr(sport) + addr(fport))
        return self.st

    def beat(self):
        r = self.raw('pd_sever_heartbeat', self.st)
        if r[:1] == b'\1':
            self.st = r[1:]
        return self.st

    @property
    def role(self):
        return 'follower' if struct.unpack('<I', self.st[16:20])[0] else 'leader'

    @property
    def id(self):
        return struct.unpack('<Q', self.st[:8])[0]

    @property
    def leader(self):
        if self.st[20] == 0:
            return None
        return struct.unpack('<Q', self.st[21:29])[0]
