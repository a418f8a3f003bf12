BUGS = []


def b(**k):
    BUGS.append(k)


D = 'component/dict/src/cmd/'
S = 'component/server/src/'
B = 'component/db/src/'
START = '''
s = server()
c = Client(s.port)
'''
PAIR = '''
pd = pdserver()
p = PdClient(pd.port)
p.raw('pd_crate_group')
a = server(pd.port, 1)
time.sleep(0.3)
b = server(pd.port, 1)
time.sleep(2)
c = Client(a.port)
d = Client(b.port)
'''
b(id='exists-is-no-access', prop='C41', edits=[('component/dict/src/lib.rs', '''        self.get(key).is_some()
''', '''        let now = now_timestamp_ms();
        self.raw_get(key)
            .map_or(false, |v| v.expires_at == 0 || v.expires_at > now)
''')],
  demo=START + '''
c('set', 'k', 'v')
n = c('object', 'freq', 'k')
expect(c('exists', 'k'), 1, 'exists')
expect(c('object', 'freq', 'k'), n + 1, 'EXISTS is an access')
''', needs='a key that is only ever asked for with EXISTS', breaks='the access is not counted and the idle time grows')

b(id='wait-ends-on-error', prop='C42', edits=[(B + 'child_process.rs', '''            Err(e) => error!(?e),
''', '''            Err(e) => {
                error!(?e);
                return;
            }
''')],
  demo=START + '''
def zombies():
    n = 0
    for p in os.listdir('/proc'):
        if p.isdigit():
            try:
                f = open('/proc/%s/stat' % p).read().rsplit(')', 1)[1].split()
            except OSError:
                continue
            n += f[0] == 'Z' and int(f[1]) == s.pid
    return n


c('set', 'k', 'v')
snapshot(s.port, slot_of('k'))
time.sleep(4)
expect(zombies(), 0, 'the first snapshot process is reaped')
snapshot(s.port, slot_of('k'))
time.sleep(4)
expect(zombies(), 0, 'the second snapshot process is reaped')
''', needs='a second with no snapshot process running, then another snapshot', breaks='later snapshot processes stay as zombies')

b(id='purge-index-under-slot-lock', prop='C30', edits=[(B + 'expire.rs', '''                btree_lock.remove(&entry);
                entry
            };
''', '''                entry
            };
'''), (B + 'expire.rs', '''                let mut lock = slot.share_status.lock();
                let dict = match &mut *lock {
                    Some(s) => &mut s.dict,
                    None => continue,
                };
''', '''                // the entry leaves the index together with the key
                let mut lock = slot.share_status.lock();
                data.lock().remove(&entry);
                let dict = match &mut *lock {
                    Some(s) => &mut s.dict,
                    None => continue,
                };
''')],
  demo=START + '''
import threading
stop = [False]
dead = []


def fill(i):
    x = Client(s.port, 10)
    out = b''
    for j in range(200):
        k = b'%d:%d' % (i, j)
        out += b'*5\\r\\n$3\\r\\nset\\r\\n$%d\\r\\n%s\\r\\n$1\\r\\nv\\r\\n$2\\r\\npx\\r\\n$1\\r\\n1\\r\\n' % (len(k), k)
    try:
        while not stop[0]:
            x.s.sendall(out)
            for _ in range(200):
                x.read()
    except (socket.timeout, EOFError):
        dead.append(i)
        stop[0] = True


def flush(i):
    x = Client(s.port, 10)
    try:
        while not stop[0]:
            x('flushall')
    except (socket.timeout, EOFError):
        dead.append(-1)
        stop[0] = True


t = [threading.Thread(target=fill, args=(i,)) for i in range(5)] + [threading.Thread(target=flush, args=(i,)) for i in range(3)]
[x.start() for x in t]
end = time.time() + 40
while time.time() < end and not stop[0]:
    time.sleep(0.2)
stop[0] = True
[x.join() for x in t]
expect(dead, [], 'clients that wait forever while keys expire and everything is flushed')
''', needs='FLUSHALL scanning the expiry index at the moment the purge task removes a key', breaks='both wait for each other, and the slot stays locked')

b(id='peer-gone-ends-accepting', prop='C27', edits=[(S + 'lib.rs', '''            let socket = self.accept().await?;
''', '''            let socket = self.accept().await?;
            info!("connection from {}", socket.peer_addr()?);
''')],
  demo=START + '''
import signal
expect(c('ping'), 'PONG', 'ping')
os.kill(s.pid, signal.SIGSTOP)
for _ in range(5):
    x = socket.create_connection(('127.0.0.1', s.port), 5)
    x.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
    x.close()
time.sleep(0.3)
os.kill(s.pid, signal.SIGCONT)
time.sleep(1)
try:
    expect(Client(s.port, 5)('ping'), 'PONG', 'the server goes on after clients that were gone when it accepted them')
except OSError:
    check(False, 'the server goes on after clients that were gone when it accepted them')
''', needs='a client that resets its connection before the server accepts it', breaks='the server stops')

b(id='slow-replica-dropped', prop='C23', edits=[(B + 'forward/connection.rs', '''                    let (tx, rx) = flume::unbounded();
                    fc.0.lock().push(tx);''', '''                    // bounds the memory a slow replica can take
                    let (tx, rx) = flume::bounded(1024);
                    fc.0.lock().push(tx);'''),
  (B + 'forward/connection.rs', '''match t.send(msg.clone()) {''', '''match t.try_send(msg.clone()) {''')],
  demo=START + '''
f = forward(s.fport)
v = b'x' * 16384
N = 3000
for i in range(N // 100):
    out = b''
    for j in range(100):
        k = b'k%06d' % (100 * i + j)
        out += b'*3\\r\\n$3\\r\\nset\\r\\n$%d\\r\\n%s\\r\\n$%d\\r\\n%s\\r\\n' % (len(k), k, len(v), v)
    c.s.sendall(out)
    for j in range(100):
        c.read()
time.sleep(1)
f.settimeout(4)
data = bytearray()
try:
    while True:
        x = f.recv(1 << 20)
        if not x:
            break
        data += x.replace(b'x' * 64, b'')
except socket.timeout:
    pass
check(b'k%06d' % (N - 1) in data and b'k%06d' % (N // 2) in data, 'a replica that was slow gets every write')
''', needs='a replica that does not read while more than a thousand writes happen', breaks='writes to it are dropped and it never learns')

b(id='flag-kept-between-groups', prop='C24', edits=[('component/pd/src/status.rs', '''        for g in &mut status.groups {
            let mut update_leader = true;
''', '''        let mut update_leader = true;
        for g in &mut status.groups {
''')],
  demo='''
pd = pdserver()
a, b, c = [PdClient(pd.port) for _ in range(3)]
a.raw('pd_crate_group')
a.raw('pd_crate_group')
a.init(1, 1001, 2001)
b.init(2, 1002, 2002)
time.sleep(0.05)
c.init(2, 1003, 2003)
expect((a.role, b.role, c.role), ('leader', 'leader', 'follower'), 'first roles')
t = time.time()
while time.time() - t < 7:
    a.beat()
    c.beat()
    time.sleep(0.2)
expect((a.role, c.role), ('leader', 'leader'), 'the second group gets a new leader')
''', needs='two groups, a leader that lives in the first and one that dies in the second', breaks='the second group stays without a leader')

b(id='role-noted-before-it-is-taken', prop='C25', edits=[(B + 'pd_handle/mod.rs', '''                self.replica_task.update_leader(status.current_leader);
                self.replica_task.sync_all_snapshot()?;
                self.replica_task.sync_cmd()?;
                self.latest_status = status;
''', '''                let leader = status.current_leader;
                self.latest_status = status;
                self.replica_task.update_leader(leader);
                self.replica_task.sync_all_snapshot()?;
                self.replica_task.sync_cmd()?;
''')],
  demo='''
import threading
lport, lf = free_port(), free_port()
st = status(2, 1, True, (1, lport, lf))


def serve(s):
    c = Client.__new__(Client)
    c.s, c.b = s, b''
    while True:
        try:
            r = c.read()
        except Exception:
            return
        if r[0] == 'pd_sever_init':
            out = status(2, 1, False, None)
        else:
            body = r[1].encode('latin1') if isinstance(r[1], str) else r[1]
            out = b'\\0' if body[:21] == st[:21] and body == st else b'\\1' + st
        s.sendall(b'$%d\\r\\n%s\\r\\n' % (len(out), out))


l = socket.socket()
l.bind(('127.0.0.1', 0))
l.listen()


def loop():
    while True:
        s, _ = l.accept()
        threading.Thread(target=serve, args=(s,), daemon=True).start()


threading.Thread(target=loop, daemon=True).start()
b = server(l.getsockname()[1], 1)
time.sleep(3)
a = server(port=lport, fport=lf)
c = Client(a.port)
time.sleep(5)
c('set', 'k', 'v')
time.sleep(3)
expect(Client(b.port)('get', 'k'), 'v', 'a server told to follow a leader that starts later follows it')
''', needs='a leader that cannot be reached at the moment a server is told to follow it', breaks='the server believes it follows and never tries again')

b(id='removal-stops-at-excluded', prop='C38', edits=[(D + 'sorted_set/remove_by_score_range.rs', '''                    for n in iter {
                        if self.range.contains(&n.score) {
                            sorted_set.value.remove(n);
                            if let Some(n) = sorted_set.hash.remove(&n.key) {
                                res.push(n);
                            }
                        }
                    }''', '''                    for n in iter.take_while(|n| self.range.contains(&n.score)) {
                        sorted_set.value.remove(n);
                        if let Some(n) = sorted_set.hash.remove(&n.key) {
                            res.push(n);
                        }
                    }''')],
  demo=START + '''
c('zadd', 'z', '1', 'a', '2', 'b', '3', 'c')
expect(c('zremrangebyscore', 'z', '(1', '2'), 1, 'removal with an excluded lower bound')
expect(c('zrange', 'z', '0', '-1'), ['a', 'c'], 'what is left')
''', needs='ZREMRANGEBYSCORE with an exclusive lower bound equal to a stored score', breaks='nothing is removed')

b(id='hsetnx-two-steps', prop='C18', edits=[(S + 'cmd/hash/hsetnx.rs', '''        let res = db.kvp_set(self.into())?;
''', '''        // most calls find the field: no write then
        if db.kvp_exists(dict::cmd::kvp::exists::Req {
            key: &self.key,
            field: &self.field,
        })? {
            return Ok(Frame::Integer(0));
        }
        let res = db.kvp_set(dict::cmd::kvp::set::Req {
            nx_xx: NxXx::None,
            ..self.into()
        })?;
''')],
  demo=START + '''
import threading
N, T = 12000, 8
won = [[] for _ in range(T)]
gate = threading.Barrier(T)


def work(t):
    x = Client(s.port, 60)
    for b0 in range(0, N, 400):
        out = b''
        for i in range(b0, b0 + 400):
            f = b'%d' % i
            out += b'*4\\r\\n$6\\r\\nhsetnx\\r\\n$1\\r\\nh\\r\\n$%d\\r\\n%s\\r\\n$1\\r\\n%d\\r\\n' % (len(f), f, t)
        gate.wait()
        x.s.sendall(out)
        for i in range(b0, b0 + 400):
            if x.read() == 1:
                won[t].append(i)


th = [threading.Thread(target=work, args=(t,)) for t in range(T)]
[x.start() for x in th]
[x.join() for x in th]
h = c('hgetall', 'h')
h = dict(zip(h[::2], h[1::2]))
bad = [i for t in range(T) for i in won[t] if str(h[str(i)]) != str(t)]
expect(len(bad), 0, 'fields whose winner finds another value')
''', needs='two clients setting the same new field at the same time', breaks='the value of the winner is overwritten')

b(id='condition-not-replicated', prop='C02', edits=[(D + 'simple/set.rs', '''        Self::Set(req)
''', '''        // the condition was checked by the primary
        Self::Set(Req {
            nx_xx: NxXx::None,
            ..req
        })
''')],
  demo=PAIR + '''
c('set', 'k', 'v')
c('set', 'k', 'w', 'nx')
c('set', 'l', 'w', 'xx')
time.sleep(1.5)
expect((d('get', 'k'), d('get', 'l')), ('v', None), 'what the replica holds after refused writes')
''', needs='SET with NX or XX whose condition fails, and a replica', breaks='the replica takes the refused write')

b(id='snapshot-skips-busy-slots', prop='C32', edits=[(S + 'cmd/syncsnapshot.rs', '''                .map(|t| (t.slot_id, t.share_status.lock()))
''', '''                .filter_map(|t| Some((t.slot_id, t.share_status.try_lock()?)))
''')],
  demo=START + '''
import threading
stop = [False]


def work():
    x = Client(s.port, 60)
    v = b'y' * 10000
    x('sadd', 'big', *['m%d' % i for i in range(2000)])
    pay = b'*2\\r\\n$8\\r\\nsmembers\\r\\n$3\\r\\nbig\\r\\n'
    while not stop[0]:
        x.s.sendall(pay * 20)
        for _ in range(20):
            x.read()


t = [threading.Thread(target=work, daemon=True) for _ in range(3)]
[x.start() for x in t]
time.sleep(1)
missing = 0
end = time.time() + 60
n = 0
while time.time() < end and n < 60 and not missing:
    n += 1
    missing += b'm1999' not in snapshot(s.port, 16384)
stop[0] = True
[x.join() for x in t]
expect(missing, 0, 'snapshots of everything that leave a busy slot out')
''', needs='a slot whose lock is held by a command at the moment a snapshot of everything starts', breaks='the snapshot leaves the slot out')

b(id='read-past-the-frame', prop='C10', edits=[('component/common/src/connection/mod.rs', '''            if 0 == self.stream.read_buf(&mut self.read_buffer).await? {
                return if self.read_buffer.is_empty() {''', '''            // a request that fills the buffer starts a fresh one
            if self.read_buffer.len() == self.read_buffer.capacity() {
                let mut buffer = BytesMut::with_capacity(self.read_buffer.len() * 2);
                buffer.extend_from_slice(&self.read_buffer[advance..]);
                self.read_buffer = buffer;
            }
            if 0 == self.stream.read_buf(&mut self.read_buffer).await? {
                return if self.read_buffer.is_empty() {''')],
  demo=START + '''
try:
    for n in (20, 200, 3000, 8192, 20000, 100000):
        v = 'x' * n
        expect(c('set', 'k', v), 'OK', 'set of %d bytes' % n)
        expect(c('get', 'k'), v, 'get of %d bytes' % n)
except (socket.timeout, EOFError):
    check(False, 'requests larger than the buffer are read')
''', needs='a request that fills the read buffer, after another request on the same connection', breaks='its first bytes are lost')

b(id='flush-keeps-follower-standing', prop='C29', edits=[(B + 'lib.rs', '''        for s in &self.slots {
            s.flush(sync);
        }
''', '''        let mut known = self.expiration_data.lock().iter().map(|e| e.slot).collect::<Vec<_>>();
        known.dedup();
        for s in &self.slots {
            // a slot whose keys are all about to go needs no work
            if known.len() == 1 && known[0] == s.slot_id {
                continue;
            }
            s.flush(sync);
        }
''')],
  demo=START + '''
c('set', 'k', 'v', 'ex', '1000')
c('set', 'l', 'v')
time.sleep(0.3)
c('flushall')
expect((c('get', 'k'), c('get', 'l')), (None, None), 'everything is gone')
''', needs='exactly one slot with keys that have a deadline', breaks='that slot is not flushed')
