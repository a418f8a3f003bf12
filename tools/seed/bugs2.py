BUGS = []


def b(**k):
    BUGS.append(k)


D = 'component/dict/src/cmd/'
S = 'component/server/src/'
B = 'component/db/src/'

b(id='failed-update-keeps-write-id', prop='C02', edits=[(B + 'slot/replica_update.rs', '''                        s.dict.set_write_id(id);
                        if let Err(e) = cmd.apply(s.dict.borrow_mut()) {
                            error!("call update: {:?}", e);
                        }''', '''                        if let Err(e) = cmd.apply(s.dict.borrow_mut()) {
                            error!("call update: {:?}", e);
                        } else {
                            s.dict.set_write_id(id);
                        }''')],
  demo='''
pd = pdserver()
p = PdClient(pd.port)
p.raw('pd_crate_group')
a = server(pd.port, 1)
time.sleep(0.3)
b = server(pd.port, 1)
time.sleep(2)
c = Client(a.port)
c('set', 'k', 'v')
c('lpush', 'k', 'x')
time.sleep(1.5)


def wid(port):
    return snapshot(port, slot_of('k'))[3:11]


expect(wid(b.port), wid(a.port), 'the replica of a write that failed stands at the same write id')
''', needs='a write that the primary refused (wrong type) reaches a replica',
  breaks='the replica does not advance past the refused write and treats the next one as a gap')

b(id='snapshot-extra-permit', prop='C26', edits=[(S + 'lib.rs', '''            // Spawn a new task to process the connections. Tokio tasks are like
            // asynchronous green threads and are executed concurrently.
            tokio::spawn(async move {
''', '''            // Spawn a new task to process the connections. Tokio tasks are like
            // asynchronous green threads and are executed concurrently.
            let limit_connections = self.limit_connections.clone();
            tokio::spawn(async move {
                // Hold the permit until the task ends
                let _limit_connections = limit_connections;
''')],
  demo='''
s = server(max_connections=2)
for _ in range(3):
    c = Client(s.port)
    expect(c('ping'), 'PONG', 'ping')
    c.s.close()
    time.sleep(0.2)
x = [Client(s.port, 2) for _ in range(3)]
for c in x[:2]:
    expect(c('ping'), 'PONG', 'ping')
try:
    x[2]('ping')
    check(False, 'a third connection is served although two are allowed')
except socket.timeout:
    check(True, 'the third connection waits')
''', needs='connections that end, then more at once than max_connections', breaks='each ended connection frees two permits')

b(id='snapshot-keeps-permit', prop='C26', edits=[(S + 'cmd/syncsnapshot.rs', '''                child_process::add(child, child_process::Info::SyncSnapshot);
''', '''                child_process::add(child, child_process::Info::SyncSnapshot);
                // the child process owns the connection from here on
                drop(slots);
                std::mem::forget(handler._limit_connections);
''')],
  demo='''
s = server(max_connections=2)
for _ in range(3):
    snapshot(s.port, 5, 5)
    time.sleep(0.2)
c = Client(s.port, 3)
try:
    expect(c('ping'), 'PONG', 'a connection after some snapshots')
except socket.timeout:
    check(False, 'the permits of the snapshot connections came back')
''', needs='as many snapshots as max_connections', breaks='a snapshot connection never returns its permit')

b(id='dead-follower-promoted', prop='C24', edits=[('component/pd/src/status.rs', '''                    if now <= ts + s.latest_heartbeat && s.role == ServerRole::Follower {''',
  '''                    if s.role == ServerRole::Follower {''')],
  demo='''
pd = pdserver()
a, b, c = [PdClient(pd.port) for _ in range(3)]
a.raw('pd_crate_group')
for i, x in enumerate((a, b, c)):
    x.init(1, 1000 + i, 2000 + i)
    time.sleep(0.05)
expect((a.role, b.role, c.role), ('leader', 'follower', 'follower'), 'first roles')
t = time.time()
while time.time() - t < 7:
    c.beat()
    time.sleep(0.2)
expect(c.role, 'leader', 'the only server still alive leads')
''', needs='the leader and the longest-standing follower die together', breaks='a dead follower is made leader')

b(id='pd-error-ends-connection', prop='C40', edits=[('component/pd/src/connect.rs', '''            let res = match res {
                Ok(f) => f,
                Err(e) => Frame::OwnedError(e.to_string()),
            };
            let bytes''', '''            let res = match res {
                Ok(f) => f,
                Err(e) if e.to_string().starts_with("group") => Frame::OwnedError(e.to_string()),
                Err(e) => return Err(e),
            };
            let bytes''')],
  demo='''
pd = pdserver()
c = PdClient(pd.port)
check(isinstance(c('pd_sever_init', 'x'), Err), 'a malformed request gets an error')
c.raw('pd_crate_group')
c.init(1, 5, 6)
expect(c.role, 'leader', 'the connection still works')
''', needs='a malformed request to the placement driver', breaks='the connection ends without a reply')

b(id='push-all-stops-at-lost', prop='C23', edits=[(B + 'forward/connection.rs', '''        self.0.lock().retain(|t| match t.send(msg.clone()) {
            Ok(_) => true,
            Err(e) => {
                warn!("{:?}", e);
                false
            }
        });''', '''        let mut replicas = self.0.lock();
        // drop the replica that is gone
        if let Some(i) = replicas.iter().position(|t| t.send(msg.clone()).is_err()) {
            warn!("replica {} is gone", i);
            replicas.remove(i);
        }''')],
  demo='''
s = server()
f1 = forward(s.fport)
f2 = forward(s.fport)
c = Client(s.port)
f1.close()
time.sleep(0.5)
c('set', 'kkkk', 'vvvv')
f2.settimeout(3)
data = b''
try:
    while b'kkkk' not in data:
        d = f2.recv(4096)
        if not d:
            break
        data += d
except socket.timeout:
    pass
check(b'kkkk' in data, 'the second replica gets the write although the first is gone')
''', needs='a replica that went away and one that connected after it', breaks='the write on which the loss is noticed is not sent to the later replicas')

b(id='accept-gives-up-early', prop='C27', edits=[(S + 'lib.rs', '''                    if backoff > 64 {
                        // Accept''', '''                    if backoff > 1 {
                        // Accept''')],
  demo='''
import resource
s = server()
n = len(os.listdir('/proc/%d/fd' % s.pid))
resource.prlimit(s.pid, resource.RLIMIT_NOFILE, (n + 4, n + 4))
x = [socket.create_connection(('127.0.0.1', s.port), 5) for _ in range(8)]
time.sleep(2.5)
for c in x:
    c.close()
time.sleep(5)
check(s.poll() is None, 'the server survives running out of descriptors')
c = Client(s.port)
expect(c('ping'), 'PONG', 'and serves again')
''', needs='accepting fails for longer than a second (out of file descriptors)', breaks='the server shuts down')

b(id='snapshot-skips-empty-slots', prop='C32', edits=[(S + 'cmd/syncsnapshot.rs', '''                        if let Some(s) = &*s {
''', '''                        if let Some(s) = s.as_ref().filter(|s| !s.dict.inner.is_empty()) {
''')],
  demo='''
s = server()
c = Client(s.port)
c('set', 'k', 'v')
c('del', 'k')
b = snapshot(s.port, slot_of('k'))
check(b[:1] == b'\\1', 'a slot that was emptied is part of the snapshot')
check(struct.unpack('<Q', b[3:11])[0] > 0, 'with its write id')
''', needs='a slot whose keys were all deleted', breaks='the slot is left out of the snapshot, so a replica keeps the deleted keys')

b(id='bulk-length-of-text', prop='C08', edits=[('component/common/src/connection/parse/frame.rs', '''            Frame::OwnedBulk(b) => {
                res.push(b'$');
                res.extend_from_slice(b.len().to_string().as_bytes());''', '''            Frame::OwnedBulk(b) => {
                res.push(b'$');
                res.extend_from_slice(String::from_utf8_lossy(b).len().to_string().as_bytes());''')],
  demo='''
s = server()
c = Client(s.port, 3)
c('hset', 'h', b'\\xff\\xfe', b'a\\xffb')
c('set', 'k', b'a\\xffb')
try:
    expect(sorted(c('hgetall', 'h')), ['a\\xffb', '\\xff\\xfe'], 'binary fields')
    expect(c('get', 'k'), 'a\\xffb', 'binary value')
    c('sadd', 's', b'a\\xffb')
    expect(c('smembers', 's'), ['a\\xffb'], 'binary member')
    expect(c('ping'), 'PONG', 'still in step')
except (socket.timeout, EOFError):
    check(False, 'the reply has the length it announces')
''', needs='a reply with bytes that are not UTF-8', breaks='the announced length differs from the payload')

b(id='short-write-of-reply', prop='C07', edits=[(S + 'lib.rs', '''            self.connection.stream.write_all(&bytes).await?;''',
  '''            // flush the reply
            self.connection.stream.write(&bytes).await?;''')],
  demo='''
s = server()
c = Client(s.port, 5)
v = 'x' * (16 << 20)
expect(c('set', 'k', v), 'OK', 'set')
c.send('get', 'k')
time.sleep(1)
try:
    expect(len(c.read()), len(v), 'a reply larger than the socket buffers')
except (socket.timeout, EOFError):
    check(False, 'the whole reply arrives')
expect(c('ping'), 'PONG', 'still in step')
''', needs='a reply larger than what the socket buffers take at once', breaks='the rest of the reply is never sent')

b(id='request-remainder-kept', prop='C10', edits=[('component/common/src/connection/mod.rs', '''            self.read_buffer.advance(advance);
            self.advance = 0;''', '''            // never more than one buffer
            self.read_buffer.advance(advance.min(64 * 1024));
            self.advance = 0;''')],
  demo='''
s = server()
c = Client(s.port, 3)
v = '+A\\r\\n' * 20000
expect(c('set', 'k', v), 'OK', 'a request of 80 KB')
try:
    expect(c('get', 'k'), v, 'the next request')
    expect(c('ping'), 'PONG', 'still in step')
except (socket.timeout, EOFError, ValueError):
    check(False, 'the request after a large one is read from its start')
''', needs='a request larger than 64 KiB', breaks='its tail is parsed as further requests')

b(id='hash-tag-to-last-brace', prop='C28', edits=[(B + 'lib.rs', '''            if let Some(end) = key[begin..].iter().position(|t| *t == b'}') {''',
  '''            if let Some(end) = key[begin..].iter().rposition(|t| *t == b'}') {''')],
  demo='''
s = server()
c = Client(s.port)
for k in ('a', '{a}b', 'x{a}{b}', '{a}}'):
    c('set', k, 'vvvv')
    check(b'vvvv' in snapshot(s.port, slot_of(k)), 'slot of ' + k)
    c('del', k)
''', needs='a key with a hash tag and a further closing brace', breaks='the key is put in another slot than its tag says')

b(id='promoted-keeps-following', prop='C25', edits=[(B + 'pd_handle/mod.rs', '''                // 自己变成leader
                self.replica_task.close_sync_cmd();
                self.latest_status = status;''', '''                // 自己变成leader
                if self.latest_status.current_leader.is_none() {
                    self.replica_task.close_sync_cmd();
                }
                self.latest_status = status;''')],
  demo='''
import threading
a = server()
lead = [False]
bport, bf = free_port(), free_port()


def conn(s):
    c = Client.__new__(Client)
    c.s, c.b = s, b''
    while True:
        try:
            r = c.read()
        except Exception:
            return
        if r[0] == 'pd_sever_init':
            out = status(2, 1, True, (1, a.port, a.fport))
        elif lead[0]:
            out = b'\\1' + status(2, 1, False, (2, bport, bf))
        else:
            out = b'\\0'
        s.sendall(b'$%d\\r\\n%s\\r\\n' % (len(out), out))


l = socket.socket()
l.bind(('127.0.0.1', 0))
l.listen()


def loop():
    while True:
        s, _ = l.accept()
        threading.Thread(target=conn, args=(s,), daemon=True).start()


threading.Thread(target=loop, daemon=True).start()
ca = Client(a.port)
ca('set', 'k0', 'v')
b = server(l.getsockname()[1], 1, bport, bf)
cb = Client(b.port)
t = time.time()
while cb('get', 'k0') != 'v' and time.time() - t < 10:
    time.sleep(0.2)
ca('set', 'k1', 'v')
t = time.time()
while cb('get', 'k1') != 'v' and time.time() - t < 10:
    time.sleep(0.2)
expect(cb('get', 'k1'), 'v', 'a follower follows')
lead[0] = True
time.sleep(2.5)
ca('set', 'k2', 'v')
time.sleep(2.5)
expect(cb('get', 'k2'), None, 'a leader does not follow the old leader')
''', needs='a follower is promoted while its old leader still runs', breaks='the new leader keeps applying the old leader\'s writes')

b(id='replica-pushx-creates', prop='C21', edits=[(D + 'deque/push.rs', '''    pub left: bool,
    pub nx_xx: NxXx,
}''', '''    pub left: bool,
    #[serde(skip)]
    pub nx_xx: NxXx,
}''')],
  demo='''
pd = pdserver()
p = PdClient(pd.port)
p.raw('pd_crate_group')
a = server(pd.port, 1)
time.sleep(0.3)
b = server(pd.port, 1)
time.sleep(2)
c = Client(a.port)
expect(c('lpushx', 'k', 'v'), 0, 'lpushx on an absent key')
time.sleep(1.5)
expect(Client(b.port)('exists', 'k'), 0, 'the replica does not have the key')
''', needs='LPUSHX or RPUSHX on an absent key with a replica connected', breaks='the condition is not sent, so the replica creates the list')
