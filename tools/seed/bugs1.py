BUGS = []


def b(**k):
    BUGS.append(k)


D = 'component/dict/src/cmd/'
b(id='srem-stops-at-missing', prop='C36', edits=[(D + 'set/remove.rs', '''                for ref m in self.members {
                    set.remove(m);
                }''', '''                for ref m in self.members {
                    if !set.remove(m) {
                        break;
                    }
                }''')],
  demo='''
s = server()
c = Client(s.port)
c('sadd', 's', 'a', 'b', 'c')
expect(c('srem', 's', 'a', 'zz', 'b'), 2, 'srem with a missing member in the middle')
expect(sorted(c('smembers', 's')), ['c'], 'members left')
''', needs='SREM with several members, one of which is absent and is followed by one that is present',
  breaks='members after an absent one are not removed')

b(id='set-xx-keeps-deadline', prop='C13', edits=[(D + 'simple/set.rs', '''            let expires_at = match self.expires_at {
                ExpiresAt::Specific(i) => i,
                ExpiresAt::Last => old_expires_at,
            };''', '''            let expires_at = match self.expires_at {
                ExpiresAt::Specific(i) if i > 0 => i,
                _ => old_expires_at,
            };''')],
  demo='''
s = server()
c = Client(s.port)
c('set', 'k', 'v', 'px', '100000')
expect(c('set', 'k', 'w', 'xx'), 'OK', 'set xx')
expect(c('ttl', 'k'), -1, 'a plain SET XX clears the deadline')
''', needs='SET .. XX without an expire option on a key that has a deadline',
  breaks='the old deadline survives the overwrite')

b(id='incr-drops-deadline', prop='C33', edits=[(D + 'simple/incr.rs', '''            v.data = DataType::Integer(new);
            Ok(new)''', '''            let value = Value {
                expires_at: 0,
                data: DataType::Integer(new),
                visit_log: Value::new_visit_log(),
            };
            dict.insert(self.key, value);
            Ok(new)''')],
  demo='''
s = server()
c = Client(s.port)
c('set', 'n', '5', 'px', '100000')
expect(c('incr', 'n'), 6, 'incr')
check(c('ttl', 'n') > 50, 'the counter keeps its deadline')
''', needs='INCR on a counter that has a deadline', breaks='the deadline is lost')

b(id='failed-write-consumes-id', prop='C01', edits=[('component/db/src/slot.rs', '''        // 转发执行完成的请求
        if let Err(e) = self.bg_task.forward_sender.send(forward::Message {
            id,
            slot: self.slot_id,
            cmd: cmd.into(),
        }) {
            error!("call_write: {:?}", e);''', '''        // 转发执行完成的请求, 没有执行成功的请求不需要转发
        if res.is_err() {
        } else if let Err(e) = self.bg_task.forward_sender.send(forward::Message {
            id,
            slot: self.slot_id,
            cmd: cmd.into(),
        }) {
            error!("call_write: {:?}", e);''')],
  demo='''
s = server()
f = forward(s.fport)
c = Client(s.port)
c('set', 'k', 'v')
c('incr', 'k')
c('lpush', 'k', 'x')
c('set', 'k', 'w')
data = b''
f.settimeout(1)
try:
    while True:
        data += f.recv(65536)
except OSError:
    pass
ids, p = [], 0
slot = struct.pack('<Q', slot_of('k'))
i = data.find(slot)
while i >= 0:
    ids.append(struct.unpack('<Q', data[i - 8:i])[0])
    i = data.find(slot, i + 8)
expect(ids, [1, 2, 3, 4], 'consecutive message ids on the replication stream')
''', needs='a write command that fails with an error (wrong type) between two that succeed',
  breaks='the replication stream has a gap, so every replica falls back to a snapshot')

b(id='shorter-ttl-not-indexed', prop='C19', edits=[('component/db/src/slot.rs', '''                        if u.before != u.new {
                            if let Err(e) = self.bg_task.expire_sender.send(
                                expire::Message::Update(expire::Update {''', '''                        // 过期时间提前的，等到原来的时间再清理
                        if u.before < u.new {
                            if let Err(e) = self.bg_task.expire_sender.send(
                                expire::Message::Update(expire::Update {''')],
  demo='''
s = server()
c = Client(s.port)
c('set', 'mykey-1234', 'v', 'px', '100000')
expect(c('pexpire', 'mykey-1234', '200'), 1, 'shorten the deadline')
time.sleep(1)
check(b'mykey-1234' not in snapshot(s.port, slot_of('mykey-1234')), 'the expired key is reclaimed')
''', needs='shortening the deadline of a key', breaks='the key is not reclaimed at its new deadline')

b(id='purge-ignores-deadline-check', prop='C20', edits=[('component/db/src/expire.rs',
  '''                    Some(value) if value.expires_at == entry.expires_at => {
                        Some(dict.remove(&entry.key))
                    }
                    _ => None,''', '''                    Some(_) => Some(dict.remove(&entry.key)),
                    _ => None,''')],
  demo='''
s = server()
c = Client(s.port)
c('set', 'k', 'v', 'px', '300')
c('set', 'k', 'w')
time.sleep(1)
expect(c('get', 'k'), 'w', 'a key overwritten without a deadline survives the old one')
''', needs='a key whose deadline is replaced by a plain SET before it passes (stale entry in the expiry index)',
  breaks='live data is deleted by the purge task')

b(id='purge-not-woken-earlier', prop='C20', edits=[('component/db/src/expire.rs',
  '''.map_or(true, |ne| ne.expires_at > status.new);''', '''.map_or(true, |ne| ne.expires_at < status.new);''')],
  demo='''
s = server()
c = Client(s.port)
c('set', 'far', 'v', 'px', '100000')
time.sleep(0.5)
c('set', 'mykey-near', 'v', 'px', '200')
time.sleep(1)
check(b'mykey-near' not in snapshot(s.port, slot_of('mykey-near')), 'the key with the nearer deadline is reclaimed')
''', needs='a key with a nearer deadline set while the purge task sleeps for a later one',
  breaks='the task keeps sleeping until the later deadline')

b(id='limit-skips-before-filter', prop='C38', edits=[(D + 'sorted_set/range_by_score.rs',
  '''                    iter.rev()
                        .filter(|t| self.range.contains(&t.score))
                        .skip(offset)
                        .take(count)''', '''                    iter.rev()
                        .skip(offset)
                        .filter(|t| self.range.contains(&t.score))
                        .take(count)''')],
  demo='''
s = server()
c = Client(s.port)
c('zadd', 'z', '1', 'a', '2', 'b', '3', 'c')
expect(c('zrevrangebyscore', 'z', '(3', '-inf', 'limit', '1', '5'), ['a'], 'offset counts the members in range')
''', needs='a reversed score range with an exclusive upper bound equal to a stored score, and LIMIT with an offset',
  breaks='members outside the range are counted by the offset')

b(id='lazy-expire-keeps-deadline', prop='C04', edits=[('component/dict/src/lib.rs',
  '''                if expires_at > 0 && expires_at <= now {
                    *o.get_mut() = f();''', '''                if expires_at > 0 && expires_at <= now {
                    o.get_mut().data = f().data;''')],
  rust='''
use dict::{cmd::{kvp, Write, Read}, data_type::DataType, Dict, MemDict, Value};

fn main() {
    let mut d = MemDict::default();
    d.insert(b"h"[..].into(), Value { data: DataType::Integer(3), expires_at: 5, visit_log: 0 });
    let r = kvp::set::Req {
        key: b"h"[..].into(),
        entries: vec![(b"f"[..].into(), b"v"[..].into())],
        nx_xx: common::options::NxXx::None,
    }
    .apply(&mut d)
    .unwrap();
    assert_eq!(r.new_len, 1);
    let e = kvp::exists::Req { key: &b"h"[..], field: &b"f"[..] }.apply(&mut d).unwrap();
    assert!(e, "the new hash is readable");
}
''', needs='a write to a key whose deadline has passed but which the purge task has not removed yet',
  breaks='the new value inherits the passed deadline and is lost')

b(id='incr-two-steps', prop='C18', edits=[('component/db/src/slot.rs', '''    pub fn incr(&self, cmd: cmd::simple::incr::Req) -> common::Result<i64> {
        self.call_write(cmd)
    }''', '''    pub fn incr(&self, mut cmd: cmd::simple::incr::Req) -> common::Result<i64> {
        // 已经是整数的直接写入结果
        let old = self.get(cmd::simple::get::Req { key: &cmd.key })?;
        if let DataType::Integer(i) = old {
            let new = i
                .checked_add(cmd.value)
                .ok_or("ERR increment or decrement would overflow")?;
            cmd.value = new;
            self.call_expires_write(cmd::simple::set::Req {
                key: cmd.key,
                value: DataType::Integer(new),
                expires_at: common::options::ExpiresAt::Last,
                nx_xx: common::options::NxXx::None,
            })?;
            return Ok(new);
        }
        self.call_write(cmd)
    }''')],
  demo='''
import threading
s = server()
N, M = 8, 3000


def work():
    c = Client(s.port, 60)
    pay = b'*2\\r\\n$4\\r\\nincr\\r\\n$1\\r\\nn\\r\\n'
    for _ in range(M // 50):
        c.s.sendall(pay * 50)
        for _ in range(50):
            c.read()


t = [threading.Thread(target=work) for _ in range(N)]
[x.start() for x in t]
[x.join() for x in t]
expect(Client(s.port)('get', 'n'), str(N * M), 'no increment is lost')
''', needs='two clients incrementing the same counter at the same time', breaks='increments are lost')

b(id='hdel-one-hit-only', prop='C35', edits=[(D + 'kvp/del.rs', '''                for f in self.fields {
                    kvp.remove(&f);
                }''', '''                for f in self.fields {
                    if kvp.remove(&f).is_none() && kvp.len() < old_len {
                        break;
                    }
                }''')],
  demo='''
s = server()
c = Client(s.port)
c('hset', 'h', 'a', '1', 'b', '2', 'c', '3')
expect(c('hdel', 'h', 'a', 'x', 'b'), 2, 'hdel of three fields, one absent')
''', needs='HDEL of several fields with an absent one after a present one', breaks='later fields stay')

b(id='replica-deadline-not-indexed', prop='C19', edits=[('component/db/src/slot/replica_update.rs',
  '''                    if u.before != u.new {
                        if let Err(e)''', '''                    if u.before > u.new {
                        if let Err(e)''')],
  demo='''
import threading
pd, leader, fwd = socket.socket(), socket.socket(), socket.socket()
for x in (pd, leader, fwd):
    x.bind(('127.0.0.1', 0))
    x.listen(5)
conn = {}


def fake_pd():
    s, _ = pd.accept()
    s.recv(65536)
    st = status(2, 1, True, (1, leader.getsockname()[1], fwd.getsockname()[1]))
    s.sendall(b'$%d\\r\\n%s\\r\\n' % (len(st), st))
    while s.recv(65536):
        s.sendall(b'$1\\r\\n\\0\\r\\n')


def fake_leader():
    while True:
        s, _ = leader.accept()
        s.recv(65536)
        s.sendall(b'\\0')
        s.close()


def fake_fwd():
    s, _ = fwd.accept()
    s.recv(65536)
    conn['f'] = s


for f in (fake_pd, fake_leader, fake_fwd):
    threading.Thread(target=f, daemon=True).start()
s = server(pd=pd.getsockname()[1], group=1)
time.sleep(1)
key = b'mykey-1234'
dl = int(time.time() * 1000) + 700
# WriteCmd::Set { key, value: String, expires_at: Specific(dl), nx_xx: None }
src = open(os.path.join(REPO, 'component/dict/src/cmd/mod.rs')).read()
body = src[src.index('pub enum WriteCmd'):]
body = body[body.index('{') + 1:body.index('}')]
names = [l.strip().split('(')[0].rstrip(',') for l in body.splitlines() if l.strip() and not l.strip().startswith(('/', '#'))]
k = struct.pack('<Q', len(key)) + key
msg = struct.pack('<QQI', 1, slot_of(key), names.index('Set')) + k + struct.pack('<I', 1) + struct.pack('<Q', 1) + b'v' + struct.pack('<IQ', 0, dl) + struct.pack('<I', 2)
conn['f'].sendall(msg)
time.sleep(0.3)
check(key in snapshot(s.port, slot_of(key)), 'the replica applied the write')
time.sleep(1.5)
check(key not in snapshot(s.port, slot_of(key)), 'the replica reclaims the expired key')
''', needs='a replica applying a write that sets a deadline', breaks='a replica never reclaims the key')
