BUGS = []


def b(**k):
    BUGS.append(k)


C = 'component/dict/src/cmd/'
S = 'component/server/src/'
B = 'component/db/src/'
START = '''
s = server()
c = Client(s.port)
'''
PAIR = '''
pd = pdserver()
p = PdClient(pd.port)
p.raw('pd_crate_group')
a = server(pd.port, 1)
time.sleep(0.3)
b = server(pd.port, 1)
time.sleep(2)
c = Client(a.port)
d = Client(b.port)
'''
b(id='exists-of-all-at-once', prop='C17', edits=[(B + 'lib.rs', '''    #[inline]
    pub fn exists(&self, cmd: cmd::simple::exists::Req) -> common::Result<bool> {
        self.get_slot(cmd.key).exists(cmd)
    }
''', '''    #[inline]
    pub fn exists(&self, cmd: cmd::simple::exists::Req) -> common::Result<bool> {
        self.get_slot(cmd.key).exists(cmd)
    }
    /// how many of the keys exist, at one moment
    #[inline]
    pub fn exists_all(&self, keys: &[&[u8]]) -> common::Result<i64> {
        let mut slots: Vec<_> = keys.iter().map(|k| self.get_slot(k)).collect();
        slots.dedup_by_key(|s| s.slot_id);
        let mut locks: Vec<_> = slots
            .iter()
            .map(|s| (s.slot_id, s.share_status.lock()))
            .collect();
        let mut n = 0;
        for key in keys {
            let id = self.get_slot(key).slot_id;
            for (slot, status) in &mut locks {
                if *slot == id {
                    match &mut **status {
                        Some(s) => n += i64::from(dict::Dict::exists(&mut s.dict, key)),
                        None => return Err("slot not support".into()),
                    }
                    break;
                }
            }
        }
        Ok(n)
    }
'''), (S + 'cmd/base/exists.rs', '''        let mut res = 0;
        for cmd in self
            .keys
            .into_iter()
            .map(|key| dict::cmd::simple::exists::Req { key })
        {
            if db.exists(cmd)? {
                res += 1;
            }
        }
''', '''        let res = db.exists_all(&self.keys)?;
''')],
  demo=START + '''
c('set', 'a', '1')
expect(c('exists', 'a', 'b', 'c'), 1, 'exists')
c.s.settimeout(5)
expect(c('exists', '{a}1', 'b', '{a}2', 'a'), 1, 'keys that share a slot')
''', needs='an EXISTS whose keys share a slot without being neighbours', breaks='the second lock of the slot is never granted: the worker thread and the slot are stuck')

b(id='hincrby-zero-not-sent', prop='C01', edits=[(B + 'slot.rs', '''    pub fn kvp_incr(&self, cmd: cmd::kvp::incr::Req) -> common::Result<i64> {
        self.call_write(cmd)
''', '''    pub fn kvp_incr(&self, cmd: cmd::kvp::incr::Req) -> common::Result<i64> {
        if cmd.value == 0 {
            // adds nothing, the replicas need not hear of it
            return match &mut *self.share_status.lock() {
                Some(s) => cmd.apply(&mut s.dict),
                None => Err("slot not support".into()),
            };
        }
        self.call_write(cmd)
''')],
  demo=PAIR + '''
c('set', 'before', '1')
c('hincrby', 'h', 'f', '0')
c('set', 'after', '1')
time.sleep(1)
expect(d('get', 'after'), '1', 'the replica follows')
expect(d('hget', 'h', 'f'), c('hget', 'h', 'f'), 'the field on the replica')
''', needs='HINCRBY by 0 of a field that does not exist yet', breaks='the field is created on the primary only')

b(id='get-makes-numbers', prop='C03', edits=[(C + 'simple/get.rs', '''            return Ok(v.data.clone());
''', '''            let res = v.data.clone();
            // kept as a number from the first read on, it takes less room
            if let DataType::String(_) | DataType::Bytes(_) = v.data {
                if let Ok(i) = std::convert::TryInto::<i64>::try_into(&v.data) {
                    v.data = DataType::Integer(i);
                }
            }
            return Ok(res);
''')],
  demo=START + '''
c('set', 'k', '007')
expect(c('get', 'k'), '007', 'first read')
expect(c('get', 'k'), '007', 'second read')
c('set', 'n', '42')
expect([c('get', 'n'), c('incr', 'n')], ['42', 43], 'a number')
''', needs='a string that is a number but not in its shortest form, read twice', breaks='GET rewrites the value')

b(id='lex-range-sees-expired', prop='C04', edits=[(C + 'sorted_set/range_by_lex.rs', '''        if let Some(value) = dict.get(self.key) {
''', '''        if let Some(value) = dict.raw_get_mut(self.key) {
            value.update_visit_log();
''')],
  rust='''use dict::{cmd::{Read, Write, ExpiresOp, sorted_set, simple::expire}, data_type::sorted_set::Node, Dict, MemDict};
use common::options::{GtLt, NxXx, Limit};
use std::ops::Bound;

fn main() {
    let mut d = MemDict::default();
    sorted_set::add::Req {
        key: (&b"z"[..]).into(),
        nodes: vec![Node::new(b"m"[..].into(), 1.0)],
        nx_xx: NxXx::None,
        gt_lt: GtLt::None,
        incr: false,
    }.apply(&mut d).unwrap();
    if let Some(v) = d.raw_get_mut(b"z") {
        v.expires_at = 1;
    }
    let n = sorted_set::range_by_lex::Req {
        key: b"z",
        range: (Bound::Unbounded, Bound::Unbounded),
        rev: false,
        limit: Limit::None,
    }.apply(&mut d).unwrap();
    assert!(n.is_empty(), "members of an expired key");
}
''', needs='ZRANGEBYLEX of a key past its deadline that the purge has not reached', breaks='the expired members are still listed')

b(id='hexists-on-sets', prop='C05', edits=[(C + 'kvp/exists.rs', '''            return if let DataType::Kvp(ref kvp) = v.data {
                Ok(kvp.get(self.field).is_some())
            } else {
                Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
            };
''', '''            return match v.data {
                DataType::Kvp(ref kvp) => Ok(kvp.get(self.field).is_some()),
                DataType::SortedSet(ref set) => Ok(set.hash.get(self.field).is_some()),
                _ => {
                    Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
                }
            };
''')],
  demo=START + '''
c('hset', 'h', 'f', '1')
expect(c('hexists', 'h', 'f'), 1, 'hash')
c('zadd', 'z', '1', 'm')
check(isinstance(c('hexists', 'z', 'm'), Err), 'HEXISTS on a sorted set must be refused')
''', needs='HEXISTS on a key that holds a sorted set', breaks='answered instead of refused')

b(id='restore-removes-first', prop='C06', edits=[(C + 'server/restore.rs', '''            before = v.expires_at;
        }
''', '''            before = v.expires_at;
            dict.remove(self.key);
        }
''')],
  demo=START + '''
c('set', 'k', 'v')
check(isinstance(c('restore', 'k', '0', 'zz', 'replace'), Err), 'a payload that is none')
expect(c('get', 'k'), 'v', 'the value survives a refused RESTORE')
''', needs='RESTORE … REPLACE over an existing key with a payload that cannot be read', breaks='the old value is gone although the command was refused')

b(id='reply-waits-for-next', prop='C07', edits=[('component/common/src/connection/mod.rs', '''    /// Write a single `Frame` value to the underlying stream.
''', '''    /// Has more arrived than the frame that was read last?
    #[inline]
    #[must_use]
    pub fn has_more(&self) -> bool {
        self.read_buffer.len() > self.advance
    }

    /// Write a single `Frame` value to the underlying stream.
'''), (S + 'lib.rs', '''            let bytes: Vec<u8> = (&res).into();
            self.connection.stream.write_all(&bytes).await?;
''', '''            let bytes: Vec<u8> = (&res).into();
            replies.extend_from_slice(&bytes);
            // the replies to pipelined requests go out together
            if !self.connection.has_more() {
                self.connection.stream.write_all(&replies).await?;
                replies.clear();
            }
'''), (S + 'lib.rs', '''    async fn run(mut self) -> common::Result<()> {
        loop {
            let maybe_frame''', '''    async fn run(mut self) -> common::Result<()> {
        let mut replies: Vec<u8> = vec![];
        loop {
            let maybe_frame''')],
  demo=START + '''
c.s.settimeout(5)
c.s.sendall(b'*3\\r\\n$3\\r\\nset\\r\\n$1\\r\\nk\\r\\n$1\\r\\nv\\r\\n*2\\r\\n$3\\r\\nget\\r\\n$1\\r\\nk\\r\\n')
expect([c.s.recv(1000) for i in range(1)][0][:4], b'+OK\\r', 'pipelined')
time.sleep(0.2)
c2 = Client(s.port)
c2.s.settimeout(5)
c2.s.sendall(b'*2\\r\\n$3\\r\\nget\\r\\n$1\\r\\nk\\r\\n*2\\r\\n$3\\r\\nge')
expect(c2.s.recv(1000), b'$1\\r\\nv\\r\\n', 'the reply to a request that is followed by half of the next')
''', needs='a request followed by an incomplete one in the same segment', breaks='its reply is held back until the next request is complete')

b(id='pop-reserves-count', prop='C09', edits=[(C + 'deque/pop.rs', '''                let res = if self.left {
                    deque.drain(..count).collect()
                } else {
                    let len = deque.len();
                    deque.drain(len - count..).rev().collect()
                };
''', '''                let mut res = Vec::with_capacity(self.count);
                if self.left {
                    res.extend(deque.drain(..count));
                } else {
                    let len = deque.len();
                    res.extend(deque.drain(len - count..).rev());
                }
''')],
  demo=START + '''
c('rpush', 'l', 'a', 'b')
expect(c('lpop', 'l', '1000'), ['a', 'b'], 'more than there is')
c('rpush', 'l', 'a', 'b')
expect(c('rpop', 'l', '1000000000000000000'), ['b', 'a'], 'far more than there is')
''', needs='LPOP or RPOP with a count no vector can hold', breaks='the worker panics and the connection dies')

b(id='lex-removal-keeps-key', prop='C12', edits=[(C + 'sorted_set/remove_by_lex_range.rs', '''                        sorted_set.value.remove(n);
                        if let Some(n) = sorted_set.hash.remove(&n.key) {
                            res.push(n);
                        }
                    }
                } else {
                    for n in iter {
                        sorted_set.value.remove(n);
                        if let Some(n) = sorted_set.hash.remove(&n.key) {
                            res.push(n);
                        }
                    }
                }
''', '''                        sorted_set.value.remove(n);
                        if let Some(n) = sorted_set.hash.remove(&n.key) {
                            res.push(n);
                        }
                    }
                } else {
                    for n in iter {
                        sorted_set.value.remove(n);
                        if let Some(n) = sorted_set.hash.remove(&n.key) {
                            res.push(n);
                        }
                    }
                    if res.len() > 1 {
                        return Ok(res);
                    }
                }
''')],
  demo=START + '''
c('zadd', 'z', '0', 'a', '0', 'b')
expect(c('zremrangebylex', 'z', '-', '+'), 2, 'removed')
expect(c('exists', 'z'), 0, 'the key')
''', needs='ZREMRANGEBYLEX that removes all of several members', breaks='an empty sorted set stays behind')

b(id='slot-number-wide', prop='C21', edits=[(B + 'pd_handle/replica.rs', '''deserialize_from::<_, Option<u16>>(&mut stream)? {
            let slot_id = slot_id as usize;
''', '''deserialize_from::<_, Option<usize>>(&mut stream)? {
''')],
  demo=PAIR + '''
c('set', 'k', 'v')
time.sleep(0.5)
b2 = server(pd.port, 1)
time.sleep(4)
e = Client(b2.port)
expect(e('get', 'k'), 'v', 'a replica that came later')
''', needs='a replica that has to take a snapshot', breaks='the slot number is read wider than it is written')

b(id='restore-slot-of-whole-key', prop='C28', edits=[(B + 'lib.rs', '''    pub fn restore(&self, cmd: cmd::server::restore::Req) -> common::Result<()> {
        self.get_slot(cmd.key).restore(cmd)
''', '''    pub fn restore(&self, cmd: cmd::server::restore::Req) -> common::Result<()> {
        let i = CRC_HASH.checksum(cmd.key) & SIZE_MOD;
        self.get_slot_by_id(i as usize).restore(cmd)
''')],
  demo=START + '''
c('set', 'k', 'v')
x = c('dump', 'k')
c('restore', 'k2', '0', x)
expect(c('get', 'k2'), 'v', 'restored')
c('restore', '{t}k', '0', x)
expect(c('get', '{t}k'), 'v', 'restored under a key with a tag')
''', needs='RESTORE of a key with a hash tag', breaks='the key goes to the slot of its whole name, where nothing finds it')

b(id='pop-all-in-list-order', prop='C34', edits=[(C + 'deque/pop.rs', '''                    deque.drain(len - count..).rev().collect()
''', '''                    if count == len {
                        std::mem::take(&mut deque.inner).into()
                    } else {
                        deque.drain(len - count..).rev().collect()
                    }
'''), ('component/dict/src/data_type/deque.rs', '''    inner: VecDeque<DataType>,
''', '''    pub(crate) inner: VecDeque<DataType>,
''')],
  demo=START + '''
c('rpush', 'l', 'a', 'b', 'c')
expect(c('rpop', 'l', '2'), ['c', 'b'], 'two of three')
c('rpush', 'l', 'b', 'c')
expect(c('rpop', 'l', '3'), ['c', 'b', 'a'], 'all of them')
''', needs='RPOP with a count that takes the whole list', breaks='the elements come in list order instead of from the tail')

b(id='hset-first-of-twice', prop='C35', edits=[(C + 'kvp/set.rs', '''                NxXx::None => {
                    for (k, v) in self.entries {
''', '''                NxXx::None if kvp.is_empty() => {
                    for (k, v) in self.entries {
                        kvp.entry(k).or_insert(v);
                    }
                }
                NxXx::None => {
                    for (k, v) in self.entries {
''')],
  demo=START + '''
c('hset', 'g', 'f', '0')
c('hset', 'g', 'f', '1', 'f', '2')
expect(c('hget', 'g', 'f'), '2', 'an old hash')
c('hset', 'h', 'f', '1', 'f', '2')
expect(c('hget', 'h', 'f'), '2', 'a new hash')
''', needs='HSET that creates the hash and names a field twice', breaks='the first value stays')

b(id='sadd-counts-arguments', prop='C36', edits=[(C + 'set/add.rs', '''            let old_len = set.len();
''', '''            let old_len = set.len();
            if set.is_empty() {
                // a new set: all of them are new
                let new_len = self.members.len();
                set.extend(self.members);
                return Ok(Resp { old_len, new_len });
            }
''')],
  demo=START + '''
c('sadd', 's', 'a')
expect(c('sadd', 's', 'b', 'b'), 1, 'an old set')
expect(c('sadd', 't', 'b', 'b'), 1, 'a new set')
''', needs='SADD that creates the set and names a member twice', breaks='it is counted twice')

b(id='pd-serves-one', prop='C40', edits=[('component/pd/src/lib.rs', '''        tokio::spawn(async move {
            if let Err(err) = handle.run().await {
                error!(cause = ?err, "connection error");
            }
        });
''', '''        // a connection carries one short exchange after another, no task of its own is needed
        if let Err(err) = handle.run().await {
            error!(cause = ?err, "connection error");
        }
''')],
  demo='''
pd = pdserver()
p = PdClient(pd.port)
p.raw('pd_crate_group')
q = PdClient(pd.port)
q.s.settimeout(5)
q.raw('pd_crate_group')
''', needs='a second connection while the first is open', breaks='the second one is never served')

b(id='freq-stops-at-255', prop='C41', edits=[('component/dict/src/lib.rs', '''        if visit_times < Self::MAX_VISIT_TIMES {
''', '''        if visit_times < 0xff {
''')],
  demo=START + '''
c('set', 'k', 'v')
n = c('object', 'freq', 'k')
c('get', 'k')
expect(c('object', 'freq', 'k'), n + 1, 'one access')
x = c('dump', 'k')
c('restore', 'r', '0', x, 'freq', '300')
n = c('object', 'freq', 'r')
c('get', 'r')
c('get', 'r')
check(c('object', 'freq', 'r') > n, 'accesses after 300')
''', needs='a key with more than 255 accesses', breaks='further accesses are not counted')

b(id='status-locked-while-asleep', prop='C30', edits=[(B + 'child_process.rs', '''        sleep(Duration::from_secs(1));
        match waitpid(None, Some(WaitPidFlag::WNOHANG)) {
            Ok(nix::sys::wait::WaitStatus::Exited(pid, _)) => {
                STATUS.lock().remove(&pid).map_or_else(
''', '''        let mut children = STATUS.lock();
        sleep(Duration::from_secs(1));
        match waitpid(None, Some(WaitPidFlag::WNOHANG)) {
            Ok(nix::sys::wait::WaitStatus::Exited(pid, _)) => {
                children.remove(&pid).map_or_else(
''')],
  demo=START + '''
c('set', 'k', 'v')
snapshot(s.port, slot_of('k'))
time.sleep(2)
worst = 0
for i in range(4):
    t = time.time()
    snapshot(s.port, slot_of('k'))
    c('set', 'k', 'v')
    worst = max(worst, time.time() - t)
check(worst < 0.4, 'a snapshot and a write took %.1f s' % worst)
''', needs='a second snapshot while the waiting thread sleeps', breaks='the fork is recorded only after the sleep, the slots stay locked meanwhile')

b(id='dump-of-nothing', prop='C16', edits=[(C + 'server/dump.rs', '''        } else {
            None
        };
''', '''        } else {
            Some(vec![])
        };
''')],
  demo=START + '''
expect(c('dump', 'nokey'), None, 'DUMP of a missing key')
''', needs='DUMP of a missing key', breaks='an empty payload instead of the null reply')

b(id='rank-counts-equal-last', prop='C37', edits=[(C + 'sorted_set/rank.rs', '''                    let mut ans = 0;
                    if self.rev {
                        for n in sorted_set.value.iter().rev() {
                            ans += 1;
                            if &*n.key == self.member {
                                return Ok(Some(ans - 1));
                            }
                        }
''', '''                    let mut ans = 0;
                    if self.rev {
                        let score = sorted_set.hash[self.member].score;
                        let higher = sorted_set.value.iter().filter(|n| n.score > score);
                        return Ok(Some(higher.count()));
''')],
  demo=START + '''
c('zadd', 'z', '1', 'a', '2', 'b', '3', 'c')
expect([c('zrevrank', 'z', m) for m in 'abc'], [2, 1, 0], 'ranks')
c('zadd', 'y', '1', 'a', '1', 'b', '1', 'c')
expect([c('zrevrank', 'y', m) for m in 'abc'], [2, 1, 0], 'ranks of equal scores')
''', needs='ZREVRANK among members of equal score', breaks='they all get the same rank')

b(id='keepttl-of-the-dead', prop='C13', edits=[(C + 'simple/expire.rs', '''@''', '''@''')], demo='', needs='', breaks='')
BUGS.pop()
