BUGS = []


def b(**k):
    BUGS.append(k)


D = 'component/dict/src/cmd/'
S = 'component/server/src/cmd/'
B = 'component/db/src/'
START = '''
s = server()
c = Client(s.port)
'''

b(id='zadd-same-score-unindexed', prop='C11', edits=[(D + 'sorted_set/add.rs', '''                    if let Some(on) = sorted_set.hash.insert(node.key.clone(), node.clone()) {
                        sorted_set.value.remove(&on);
                    }
                    sorted_set.value.insert(node);''', '''                    sorted_set.value.insert(node.clone());
                    if let Some(on) = sorted_set.hash.insert(node.key.clone(), node) {
                        sorted_set.value.remove(&on);
                    }''')],
  demo=START + '''
c('zadd', 'z', '1', 'a', '2', 'b')
c('zadd', 'z', '1', 'a')
expect(c('zrange', 'z', '0', '-1'), ['a', 'b'], 'a member added again with its own score')
''', needs='ZADD of a member with the score it already has', breaks='the member leaves the score index')

b(id='pop-of-all-keeps-key', prop='C12', edits=[(D + 'deque/pop.rs', '''                let count = self.count.min(deque.len());
''', '''                if self.count > deque.len() {
                    let mut all: Vec<_> = deque.drain(..).collect();
                    if !self.left {
                        all.reverse();
                    }
                    return Ok(all);
                }
                let count = self.count;
''')],
  demo=START + '''
c('rpush', 'l', 'a', 'b')
expect(c('rpop', 'l', '5'), ['b', 'a'], 'pop more than there is')
expect(c('exists', 'l'), 0, 'the emptied list is gone')
''', needs='LPOP or RPOP with a count larger than the list', breaks='the key stays with an empty list')

b(id='lrange-takes-stop', prop='C34', edits=[(D + 'deque/range.rs', '''Ok(deque.range(b..e).cloned().collect())''',
  '''Ok(deque.iter().skip(b).take(e).cloned().collect())''')],
  demo=START + '''
c('rpush', 'l', 'a', 'b', 'c', 'd', 'e')
expect(c('lrange', 'l', '1', '2'), ['b', 'c'], 'the middle of a list')
''', needs='LRANGE that neither starts at the first nor ends at the last element', breaks='elements past the stop index are returned')

b(id='rank-by-smaller-scores', prop='C37', edits=[(D + 'sorted_set/rank.rs', '''                if sorted_set.hash.contains_key(self.member) {
                    let mut ans = 0;
                    if self.rev {
                        for n in sorted_set.value.iter().rev() {
                            ans += 1;
                            if &*n.key == self.member {
                                return Ok(Some(ans - 1));
                            }
                        }
                    } else {
                        for n in &sorted_set.value {
                            ans += 1;
                            if &*n.key == self.member {
                                return Ok(Some(ans - 1));
                            }
                        }
                    }
                }''', '''                if let Some(node) = sorted_set.hash.get(self.member) {
                    let before = if self.rev {
                        sorted_set
                            .value
                            .iter()
                            .filter(|n| n.score > node.score)
                            .count()
                    } else {
                        sorted_set
                            .value
                            .iter()
                            .filter(|n| n.score < node.score)
                            .count()
                    };
                    return Ok(Some(before));
                }''')],
  demo=START + '''
c('zadd', 'z', '1', 'a', '1', 'b', '2', 'd')
expect(c('zrank', 'z', 'd'), 2, 'rank of the last')
expect(c('zrank', 'z', 'b'), 1, 'rank of the second of two members with one score')
''', needs='ZRANK or ZREVRANK of a member that shares its score with another', breaks='both members get the same rank')

b(id='expire-gt-on-persistent', prop='C14', edits=[(D + 'simple/expire.rs', '''                        if v.expires_at != 0 && v.expires_at < self.expires_at =>
''', '''                        if v.expires_at < self.expires_at =>
''')],
  demo=START + '''
c('set', 'k', 'v')
expect(c('expire', 'k', '100', 'gt'), 0, 'GT on a key without deadline')
expect(c('ttl', 'k'), -1, 'the key stays persistent')
''', needs='EXPIRE .. GT on a key that has no deadline', breaks='the key gets a deadline')

b(id='pop-nothing-of-anything', prop='C05', edits=[(D + 'deque/pop.rs', '''        if let Some(v) = dict.get(&self.key) {
            return if let DataType::Deque(ref mut deque) = v.data {
''', '''        if self.count == 0 {
            return Ok(vec![]);
        }
        if let Some(v) = dict.get(&self.key) {
            return if let DataType::Deque(ref mut deque) = v.data {
''')],
  demo=START + '''
c('set', 'k', 'v')
check(isinstance(c('lpop', 'k'), Err), 'LPOP of a string')
check(isinstance(c('lpop', 'k', '0'), Err), 'LPOP of a string with count 0')
''', needs='LPOP or RPOP with count 0 on a key that holds no list', breaks='the type error is not reported')

b(id='hincrby-loses-field', prop='C06', edits=[(D + 'kvp/incr.rs', '''                    let old: i64 = (&*s).try_into()?;
''', '''                    let old: i64 = (&std::mem::replace(s, DataType::Integer(0))).try_into()?;
''')],
  demo=START + '''
c('hset', 'h', 'f', 'text')
check(isinstance(c('hincrby', 'h', 'f', '1'), Err), 'HINCRBY of a text')
expect(c('hget', 'h', 'f'), 'text', 'the field after the error')
''', needs='HINCRBY of a field that holds no integer', breaks='the refused command overwrites the field with 0')

b(id='rpop-count-underflow', prop='C09', edits=[(D + 'deque/pop.rs', '''                    deque.drain(len - count..).rev().collect()
''', '''                    deque.drain(len - self.count..).rev().collect()
''')],
  demo=START + '''
c('rpush', 'l', 'a', 'b')
try:
    got = c('rpop', 'l', '5')
except Exception as e:
    got = repr(e)
expect(got, ['b', 'a'], 'RPOP of more than there is')
''', needs='RPOP with a count larger than the list', breaks='the subtraction underflows and the connection dies')

b(id='half-pair-ignored', prop='C15', edits=[('component/macros/src/parse_frames.rs', '''                            for ty in iter {
                                let e = parse_simple(ty, false);
                                tuple2.push(quote! {#e?});
                            }''', '''                            for ty in iter {
                                let e = parse_simple(ty, false);
                                tuple2.push(quote! {{
                                    match #e {
                                        Ok(e) => e,
                                        Err(common::connection::parse::ParseError::EndOfStream) => break,
                                        Err(err) => return Err(err.into()),
                                    }
                                }});
                            }''')],
  demo=START + '''
check(isinstance(c('hset', 'h', 'f'), Err), 'HSET without value')
check(isinstance(c('hset', 'h', 'f', '1', 'g'), Err), 'HSET with a field without value')
''', needs='HSET or ZADD with several pairs, the last of which is incomplete', breaks='the incomplete pair is dropped and the rest carried out')

b(id='ttl-drops-nearly-dead', prop='C03', edits=[(D + 'simple/ttl.rs', '''        Ok(res)
''', '''        // as good as gone
        if matches!(res, Resp::Ttl(i) if i < 100) {
            dict.remove(self.key);
        }
        Ok(res)
''')],
  demo=START + '''
for i in range(3):
    c('set', 'k', 'v', 'px', '1000')
    t = time.time()
    while time.time() - t < 0.93:
        pass
    c('pttl', 'k')
    got = c('get', 'k')
    if time.time() - t < 0.99:
        expect(got, 'v', 'a key read in its last 100 ms')
        break
''', needs='TTL or PTTL of a key in the last 100 ms of its life', breaks='the read removes the key')

b(id='exists-counts-keys-once', prop='C39', edits=[(S + 'base/exists.rs', '''            .keys
            .into_iter()
            .map(|key| dict::cmd::simple::exists::Req { key })''', '''            .keys
            .into_iter()
            .collect::<std::collections::BTreeSet<_>>()
            .into_iter()
            .map(|key| dict::cmd::simple::exists::Req { key })''')],
  demo=START + '''
c('set', 'k', 'v')
expect(c('exists', 'k', 'x', 'k'), 2, 'a key named twice counts twice')
''', needs='EXISTS that names one key twice', breaks='the key is counted once')

b(id='flush-misses-last-slot', prop='C29', edits=[(B + 'lib.rs', '''        for s in &self.slots {
            s.flush(sync);
        }''', '''        for s in &self.slots[..SIZE_MOD as usize] {
            s.flush(sync);
        }''')],
  demo=START + '''
import itertools
k = next('k%d' % i for i in itertools.count() if slot_of('k%d' % i) == 16383)
c('set', k, 'v')
c('set', 'x', 'v')
c('flushall')
expect(c('get', 'x'), None, 'a key after FLUSHALL')
expect(c('get', k), None, 'a key of the last slot after FLUSHALL')
''', needs='a key of slot 16383 at the time of a FLUSHALL', breaks='the last slot is not emptied')

b(id='empty-slot-not-installed', prop='C22', edits=[(B + 'pd_handle/replica.rs', '''            self.db.replace_dict(slot_id, dict);
''', '''            if !dict.inner.is_empty() {
                self.db.replace_dict(slot_id, dict);
            }
''')],
  demo='''
pd = pdserver()
p = PdClient(pd.port)
p.raw('pd_crate_group')
a = server(pd.port, 1)
c = Client(a.port)
for k in 'ab':
    c('set', k, 'v')
    c('del', k)
time.sleep(0.3)
b = server(pd.port, 1)
time.sleep(2)
c('del', 'a')
c('set', 'other', '1')
cb = Client(b.port)
t = time.time()
while cb('get', 'other') != '1' and time.time() - t < 8:
    time.sleep(0.2)
expect(cb('get', 'other'), '1', 'a later write reaches the follower')
''', needs='a follower that joins after a slot was emptied, and then a write to that slot that leaves it empty',
  breaks='the follower never takes over the sequence number of the slot, fetches it for ever and applies no later write')

b(id='restore-replace-keeps-ttl', prop='C31', edits=[(D + 'server/restore.rs', '''            expires_at: self.expires_at,
            visit_log''', '''            expires_at: expires_at(self.expires_at, before),
            visit_log'''), (D + 'server/restore.rs', '''                new: self.expires_at,
            }),
        })
    }
}''', '''                new: expires_at(self.expires_at, before),
            }),
        })
    }
}

const fn expires_at(new: u64, old: u64) -> u64 {
    if new == 0 {
        old
    } else {
        new
    }
}''')],
  demo=START + '''
c('set', 'a', 'v')
c.send('dump', 'a')
l = c._line()
n = int(l[1:])
while len(c.b) < n + 2:
    c._more()
d, c.b = c.b[:n], c.b[n + 2:]
c('set', 'k', 'w', 'ex', '100')
expect(c('restore', 'k', '0', d, 'replace'), 'OK', 'RESTORE .. REPLACE')
expect(c('get', 'k'), 'v', 'the restored value')
expect(c('ttl', 'k'), -1, 'no deadline was asked for')
''', needs='RESTORE .. REPLACE with a TTL of 0 on a key with a deadline', breaks='the old deadline stays')

b(id='smismember-missing-one-answer', prop='C16', edits=[(D + 'set/exists.rs', '''        Ok(vec![false; self.fields.len()])
''', '''        Ok(vec![false])
''')],
  demo=START + '''
expect(c('sismember', 's', 'a'), 0, 'SISMEMBER of a missing key')
expect(c('smismember', 's', 'a', 'b'), [0, 0], 'SMISMEMBER of a missing key')
''', needs='SMISMEMBER with several members on a missing key', breaks='only one answer is given')
