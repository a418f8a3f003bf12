BUGS = []


def b(**k):
    BUGS.append(k)


C = 'component/dict/src/cmd/'
S = 'component/server/src/'
B = 'component/db/src/'
START = '''
s = server()
c = Client(s.port)
'''
PDS = '''
pd = pdserver()
a, b = PdClient(pd.port), PdClient(pd.port)
a.raw('pd_crate_group')
a.init(1, 1001, 2001)
time.sleep(0.05)
b.init(1, 1002, 2002)
expect((a.role, b.role), ('leader', 'follower'), 'first roles')
'''
b(id='heartbeat-restores-role', prop='C24', edits=[('component/pd/src/status.rs', '''    pub fn heartbeat_server(&mut self, group_id: usize, server_id: usize) -> Option<ServerStatus> {
        if let Some(g) = self.groups.iter_mut().find(|t| t.id == group_id) {
            if let Some(s) = g.servers.iter_mut().find(|t| t.id == server_id) {
                s.latest_heartbeat = now_timestamp_ms();
''', '''    pub fn heartbeat_server(
        &mut self,
        group_id: usize,
        server_id: usize,
        role: ServerRole,
    ) -> Option<ServerStatus> {
        if let Some(g) = self.groups.iter_mut().find(|t| t.id == group_id) {
            if let Some(s) = g.servers.iter_mut().find(|t| t.id == server_id) {
                s.latest_heartbeat = now_timestamp_ms();
                // a leader that was only slow goes on leading
                if role == ServerRole::Leader {
                    s.role = role;
                }
'''), ('component/pd/src/status.rs', '''heartbeat_server(data.group_id, data.server_id)?''', '''heartbeat_server(data.group_id, data.server_id, data.role)?''')],
  demo=PDS + '''
t = time.time()
while time.time() - t < 6:
    b.beat()
    time.sleep(0.2)
expect(b.role, 'leader', 'the live server leads')
a.beat()
b.beat()
expect((a.role, b.role), ('follower', 'leader'), 'after the old leader is back')
''', needs='a leader that is silent for over three seconds and comes back', breaks='the group has two leaders')

b(id='expire-same-second', prop='C13', edits=[(C + 'simple/expire.rs', '''                if update {
''', '''                // deadlines are kept to the second, the index need not move an entry for less
                if update && v.expires_at / 1000 == self.expires_at / 1000 {
                    return Ok(ExpiresOpResp {
                        payload: true,
                        expires_status: ExpiresStatus::None,
                    });
                }
                if update {
''')],
  demo=START + '''
t = (int(time.time()) + 100) * 1000
c('set', 'k', 'v')
expect(c('pexpireat', 'k', str(t + 5000)), 1, 'deadline')
check(c('pttl', 'k') > 100000, 'later deadline')
expect(c('pexpireat', 'k', str(t + 100)), 1, 'deadline')
x = c('pttl', 'k')
expect(c('pexpireat', 'k', str(t + 900)), 1, 'same second')
check(c('pttl', 'k') > x + 300, 'moved by 800 ms')
''', needs='a new deadline within the same second as the old one', breaks='the command is acknowledged and the old deadline stays')

b(id='gt-accepts-equal', prop='C14', edits=[(C + 'simple/expire.rs', '''                        if v.expires_at != 0 && v.expires_at < self.expires_at =>
''', '''                        if v.expires_at != 0 && v.expires_at <= self.expires_at =>
''')],
  demo=START + '''
t = (int(time.time()) + 100) * 1000
c('set', 'k', 'v')
c('pexpireat', 'k', str(t))
expect(c('pexpireat', 'k', str(t - 1), 'gt'), 0, 'less')
expect(c('pexpireat', 'k', str(t), 'gt'), 0, 'equal')
''', needs='EXPIRE … GT with exactly the deadline the key has', breaks='it counts as greater')

b(id='bad-count-is-default', prop='C15', edits=[('component/macros/src/parse_frames.rs', '''                Err(common::connection::parse::ParseError::EndOfStream) => (),
                Err(err) => return Err(err.into()),
            }
        };
    }

    //''', '''                Err(_) => (),
            }
        };
    }

    //''')],
  demo=START + '''
c('rpush', 'l', 'a', 'b')
check(isinstance(c('lpop', 'l', 'many'), Err), 'LPOP with a count that is no number')
expect(c('llen', 'l'), 2, 'length')
''', needs='LPOP or RPOP with a count that is not a number', breaks='the default count is taken instead')

b(id='score-removal-drops-lower', prop='C11', edits=[(C + 'sorted_set/remove_by_score_range.rs', '''                    for n in iter {
                        if self.range.contains(&n.score) {
                            sorted_set.value.remove(n);
                            if let Some(n) = sorted_set.hash.remove(&n.key) {
                                res.push(n);
                            }
                        }
                    }
''', '''                    for n in iter {
                        if self.range.contains(&n.score) {
                            if let Some(n) = sorted_set.hash.remove(&n.key) {
                                res.push(n);
                            }
                        }
                    }
                    // all of them at once: what follows the last one stays
                    if let Some(last) = res.last() {
                        let mut rest = sorted_set.value.split_off(last);
                        rest.remove(last);
                        sorted_set.value = rest;
                    }
''')],
  demo=START + '''
c('zadd', 'z', '1', 'a', '2', 'b', '3', 'c')
expect(c('zremrangebyscore', 'z', '-inf', '1'), 1, 'from the lowest')
expect(c('zrange', 'z', '0', '-1'), ['b', 'c'], 'the others')
c('zadd', 'y', '1', 'a', '2', 'b', '3', 'c')
expect(c('zremrangebyscore', 'y', '2', '2'), 1, 'from the middle')
expect(c('zrange', 'y', '0', '-1'), ['a', 'c'], 'the others')
''', needs='ZREMRANGEBYSCORE of a range that does not begin with the lowest member', breaks='lower members vanish from one of the two indexes')

b(id='short-numbers-stored', prop='C39', edits=[('component/dict/src/data_type/mod.rs', '''    fn from(s: &[u8]) -> Self {
        DataType::Bytes(s.into())
''', '''    fn from(s: &[u8]) -> Self {
        // a number takes less room than its text
        if s.len() > 8 {
            if let Some(i) = std::str::from_utf8(s).ok().and_then(|s| s.parse().ok()) {
                return DataType::Integer(i);
            }
        }
        DataType::Bytes(s.into())
'''), (S + 'frame_parse.rs', '''        Frame::Bulk(b) => Ok(DataType::Bytes(b.into())),
''', '''        Frame::Bulk(b) => Ok(b.into()),
''')],
  demo=START + '''
c('set', 'k', '007')
expect(c('get', 'k'), '007', 'short')
c('set', 'k', '0000000007')
expect(str(c('get', 'k')), '0000000007', 'long')
''', needs='a stored text of digits with leading zeros', breaks='it comes back shortened')

b(id='restore-not-indexed', prop='C19', edits=[(C + 'server/restore.rs', '''                before,
                new: self.expires_at,
''', '''                before,
                new: if self.replace { before } else { self.expires_at },
''')],
  demo=START + '''
c('set', 'k', 'v')
x = c('dump', 'k')
c('restore', 'k', '1000', x, 'replace')
time.sleep(2.5)
n = s.port
c('set', 'other', '1')
x = snapshot(s.port, slot_of('k'))
check(b'k' not in x[3:], 'the expired key is still stored')
''', needs='RESTORE … REPLACE with a TTL over a key without one', breaks='the deadline is never indexed, the key stays in memory')
