R = []


def r(id, *edits):
    R.append((id, edits))


B = 'component/db/src/'
S = 'component/server/src/'
C = 'component/common/src/'
P = 'component/pd/src/'

FWD = '''        // 转发执行完成的请求
        if let Err(e) = self.bg_task.forward_sender.send(forward::Message {
            id,
            slot: self.slot_id,
            cmd: cmd.into(),
        }) {
            error!("call_write: {:?}", e);
        };
'''
r('slot-forward-helper', (B + 'slot.rs', FWD, '''        self.forward(id, cmd.into());
'''), (B + 'slot.rs', '''    #[inline]
    fn call_write<T, C: Write''', '''    /// 转发执行完成的请求
    fn forward(&self, id: u64, cmd: cmd::WriteCmd) {
        let msg = forward::Message {
            id,
            slot: self.slot_id,
            cmd,
        };
        match self.bg_task.forward_sender.send(msg) {
            Ok(()) => (),
            Err(e) => error!("forward: {:?}", e),
        }
    }

    #[inline]
    fn call_write<T, C: Write'''))
r('slot-expires-match', (B + 'slot.rs', '''                match expires_status {
                    cmd::ExpiresStatus::None => (),
                    cmd::ExpiresStatus::Update(u) => {
                        if u.before != u.new {
                            if let Err(e) = self.bg_task.expire_sender.send(
                                expire::Message::Update(expire::Update {
                                    status: u,
                                    slot: self.slot_id,
                                }),
                            ) {
                                error!("call_expires_write expire_sender: {:?}", e);
                            };
                        }
                    }
                }
                Ok(payload)''', '''                if let cmd::ExpiresStatus::Update(status) = expires_status {
                    let changed = status.new != status.before;
                    let msg = expire::Message::Update(expire::Update {
                        slot: self.slot_id,
                        status,
                    });
                    if changed && self.bg_task.expire_sender.send(msg).is_err() {
                        error!("call_expires_write expire_sender");
                    }
                }
                Ok(payload)'''))
r('replace-dict-loop', (B + 'slot.rs', '''        let expires_add = dict
            .inner
            .iter()
            .filter(|(_, v)| v.expires_at > 0)
            .map(|(k, v)| expire::Entry {
                expires_at: v.expires_at,
                slot: self.slot_id,
                key: k.clone(),
            })
            .collect();
''', '''        let mut expires_add = Vec::with_capacity(dict.inner.len());
        for (key, value) in &dict.inner {
            if value.expires_at == 0 {
                continue;
            }
            expires_add.push(expire::Entry {
                expires_at: value.expires_at,
                slot: self.slot_id,
                key: key.clone(),
            });
        }
'''))
r('recv-helper', (B + 'expire.rs', '''                    debug_assert_ne!(status.new, status.before);
                    let mut lock = data.lock();
                    let need_notify = if status.new > 0 {
                        let res = lock
                            .iter()
                            .next()
                            .map_or(true, |ne| ne.expires_at > status.new);
                        lock.insert(Entry {
                            expires_at: status.new,
                            slot,
                            key: status.key.clone(),
                        });
                        res
                    } else {
                        false
                    };
                    if status.before > 0 {
                        lock.remove(&Entry {
                            expires_at: status.before,
                            slot,
                            key: status.key,
                        });
                    }
                    drop(lock);
                    if need_notify {''', '''                    debug_assert_ne!(status.new, status.before);
                    if Self::update_index(&data, slot, status) {'''), (B + 'expire.rs', '''    async fn purge_expired_task(''', '''    /// 返回是否需要更早唤醒清理任务
    fn update_index(data: &Mutex<BTreeSet<Entry>>, slot: usize, status: ExpiresStatusUpdate) -> bool {
        let ExpiresStatusUpdate { key, before, new } = status;
        let mut lock = data.lock();
        if before > 0 {
            lock.remove(&Entry {
                expires_at: before,
                slot,
                key: key.clone(),
            });
        }
        if new == 0 {
            return false;
        }
        let earlier = match lock.iter().next() {
            Some(first) => new < first.expires_at,
            None => true,
        };
        lock.insert(Entry {
            expires_at: new,
            slot,
            key,
        });
        earlier
    }

    async fn purge_expired_task('''), (B + 'expire.rs', '''                    let mut lock = data.lock();
                    for v in vs {
                        lock.insert(v);
                    }
                    drop(lock);
                    notify.notify_one();''', '''                    data.lock().extend(vs);
                    notify.notify_one();'''))
r('purge-helper', (B + 'expire.rs', '''            let entry = {
                let mut btree_lock = data.lock();
                // fixme: 等 #![feature(map_first_last)] stable 可以替换
                let entry = match btree_lock.iter().next() {
                    Some(e) => e.clone(),
                    None => return 0,
                };
                let expires_at = entry.expires_at;
                if expires_at > now {
                    return expires_at;
                }
                btree_lock.remove(&entry);
                entry
            };
''', '''            let entry = match Self::next_due(data, now) {
                Ok(entry) => entry,
                Err(next) => return next,
            };
'''), (B + 'expire.rs', '''    fn purge_expired_keys(''', '''    /// 到期的记录, 或者下一个到期时间
    fn next_due(data: &Mutex<BTreeSet<Entry>>, now: u64) -> Result<Entry, u64> {
        let mut lock = data.lock();
        let next = lock.iter().next().map_or(0, |e| e.expires_at);
        if next == 0 || next > now {
            return Err(next);
        }
        lock.pop_first().ok_or(0)
    }

    fn purge_expired_keys('''), (B + 'expire.rs', '''            let expired_data = {
                let mut lock = slot.share_status.lock();
                let dict = match &mut *lock {
                    Some(s) => &mut s.dict,
                    None => continue,
                };
                debug!("before: slot: {}, dict_len: {}", entry.slot, dict.len());
                let res = match dict.raw_get(&entry.key) {
                    // 如果过期时间更新过，可能会有时间不一样的情况
                    Some(value) if value.expires_at == entry.expires_at => {
                        Some(dict.remove(&entry.key))
                    }
                    _ => None,
                };
                debug!("after: slot: {}, dict_len: {}", entry.slot, dict.len());
                res
            };
''', '''            let expired_data = {
                let mut lock = slot.share_status.lock();
                let s = match lock.as_mut() {
                    Some(s) => s,
                    None => continue,
                };
                // 如果过期时间更新过，可能会有时间不一样的情况
                let covered = s
                    .dict
                    .raw_get(&entry.key)
                    .map_or(true, |value| value.expires_at != entry.expires_at);
                if covered {
                    None
                } else {
                    s.dict.remove(&entry.key)
                }
            };
'''))
r('purge-task-order', (B + 'expire.rs', '''            let next = Expiration::purge_expired_keys(&data, db.borrow());
            if next == 0 {
                // There are no keys expiring in the future.
                // Wait until the task is notified.
                notify.notified().await;
            }
            let now = now_timestamp_ms();
            if next > now {
                tokio::select! {
                    _ = time::sleep(Duration::from_millis(next - now)) =>{}
                    _ = notify.notified() => {
                    }
                }
            }''', '''            match Expiration::purge_expired_keys(&data, &db) {
                // There are no keys expiring in the future.
                // Wait until the task is notified.
                0 => notify.notified().await,
                next => {
                    let pause = next.saturating_sub(now_timestamp_ms());
                    if pause > 0 {
                        tokio::select! {
                            _ = notify.notified() => {}
                            _ = time::sleep(Duration::from_millis(pause)) => {}
                        }
                    }
                }
            }'''), (B + 'expire.rs', '''use std::{borrow::Borrow, collections''', '''use std::{collections'''))
r('scan-all-if', (B + 'expire.rs', '''        let mut lock = slot.share_status.lock();
        let dict = match &mut *lock {
            Some(s) => &mut s.dict,
            None => return false,
        };
        // 只保留key存在，且过期时间能对上的记录
        matches!(dict.raw_get(&entry.key), Some(value) if value.expires_at == entry.expires_at)''', '''        let lock = slot.share_status.lock();
        // 只保留key存在，且过期时间能对上的记录
        lock.as_ref()
            .and_then(|s| s.dict.raw_get(&entry.key))
            .map_or(false, |value| value.expires_at == entry.expires_at)'''))
r('get-slot-helper', (B + 'lib.rs', '''    fn get_slot(&self, mut key: &[u8]) -> &Slot {
        if let Some(begin) = key.iter().position(|t| *t == b'{') {
            if let Some(end) = key[begin..].iter().position(|t| *t == b'}') {
                if end > 1 {
                    key = &key[begin + 1..begin + end];
                }
            }
        }
        let i = CRC_HASH.checksum(key) & SIZE_MOD;
        &self.slots[i as usize]''', '''    fn get_slot(&self, key: &[u8]) -> &Slot {
        let i = CRC_HASH.checksum(hash_tag(key).unwrap_or(key)) % (SIZE_MOD + 1);
        self.get_slot_by_id(i.into())'''), (B + 'lib.rs', '''/// cmd
#[allow(clippy::missing_errors_doc)]''', '''/// The part of a key between the first `{` and the first `}` after it
fn hash_tag(key: &[u8]) -> Option<&[u8]> {
    let begin = key.iter().position(|t| *t == b'{')? + 1;
    let rest = &key[begin..];
    let len = rest.iter().position(|t| *t == b'}')?;
    if len == 0 {
        None
    } else {
        Some(&rest[..len])
    }
}

/// cmd
#[allow(clippy::missing_errors_doc)]'''))
r('flushall-iter', (B + 'lib.rs', '''        for s in &self.slots {
            s.flush(sync);
        }
        if sync {''', '''        self.slots.iter().for_each(|s| s.flush(sync));
        if sync {'''))
r('replica-match', (B + 'slot/replica_update.rs', '''        self.share_status
            .lock()
            .as_mut()
            .map_or(Ordering::Greater, |s| {
                match id.cmp(&s.dict.last_write_op_id()) {
                    Ordering::Greater => Ordering::Greater,
                    _ => Ordering::Less,
                }
            })''', '''        let lock = self.share_status.lock();
        match lock.as_ref() {
            Some(s) if id <= s.dict.last_write_op_id() => Ordering::Less,
            _ => Ordering::Greater,
        }'''), (B + 'slot/replica_update.rs', '''        share_status.as_mut().map_or(Ordering::Greater, |s| {
            let res = id.cmp(&(s.dict.last_write_op_id() + 1));
            if res == Ordering::Equal {
                s.dict = MemDict::default();
                s.dict.set_write_id(id);
            }
            res
        })''', '''        let s = match share_status.as_mut() {
            Some(s) => s,
            None => return Ordering::Greater,
        };
        let expected = s.dict.last_write_op_id() + 1;
        if id == expected {
            let mut dict = MemDict::default();
            dict.set_write_id(id);
            s.dict = dict;
        }
        id.cmp(&expected)'''))
r('push-all-loop', (B + 'forward/connection.rs', '''        self.0.lock().retain(|t| match t.send(msg.clone()) {
            Ok(_) => true,
            Err(e) => {
                warn!("{:?}", e);
                false
            }
        });''', '''        let mut replicas = self.0.lock();
        let mut i = 0;
        while i < replicas.len() {
            if let Err(e) = replicas[i].send(msg.clone()) {
                warn!("{:?}", e);
                replicas.remove(i);
            } else {
                i += 1;
            }
        }'''))
r('forward-accept-iflet', (B + 'forward/connection.rs', '''                let stream = match listener.accept().await {
                    Ok(s) => s,
                    Err(e) => {
                        error!("forward connect accept fail: {:?}", e);
                        continue;
                    }
                };
                let fc = fc.clone();
                tokio::spawn(async move {
                    let (tx, rx) = flume::unbounded();
                    fc.0.lock().push(tx);
                    if let Err(e) = run_connect_task(stream, rx).await {
                        error!("forward fail: {:?}", e);
                    }
                });''', '''                match listener.accept().await {
                    Ok(stream) => {
                        tokio::spawn(serve(fc.clone(), stream));
                    }
                    Err(e) => error!("forward connect accept fail: {:?}", e),
                }'''), (B + 'forward/connection.rs', '''async fn run_connect_task(''', '''async fn serve(fc: ForwardConnections, stream: TcpStream) {
    let (tx, rx) = flume::unbounded();
    fc.0.lock().push(tx);
    if let Err(e) = run_connect_task(stream, rx).await {
        error!("forward fail: {:?}", e);
    }
}

async fn run_connect_task('''))
r('connect-task-bytes', (B + 'forward/connection.rs', '''                 stream.write_all(&bincode::serialize(&msg?)?).await?;''', '''                let msg = msg?;
                let bytes = bincode::serialize(&msg)?;
                stream.write_all(&bytes).await?;'''))
r('forward-loop', (B + 'forward/mod.rs', '''        while let Ok(msg) = self.rx.recv_async().await {
            forward_connection.push_all(&msg);
        }''', '''        loop {
            match self.rx.recv_async().await {
                Ok(msg) => forward_connection.push_all(&msg),
                Err(_) => return,
            }
        }'''))
r('pd-role', (B + 'pd_handle/mod.rs', '''        match (self.latest_status.role, status.role) {
            (_, ServerRole::Follower)
                if self.latest_status.current_leader != status.current_leader =>
            {
                // update leader, no command of the old one may follow the snapshot of the new one
                self.replica_task.close_sync_cmd();
                self.replica_task.update_leader(status.current_leader);
                self.replica_task.sync_all_snapshot()?;
                self.replica_task.sync_cmd()?;
                self.latest_status = status;
            }
            (ServerRole::Follower, ServerRole::Leader) => {
                // 自己变成leader
                self.replica_task.close_sync_cmd();
                self.latest_status = status;
            }
            _ => self.latest_status = status,
        }
        Ok(())''', '''        let was_follower = self.latest_status.role == ServerRole::Follower;
        let new_leader = self.latest_status.current_leader != status.current_leader;
        if status.role == ServerRole::Follower {
            if new_leader {
                self.follow(&status)?;
            }
        } else if was_follower {
            // 自己变成leader
            self.replica_task.close_sync_cmd();
        }
        self.latest_status = status;
        Ok(())'''), (B + 'pd_handle/mod.rs', '''    fn update_status(''', '''    fn follow(&self, status: &ServerStatus) -> common::Result<()> {
        // update leader, no command of the old one may follow the snapshot of the new one
        self.replica_task.close_sync_cmd();
        self.replica_task.update_leader(status.current_leader);
        self.replica_task.sync_all_snapshot()?;
        self.replica_task.sync_cmd()
    }

    fn update_status('''))
r('pd-heartbeat', (B + 'pd_handle/mod.rs', '''            let status: Option<ServerStatus> = bincode::deserialize(self.read_bytes().await?)?;
            if let Some(status) = status {
                if let Err(e) = self.update_status(status) {
                    error!("update_status error: {:?}", e);
                }
            }''', '''            let reply = self.read_bytes().await?;
            match bincode::deserialize::<Option<ServerStatus>>(reply)? {
                None => continue,
                Some(status) => {
                    self.update_status(status)
                        .unwrap_or_else(|e| error!("update_status error: {:?}", e));
                }
            }'''))
r('replica-receive', (B + 'pd_handle/replica.rs', '''    let mut last_heartbeat = Instant::now();
    let duration = Duration::from_secs(1);
    loop {
        let now = Instant::now();
        if now - last_heartbeat >= duration {
            last_heartbeat = now;
            stream.get_mut().write_all(b"+PING\\r\\n")?;
        }
        let message: Message = bincode::deserialize_from(&mut stream)?;
        tx.send(message)?;
    }''', '''    let mut last_heartbeat = Instant::now();
    loop {
        if last_heartbeat.elapsed() >= Duration::from_secs(1) {
            stream.get_mut().write_all(b"+PING\\r\\n")?;
            last_heartbeat = Instant::now();
        }
        tx.send(bincode::deserialize_from(&mut stream)?)?;
    }'''))
r('replica-snapshot-loop', (B + 'pd_handle/replica.rs', '''        while let Some(slot_id) = bincode::deserialize_from::<_, Option<u16>>(&mut stream)? {
            let slot_id = slot_id as usize;
            let dict: MemDict = bincode::deserialize_from(&mut stream)?;
            self.db.replace_dict(slot_id, dict);
            self.snapshot_lock[slot_id].store(false, std::sync::atomic::Ordering::Release);
        }
        Ok(())''', '''        loop {
            let id: Option<u16> = bincode::deserialize_from(&mut stream)?;
            let slot_id = match id {
                Some(id) => usize::from(id),
                None => return Ok(()),
            };
            let dict = bincode::deserialize_from::<_, MemDict>(&mut stream)?;
            self.db.replace_dict(slot_id, dict);
            self.snapshot_lock[slot_id].store(false, std::sync::atomic::Ordering::Release);
        }'''))
r('pd-status-failover', (P + 'status.rs', '''                let mut leader: Option<&mut Server> = None;
                for s in &mut g.servers {
                    // alive follower
                    if now <= ts + s.latest_heartbeat && s.role == ServerRole::Follower {
                        match leader {
                            Some(l) if s.join_time < l.join_time => leader = Some(s),
                            None => leader = Some(s),
                            _ => (),
                        }
                    }
                }
                if let Some(leader) = leader {''', '''                // alive follower
                let leader = g
                    .servers
                    .iter_mut()
                    .filter(|s| s.role == ServerRole::Follower && now <= ts + s.latest_heartbeat)
                    .min_by_key(|s| s.join_time);
                if let Some(leader) = leader {'''))
r('pd-init-if', (P + 'status.rs', '''    status
        .groups
        .iter_mut()
        .find(|t| t.id == data.group_id)
        .map_or_else(
            || Err("group not exists.".into()),
            |g| {
                g.latest_server_id += 1;
                let is_follower = g.servers.iter().any(|t| t.role == ServerRole::Leader);
                let role = if is_follower {
                    ServerRole::Follower
                } else {
                    ServerRole::Leader
                };
                let now = now_timestamp_ms();
                let server = Server {
                    id: g.latest_server_id,
                    latest_heartbeat: now,
                    role,
                    server_addr: data.server_addr,
                    forward_addr: data.forward_addr,
                    join_time: now,
                };
                if ServerRole::Leader == role {
                    g.leader = Some(LeaderInfo {
                        server_id: server.id,
                        server_addr: server.server_addr,
                        forward_addr: server.forward_addr,
                    });
                }
                let res = ServerStatus {
                    server_id: server.id,
                    group_id: g.id,
                    role,
                    current_leader: g.leader,
                };
                g.servers.push(server);
                Ok(res)
            },
        )''', '''    for g in &mut status.groups {
        if g.id != data.group_id {
            continue;
        }
        return Ok(g.join(data));
    }
    Err("group not exists.".into())'''), (P + 'status.rs', '''    const fn new(id: usize) -> Self {
        Self {
            id,''', '''    fn join(&mut self, data: &ServerInit) -> ServerStatus {
        self.latest_server_id += 1;
        let server_id = self.latest_server_id;
        let has_leader = self.servers.iter().any(|t| t.role == ServerRole::Leader);
        let role = if has_leader { ServerRole::Follower } else { ServerRole::Leader };
        if !has_leader {
            self.leader = Some(LeaderInfo {
                server_id,
                server_addr: data.server_addr,
                forward_addr: data.forward_addr,
            });
        }
        let now = now_timestamp_ms();
        self.servers.push(Server {
            id: server_id,
            latest_heartbeat: now,
            role,
            server_addr: data.server_addr,
            forward_addr: data.forward_addr,
            join_time: now,
        });
        ServerStatus {
            server_id,
            group_id: self.id,
            role,
            current_leader: self.leader,
        }
    }

    const fn new(id: usize) -> Self {
        Self {
            id,'''))
r('pd-heartbeat-server', (P + 'status.rs', '''    let res = status.heartbeat_server(data.group_id, data.server_id)?;
    if data == &res {
        None
    } else {
        Some(res)
    }''', '''    status
        .heartbeat_server(data.group_id, data.server_id)
        .filter(|res| res != data)'''))
r('pd-run', (P + 'connect.rs', '''            let maybe_frame = self.connection.read_frame().await?;
            let frame = match maybe_frame {
                Some(frame) => frame,
                None => return Ok(()),
            };
            let parse = &mut Parse::new(frame)?;
            let res = Self::apply_frame(parse);
            let res = match res {
                Ok(f) => f,
                Err(e) => Frame::OwnedError(e.to_string()),
            };
            let bytes''', '''            let parse = &mut match self.connection.read_frame().await? {
                Some(frame) => Parse::new(frame)?,
                None => return Ok(()),
            };
            let res = Self::apply_frame(parse).unwrap_or_else(|e| Frame::OwnedError(e.to_string()));
            let bytes'''))
r('handler-run', (S + 'lib.rs', '''            let res = match res {
                Ok(f) => f,
                Err(e) => Frame::OwnedError(e.to_string()),
            };
            let bytes: Vec<u8> = (&res).into();
            self.connection.stream.write_all(&bytes).await?;''', '''            let mut bytes = vec![];
            match res {
                Ok(f) => f.write(&mut bytes),
                Err(e) => Frame::OwnedError(e.to_string()).write(&mut bytes),
            }
            self.connection.stream.write_all(&bytes).await?;'''))
r('accept-loop', (S + 'lib.rs', '''            match self.listener.accept().await {
                Ok((socket, _)) => return Ok(socket),
                Err(err) => {
                    if backoff > 64 {
                        // Accept has failed too many times. Return the error.
                        return Err(err.into());
                    }
                }
            }
''', '''            let err = match self.listener.accept().await {
                Ok((socket, _)) => return Ok(socket),
                Err(err) => err,
            };
            if backoff > 64 {
                // Accept has failed too many times. Return the error.
                return Err(err.into());
            }
'''))
r('snapshot-collect', (S + 'cmd/syncsnapshot.rs', '''        let slots = if self.slot_id == SLOT_SIZE as usize {
            // 全部slot
            handler
                .db
                .slots
                .iter()
                .map(|t| (t.slot_id, t.share_status.lock()))
                .collect()
        } else if''', '''        let slots = if self.slot_id == SLOT_SIZE as usize {
            // 全部slot
            let mut all = vec![];
            for t in &handler.db.slots {
                all.push((t.slot_id, t.share_status.lock()));
            }
            all
        } else if'''), (S + 'cmd/syncsnapshot.rs', '''                    for (id, s) in slots {
                        if let Some(s) = &*s {
                            bincode::serialize_into(&mut stream, &Some(id as u16))?;
                            bincode::serialize_into(&mut stream, &s.dict)?;
                        }
                    }''', '''                    for (id, s) in &slots {
                        let dict = match s.as_ref() {
                            Some(s) => &s.dict,
                            None => continue,
                        };
                        bincode::serialize_into(&mut stream, &Some(*id as u16))?;
                        bincode::serialize_into(&mut stream, dict)?;
                    }'''))
r('read-frame', (C + 'connection/mod.rs', '''        let advance = self.advance;
        if advance != 0 {
            self.read_buffer.advance(advance);
            self.advance = 0;
        }
        loop {''', '''        let advance = std::mem::take(&mut self.advance);
        self.read_buffer.advance(advance);
        loop {'''), (C + 'connection/mod.rs', '''            if 0 == self.stream.read_buf(&mut self.read_buffer).await? {
                return if self.read_buffer.is_empty() {
                    Ok(None)
                } else {
                    Err("connection reset by peer".into())
                };
            }''', '''            let n = self.stream.read_buf(&mut self.read_buffer).await?;
            if n > 0 {
                continue;
            }
            if !self.read_buffer.is_empty() {
                return Err("connection reset by peer".into());
            }
            return Ok(None);'''))
r('frame-array', (C + 'connection/parse/frame.rs', '''                for v in a {
                    v.write(res);''', '''                for i in 0..a.len() {
                    a[i].write(res);'''))
r('frame-bulk', (C + 'connection/parse/frame.rs', '''            Frame::OwnedBulk(b) => {
                res.push(b'$');
                res.extend_from_slice(b.len().to_string().as_bytes());
                res.extend_from_slice(b"\\r\\n");
                res.extend_from_slice(b);
                res.extend_from_slice(b"\\r\\n");
            }''', '''            Frame::OwnedBulk(b) => {
                res.extend_from_slice(format!("${}\\r\\n", b.len()).as_bytes());
                res.extend_from_slice(b.as_slice());
                res.extend_from_slice(b"\\r\\n");
            }'''))
r('parse-array', (C + 'connection/parse/frame.rs', '''        let mut res = vec![];
        for _ in 0..len {
            let (ni, f) = parse_nested(i, depth + 1)?;
            res.push(f);
            i = ni;
        }
        Ok((i, Frame::Array(res)))''', '''        let mut res = vec![];
        while (res.len() as i64) < len {
            let (ni, f) = parse_nested(i, depth + 1)?;
            i = ni;
            res.push(f);
        }
        Ok((i, Frame::Array(res)))'''))
r('set-deadline', (S + 'cmd/base/set.rs', '''            expires_at: match self.expires {
                SetCmdExpires::Ex(e) => {
                    ExpiresAt::Specific(ExpiresAt::deadline(now_timestamp_ms(), e, 1000)?)
                }
                SetCmdExpires::Px(e) => {
                    ExpiresAt::Specific(ExpiresAt::deadline(now_timestamp_ms(), e, 1)?)
                }
                SetCmdExpires::Exat(e) => ExpiresAt::Specific(ExpiresAt::deadline(0, e, 1000)?),
                SetCmdExpires::Pxat(e) => ExpiresAt::Specific(ExpiresAt::deadline(0, e, 1)?),
                SetCmdExpires::Keepttl => ExpiresAt::Last,
                SetCmdExpires::None => ExpiresAt::Specific(0),
            },''', '''            expires_at: {
                let at = match self.expires {
                    SetCmdExpires::Ex(e) => ExpiresAt::deadline(now_timestamp_ms(), e, 1000),
                    SetCmdExpires::Px(e) => ExpiresAt::deadline(now_timestamp_ms(), e, 1),
                    SetCmdExpires::Exat(e) => ExpiresAt::deadline(0, e, 1000),
                    SetCmdExpires::Pxat(e) => ExpiresAt::deadline(0, e, 1),
                    SetCmdExpires::None => Ok(0),
                    SetCmdExpires::Keepttl => Ok(u64::MAX),
                }?;
                if matches!(self.expires, SetCmdExpires::Keepttl) {
                    ExpiresAt::Last
                } else {
                    ExpiresAt::Specific(at)
                }
            },'''))
r('zrange-flat-map', (S + 'cmd/sorted_set/zrange.rs', '''        let mut res = vec![];
        for n in response {
            res.push(Frame::OwnedSimple(n.key.into()));
            if self.withscores {
                res.push(Frame::OwnedStringSimple(n.score.0.to_string()));
            }
        }
        Ok(Frame::Array(res))''', '''        let withscores = self.withscores;
        let res = response
            .into_iter()
            .flat_map(|n| {
                let score = Frame::OwnedStringSimple(n.score.0.to_string());
                std::iter::once(Frame::OwnedSimple(n.key.into()))
                    .chain(Some(score).filter(|_| withscores))
            })
            .collect();
        Ok(Frame::Array(res))'''))
r('zadd-count', (S + 'cmd/sorted_set/zadd.rs', '''        if ch {
            Ok(Frame::Integer(res.update_len as _))
        } else {
            Ok(Frame::Integer((res.new_len - res.old_len) as _))
        }''', '''        let n = match ch {
            true => res.update_len,
            false => res.new_len - res.old_len,
        };
        Ok(Frame::Integer(n as i64))'''))
r('next-uint', (C + 'connection/parse/mod.rs', '''        self.next_int()?
            .try_into()
            .map_err(|_| "ERR value is out of range, must be positive".into())''', '''        match self.next_int()? {
            i if i >= 0 => Ok(i as u64),
            _ => Err("ERR value is out of range, must be positive".into()),
        }'''))
