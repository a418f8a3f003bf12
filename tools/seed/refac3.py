"""More behaviour-preserving rewrites, in other styles than refac1/2: early returns, let-else, entry API, iterator chains
turned to loops and back, extracted helpers and closures, match turned to if let, temporaries, reordered independent statements."""
R = []


def r(id, *edits):
    R.append((id, edits))


D = 'component/dict/src/'
B = 'component/db/src/'
S = 'component/server/src/'
C = 'component/common/src/'
P = 'component/pd/src/'
WT = 'Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())'

r('kvp-del-early', (D + 'cmd/kvp/del.rs', '''        if let Some(v) = dict.get(&self.key) {
            return if let DataType::Kvp(ref mut kvp) = v.data {
                let old_len = kvp.len();
                for f in self.fields {
                    kvp.remove(&f);
                }
                let new_len = kvp.len();
                if new_len == 0 {
                    dict.remove(&self.key);
                }
                Ok(Resp { old_len, new_len })
            } else {
                ''' + WT + '''
            };
        }
        Ok(Resp {
            old_len: 0,
            new_len: 0,
        })
''', '''        let Some(v) = dict.get(&self.key) else {
            return Ok(Resp {
                old_len: 0,
                new_len: 0,
            });
        };
        let kvp = match v.data {
            DataType::Kvp(ref mut kvp) => kvp,
            _ => {
                return ''' + WT + ''';
            }
        };
        let old_len = kvp.len();
        self.fields.iter().for_each(|f| {
            kvp.remove(f);
        });
        let new_len = kvp.len();
        let emptied = kvp.is_empty();
        if emptied {
            dict.remove(&self.key);
        }
        Ok(Resp { old_len, new_len })
'''))
r('kvp-del-fold', (D + 'cmd/kvp/del.rs', '''                let old_len = kvp.len();
                for f in self.fields {
                    kvp.remove(&f);
                }
                let new_len = kvp.len();
''', '''                let old_len = kvp.len();
                let removed = self
                    .fields
                    .iter()
                    .filter(|f| kvp.remove(f.as_ref()).is_some())
                    .count();
                let new_len = old_len - removed;
'''))
r('kvp-exists-mapor', (D + 'cmd/kvp/exists.rs', '''        if let Some(v) = dict.get(self.key) {
            return if let DataType::Kvp(ref kvp) = v.data {
                Ok(kvp.get(self.field).is_some())
            } else {
                ''' + WT + '''
            };
        }
        Ok(false)
''', '''        dict.get(self.key).map_or(Ok(false), |v| match v.data {
            DataType::Kvp(ref kvp) => Ok(kvp.contains_key(self.field)),
            _ => ''' + WT + ''',
        })
'''))
r('kvp-incr-match', (D + 'cmd/kvp/incr.rs', '''                if let Some(s) = kvp.get_mut(&self.field) {
                    let old: i64 = (&*s).try_into()?;
                    let new = old
                        .checked_add(self.value)
                        .ok_or("ERR increment or decrement would overflow")?;
                    *s = DataType::Integer(new);
                    Ok(new)
                } else {
                    kvp.insert(self.field, DataType::Integer(self.value));
                    Ok(self.value)
                }
''', '''                let new = match kvp.get(&self.field) {
                    Some(s) => {
                        let old: i64 = s.try_into()?;
                        match old.checked_add(self.value) {
                            Some(n) => n,
                            None => return Err("ERR increment or decrement would overflow".into()),
                        }
                    }
                    None => self.value,
                };
                kvp.insert(self.field, DataType::Integer(new));
                Ok(new)
'''))
r('kvp-set-single-loop', (D + 'cmd/kvp/set.rs', '''            match self.nx_xx {
                NxXx::Nx => {
                    for (k, v) in self.entries {
                        kvp.entry(k).or_insert(v);
                    }
                }
                NxXx::Xx => {
                    for (k, v) in self.entries {
                        if let Some(old_v) = kvp.get_mut(&k) {
                            *old_v = v;
                        }
                    }
                }
                NxXx::None => {
                    for (k, v) in self.entries {
                        kvp.insert(k, v);
                    }
                }
            }
''', '''            for (k, v) in self.entries {
                let wanted = match self.nx_xx {
                    NxXx::Nx => !kvp.contains_key(&k),
                    NxXx::Xx => kvp.contains_key(&k),
                    NxXx::None => true,
                };
                if wanted {
                    kvp.insert(k, v);
                }
            }
'''))
r('set-add-extend', (D + 'cmd/set/add.rs', '''            for m in self.members {
                set.insert(m);
            }
            Ok(Resp {
                old_len,
                new_len: set.len(),
            })
''', '''            set.extend(self.members);
            let new_len = set.len();
            Ok(Resp { old_len, new_len })
'''))
r('set-add-count', (D + 'cmd/set/add.rs', '''            for m in self.members {
                set.insert(m);
            }
            Ok(Resp {
                old_len,
                new_len: set.len(),
            })
''', '''            let mut added = 0;
            for m in self.members {
                if set.insert(m) {
                    added += 1;
                }
            }
            Ok(Resp {
                old_len,
                new_len: old_len + added,
            })
'''))
r('set-remove-while', (D + 'cmd/set/remove.rs', '''                for ref m in self.members {
                    set.remove(m);
                }
                let new_len = set.len();
                if new_len == 0 {
                    dict.remove(&self.key);
                }
                Ok(Resp { old_len, new_len })
''', '''                let mut i = 0;
                while i < self.members.len() {
                    set.remove(&self.members[i]);
                    i += 1;
                }
                let resp = Resp {
                    old_len,
                    new_len: set.len(),
                };
                if resp.new_len < 1 {
                    let _ = dict.remove(&self.key);
                }
                Ok(resp)
'''))
r('deque-pop-while', (D + 'cmd/deque/pop.rs', '''                let count = self.count.min(deque.len());
                let res = if self.left {
                    deque.drain(..count).collect()
                } else {
                    let len = deque.len();
                    deque.drain(len - count..).rev().collect()
                };
                if deque.is_empty() {
                    dict.remove(&self.key);
                }
                Ok(res)
''', '''                let mut res = Vec::new();
                while res.len() < self.count {
                    let popped = if self.left {
                        deque.pop_front()
                    } else {
                        deque.pop_back()
                    };
                    match popped {
                        Some(e) => res.push(e),
                        None => break,
                    }
                }
                if deque.len() == 0 {
                    dict.remove(&self.key);
                }
                Ok(res)
'''))
r('deque-push-default', (D + 'cmd/deque/push.rs', '''                if self.left {
                    for e in self.elements {
                        deque.push_front(e);
                    }
                } else {
                    for e in self.elements {
                        deque.push_back(e);
                    }
                }
                let new_len = deque.len();
                Ok(Resp { old_len, new_len })
''', '''                let new_len = old_len + self.elements.len();
                for e in self.elements {
                    if self.left {
                        deque.push_front(e);
                    } else {
                        deque.push_back(e);
                    }
                }
                Ok(Resp { old_len, new_len })
'''))
r('deque-push-closure', (D + 'cmd/deque/push.rs', '''            let mut deque = Deque::new();
            if self.left {
                for e in self.elements {
                    deque.push_front(e);
                }
            } else {
                for e in self.elements {
                    deque.push_back(e);
                }
            }
            let new_len = deque.len();
''', '''            let mut deque = Deque::new();
            let left = self.left;
            self.elements.into_iter().for_each(|e| match left {
                true => deque.push_front(e),
                false => deque.push_back(e),
            });
            let new_len = deque.len();
'''))
r('deque-range-loop', (D + 'cmd/deque/range.rs', '''                Ok(deque.range(b..e).cloned().collect())
''', '''                let mut res = Vec::with_capacity(e - b);
                for x in deque.range(b..e) {
                    res.push(x.clone());
                }
                Ok(res)
'''))
r('deque-range-index', (D + 'cmd/deque/range.rs', '''                Ok(deque.range(b..e).cloned().collect())
''', '''                Ok((b..e).map(|i| deque[i].clone()).collect())
'''))
r('incr-helper', (D + 'cmd/simple/incr.rs', '''            let old: i64 = (&v.data).try_into()?;
            let new = old
                .checked_add(self.value)
                .ok_or("ERR increment or decrement would overflow")?;
            v.data = DataType::Integer(new);
            Ok(new)
''', '''            let new = added(&v.data, self.value)?;
            v.data = new.into();
            Ok(new)
'''), (D + 'cmd/simple/incr.rs', '''/// 返回 更新后的值
''', '''fn added(data: &DataType, value: i64) -> common::Result<i64> {
    let old: i64 = data.try_into()?;
    if let Some(new) = old.checked_add(value) {
        return Ok(new);
    }
    Err("ERR increment or decrement would overflow".into())
}

/// 返回 更新后的值
'''))
r('incr-overflowing', (D + 'cmd/simple/incr.rs', '''            let new = old
                .checked_add(self.value)
                .ok_or("ERR increment or decrement would overflow")?;
            v.data''', '''            let (new, overflowed) = old.overflowing_add(self.value);
            if overflowed {
                return Err("ERR increment or decrement would overflow".into());
            }
            v.data'''))
r('del-iflet', (D + 'cmd/simple/del.rs', '''        let res = dict.remove(&self.key).map_or(
            ExpiresOpResp {
                payload: None,
                expires_status: ExpiresStatus::None,
            },
            |v| {
                let expires_status = if v.expires_at > 0 {
                    ExpiresStatus::Update(ExpiresStatusUpdate {
                        key: self.key,
                        before: v.expires_at,
                        new: 0,
                    })
                } else {
                    ExpiresStatus::None
                };

                let alive = v.expires_at == 0 || v.expires_at > now_timestamp_ms();
                ExpiresOpResp {
                    payload: Some(v).filter(|_| alive),
                    expires_status,
                }
            },
        );
        Ok(res)
''', '''        let v = match dict.remove(&self.key) {
            Some(v) => v,
            None => {
                return Ok(ExpiresOpResp {
                    payload: None,
                    expires_status: ExpiresStatus::None,
                })
            }
        };
        if v.expires_at == 0 {
            return Ok(ExpiresOpResp {
                payload: Some(v),
                expires_status: ExpiresStatus::None,
            });
        }
        let before = v.expires_at;
        let payload = if before <= now_timestamp_ms() { None } else { Some(v) };
        Ok(ExpiresOpResp {
            payload,
            expires_status: ExpiresStatus::Update(ExpiresStatusUpdate {
                key: self.key,
                before,
                new: 0,
            }),
        })
'''))
r('expire-early', (D + 'cmd/simple/expire.rs', '''                if update {
                    let expires_status = ExpiresStatus::Update(ExpiresStatusUpdate {
                        key: self.key,
                        before: v.expires_at,
                        new: self.expires_at,
                    });
                    v.expires_at = self.expires_at;
                    Ok(ExpiresOpResp {
                        payload: true,
                        expires_status,
                    })
                } else {
                    Ok(ExpiresOpResp {
                        payload: false,
                        expires_status: ExpiresStatus::None,
                    })
                }
''', '''                if !update {
                    return Ok(ExpiresOpResp {
                        payload: false,
                        expires_status: ExpiresStatus::None,
                    });
                }
                let before = std::mem::replace(&mut v.expires_at, self.expires_at);
                Ok(ExpiresOpResp {
                    payload: true,
                    expires_status: ExpiresStatus::Update(ExpiresStatusUpdate {
                        key: self.key,
                        before,
                        new: self.expires_at,
                    }),
                })
'''))
r('expire-two-conditions', (D + 'cmd/simple/expire.rs', '''                let update = match (self.nx_xx, self.gt_lt) {
                    (NxXx::None, GtLt::None) => true,
                    (NxXx::Nx, GtLt::None) if v.expires_at == 0 => true,
                    (NxXx::Xx | NxXx::None, GtLt::Gt)
                        if v.expires_at != 0 && v.expires_at < self.expires_at =>
                    {
                        true
                    }
                    (NxXx::Xx | NxXx::None, GtLt::Lt)
                        if v.expires_at == 0 || v.expires_at > self.expires_at =>
                    {
                        true
                    }
                    (NxXx::Xx, GtLt::None) if v.expires_at > 0 => true,
                    _ => false,
                };
''', '''                let has = v.expires_at != 0;
                let update = match self.gt_lt {
                    GtLt::None => match self.nx_xx {
                        NxXx::None => true,
                        NxXx::Nx => !has,
                        NxXx::Xx => has,
                    },
                    GtLt::Gt => !self.nx_xx.is_nx() && has && self.expires_at > v.expires_at,
                    GtLt::Lt => !self.nx_xx.is_nx() && (!has || self.expires_at < v.expires_at),
                };
'''))
r('set-old-helper', (D + 'cmd/simple/set.rs', '''            let (old, expires_status) = if expires_at > 0 {
                let old = dict.insert(
                    self.key.clone(),
                    Value {
                        data: self.value,
                        expires_at,
                        visit_log: Value::new_visit_log(),
                    },
                );
                (
                    old,
                    ExpiresStatus::Update(ExpiresStatusUpdate {
                        key: self.key,
                        before: 0,
                        new: expires_at,
                    }),
                )
            } else {
                let old = dict.insert(
                    self.key,
                    Value {
                        data: self.value,
                        expires_at,
                        visit_log: Value::new_visit_log(),
                    },
                );
                (old, ExpiresStatus::None)
            };
            let now = now_timestamp_ms();
''', '''            let expires_status = if expires_at == 0 {
                ExpiresStatus::None
            } else {
                ExpiresStatus::Update(ExpiresStatusUpdate {
                    key: self.key.clone(),
                    before: 0,
                    new: expires_at,
                })
            };
            let value = Value {
                data: self.value,
                expires_at,
                visit_log: Value::new_visit_log(),
            };
            let old = dict.insert(self.key, value);
            let now = now_timestamp_ms();
'''))
r('ttl-iflet', (D + 'cmd/simple/ttl.rs', '''        let res = dict
            .raw_get(self.key)
            .map(|v| v.expires_at)
            .filter(|&expires_at| expires_at == 0 || expires_at > now)
            .map_or(Resp::NotExist, |expires_at| {
                if expires_at == 0 {
                    Resp::None
                } else {
                    Resp::Ttl(expires_at - now)
                }
            });
        Ok(res)
''', '''        let expires_at = match dict.raw_get(self.key) {
            Some(v) => v.expires_at,
            None => return Ok(Resp::NotExist),
        };
        if expires_at == 0 {
            return Ok(Resp::None);
        }
        Ok(match expires_at.checked_sub(now) {
            None | Some(0) => Resp::NotExist,
            Some(left) => Resp::Ttl(left),
        })
'''))
r('exists-raw', (D + 'lib.rs', '''        self.get(key).is_some()
''', '''        matches!(self.get(key), Some(_))
'''))
r('get-match', (D + 'lib.rs', '''        self.inner
            .get_mut(key)
            .filter(|v| v.expires_at == 0 || v.expires_at > now_timestamp_ms())
            .map(|v| {
                v.update_visit_log();
                v
            })
''', '''        let v = self.inner.get_mut(key)?;
        let expires_at = v.expires_at;
        if expires_at != 0 && now_timestamp_ms() >= expires_at {
            return None;
        }
        v.update_visit_log();
        Some(v)
'''))
r('get-or-insert-alive', (D + 'lib.rs', '''                let expires_at = o.get().expires_at;
                let now = now_timestamp_ms();
                if expires_at > 0 && expires_at <= now {
                    *o.get_mut() = f();
                } else {
                    o.get_mut().update_visit_log();
                }
                o.into_mut()
''', '''                let v = o.get_mut();
                let alive = v.expires_at == 0 || v.expires_at > now_timestamp_ms();
                if alive {
                    v.update_visit_log();
                } else {
                    *v = f();
                }
                o.into_mut()
'''))
r('visit-log-saturating', (D + 'lib.rs', '''        if diff > visit_times {
            visit_times = 0;
        } else {
            visit_times -= diff;
        }
        if visit_times < Self::MAX_VISIT_TIMES {
            // todo use probability to control growth
            visit_times += 1;
        }
''', '''        visit_times = visit_times.saturating_sub(diff);
        // todo use probability to control growth
        visit_times = (visit_times + 1).min(Self::MAX_VISIT_TIMES);
'''))
r('visit-log-or', (D + 'lib.rs', '''        (last_visit_time << 32) + (last_desc_time << 16) + visit_times
''', '''        (last_visit_time << 32) | (last_desc_time << 16) | visit_times
'''))
r('next-id-replace', (D + 'lib.rs', '''        self.write_id += 1;
        self.write_id
''', '''        let id = self.write_id + 1;
        self.write_id = id;
        id
'''))
r('visit-times-map', (D + 'cmd/simple/get_visit_times.rs', '''        let now = now_timestamp_ms();
        if let Some(v) = dict
            .raw_get(self.key)
            .filter(|v| v.expires_at == 0 || v.expires_at > now)
        {
            return Ok(Some(v.get_visit_times()));
        }
        Ok(None)
''', '''        let now = now_timestamp_ms();
        Ok(match dict.raw_get(self.key) {
            Some(v) if v.expires_at == 0 || now < v.expires_at => Some(v.get_visit_times()),
            _ => None,
        })
'''))
r('shape-rank-max', (D + 'cmd/sorted_set/mod.rs', '''    if len == 0 || start >= len || stop < 0 || stop < start {
        return (0, 0);
    }
    if start < 0 {
        start = 0;
    }
    if stop >= len {
        stop = len - 1;
    }
    (start as usize, stop as usize + 1)
''', '''    if start < 0 {
        start = 0;
    }
    if stop > len - 1 {
        stop = len - 1;
    }
    if start > stop {
        return (0, 0);
    }
    (start as usize, (stop + 1) as usize)
'''))
r('shape-limit-if', (D + 'cmd/sorted_set/mod.rs', '''            if offset < 0 {
                offset = 0.max(offset.saturating_add(len as i64));
            }
            (
                offset as usize,
                if count < 0 { len } else { count as usize },
            )
''', '''            if offset < 0 {
                offset = offset.saturating_add(len as i64);
                if offset < 0 {
                    offset = 0;
                }
            }
            let count = match count {
                c if c >= 0 => c as usize,
                _ => len,
            };
            (offset as usize, count)
'''))
r('range-by-lex-first', (D + 'cmd/sorted_set/range_by_lex.rs', '''                let iter = value.range(range);
                let res = if self.rev {
                    iter.rev().skip(offset).take(count).cloned().collect()
                } else {
                    iter.skip(offset).take(count).cloned().collect()
                };
                Ok(res)
''', '''                let mut nodes: Vec<_> = value.range(range).cloned().collect();
                if self.rev {
                    nodes.reverse();
                }
                Ok(nodes.into_iter().skip(offset).take(count).collect())
'''))
r('range-by-rank-slice', (D + 'cmd/sorted_set/range_by_rank.rs', '''                let range = start..stop;
                let res = if self.rev {
                    value
                        .iter()
                        .rev()
                        .enumerate()
                        .filter(|(index, _)| range.contains(index))
                        .skip(offset)
                        .take(count)
                        .map(|(_, node)| node.clone())
                        .collect()
                } else {
                    value
                        .iter()
                        .enumerate()
                        .filter(|(index, _)| range.contains(index))
                        .skip(offset)
                        .take(count)
                        .map(|(_, node)| node.clone())
                        .collect()
                };
''', '''                let mut res = vec![];
                let nodes: Vec<&data_type::sorted_set::Node> = if self.rev {
                    value.iter().rev().collect()
                } else {
                    value.iter().collect()
                };
                for node in nodes.into_iter().take(stop).skip(start).skip(offset) {
                    if res.len() >= count {
                        break;
                    }
                    res.push(node.clone());
                }
'''))
r('zadd-match-order', (D + 'cmd/sorted_set/add.rs', '''                let can_update = match (self.nx_xx, self.gt_lt) {
                    (NxXx::Nx, GtLt::None) => !sorted_set.hash.contains_key(&node.key),
                    (NxXx::Nx, _) => false,
                    (NxXx::Xx, GtLt::Gt) => old_score.map_or(false, |s| s < node.score),
                    (NxXx::Xx, GtLt::Lt) => old_score.map_or(false, |s| s > node.score),
                    (NxXx::None, GtLt::Gt) => old_score.map_or(true, |s| s < node.score),
                    (NxXx::None, GtLt::Lt) => old_score.map_or(true, |s| s > node.score),
                    (NxXx::Xx, GtLt::None) => sorted_set.hash.contains_key(&node.key),
                    (NxXx::None, GtLt::None) => true,
                };
                if can_update {
''', '''                let can_update = match old_score {
                    None => !self.nx_xx.is_xx(),
                    Some(_) if self.nx_xx.is_nx() => false,
                    Some(s) => match self.gt_lt {
                        GtLt::Gt => node.score > s,
                        GtLt::Lt => node.score < s,
                        GtLt::None => true,
                    },
                };
                if can_update {
'''))
r('zadd-remove-first', (D + 'cmd/sorted_set/add.rs', '''                    if let Some(on) = sorted_set.hash.insert(node.key.clone(), node.clone()) {
                        sorted_set.value.remove(&on);
                    }
                    sorted_set.value.insert(node);
''', '''                    if let Some(on) = sorted_set.hash.remove(&node.key) {
                        sorted_set.value.remove(&on);
                    }
                    sorted_set.value.insert(node.clone());
                    sorted_set.hash.insert(node.key.clone(), node);
'''))
r('remove-by-score-retain', (D + 'cmd/sorted_set/remove_by_score_range.rs', '''                let bigger_range = super::bigger_range(self.range);
                let value_clone = sorted_set.value.clone();
                let iter = value_clone.range(bigger_range);
                if self.rev {
                    for n in iter.rev() {
                        if self.range.contains(&n.score) {
                            sorted_set.value.remove(n);
                            if let Some(n) = sorted_set.hash.remove(&n.key) {
                                res.push(n);
                            }
                        }
                    }
                } else {
                    for n in iter {
                        if self.range.contains(&n.score) {
                            sorted_set.value.remove(n);
                            if let Some(n) = sorted_set.hash.remove(&n.key) {
                                res.push(n);
                            }
                        }
                    }
                }
''', '''                for n in &sorted_set.value {
                    if self.range.contains(&n.score) {
                        res.push(n.clone());
                    }
                }
                for n in &res {
                    sorted_set.value.remove(n);
                    sorted_set.hash.remove(&n.key);
                }
                if self.rev {
                    res.reverse();
                }
'''))
# --- the server commands
r('del-filter-count', (S + 'cmd/base/del.rs', '''            let r = db.del(cmd)?;
            if r.is_some() {
                res += 1;
            }
            delay.push(r);
''', '''            if let Some(v) = db.del(cmd)? {
                delay.push(v);
            }
'''), (S + 'cmd/base/del.rs', '''        let mut res = 0;
        let mut delay''', '''        let mut delay'''), (S + 'cmd/base/del.rs', '''        // async drop
''', '''        let res = delay.len() as i64;
        // async drop
'''))
r('exists-sum', (S + 'cmd/base/exists.rs', '''        let mut res = 0;
        for cmd in self
            .keys
            .into_iter()
            .map(|key| dict::cmd::simple::exists::Req { key })
        {
            if db.exists(cmd)? {
                res += 1;
            }
        }
        let response = Frame::Integer(res);
        Ok(response)
''', '''        let found: Vec<bool> = self
            .keys
            .into_iter()
            .map(|key| db.exists(dict::cmd::simple::exists::Req { key }))
            .collect::<common::Result<_>>()?;
        let n = found.into_iter().filter(|&f| f).count();
        Ok(Frame::Integer(n as i64))
'''))
r('exists-try-fold', (S + 'cmd/base/exists.rs', '''        let mut res = 0;
        for cmd in self
            .keys
            .into_iter()
            .map(|key| dict::cmd::simple::exists::Req { key })
        {
            if db.exists(cmd)? {
                res += 1;
            }
        }
        let response = Frame::Integer(res);
        Ok(response)
''', '''        self.keys
            .iter()
            .try_fold(0, |n, key| {
                let found = db.exists(dict::cmd::simple::exists::Req { key })?;
                Ok(n + i64::from(found))
            })
            .map(Frame::Integer)
'''))
r('decrby-neg', (S + 'cmd/base/decrby.rs', '''        let value = self
            .value
            .checked_neg()
            .ok_or("ERR decrement would overflow")?;
        let response''', '''        if self.value == i64::MIN {
            return Err("ERR decrement would overflow".into());
        }
        let value = -self.value;
        let response'''))
r('handler-error-early', (S + 'lib.rs', '''            let res = match res {
                Ok(f) => f,
                Err(e) => Frame::OwnedError(e.to_string()),
            };
            let bytes: Vec<u8> = (&res).into();
''', '''            let frame = res.unwrap_or_else(|e| Frame::OwnedError(e.to_string()));
            let bytes = Vec::from(&frame);
'''))
r('handler-while-let', (S + 'lib.rs', '''        loop {
            let maybe_frame = self.connection.read_frame().await?;

            // If `None` is returned from `read_frame()` then the peer closed
            // the socket. There is no further work to do and the task can be
            // terminated.
            let frame = match maybe_frame {
                Some(frame) => frame,
                None => return Ok(()),
            };
''', '''        while let Some(frame) = self.connection.read_frame().await? {
'''), (S + 'lib.rs', '''            self.connection.stream.write_all(&bytes).await?;
        }
    }
''', '''            self.connection.stream.write_all(&bytes).await?;
        }
        Ok(())
    }
'''))
r('listener-helper', (S + 'lib.rs', '''            // Spawn a new task to process the connections. Tokio tasks are like
            // asynchronous green threads and are executed concurrently.
            tokio::spawn(async move {
                // Process the connection. If an error is encountered, log it.
                if let Err(err) = handler.run().await {
                    error!(cause = ?err, "connection error");
                }
            });
''', '''            // Spawn a new task to process the connections. Tokio tasks are like
            // asynchronous green threads and are executed concurrently.
            tokio::spawn(handler.serve());
'''), (S + 'lib.rs', '''impl Handler {
    /// Process a single connection.
''', '''impl Handler {
    /// Process the connection. If an error is encountered, log it.
    async fn serve(self) {
        if let Err(err) = self.run().await {
            error!(cause = ?err, "connection error");
        }
    }

    /// Process a single connection.
'''))
# --- the database
r('flushall-index', (B + 'lib.rs', '''        for s in &self.slots {
            s.flush(sync);
        }
''', '''        for i in 0..SLOT_SIZE {
            self.get_slot_by_id(i).flush(sync);
        }
'''))
r('flushall-match', (B + 'lib.rs', '''        if sync {
            expire::scan_all(&self);
        } else {
            tokio::task::spawn_blocking(move || expire::scan_all(&self));
        }
''', '''        let scan = move || expire::scan_all(&self);
        match sync {
            true => scan(),
            false => {
                tokio::task::spawn_blocking(scan);
            }
        }
'''))
r('get-slot-tag', (B + 'lib.rs', '''    fn get_slot(&self, mut key: &[u8]) -> &Slot {
        if let Some(begin) = key.iter().position(|t| *t == b'{') {
            if let Some(end) = key[begin..].iter().position(|t| *t == b'}') {
                if end > 1 {
                    key = &key[begin + 1..begin + end];
                }
            }
        }
        let i = CRC_HASH.checksum(key) & SIZE_MOD;
        &self.slots[i as usize]
''', '''    fn get_slot(&self, key: &[u8]) -> &Slot {
        let tag = key
            .iter()
            .position(|&t| t == b'{')
            .map(|begin| &key[begin + 1..])
            .and_then(|rest| {
                let end = rest.iter().position(|&t| t == b'}')?;
                Some(&rest[..end])
            })
            .filter(|tag| !tag.is_empty())
            .unwrap_or(key);
        let i = usize::from(CRC_HASH.checksum(tag) & SIZE_MOD);
        self.get_slot_by_id(i)
'''))
r('db-new-collect', (B + 'lib.rs', '''        let mut slots = Vec::with_capacity(SLOT_SIZE);
        for i in 0..SLOT_SIZE {
            slots.push(Slot::new(i, bg_task.clone()));
        }
''', '''        let slots = (0..SLOT_SIZE)
            .map(|i| Slot::new(i, bg_task.clone()))
            .collect();
'''))
r('scan-all-map-or', (B + 'expire.rs', '''        let mut lock = slot.share_status.lock();
        let dict = match &mut *lock {
            Some(s) => &mut s.dict,
            None => return false,
        };
        // 只保留key存在，且过期时间能对上的记录
        matches!(dict.raw_get(&entry.key), Some(value) if value.expires_at == entry.expires_at)
''', '''        let lock = slot.share_status.lock();
        // 只保留key存在，且过期时间能对上的记录
        lock.as_ref()
            .and_then(|s| s.dict.raw_get(&entry.key))
            .map_or(false, |value| value.expires_at == entry.expires_at)
'''))
r('purge-first', (B + 'expire.rs', '''                // fixme: 等 #![feature(map_first_last)] stable 可以替换
                let entry = match btree_lock.iter().next() {
                    Some(e) => e.clone(),
                    None => return 0,
                };
                let expires_at = entry.expires_at;
                if expires_at > now {
                    return expires_at;
                }
                btree_lock.remove(&entry);
                entry
''', '''                match btree_lock.first() {
                    None => return 0,
                    Some(e) if e.expires_at > now => return e.expires_at,
                    Some(_) => (),
                }
                match btree_lock.pop_first() {
                    Some(entry) => entry,
                    None => return 0,
                }
'''))
r('purge-notify-helper', (B + 'expire.rs', '''                    let mut lock = data.lock();
                    for v in vs {
                        lock.insert(v);
                    }
                    drop(lock);
                    notify.notify_one();
''', '''                    data.lock().extend(vs);
                    notify.notify_one();
'''))
r('replica-unknown-if', (B + 'slot/replica_update.rs', '''                match id.cmp(&s.dict.last_write_op_id()) {
                    Ordering::Greater => Ordering::Greater,
                    _ => Ordering::Less,
                }
''', '''                if id > s.dict.last_write_op_id() {
                    Ordering::Greater
                } else {
                    Ordering::Less
                }
'''))
r('replica-update-early', (B + 'slot/replica_update.rs', '''        self.share_status
            .lock()
            .as_mut()
            .map_or(Ordering::Greater, |s| {
                match id.cmp(&(s.dict.last_write_op_id() + 1)) {
                    Ordering::Less => Ordering::Less,
                    Ordering::Equal => {
                        s.dict.set_write_id(id);
                        if let Err(e) = cmd.apply(s.dict.borrow_mut()) {
                            error!("call update: {:?}", e);
                        }
                        Ordering::Equal
                    }
                    Ordering::Greater => Ordering::Greater,
                }
            })
''', '''        let mut guard = self.share_status.lock();
        let dict = match guard.as_mut() {
            Some(s) => &mut s.dict,
            None => return Ordering::Greater,
        };
        let ord = id.cmp(&(dict.last_write_op_id() + 1));
        if ord.is_eq() {
            dict.set_write_id(id);
            cmd.apply(dict)
                .map_or_else(|e| error!("call update: {:?}", e), |_| ());
        }
        ord
'''))
r('replica-task-collect', (B + 'pd_handle/replica.rs', '''        let mut snapshot_lock = Vec::with_capacity(SLOT_SIZE);
        for _ in 0..SLOT_SIZE {
            snapshot_lock.push(AtomicBool::new(false));
        }
        Self {
            inner: Arc::new(Inner {
                snapshot_lock,
''', '''        Self {
            inner: Arc::new(Inner {
                snapshot_lock: (0..SLOT_SIZE).map(|_| AtomicBool::new(false)).collect(),
'''))
r('replica-loop-break', (B + 'pd_handle/replica.rs', '''                if std::cmp::Ordering::Greater
                    == self.db.slots[slot_id].process_forward(msg.id, msg.cmd.clone())
                {
                    if let Err(e) = self.clone().sync_snapshot(slot_id) {
                        warn!("process_cmd: {:?}", e); // 别的同步正在进行, 重试几次
                        tokio::time::sleep(Duration::from_secs(1)).await;
                    }
                } else {
                    break;
                }
''', '''                let slot = self.db.get_slot_by_id(slot_id);
                let order = slot.process_forward(msg.id, msg.cmd.clone());
                if !order.is_gt() {
                    break;
                }
                match self.clone().sync_snapshot(slot_id) {
                    Ok(()) => {}
                    Err(e) => {
                        warn!("process_cmd: {:?}", e); // 别的同步正在进行, 重试几次
                        tokio::time::sleep(Duration::from_secs(1)).await;
                    }
                }
'''))
r('replica-lock-iter', (B + 'pd_handle/replica.rs', '''        if slot_id == SLOT_SIZE {
            for l in &self.snapshot_lock {
                l.store(true, std::sync::atomic::Ordering::Relaxed);
            }
        } else {
            self.snapshot_lock[slot_id].store(true, std::sync::atomic::Ordering::Relaxed);
        }
''', '''        let all = slot_id == SLOT_SIZE;
        let locks = if all {
            &self.snapshot_lock[..]
        } else {
            &self.snapshot_lock[slot_id..=slot_id]
        };
        locks
            .iter()
            .for_each(|l| l.store(true, std::sync::atomic::Ordering::Relaxed));
'''))
r('pd-update-if', (B + 'pd_handle/mod.rs', '''        match (self.latest_status.role, status.role) {
            (_, ServerRole::Follower)
                if self.latest_status.current_leader != status.current_leader =>
            {
                // update leader, no command of the old one may follow the snapshot of the new one
                self.replica_task.close_sync_cmd();
                self.replica_task.update_leader(status.current_leader);
                self.replica_task.sync_all_snapshot()?;
                self.replica_task.sync_cmd()?;
                self.latest_status = status;
            }
            (ServerRole::Follower, ServerRole::Leader) => {
                // 自己变成leader
                self.replica_task.close_sync_cmd();
                self.latest_status = status;
            }
            _ => self.latest_status = status,
        }
        Ok(())
''', '''        let is_follower = matches!(status.role, ServerRole::Follower);
        let was_follower = matches!(self.latest_status.role, ServerRole::Follower);
        if is_follower && self.latest_status.current_leader != status.current_leader {
            self.follow(status.current_leader)?;
        } else if was_follower && matches!(status.role, ServerRole::Leader) {
            // 自己变成leader
            self.replica_task.close_sync_cmd();
        }
        self.latest_status = status;
        Ok(())
    }

    /// no command of the old leader may follow the snapshot of the new one
    fn follow(&self, leader: Option<common::pd_message::LeaderInfo>) -> common::Result<()> {
        let task = &self.replica_task;
        task.close_sync_cmd();
        task.update_leader(leader);
        task.sync_all_snapshot()?;
        task.sync_cmd()
'''))
r('pd-read-bytes', (B + 'pd_handle/mod.rs', '''        let frame = match self.connection.read_frame().await? {
            Some(f) => f,
            None => return Err("EOF".into()),
        };
        match frame {
            Frame::Bulk(b) => Ok(b),
            e => Err(format!("{:?}", e).into()),
        }
''', '''        match self.connection.read_frame().await? {
            Some(Frame::Bulk(b)) => Ok(b),
            Some(e) => Err(format!("{:?}", e).into()),
            None => Err("EOF".into()),
        }
'''))
r('child-loop-iflet', (B + 'child_process.rs', '''                STATUS.lock().remove(&pid).map_or_else(
                    || {
                        error!("unknown pid: {}", pid);
                    },
                    |e| {
                        info!("{:?} exited: {}", e, pid);
                    },
                );
''', '''                let removed = STATUS.lock().remove(&pid);
                if let Some(e) = removed {
                    info!("{:?} exited: {}", e, pid);
                } else {
                    error!("unknown pid: {}", pid);
                }
'''))
# --- slots
r('replace-dict-loop3', (B + 'slot.rs', '''        let expires_add = dict
            .inner
            .iter()
            .filter(|(_, v)| v.expires_at > 0)
            .map(|(k, v)| expire::Entry {
                expires_at: v.expires_at,
                slot: self.slot_id,
                key: k.clone(),
            })
            .collect();
        *share_status = Some(Box::new(ShareStatus { dict }));
''', '''        let mut expires_add = vec![];
        for (key, value) in &dict.inner {
            if value.expires_at == 0 {
                continue;
            }
            expires_add.push(expire::Entry {
                expires_at: value.expires_at,
                slot: self.slot_id,
                key: key.clone(),
            });
        }
        share_status.replace(Box::new(ShareStatus { dict }));
'''))
r('replace-dict-notify', (B + 'slot.rs', '''        if let Err(e) = self
            .bg_task
            .expire_sender
            .send(expire::Message::Clear(self.slot_id))
        {
            error!("replace_dict Clear: {:?}", e);
        };
''', '''        self.tell_expiration(expire::Message::Clear(self.slot_id));
'''), (B + 'slot.rs', '''        if let Err(e) = self
            .bg_task
            .expire_sender
            .send(expire::Message::BatchAdd(expires_add))
        {
            error!("replace_dict BatchAdd: {:?}", e);
        };
    }
''', '''        self.tell_expiration(expire::Message::BatchAdd(expires_add));
    }

    fn tell_expiration(&self, msg: expire::Message) {
        let sender = &self.bg_task.expire_sender;
        sender
            .send(msg)
            .unwrap_or_else(|e| error!("expire_sender: {:?}", e));
    }
'''))
r('call-write-okor', (B + 'slot.rs', '''    fn call_write<T, C: Write<T, MemDict> + Clone>(&self, cmd: C) -> common::Result<T> {
        let cc = cmd.clone();
        // 加锁执行命令, 消息也在锁内发送, 保证消息和执行的顺序一致
        let mut share_status = self.share_status.lock();
        let s = match &mut *share_status {
            Some(s) => s,
            None => return Err("slot not support".into()),
        };
        let id = s.dict.next_id();
        let res = cc.apply(&mut s.dict);
''', '''    fn call_write<T, C: Write<T, MemDict> + Clone>(&self, cmd: C) -> common::Result<T> {
        // 加锁执行命令, 消息也在锁内发送, 保证消息和执行的顺序一致
        let mut share_status = self.share_status.lock();
        let dict = share_status
            .as_mut()
            .map(|s| &mut s.dict)
            .ok_or("slot not support")?;
        let id = dict.next_id();
        let res = cmd.clone().apply(dict);
'''))
r('call-expires-question', (B + 'slot.rs', '''                match expires_status {
                    cmd::ExpiresStatus::None => (),
                    cmd::ExpiresStatus::Update(u) => {
                        if u.before != u.new {
                            if let Err(e) = self.bg_task.expire_sender.send(
                                expire::Message::Update(expire::Update {
                                    status: u,
                                    slot: self.slot_id,
                                }),
                            ) {
                                error!("call_expires_write expire_sender: {:?}", e);
                            };
                        }
                    }
                }
                Ok(payload)
''', '''                self.note_deadline(expires_status);
                Ok(payload)
'''), (B + 'slot.rs', '''    #[inline]
    fn call_read<T''', '''    fn note_deadline(&self, status: cmd::ExpiresStatus) {
        let status = match status {
            cmd::ExpiresStatus::Update(u) if u.before != u.new => u,
            _ => return,
        };
        let slot = self.slot_id;
        let msg = expire::Message::Update(expire::Update { status, slot });
        if self.bg_task.expire_sender.send(msg).is_err() {
            error!("call_expires_write expire_sender: disconnected");
        }
    }

    #[inline]
    fn call_read<T'''))
r('call-read-asmut', (B + 'slot.rs', '''        match &mut *self.share_status.lock() {
            Some(s) => cmd.apply(&mut s.dict),
            None => Err("slot not support".into()),
        }
''', '''        let mut guard = self.share_status.lock();
        let status = guard.as_mut().ok_or("slot not support")?;
        cmd.apply(&mut status.dict)
'''))
# --- forward
r('forward-accept-loop', (B + 'forward/connection.rs', '''                let stream = match listener.accept().await {
                    Ok(s) => s,
                    Err(e) => {
                        error!("forward connect accept fail: {:?}", e);
                        continue;
                    }
                };
                let fc = fc.clone();
                tokio::spawn(async move {
                    let (tx, rx) = flume::unbounded();
                    fc.0.lock().push(tx);
                    if let Err(e) = run_connect_task(stream, rx).await {
                        error!("forward fail: {:?}", e);
                    }
                });
''', '''                match listener.accept().await {
                    Ok(stream) => {
                        tokio::spawn(fc.clone().serve(stream));
                    }
                    Err(e) => error!("forward connect accept fail: {:?}", e),
                }
'''), (B + 'forward/connection.rs', '''    pub fn push_all(''', '''    async fn serve(self, stream: TcpStream) {
        let (tx, rx) = flume::unbounded();
        self.0.lock().push(tx);
        if let Err(e) = run_connect_task(stream, rx).await {
            error!("forward fail: {:?}", e);
        }
    }

    pub fn push_all('''))
r('push-all-isok', (B + 'forward/connection.rs', '''        self.0.lock().retain(|t| match t.send(msg.clone()) {
            Ok(_) => true,
            Err(e) => {
                warn!("{:?}", e);
                false
            }
        });
''', '''        let mut senders = self.0.lock();
        senders.retain(|t| {
            let sent = t.send(msg.clone());
            if let Err(ref e) = sent {
                warn!("{:?}", e);
            }
            sent.is_ok()
        });
'''))
r('connect-task-helper', (B + 'forward/connection.rs', '''            msg = rx.recv_async() => {
                 stream.write_all(&bincode::serialize(&msg?)?).await?;
            }
            // 处理心跳
            n = stream.read(&mut ping_buf) => {
                if n? == 0 {
                    return Err("EOF".into());
                }
                stream.write_all(&bincode::serialize(&super::Message::none())?).await?;
            }
        }
    }
}
''', '''            msg = rx.recv_async() => send(&mut stream, &msg?).await?,
            // 处理心跳
            n = stream.read(&mut ping_buf) => match n? {
                0 => return Err("EOF".into()),
                _ => send(&mut stream, &Message::default()).await?,
            }
        }
    }
}

async fn send(stream: &mut TcpStream, msg: &Message) -> common::Result<()> {
    let bytes = bincode::serialize(msg)?;
    stream.write_all(&bytes).await?;
    Ok(())
}
'''))
r('forward-run-iflet', (B + 'forward/mod.rs', '''        while let Ok(msg) = self.rx.recv_async().await {
            forward_connection.push_all(&msg);
        }
''', '''        let Self { rx, tx: _tx } = self;
        loop {
            match rx.recv_async().await {
                Ok(ref msg) => forward_connection.push_all(msg),
                Err(_) => break,
            }
        }
'''))
# --- placement driver
r('pd-init-early', (P + 'status.rs', '''    status
        .groups
        .iter_mut()
        .find(|t| t.id == data.group_id)
        .map_or_else(
            || Err("group not exists.".into()),
            |g| {
                g.latest_server_id += 1;
                let is_follower = g.servers.iter().any(|t| t.role == ServerRole::Leader);
                let role = if is_follower {
                    ServerRole::Follower
                } else {
                    ServerRole::Leader
                };
                let now = now_timestamp_ms();
                let server = Server {
                    id: g.latest_server_id,
                    latest_heartbeat: now,
                    role,
                    server_addr: data.server_addr,
                    forward_addr: data.forward_addr,
                    join_time: now,
                };
                if ServerRole::Leader == role {
                    g.leader = Some(LeaderInfo {
                        server_id: server.id,
                        server_addr: server.server_addr,
                        forward_addr: server.forward_addr,
                    });
                }
                let res = ServerStatus {
                    server_id: server.id,
                    group_id: g.id,
                    role,
                    current_leader: g.leader,
                };
                g.servers.push(server);
                Ok(res)
            },
        )
}
''', '''    let g = match status.groups.iter_mut().find(|t| t.id == data.group_id) {
        Some(g) => g,
        None => return Err("group not exists.".into()),
    };
    let now = now_timestamp_ms();
    g.latest_server_id += 1;
    let has_leader = g.servers.iter().any(|t| t.role == ServerRole::Leader);
    let mut server = Server {
        id: g.latest_server_id,
        latest_heartbeat: now,
        role: ServerRole::Follower,
        server_addr: data.server_addr,
        forward_addr: data.forward_addr,
        join_time: now,
    };
    if !has_leader {
        server.role = ServerRole::Leader;
        g.leader = Some(server.leader_info());
    }
    let res = ServerStatus {
        server_id: server.id,
        group_id: g.id,
        role: server.role,
        current_leader: g.leader,
    };
    g.servers.push(server);
    Ok(res)
}

impl Server {
    const fn leader_info(&self) -> LeaderInfo {
        LeaderInfo {
            server_id: self.id,
            server_addr: self.server_addr,
            forward_addr: self.forward_addr,
        }
    }
}
'''))
r('pd-failover-minby', (P + 'status.rs', '''                let mut leader: Option<&mut Server> = None;
                for s in &mut g.servers {
                    // alive follower
                    if now <= ts + s.latest_heartbeat && s.role == ServerRole::Follower {
                        match leader {
                            Some(l) if s.join_time < l.join_time => leader = Some(s),
                            None => leader = Some(s),
                            _ => (),
                        }
                    }
                }
                if let Some(leader) = leader {
''', '''                let leader = g
                    .servers
                    .iter_mut()
                    // alive follower
                    .filter(|s| now <= ts + s.latest_heartbeat && s.role == ServerRole::Follower)
                    .min_by_key(|s| s.join_time);
                if let Some(leader) = leader {
'''))
r('pd-heartbeat-filter', (P + 'status.rs', '''    let res = status.heartbeat_server(data.group_id, data.server_id)?;
    if data == &res {
        None
    } else {
        Some(res)
    }
''', '''    status
        .heartbeat_server(data.group_id, data.server_id)
        .filter(|res| res != data)
'''))
r('pd-heartbeat-question', (P + 'status.rs', '''        if let Some(g) = self.groups.iter_mut().find(|t| t.id == group_id) {
            if let Some(s) = g.servers.iter_mut().find(|t| t.id == server_id) {
                s.latest_heartbeat = now_timestamp_ms();
                return Some(ServerStatus {
                    server_id: s.id,
                    group_id: g.id,
                    role: s.role,
                    current_leader: g.leader,
                });
            }
        }
        None
''', '''        let now = now_timestamp_ms();
        for g in &mut self.groups {
            if g.id != group_id {
                continue;
            }
            let s = g.servers.iter_mut().find(|t| t.id == server_id)?;
            s.latest_heartbeat = now;
            return Some(ServerStatus {
                server_id,
                group_id,
                role: s.role,
                current_leader: g.leader,
            });
        }
        None
'''))
r('pd-handle-helper', (P + 'connect.rs', '''            let parse = &mut Parse::new(frame)?;
            let res = Self::apply_frame(parse);
            let res = match res {
                Ok(f) => f,
                Err(e) => Frame::OwnedError(e.to_string()),
            };
            let bytes: Vec<u8> = (&res).into();
            self.connection.stream.write_all(&bytes).await?;
''', '''            let bytes = Self::answer(frame)?;
            self.connection.stream.write_all(&bytes).await?;
'''), (P + 'connect.rs', '''    pub fn apply_frame<'a>''', '''    fn answer(frame: Frame<'_>) -> common::Result<Vec<u8>> {
        let parse = &mut Parse::new(frame)?;
        let res = Self::apply_frame(parse).unwrap_or_else(|e| Frame::OwnedError(e.to_string()));
        Ok((&res).into())
    }

    pub fn apply_frame<'a>'''))
# --- connection
r('read-frame-match', (C + 'connection/mod.rs', '''            if let Some((advance, frame)) =
                parse::frame::parse(unsafe { &*std::ptr::addr_of_mut!(self.read_buffer) })?
            {
                self.advance = advance;
                return Ok(Some(frame));
            }

            if 0 == self.stream.read_buf(&mut self.read_buffer).await? {
                return if self.read_buffer.is_empty() {
                    Ok(None)
                } else {
                    Err("connection reset by peer".into())
                };
            }
''', '''            let buffered = unsafe { &*std::ptr::addr_of_mut!(self.read_buffer) };
            match parse::frame::parse(buffered)? {
                Some((len, frame)) => {
                    self.advance = len;
                    return Ok(Some(frame));
                }
                None => (),
            }

            let n = self.stream.read_buf(&mut self.read_buffer).await?;
            match (n, self.read_buffer.is_empty()) {
                (0, true) => return Ok(None),
                (0, false) => return Err("connection reset by peer".into()),
                _ => continue,
            }
'''))
r('read-frame-take', (C + 'connection/mod.rs', '''        let advance = self.advance;
        if advance != 0 {
            self.read_buffer.advance(advance);
            self.advance = 0;
        }
''', '''        let consumed = std::mem::take(&mut self.advance);
        self.read_buffer.advance(consumed);
'''))
r('snapshot-push', (S + 'cmd/syncsnapshot.rs', '''        let slots = if self.slot_id == SLOT_SIZE as usize {
            // 全部slot
            handler
                .db
                .slots
                .iter()
                .map(|t| (t.slot_id, t.share_status.lock()))
                .collect()
        } else if let Some(slot) = handler.db.slots.get(self.slot_id) {
            // 指定的slot
            vec![(self.slot_id, slot.share_status.lock())]
        } else {
            error!("slot not exists: {}", self.slot_id);
            return;
        };
''', '''        let all = &handler.db.slots;
        let wanted = match self.slot_id {
            // 全部slot
            id if id == SLOT_SIZE as usize => &all[..],
            // 指定的slot
            id if id < all.len() => &all[id..=id],
            id => {
                error!("slot not exists: {}", id);
                return;
            }
        };
        let mut slots = Vec::with_capacity(wanted.len());
        for slot in wanted {
            slots.push((slot.slot_id, slot.share_status.lock()));
        }
'''))
r('snapshot-send-fn', (S + 'cmd/syncsnapshot.rs', '''                    for (id, s) in slots {
                        if let Some(s) = &*s {
                            bincode::serialize_into(&mut stream, &Some(id as u16))?;
                            bincode::serialize_into(&mut stream, &s.dict)?;
                        }
                    }
                    let end: Option<u16> = Option::None;
                    bincode::serialize_into(&mut stream, &end)?;
                    Ok(())
''', '''                    for (id, dict) in slots
                        .iter()
                        .filter_map(|(id, s)| s.as_ref().map(|s| (*id as u16, &s.dict)))
                    {
                        bincode::serialize_into(&mut stream, &Some(id))?;
                        bincode::serialize_into(&mut stream, dict)?;
                    }
                    Ok(bincode::serialize_into(&mut stream, &None::<u16>)?)
'''))
r('ttl-round', (S + 'cmd/base/ttl.rs', '''        let response = Frame::Integer(match res {
            dict::cmd::simple::ttl::Resp::None => -1,
            dict::cmd::simple::ttl::Resp::NotExist => -2,
            // round
            #[allow(clippy::cast_possible_wrap)]
            dict::cmd::simple::ttl::Resp::Ttl(i) => ((i + 500) / 1000) as i64,
        });
        Ok(response)
''', '''        use dict::cmd::simple::ttl::Resp;
        if let Resp::Ttl(ms) = res {
            // round
            let seconds = ms / 1000 + u64::from(ms % 1000 >= 500);
            return Ok(Frame::Integer(seconds as i64));
        }
        Ok(Frame::Integer(if matches!(res, Resp::None) { -1 } else { -2 }))
'''))
r('object-first', (S + 'cmd/others/object.rs', '''            return if self.payload.is_empty() {
                Err("freq key not exists".into())
            } else if let Some(u) = db.get_visit_times(dict::cmd::simple::get_visit_times::Req {
                key: self.payload[0],
            })? {
                #[allow(clippy::cast_possible_wrap)]
                Ok(Frame::Integer(u as _))
            } else {
                Err("freq key not exists".into())
            };
''', '''            let key = match self.payload.first() {
                Some(key) => *key,
                None => return Err("freq key not exists".into()),
            };
            let freq = db.get_visit_times(dict::cmd::simple::get_visit_times::Req { key })?;
            return freq
                .map(|u| Frame::Integer(u as i64))
                .ok_or_else(|| "freq key not exists".into());
'''))
r('restore-match3', (S + 'cmd/others/restore.rs', '''        let ttl = if self.absttl {
            self.ttl
        } else if self.ttl > 0 {
            ExpiresAt::deadline(now_timestamp_ms(), self.ttl, 1)?
        } else {
            0
        };
''', '''        let ttl = match (self.absttl, self.ttl) {
            (_, 0) => 0,
            (true, at) => at,
            (false, ttl) => ExpiresAt::deadline(now_timestamp_ms(), ttl, 1)?,
        };
'''))
r('restore-value-first', (D + 'cmd/server/restore.rs', '''        let mut before = 0;
        if let Some(v) = dict.get(self.key) {
            if !self.replace {
                return Err("BUSYKEY Target key name is busy".into());
            }
            before = v.expires_at;
        }
''', '''        let before = match dict.get(self.key) {
            Some(_) if !self.replace => return Err("BUSYKEY Target key name is busy".into()),
            Some(v) => v.expires_at,
            None => 0,
        };
'''))
r('hgetall-loop', (S + 'cmd/hash/hgetall.rs', '''        Ok(Frame::Array(
            v.into_iter()
                .flat_map(|(k, v)| {
                    vec![Frame::OwnedBulk(k.into()), data_type_to_frame(v)].into_iter()
                })
                .collect(),
        ))
''', '''        let mut frames = Vec::with_capacity(v.len() * 2);
        for (field, value) in v {
            frames.push(Frame::OwnedBulk(field.into_vec()));
            frames.push(data_type_to_frame(value));
        }
        Ok(Frame::Array(frames))
'''))
