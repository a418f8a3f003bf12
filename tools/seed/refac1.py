"""behaviour-preserving edits: every check has to stay quiet on them (run with quiet.py)"""
R = []
WT = '"WRONGTYPE Operation against a key holding the wrong kind of value"'


def r(id, *edits):
    R.append((id, edits))


D = 'component/dict/src/cmd/'
r('del-match', (D + 'simple/del.rs', '''        let res = dict.remove(&self.key).map_or(
            ExpiresOpResp {
                payload: None,
                expires_status: ExpiresStatus::None,
            },
            |v| {
                let expires_status = if v.expires_at > 0 {
                    ExpiresStatus::Update(ExpiresStatusUpdate {
                        key: self.key,
                        before: v.expires_at,
                        new: 0,
                    })
                } else {
                    ExpiresStatus::None
                };

                let alive = v.expires_at == 0 || v.expires_at > now_timestamp_ms();
                ExpiresOpResp {
                    payload: Some(v).filter(|_| alive),
                    expires_status,
                }
            },
        );
        Ok(res)''', '''        let v = match dict.remove(&self.key) {
            Some(v) => v,
            None => {
                return Ok(ExpiresOpResp {
                    payload: None,
                    expires_status: ExpiresStatus::None,
                })
            }
        };
        let before = v.expires_at;
        let payload = if before == 0 || now_timestamp_ms() < before {
            Some(v)
        } else {
            None
        };
        let expires_status = if before == 0 {
            ExpiresStatus::None
        } else {
            ExpiresStatus::Update(ExpiresStatusUpdate {
                key: self.key,
                before,
                new: 0,
            })
        };
        Ok(ExpiresOpResp {
            payload,
            expires_status,
        })'''))
r('incr-match', (D + 'simple/incr.rs', '''            let old: i64 = (&v.data).try_into()?;
            let new = old
                .checked_add(self.value)
                .ok_or("ERR increment or decrement would overflow")?;
            v.data''', '''            let old = i64::try_from(&v.data)?;
            let new = match old.overflowing_add(self.value) {
                (n, false) => n,
                (_, true) => return Err("ERR increment or decrement would overflow".into()),
            };
            v.data'''))
r('get-map', (D + 'simple/get.rs', '''        if let Some(v) = dict.get(self.key) {
            return Ok(v.data.clone());
        }
        Ok(DataType::Null)''', '''        let data = dict.get(self.key).map(|v| v.data.clone());
        Ok(data.unwrap_or(DataType::Null))'''))
r('kvp-del-count', (D + 'kvp/del.rs', '''                let old_len = kvp.len();
                for f in self.fields {
                    kvp.remove(&f);
                }
                let new_len = kvp.len();
                if new_len == 0 {''', '''                let old_len = kvp.len();
                let removed = self
                    .fields
                    .iter()
                    .filter(|&f| kvp.remove(f).is_some())
                    .count();
                let new_len = old_len - removed;
                if kvp.is_empty() {'''))
r('kvp-set-loop', (D + 'kvp/set.rs', '''            match self.nx_xx {
                NxXx::Nx => {
                    for (k, v) in self.entries {
                        kvp.entry(k).or_insert(v);
                    }
                }
                NxXx::Xx => {
                    for (k, v) in self.entries {
                        if let Some(old_v) = kvp.get_mut(&k) {
                            *old_v = v;
                        }
                    }
                }
                NxXx::None => {
                    for (k, v) in self.entries {
                        kvp.insert(k, v);
                    }
                }
            }''', '''            for (k, v) in self.entries {
                let write = match self.nx_xx {
                    NxXx::Nx => !kvp.contains_key(&k),
                    NxXx::Xx => kvp.contains_key(&k),
                    NxXx::None => true,
                };
                if write {
                    kvp.insert(k, v);
                }
            }'''))
r('kvp-get-loop', (D + 'kvp/get.rs', '''                Ok(self
                    .fields
                    .into_iter()
                    .map(|field| kvp.get(field).cloned().unwrap_or(DataType::Null))
                    .collect())''', '''                let mut res = Vec::with_capacity(self.fields.len());
                for field in self.fields {
                    res.push(match kvp.get(field) {
                        Some(v) => v.clone(),
                        None => DataType::Null,
                    });
                }
                Ok(res)'''))
r('kvp-incr-entry', (D + 'kvp/incr.rs', '''                if let Some(s) = kvp.get_mut(&self.field) {
                    let old: i64 = (&*s).try_into()?;
                    let new = old
                        .checked_add(self.value)
                        .ok_or("ERR increment or decrement would overflow")?;
                    *s = DataType::Integer(new);
                    Ok(new)
                } else {
                    kvp.insert(self.field, DataType::Integer(self.value));
                    Ok(self.value)
                }''', '''                let new = match kvp.get(&self.field) {
                    Some(s) => {
                        let old: i64 = s.try_into()?;
                        match old.checked_add(self.value) {
                            Some(new) => new,
                            None => return Err("ERR increment or decrement would overflow".into()),
                        }
                    }
                    None => self.value,
                };
                kvp.insert(self.field, DataType::Integer(new));
                Ok(new)'''))
r('set-remove-retain', (D + 'set/remove.rs', '''                for ref m in self.members {
                    set.remove(m);
                }
                let new_len''', '''                self.members.iter().for_each(|m| {
                    set.remove(m);
                });
                let new_len'''))
r('set-exists-loop', (D + 'set/exists.rs', '''                Ok(self
                    .fields
                    .into_iter()
                    .map(|field| set.contains(field))
                    .collect())''', '''                let mut found = vec![false; self.fields.len()];
                for (i, field) in self.fields.iter().enumerate() {
                    if set.contains(*field) {
                        found[i] = true;
                    }
                }
                Ok(found)'''))
r('rank-position', (D + 'sorted_set/rank.rs', '''                    let mut ans = 0;
                    if self.rev {
                        for n in sorted_set.value.iter().rev() {
                            ans += 1;
                            if &*n.key == self.member {
                                return Ok(Some(ans - 1));
                            }
                        }
                    } else {
                        for n in &sorted_set.value {
                            ans += 1;
                            if &*n.key == self.member {
                                return Ok(Some(ans - 1));
                            }
                        }
                    }''', '''                    let member = self.member;
                    return Ok(if self.rev {
                        sorted_set.value.iter().rev().position(|n| &*n.key == member)
                    } else {
                        sorted_set.value.iter().position(|n| &*n.key == member)
                    });'''))
r('zrem-loop', (D + 'sorted_set/remove.rs', '''                for ref m in self.members {
                    if let Some(ref on) = sorted_set.hash.remove(m) {
                        sorted_set.value.remove(on);
                    }
                }
                let new_len = sorted_set.hash.len();''', '''                let mut new_len = old_len;
                for m in &self.members {
                    let node = match sorted_set.hash.remove(m) {
                        Some(node) => node,
                        None => continue,
                    };
                    sorted_set.value.remove(&node);
                    new_len -= 1;
                }'''))
r('range-by-rank-range', (D + 'sorted_set/range_by_rank.rs', '''                let range = start..stop;
                let res = if self.rev {
                    value
                        .iter()
                        .rev()
                        .enumerate()
                        .filter(|(index, _)| range.contains(index))
                        .skip(offset)
                        .take(count)
                        .map(|(_, node)| node.clone())
                        .collect()
                } else {
                    value
                        .iter()
                        .enumerate()
                        .filter(|(index, _)| range.contains(index))
                        .skip(offset)
                        .take(count)
                        .map(|(_, node)| node.clone())
                        .collect()
                };''', '''                let n = stop - start;
                let res: Vec<_> = if self.rev {
                    value.iter().rev().skip(start).take(n).skip(offset).take(count).cloned().collect()
                } else {
                    value.iter().skip(start).take(n).skip(offset).take(count).cloned().collect()
                };'''))
r('range-by-score-helper', (D + 'sorted_set/range_by_score.rs', '''                let iter = value.range(bigger_range);
                let res = if self.rev {
                    iter.rev()
                        .filter(|t| self.range.contains(&t.score))
                        .skip(offset)
                        .take(count)
                        .cloned()
                        .collect()
                } else {
                    iter.filter(|t| self.range.contains(&t.score))
                        .skip(offset)
                        .take(count)
                        .cloned()
                        .collect()
                };
                Ok(res)''', '''                let matching = value
                    .range(bigger_range)
                    .filter(|t| self.range.contains(&t.score));
                Ok(if self.rev {
                    page(matching.rev(), offset, count)
                } else {
                    page(matching, offset, count)
                })'''),
  (D + 'sorted_set/range_by_score.rs', '''impl<D: Dict> Read<''', '''fn page<'n>(
    nodes: impl Iterator<Item = &'n data_type::sorted_set::Node>,
    offset: usize,
    count: usize,
) -> Vec<data_type::sorted_set::Node> {
    nodes.skip(offset).take(count).cloned().collect()
}

impl<D: Dict> Read<'''))
r('remove-by-rank-collect', (D + 'sorted_set/remove_by_rank_range.rs', '''                    for (i, n) in sorted_set.value.clone().iter().enumerate() {
                        if i < start {
                            continue;
                        }
                        if i >= stop {
                            break;
                        }
                        sorted_set.value.remove(n);
                        if let Some(n) = sorted_set.hash.remove(&n.key) {
                            res.push(n);
                        }
                    }''', '''                    let nodes: Vec<Node> = sorted_set
                        .value
                        .iter()
                        .skip(start)
                        .take(stop - start)
                        .cloned()
                        .collect();
                    for n in nodes {
                        sorted_set.hash.remove(&n.key);
                        sorted_set.value.remove(&n);
                        res.push(n);
                    }'''))
r('remove-by-score-filter', (D + 'sorted_set/remove_by_score_range.rs', '''                    for n in iter {
                        if self.range.contains(&n.score) {
                            sorted_set.value.remove(n);
                            if let Some(n) = sorted_set.hash.remove(&n.key) {
                                res.push(n);
                            }
                        }
                    }''', '''                    for n in iter.filter(|n| self.range.contains(&n.score)) {
                        sorted_set.hash.remove(&n.key);
                        sorted_set.value.remove(n);
                        res.push(n.clone());
                    }'''))
r('zadd-entry', (D + 'sorted_set/add.rs', '''                    if let Some(on) = sorted_set.hash.insert(node.key.clone(), node.clone()) {
                        sorted_set.value.remove(&on);
                    }
                    sorted_set.value.insert(node);''', '''                    sorted_set.value.insert(node.clone());
                    let old = sorted_set.hash.insert(node.key.clone(), node.clone());
                    match old {
                        Some(on) if on != node => {
                            sorted_set.value.remove(&on);
                        }
                        _ => {}
                    }'''))
r('pop-loop', (D + 'deque/pop.rs', '''                let res = if self.left {
                    deque.drain(..count).collect()
                } else {
                    let len = deque.len();
                    deque.drain(len - count..).rev().collect()
                };''', '''                let mut res = Vec::with_capacity(count);
                for _ in 0..count {
                    let e = if self.left {
                        deque.pop_front()
                    } else {
                        deque.pop_back()
                    };
                    if let Some(e) = e {
                        res.push(e);
                    }
                }'''))
r('push-helper', (D + 'deque/push.rs', '''                if self.left {
                    for e in self.elements {
                        deque.push_front(e);
                    }
                } else {
                    for e in self.elements {
                        deque.push_back(e);
                    }
                }
                let new_len = deque.len();
                Ok(Resp { old_len, new_len })''', '''                push_all(deque, self.elements, self.left);
                Ok(Resp {
                    old_len,
                    new_len: deque.len(),
                })'''), (D + 'deque/push.rs', '''            if self.left {
                for e in self.elements {
                    deque.push_front(e);
                }
            } else {
                for e in self.elements {
                    deque.push_back(e);
                }
            }
            let new_len''', '''            push_all(&mut deque, self.elements, self.left);
            let new_len'''), (D + 'deque/push.rs', '''impl<D: Dict> Write<Resp, D>''', '''fn push_all(deque: &mut Deque, elements: Vec<DataType>, left: bool) {
    for e in elements {
        if left {
            deque.push_front(e);
        } else {
            deque.push_back(e);
        }
    }
}

impl<D: Dict> Write<Resp, D>'''))
r('range-skip', (D + 'deque/range.rs', '''                Ok(deque.range(b..e).cloned().collect())''', '''                Ok(deque.iter().skip(b).take(e - b).cloned().collect())'''))
r('expire-if', (D + 'simple/expire.rs', '''                let update = match (self.nx_xx, self.gt_lt) {
                    (NxXx::None, GtLt::None) => true,
                    (NxXx::Nx, GtLt::None) if v.expires_at == 0 => true,
                    (NxXx::Xx | NxXx::None, GtLt::Gt)
                        if v.expires_at != 0 && v.expires_at < self.expires_at =>
                    {
                        true
                    }
                    (NxXx::Xx | NxXx::None, GtLt::Lt)
                        if v.expires_at == 0 || v.expires_at > self.expires_at =>
                    {
                        true
                    }
                    (NxXx::Xx, GtLt::None) if v.expires_at > 0 => true,
                    _ => false,
                };
                if update {''', '''                let old = v.expires_at;
                let new = self.expires_at;
                let update = match self.gt_lt {
                    GtLt::None => match self.nx_xx {
                        NxXx::None => true,
                        NxXx::Nx => old == 0,
                        NxXx::Xx => old != 0,
                    },
                    _ if matches!(self.nx_xx, NxXx::Nx) => false,
                    GtLt::Gt => old > 0 && new > old,
                    GtLt::Lt => old == 0 || new < old,
                };
                if update {'''))
r('ttl-match', (D + 'simple/ttl.rs', '''        let now = now_timestamp_ms();
        let res = dict
            .raw_get(self.key)
            .map(|v| v.expires_at)
            .filter(|&expires_at| expires_at == 0 || expires_at > now)
            .map_or(Resp::NotExist, |expires_at| {
                if expires_at == 0 {
                    Resp::None
                } else {
                    Resp::Ttl(expires_at - now)
                }
            });
        Ok(res)''', '''        let expires_at = match dict.raw_get(self.key) {
            Some(v) => v.expires_at,
            None => return Ok(Resp::NotExist),
        };
        if expires_at == 0 {
            return Ok(Resp::None);
        }
        Ok(match expires_at.checked_sub(now_timestamp_ms()) {
            None | Some(0) => Resp::NotExist,
            Some(left) => Resp::Ttl(left),
        })'''))
r('set-restructure', (D + 'simple/set.rs', '''        if let (NxXx::None, ExpiresAt::Specific(expires_at)) = (self.nx_xx, self.expires_at) {
            let (old, expires_status) = if expires_at > 0 {
                let old = dict.insert(
                    self.key.clone(),
                    Value {
                        data: self.value,
                        expires_at,
                        visit_log: Value::new_visit_log(),
                    },
                );
                (
                    old,
                    ExpiresStatus::Update(ExpiresStatusUpdate {
                        key: self.key,
                        before: 0,
                        new: expires_at,
                    }),
                )
            } else {
                let old = dict.insert(
                    self.key,
                    Value {
                        data: self.value,
                        expires_at,
                        visit_log: Value::new_visit_log(),
                    },
                );
                (old, ExpiresStatus::None)
            };''', '''        if let (NxXx::None, ExpiresAt::Specific(expires_at)) = (self.nx_xx, self.expires_at) {
            let value = Value {
                data: self.value,
                expires_at,
                visit_log: Value::new_visit_log(),
            };
            let old = dict.insert(self.key.clone(), value);
            let expires_status = match expires_at {
                0 => ExpiresStatus::None,
                new => ExpiresStatus::Update(ExpiresStatusUpdate {
                    key: self.key,
                    before: 0,
                    new,
                }),
            };'''))
r('restore-match', (D + 'server/restore.rs', '''        let mut before = 0;
        if let Some(v) = dict.get(self.key) {
            if !self.replace {
                return Err("BUSYKEY Target key name is busy".into());
            }
            before = v.expires_at;
        }
''', '''        let before = match dict.get(self.key) {
            Some(_) if !self.replace => return Err("BUSYKEY Target key name is busy".into()),
            Some(v) => v.expires_at,
            None => 0,
        };
'''))
