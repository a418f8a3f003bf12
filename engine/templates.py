"""Command templates: words (lower-case constants, $x = unknown bytes) and their reference call."""
from core import B, bconst
import spec

# id, words, reference (function of a C and a dict of arguments); None = must be refused
T = []


class Tpl:
    def __init__(self, fam, text, ref, upper=False, tags=()):
        self.fam, self.text, self.ref, self.tags = fam, text, ref, tags

    @property
    def words(self):
        return self.text.split()

    @property
    def cmd(self):
        return self.words[0].lower()


def t(fam, text, ref, *tags):
    T.append(Tpl(fam, text, ref, tags=tags))


# ---- strings
t('str', 'get $k', lambda c, a: c.getk(a['k']), 'read')
SETS = [('', {}), ('ex $n', dict(ex='n', unit=1000)), ('px $n', dict(ex='n')),
        ('exat $n', dict(ex='n', unit=1000, at=True)), ('pxat $n', dict(ex='n', at=True)),
        ('keepttl', dict(keepttl=True)), ('nx', dict(nx=True)), ('xx', dict(xx=True)), ('get', dict(get=True)),
        ('EX $n', dict(ex='n', unit=1000)), ('NX', dict(nx=True)), ('Xx GET', dict(xx=True, get=True)),
        ('ex $n nx', dict(ex='n', unit=1000, nx=True)),
        ('px $n xx', dict(ex='n', xx=True)), ('keepttl xx', dict(keepttl=True, xx=True)),
        ('nx get', dict(nx=True, get=True)),
        ('keepttl get', dict(keepttl=True, get=True)),
        ('px $n nx get', dict(ex='n', nx=True, get=True))]


def _set(o):
    def f(c, a):
        kw = dict(o)
        if 'ex' in kw:
            kw['ex'] = a[kw['ex']]
        return c.set(a['k'], a['v'], **kw)
    return f


for _o, _kw in SETS:
    t('str', ('set $k $v ' + _o).strip(), _set(_kw), 'write', *(['cond'] if 'nx' in _kw or 'xx' in _kw else []))
t('str', 'SET $k $v', _set({}), 'write')
t('str', 'setex $k $n $v', lambda c, a: c.set(a['k'], a['v'], ex=a['n'], unit=1000), 'write')
t('str', 'psetex $k $n $v', lambda c, a: c.set(a['k'], a['v'], ex=a['n']), 'write')
t('cnt', 'incr $k', lambda c, a: c.incr(a['k'], 1), 'write')
t('cnt', 'decr $k', lambda c, a: c.incr(a['k'], -1), 'write')
t('cnt', 'incrby $k $n', lambda c, a: c.incr(a['k'], a['n']), 'write')
t('cnt', 'decrby $k $n', lambda c, a: c.incr(a['k'], a['n'], neg=True), 'write')
t('cnt', 'hincrby $k $f $n', lambda c, a: c.hincrby(a['k'], a['f'], a['n']), 'write')

# ---- keys and deadlines
t('key', 'del $k', lambda c, a: c.delete(a['k']), 'write')
t('key', 'del $k $l', lambda c, a: c.delete(a['k'], a['l']), 'write', 'multi')
t('key', 'exists $k', lambda c, a: c.exists(a['k']), 'read')
t('key', 'exists $k $l', lambda c, a: c.exists(a['k'], a['l']), 'read', 'multi')
t('ttl', 'ttl $k', lambda c, a: c.ttl(a['k'], False), 'read')
t('ttl', 'pttl $k', lambda c, a: c.ttl(a['k'], True), 'read')
for _c, _u, _at in (('expire', 1000, False), ('pexpire', 1, False), ('expireat', 1000, True), ('pexpireat', 1, True)):
    for _o in ('', 'nx', 'xx', 'gt', 'lt', 'XX gt', 'xx LT'):
        t('ttl', ('%s $k $n %s' % (_c, _o)).strip(),
          (lambda u, at, o: lambda c, a: c.expire(a['k'], a['n'], u, at, o))(_u, _at, tuple(_o.lower().split())),
          'write', *(['cond'] if _o else []))

# ---- lists
for _c, _l, _x in (('lpush', 1, 0), ('rpush', 0, 0), ('lpushx', 1, 1), ('rpushx', 0, 1)):
    for _n in (1, 2):
        t('list', _c + ' $k $a' + (' $b' if _n == 2 else ''),
          (lambda l, x, n: lambda c, a: c.push(a['k'], [a['a'], a['b']][:n], bool(l), bool(x)))(_l, _x, _n), 'write')
for _c, _l in (('lpop', True), ('rpop', False)):
    t('list', _c + ' $k', (lambda l: lambda c, a: c.pop(a['k'], None, l))(_l), 'write')
    t('list', _c + ' $k $n', (lambda l: lambda c, a: c.pop(a['k'], a['n'], l))(_l), 'write')
t('list', 'llen $k', lambda c, a: c.llen(a['k']), 'read')
t('list', 'lrange $k $n $m', lambda c, a: c.lrange(a['k'], a['n'], a['m']), 'read')

# ---- hashes
t('hash', 'hset $k $f $v', lambda c, a: c.hset(a['k'], [(a['f'], a['v'])]), 'write')
t('hash', 'hset $k $f $v $g $w', lambda c, a: c.hset(a['k'], [(a['f'], a['v']), (a['g'], a['w'])]), 'write')
t('hash', 'hsetnx $k $f $v', lambda c, a: c.hset(a['k'], [(a['f'], a['v'])], nx=True), 'write', 'cond')
t('hash', 'hget $k $f', lambda c, a: c.hget(a['k'], a['f']), 'read')
t('hash', 'hmget $k $f $g', lambda c, a: c.hmget(a['k'], a['f'], a['g']), 'read')
t('hash', 'hgetall $k', lambda c, a: c.hgetall(a['k']), 'read')
t('hash', 'hexists $k $f', lambda c, a: c.hexists(a['k'], a['f']), 'read')
t('hash', 'hdel $k $f', lambda c, a: c.hdel(a['k'], a['f']), 'write')
t('hash', 'hdel $k $f $g', lambda c, a: c.hdel(a['k'], a['f'], a['g']), 'write')

# ---- sets
t('set', 'sadd $k $a', lambda c, a: c.sadd(a['k'], a['a']), 'write')
t('set', 'sadd $k $a $b', lambda c, a: c.sadd(a['k'], a['a'], a['b']), 'write')
t('set', 'srem $k $a', lambda c, a: c.srem(a['k'], a['a']), 'write')
t('set', 'srem $k $a $b', lambda c, a: c.srem(a['k'], a['a'], a['b']), 'write')
t('set', 'sismember $k $a', lambda c, a: c.sismember(a['k'], a['a']), 'read')
t('set', 'smismember $k $a $b', lambda c, a: c.smismember(a['k'], a['a'], a['b']), 'read')
t('set', 'smembers $k', lambda c, a: c.smembers(a['k']), 'read')

# ---- sorted sets
for _o in ('', 'nx', 'xx', 'gt', 'lt', 'ch', 'incr', 'xx gt', 'xx lt', 'gt ch', 'xx ch', 'nx ch', 'lt incr', 'xx incr',
           'NX', 'XX LT CH'):
    t('zset', ('zadd $k %s $s $a' % _o).replace('  ', ' '),
      (lambda o: lambda c, a: c.zadd(a['k'], [(a['s'], a['a'])], o))(tuple(_o.lower().split())), 'write',
      *(['cond'] if set(_o.lower().split()) & {'nx', 'xx', 'gt', 'lt'} else []))
t('zset', 'zadd $k $s $a $t $b', lambda c, a: c.zadd(a['k'], [(a['s'], a['a']), (a['t'], a['b'])]), 'write')
t('zset', 'zadd $k ch $s $a $t $b', lambda c, a: c.zadd(a['k'], [(a['s'], a['a']), (a['t'], a['b'])], ('ch',)), 'write')
t('zset', 'zrem $k $a', lambda c, a: c.zrem(a['k'], a['a']), 'write')
t('zset', 'zrem $k $a $b', lambda c, a: c.zrem(a['k'], a['a'], a['b']), 'write')
t('zset', 'zrank $k $a', lambda c, a: c.zrank(a['k'], a['a']), 'read')
t('zset', 'zrevrank $k $a', lambda c, a: c.zrank(a['k'], a['a'], True), 'read')
t('zrng', 'zrange $k $n $m', lambda c, a: c.zrange_rank(a['k'], a['n'], a['m']), 'read')
t('zrng', 'zrange $k $n $m withscores', lambda c, a: c.zrange_rank(a['k'], a['n'], a['m'], ws=True), 'read')
t('zrng', 'zrange $k $n $m rev', lambda c, a: c.zrange_rank(a['k'], a['n'], a['m'], rev=True), 'read')
t('zrng', 'zrevrange $k $n $m', lambda c, a: c.zrange_rank(a['k'], a['n'], a['m'], rev=True), 'read')
t('zrng', 'zrevrange $k $n $m withscores', lambda c, a: c.zrange_rank(a['k'], a['n'], a['m'], rev=True, ws=True), 'read')
L = ('o', 'c')


def _zs(rev, ws, lim):
    lo, hi = bconst(b'-inf'), bconst(b'+inf')
    if rev:
        lo, hi = hi, lo
    return lambda c, a: c.zrange_score(a['k'], a.get('n', lo), a.get('m', hi), rev, ws,
                                       (a['o'], a['c']) if lim else None)


def _zl(rev, lim):
    lo, hi = bconst(b'-'), bconst(b'+')
    if rev:
        lo, hi = hi, lo
    return lambda c, a: c.zrange_lex(a['k'], a.get('n', lo), a.get('m', hi), rev, (a['o'], a['c']) if lim else None)


t('zrng', 'zrange $k $n $m byscore', _zs(False, False, False), 'read')
t('zrng', 'zrange $k $n $m byscore rev', _zs(True, False, False), 'read')
t('zrng', 'zrange $k -inf +inf byscore limit $o $c', _zs(False, False, True), 'read')
t('zrng', 'zrange $k +inf -inf BYSCORE rev limit $o $c withscores', _zs(True, True, True), 'read')
t('zrng', 'zrange $k $n $m bylex', _zl(False, False), 'read')
t('zrng', 'zrange $k $n $m bylex rev', _zl(True, False), 'read')
t('zrng', 'zrange $k - + bylex limit $o $c', _zl(False, True), 'read')
t('zrng', 'zrangebyscore $k $n $m', _zs(False, False, False), 'read')
t('zrng', 'zrangebyscore $k $n $m withscores', _zs(False, True, False), 'read')
t('zrng', 'zrangebyscore $k -inf +inf limit $o $c', _zs(False, False, True), 'read')
t('zrng', 'zrevrangebyscore $k $n $m', _zs(True, False, False), 'read')
t('zrng', 'zrevrangebyscore $k $n $m withscores', _zs(True, True, False), 'read')
t('zrng', 'zrevrangebyscore $k +inf -inf limit $o $c', _zs(True, False, True), 'read')
t('zrng', 'zrangebylex $k $n $m', _zl(False, False), 'read')
t('zrng', 'zrangebylex $k - + limit $o $c', _zl(False, True), 'read')
t('zrng', 'zrevrangebylex $k $n $m', _zl(True, False), 'read')
t('zrem', 'zremrangebyrank $k $n $m', lambda c, a: c.zremrangebyrank(a['k'], a['n'], a['m']), 'write')
t('zrem', 'zremrangebyscore $k $n $m', lambda c, a: c.zremrangebyscore(a['k'], a['n'], a['m']), 'write')
t('zrem', 'zremrangebylex $k $n $m', lambda c, a: c.zremrangebylex(a['k'], a['n'], a['m']), 'write')

# ---- three members, limits on real ranges
t('hash', 'hdel $k $f $g $h', lambda c, a: c.hdel(a['k'], a['f'], a['g'], a['h']), 'write')
t('set', 'srem $k $a $b $d', lambda c, a: c.srem(a['k'], a['a'], a['b'], a['d']), 'write')
t('set', 'sadd $k $a $b $d', lambda c, a: c.sadd(a['k'], a['a'], a['b'], a['d']), 'write')
t('zset', 'zrem $k $a $b $d', lambda c, a: c.zrem(a['k'], a['a'], a['b'], a['d']), 'write')
t('hash', 'hmget $k $f $g $h', lambda c, a: c.hmget(a['k'], a['f'], a['g'], a['h']), 'read')
t('set', 'smismember $k $a $b $d', lambda c, a: c.smismember(a['k'], a['a'], a['b'], a['d']), 'read')
for _w, _rev, _r in (('zrangebyscore', False, ('$n', '+inf')), ('zrevrangebyscore', True, ('$n', '-inf')),
                     ('zrangebyscore', False, ('-inf', '$m')), ('zrevrangebyscore', True, ('+inf', '$m'))):
    t('zrng', '%s $k %s %s limit 1 1' % ((_w,) + _r),
      (lambda rev, r: lambda c, a: c.zrange_score(a['k'], *[a[x[1:]] if x[0] == '$' else bconst(x.encode()) for x in r], rev, False,
                                                  (bconst(b'1'), bconst(b'1'))))(_rev, _r), 'read')

for _o in ('limit 1 1', 'limit $o $c'):
    for _w, _rev in (('zrangebyscore $k $n $m ', False), ('zrevrangebyscore $k $n $m ', True), ('zrange $k $n $m byscore ', False),
                     ('zrange $k $n $m byscore rev ', True)):
        t('zrng', _w + _o, (lambda rev, w: lambda c, a: c.zrange_score(
            a['k'], a['n'], a['m'], rev, False, (a['o'], a['c']) if '$' in w else (bconst(b'1'), bconst(b'1'))))(_rev, _o), 'read',
          *(['deep'] if '$' in _o else []))
    for _w, _rev in (('zrangebylex $k $n $m ', False), ('zrevrangebylex $k $n $m ', True), ('zrange $k $n $m bylex ', False),
                     ('zrange $k $n $m bylex rev ', True)):
        t('zrng', _w + _o, (lambda rev, w: lambda c, a: c.zrange_lex(
            a['k'], a['n'], a['m'], rev, (a['o'], a['c']) if '$' in w else (bconst(b'1'), bconst(b'1'))))(_rev, _o), 'read',
          *(['deep'] if '$' in _o else []))
for _c, _l, _x in (('lpush', 1, 0), ('rpush', 0, 0), ('lpushx', 1, 1), ('rpushx', 0, 1)):
    t('list', _c + ' $k $a $b $d',
      (lambda l, x: lambda c, a: c.push(a['k'], [a['a'], a['b'], a['d']], bool(l), bool(x)))(_l, _x), 'write')
t('hash', 'hset $k $f $v $g $w $h $x', lambda c, a: c.hset(a['k'], [(a['f'], a['v']), (a['g'], a['w']), (a['h'], a['x'])]), 'write')
for _o in ('', 'nx ', 'xx ', 'gt ', 'lt ', 'xx gt ', 'nx ch ', 'gt ch '):
    t('zset', 'zadd $k %s$s $a $t $b $u $d' % _o,
      (lambda o: lambda c, a: c.zadd(a['k'], [(a['s'], a['a']), (a['t'], a['b']), (a['u'], a['d'])], o))(tuple(_o.split())),
      'write', 'deep')
for _o in ('nx ', 'xx ', 'gt ', 'lt ', 'xx gt ', 'nx ch ', 'gt ch '):
    t('zset', 'zadd $k %s$s $a $t $b' % _o,
      (lambda o: lambda c, a: c.zadd(a['k'], [(a['s'], a['a']), (a['t'], a['b'])], o))(tuple(_o.split())), 'write', 'cond')
t('key', 'del $k $l $m', lambda c, a: c.delete(a['k'], a['l'], a['m']), 'write', 'multi')
t('key', 'exists $k $l $m', lambda c, a: c.exists(a['k'], a['l'], a['m']), 'read', 'multi')

# ---- administration
t('adm', 'dump $k', lambda c, a: c.dump(a['k']), 'read')
for _o, _kw in (('', {}), ('replace', dict(replace=True)), ('absttl', dict(abs=True)), ('REPLACE ABSTTL', dict(replace=True, abs=True)),
                ('idletime $i', dict(idle='i')), ('freq $q replace', dict(freq='q', replace=True))):
    t('adm', ('restore $k $n $v ' + _o).strip(),
      (lambda kw: lambda c, a: c.restore(a['k'], a['n'], a['v'], **{k: a[v] if type(v) is str else v for k, v in kw.items()}))(_kw),
      'write', 'resync')
t('adm', 'object idletime $k', lambda c, a: c.must_exist(a['k'], spec.NUM), 'read')
t('adm', 'object FREQ $k', lambda c, a: c.must_exist(a['k'], spec.NUM), 'read')
t('adm', 'object $s $k', lambda c, a: spec.unspec(), 'read')
t('adm', 'debug object $k', lambda c, a: c.must_exist(a['k'], spec.ANY), 'read')
t('adm', 'debug $s $x', lambda c, a: spec.unspec(), 'read')
t('adm', 'config $s $x', lambda c, a: spec.ANY, 'read')
t('adm', 'info', lambda c, a: spec.ANY, 'read')

# ---- refused: wrong number of arguments, unknown options
BAD = '''get
get $k $x
set $k
set
set $k $v ex
set $k $v $x
setex $k $n
psetex $k $n
incr
incr $k $x
incrby $k
decrby $k
hincrby $k $f
del
exists
ttl
ttl $k $x
expire $k
expire $k $n $x
pexpireat $k
lpush $k
rpush
lpushx $k
llen
llen $k $x
lrange $k $n
lrange $k $n $m $x
lpop
lpop $k $n $x
hset $k
hset $k $f
hset $k $f $v $g
hsetnx $k $f
hget $k
hget $k $f $x
hmget $k
hexists $k
hdel $k
sadd $k
srem $k
sismember $k
smismember $k
smembers
smembers $k $x
zadd $k
zadd $k $s
zadd $k nx
zadd $k nx gt $s $a
zadd $k incr $s $a $t $b
zrem $k
zrank $k
zrange $k $n
zrange $k $n $m byscore limit $o
zrange $k $n $m $x
zrangebyscore $k $n
zrangebyscore $k $n $m $x
zremrangebyrank $k $n
zremrangebyscore $k $n
zremrangebylex $k $n
dump
dump $k $x
restore $k $n
restore $k $n $v $x
restore $k $n $v freq
object
debug
debug object
config $s'''.split('\n')
for _b in BAD:
    t('bad', _b, None, 'bad')
IDX = {x.text: x for x in T}
assert len(IDX) == len(T)
