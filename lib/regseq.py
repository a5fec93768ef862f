"""Registries: operations generated from Registry, recorded histories checked by RegistryTrace."""
import random, threading, time
import zlib
from vlib import *

CONST = ''' Gs <- cGs
 Keep = 7
 Sizes <- cSizes
 Tags <- cTags
 MaxOps = %d
 MaxTime = %d
 Walk <- cWalk
'''
SIZES = {1: 4096, 2: 8192, 3: 12288}
SMALL = {1: 100, 2: 200, 3: 300}
UNIT = 800      # ms; 7 units exceed the retention of 5 s, 6 do not


def mc(walk, gs=('g',), sizes=(1, 2), tags=('', 's')):
    return '\n'.join(['cGs == ' + tla(set(gs)), 'cSizes == ' + tla(set(sizes)), 'cTags == ' + tla(set(tags)),
                      'cWalk(X) == ' + ('IF X = {} THEN {} ELSE {RandomElement(X)}' if walk else 'X')])


def model(chk, name, n, time=9, **kw):
    r = tlc('Registry', 'INIT GInit\nNEXT GNext\nCONSTANTS\n' + CONST % (n, time) + 'INVARIANTS Alone OneRegistry Tracked\nCHECK_DEADLOCK FALSE\n',
            mc(False, **kw), heap='6g')
    chk.model(name, r)


def walks(chk, name, num, n, procs=4, seed=None, **kw):
    out = [None] * procs
    seed = SEED if seed is None else seed
    cfg = 'SPECIFICATION Spec\nCONSTANTS\n' + CONST % (n, 400) + 'INVARIANTS Alone OneRegistry Tracked\nCHECK_DEADLOCK FALSE\n'

    def one(_, i):
        out[i] = tlc('RegistryGen', cfg, mc(True, **kw), workers=1, simulate=(num + procs - 1) // procs, depth=n + 3,
                     seed=seed * 1000 + i, heap='1g')
    parallel(range(procs), one, lanes=procs)
    res = []
    for i, r in enumerate(out):
        chk.model('%s.%d' % (name, i), r)
        res += r.lines
    for ops in res:
        for o in ops:
            if o['op'] == 'done':
                o['op'] = {True: 'alloc'}.get('size' in o, 'adv' if 't' in o else 'maintain')
    return res


class Exec:
    """one process with registries, another one to send regions to"""
    def __init__(self, cmd, other=None, ty='A'):
        """cmd, other: (command, environment) of the two"""
        cmd = cmd if isinstance(cmd, tuple) else (cmd, None)
        self.a, self.b = Agent(*cmd), Agent(*(other or cmd))
        self.n, self.ty = 0, ty
        i = ident('r')
        for ag, e in ((self.a, 'p'), (self.b, 'q')):
            r = ag.do('join', e=e, t='t', ident=i, label=[e], types=ty, timeout=5000)
            if not r.get('ok'):
                raise Mismatch('join fails: %s' % r)

    def run(self, ops, factor=1, sizes=SIZES):
        """factor varies the concrete sizes"""
        self.n += 1
        p = 'T%d.' % self.n
        # '' stands for no tag; the empty one is a tag like others
        tags = ({'s': 's', 'st': 'st'}, {'s': '', 'st': 's'}, {'s': 'S' * 300, 'st': ''}, {'s': 'ü', 'st': 'u'})[zlib.crc32(json.dumps(ops).encode()) % 4]
        ids, tr, t0 = {}, [], time.time()
        where, posted = {}, []
        ups = set()
        a = self.a
        for o in list(ops):
            for g in [o['g']] if 'g' in o else []:
                if g not in ups:
                    a.do('gnew', t='t', g=p + g)
                    ups.add(g)
        obs = []
        for o in ops:
            ev = dict(o)
            op = o['op']
            r = {}
            if op == 'alloc':
                r = a.do('galloc', t='t', g=p + o['g'], size=sizes[o['size']] * factor, name=p + str(o['x']),
                         **({'tag': tags[o['tag']]} if o['tag'] else {}), **({'cb': o['cb']} if o['cb'] else {}))
                if 'none' in r:
                    ev.update(r=0, rsize=0, ref=0)
                else:
                    if r['ino'] not in ids:
                        ids[r['ino']] = len(ids) + 1
                        a.do('robj', t='t', name=p + str(o['x']), **{'as': p + 'obs%d' % ids[r['ino']]})
                    ev.update(r=ids[r['ino']], rsize=r['size'], ref=r['ref'], size=sizes[o['size']] * factor)
                where[o['x']] = a
            elif op == 'clone':
                ag = where[o['x']]
                r = ag.do('rclone', t='t', name=p + str(o['x']), **{'as': p + str(o['as'])})
                where[o['as']] = ag
            elif op == 'drop':
                r = where[o['x']].do('rdrop', t='t', name=p + str(o['x']))
            elif op == 'post':
                ag = where[o['x']]
                q = 'p' if ag is a else 'q'
                other = 'q' if ag is a else 'p'
                r = ag.do('send', e=q, t='t', sel=['l', other], mode='u', ty=self.ty, id=o['as'], regs=['=' + p + str(o['x'])])
                where[o['as']] = self.b if ag is a else a
                posted.append((o['as'], other))
            elif op == 'take':
                ag = where[o['as']]
                r = ag.do('recv', e='p' if ag is a else 'q', t='t', timeout=10000, keep=p + 'm')
                if 'msg' not in r:
                    raise Mismatch('a region sent to another process does not arrive: %s' % r)
                ag.do('rename', t='t', pairs=[[p + 'm.r0', p + str(r['msg']['id'])]])
                posted = [x for x in posted if x[0] != r['msg']['id']]
            elif op == 'adv':
                a.do('adv', ms=o['t'] * UNIT)
            elif op == 'maintain':
                r = a.do('gmaintain', t='t', g=p + o['g'])
            elif op == 'gdrop':
                r = a.do('gdrop', t='t', g=p + o['g'])
            ev['f'] = r.get('fired', [])
            tr.append(ev)
        took = time.time() - t0
        # take what is still on the way, then look at the counts
        for x, e in posted:
            ag = where[x]
            r = ag.do('recv', e=e, t='t', timeout=10000, keep=p + 'm')
            if 'msg' not in r:
                raise Mismatch('a region sent to another process does not arrive: %s' % r)
            ag.do('rename', t='t', pairs=[[p + 'm.r0', p + str(r['msg']['id'])]])
        k = sorted(ids.values())
        refs = a.do('rpeek', t='t', names=[p + 'obs%d' % r for r in k])['refs'] if k else []
        tr.append(dict(op='end', refs=[[x, y] for x, y in zip(k, refs) if y is not None], f=[]))
        for ag in (a, self.b):
            ag.do('forget', t='t', prefix=p)
        for g in ups:
            a.do('gdrop', t='t', g=p + g)
        return tr, took

    def close(self):
        self.a.close()
        self.b.close()


def check_traces(chk, name, traces, gs):
    """TLC over recorded histories: [(index, why, event)], [(index, finding)]"""
    r = tlc('RegistryTrace', 'SPECIFICATION TSpec\nCONSTANTS\n' + CONST % (1, 1) + ' File = "tr.json"\nCHECK_DEADLOCK FALSE\n',
            mc(False, gs=gs), files={'tr.json': json.dumps(traces)})
    chk.model(name, r)
    bad = [(l['t'] - 1, l['why'], l['i']) for l in r.lines if 'why' in l]
    fin = [(l['t'] - 1, l['finding'], l['i']) for l in r.lines if 'finding' in l]
    acc = sum(1 for l in r.lines if 'accepted' in l)
    if acc + len(bad) != len(traces):
        raise ToolError('RegistryTrace judged %d of %d histories\n%s' % (acc + len(bad), len(traces), r.log()))
    return bad, fin


def drive(chk, cmd, ops_list, lanes=8, mk=Exec):
    """executes; slow ones (the real clock would matter) are left out"""
    pool, res, lock = {}, [], threading.Lock()

    def one(li, x):
        i, ops = x
        ex = pool.get(li)
        if ex is None:
            ex = pool[li] = mk(cmd)
        try:
            # in the C interface the last bytes of a region are its identity
            tiny = {1: 16, 2: 32, 3: 48} if ex.ty == 'Y' else {1: 1, 2: 2, 3: 3}
            tr, took = ex.run(ops, *((1, SIZES), (3, SIZES), (1000, SIZES), (1, SMALL), (1, tiny))[zlib.crc32(json.dumps(ops).encode()) // 4 % 5])
        except Mismatch as m:
            m.data = dict(ops=ops)
            raise
        with lock:
            if took < 0.15:
                res.append((ops, tr))
            else:
                chk.count('too_slow')
        if ex.n >= 60:
            ex.close()
            pool.pop(li)
    try:
        parallel(enumerate(ops_list), one, lanes=lanes)
    finally:
        for e in pool.values():
            e.close()
    return res


def large(rnd, n):
    """a history with many regions: dozens in use at once"""
    ops, held, x, c, gone = [], [], 0, 0, set()
    tags = ('', 's', 'st')[:rnd.randint(1, 3)]
    while len(ops) < n:
        k = rnd.random()
        g = rnd.choice([g for g in 'gk' if g not in gone])
        if k < 0.12:
            for _ in range(rnd.choice((1, 5, 25))):
                x, c = x + 1, c + 1
                ops.append(dict(op='alloc', g=g, size=rnd.choice((1, 1, 2, 3)), tag=rnd.choice(tags), cb=c if rnd.random() < 0.6 else 0, x=x))
                held.append(x)
        elif k < 0.17 and held:
            y = rnd.choice(held)
            for _ in range(rnd.choice((1, 2, 60))):
                x += 1
                ops.append(dict(op='clone', x=y, **{'as': x}))
                held.append(x)
        elif k < 0.32 and held:
            # in the order of their allocation, backwards, or at random
            how, m = rnd.choice('fbr'), rnd.choice((1, 3, 30))
            for _ in range(min(m, len(held))):
                ops.append(dict(op='drop', x=held.pop(0 if how == 'f' else -1 if how == 'b' else rnd.randrange(len(held)))))
        elif k < 0.36 and held:
            x += 1
            ops += [dict(op='post', x=rnd.choice(held), **{'as': x}), dict(op='take', **{'as': x})]
            held.append(x)
        elif k < 0.40:
            ops.append(dict(op='adv', t=rnd.choice((1, 2, 4, 7))))
        elif k < 0.46:
            ops.append(dict(op='maintain', g=g))
        elif k < 0.463 and not gone:
            ops.append(dict(op='gdrop', g=g))
            gone.add(g)
    return ops
