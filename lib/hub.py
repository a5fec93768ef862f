"""How the bus host serves its sources: schedules of Hub replayed, and crowds of senders."""
import random, time
from vlib import *

SLACK = 4


def walks(chk, num, depth, seed=None, procs=5):
    # who does something, and how often the controller gets a turn
    cfg = ('SPECIFICATION Spec\nCONSTANTS\n Clients = %s\n MaxMsgs = 30\n MaxWaking = 2\n Stepped = TRUE\n D = %d\n Pick <- cP\n'
           'INVARIANTS Fair NothingLeft Noticed\nCHECK_DEADLOCK FALSE\n')
    mc = 'cP(S) == IF S = {} THEN {} ELSE {RandomElement(S)}'
    out = [None] * procs
    seed = SEED if seed is None else seed

    def one(_, i):
        out[i] = tlc('Hub', cfg % (('{1, 2, 3}', '{1}', '{1, 2}', '{1, 2, 3}', '{}')[i % 5], depth), mc, workers=1, simulate=(num + procs - 1) // procs, depth=3 * depth, seed=seed * 1000 + i, heap='1g')
    parallel(range(procs), one, lanes=procs)
    behs = []
    for i, r in enumerate(out):
        chk.model('Hub/walks.%d' % i, r)
        behs += r.lines
    return [b['hist'] for b in behs]


class Hub:
    """host, sink and clients, each in its own process"""
    def __init__(self, cmd):
        self.cmd = cmd
        self.h, self.k, self.c = [Agent(cmd, name=n) for n in ('host', 'sink', 'clients')]
        self.ident = ident('hub')
        self.ev, self.id, self.src = [], 0, {}
        self.n = 5
        self.join(self.h, 'h', ['host'])
        self.join(self.k, 'k', ['k'])

    def close(self):
        for a in (self.h, self.k, self.c):
            a.close()

    def join(self, a, e, label, **kw):
        r = a.do('join', e=e, t=e, ident=self.ident, label=label, token='t', aff=a is self.h, types='A', timeout=15000)
        if not r.get('ok'):
            raise Mismatch('join of %s: %s' % (e, r))

    def n_routed(self):
        return sum(e[2] for e in self.ev if e[0] == 'r')

    def new(self, s):
        self.id += 1
        self.src[self.id] = s
        return self.id

    def take(self, got):
        for g in got:
            if 'id' not in g or not g['intact']:
                raise Mismatch('a receiver gets %s' % g)
            if g['id'] not in self.src:
                raise Mismatch('message %d arrives twice, or was never sent' % g['id'])
            self.ev.append(['r', self.src.pop(g['id']), 1])


class Astray(Exception):
    """the implementation takes its turns in another order, or threads wait for each other"""


class Stepped(Hub):
    """a behaviour of Hub"""
    def run(self, hist, rnd):
        h, c, k = self.h, self.c, self.k
        T = ['h1', 'h2']
        for t in T:
            h.do('version', t=t)
        h.do('tstep', t='ctl', threads=T, calls=['wake', 'wake+'])
        h.do('tstep', t='ctl', threads=['lib'], calls=['epoll_wait', 'unwake'])
        # a message of the sink: the controller handles it and stops before its next wait
        k.do('send', e='k', t='k2', sel=['l', 'k'], mode='u', ty='A', id=0)
        self.src[0] = 4
        self.ev.append(['s', 4, 1])
        self.parked()
        self.drain()
        pend, joins = {}, {}
        ok = True
        try:
            self.follow(hist, rnd, T, joins, pend)
        except Astray:
            ok = False
        # the controller goes on alone, then those who wake it
        h.do('tstep', t='ctl', threads=['lib'], calls=[])
        time.sleep(0.01)
        h.do('tstep', t='ctl', threads=T, calls=[])
        for q in pend.values():
            r = h.wait(q, 'send')
            if not r.get('ok'):
                raise Mismatch('send fails: %s' % r)
        left = list(self.src)
        if left:
            r = k.do('drain', e='k', t='k', until_all=left, idle=10000, total=10000)
            self.take(r['got'])
        for s, q in joins.items():
            r = c.wait(q, 'joining an idle bus', 20)
            if not r.get('ok') or r['us'] > 14000000:
                raise Mismatch('joining an idle bus: %s' % r)
        return ok

    def follow(self, hist, rnd, T, joins, pend):
        h, c = self.h, self.c
        self.busy = busy = []
        after, free = [], list(T)
        for x in hist:
            op, s = x['op'], x.get('s')
            if op == 'push':
                if not free:
                    t = after[0]
                    self.finish(t, pend)
                    free.append(after.pop(0))
                t = free.pop(0)
                pend[t] = h.start('send', e='h', t=t, sel=['l', 'k'], mode='u', ty='A', id=self.new(0))
                h.do('twhere', t='ctl', groups=[[t]], ms=300)
                self.ev.append(['s', 0, 1])
                busy.append(t)
            elif op == 'wake':
                t = busy.pop(0)
                h.do('tpermit', t='ctl', thread=t)
                h.do('twhere', t='ctl', groups=[[t]], ms=300)
                after.append(t)
                if rnd.random() < 0.5:
                    # the others first: they may hold what this one waits for
                    while after:
                        self.finish(after[0], pend)
                        free.append(after.pop(0))
            elif op == 'join':
                joins[s] = c.start('join', e='c%d' % s, t='c%d' % s, ident=self.ident, label=['c'], token='t', aff=False, types='A', timeout=15000)
                time.sleep(0.003)
            elif op == 'send':
                if s in joins:
                    try:
                        r = joins[s].get(timeout=5)
                    except queue.Empty:
                        raise Astray()
                    if not r.get('ok'):
                        raise Mismatch('join fails: %s' % r)
                    del joins[s]
                r = c.do('send', e='c%d' % s, t='c%d' % s, sel=['l', 'k'], mode='u', ty='A', id=self.new(s))
                if not r.get('ok'):
                    raise Mismatch('send fails: %s' % r)
                self.ev.append(['s', s, 1])
            elif op == 'leave':
                # asked to join by now
                if s in joins:
                    try:
                        r = joins[s].get(timeout=5)
                    except queue.Empty:
                        raise Astray()
                    if not r.get('ok'):
                        raise Mismatch('join fails: %s' % r)
                    del joins[s]
                for half in ('dropr', 'drops'):
                    c.do(half, e='c%d' % s, t='c%d' % s)
            else:
                h.do('tpermit', t='ctl', thread='lib')
                self.parked()
                self.drain()

    def finish(self, t, pend):
        self.h.do('tpermit', t='ctl', thread=t)
        try:
            r = pend[t].get(timeout=5)
        except queue.Empty:
            raise Astray()
        del pend[t]
        if not r or not r.get('ok'):
            raise Mismatch('send fails: %s' % r)
        if self.busy:
            # may have waited for this one
            self.h.do('twhere', t='ctl', groups=[[self.busy[0]]], ms=100)

    def parked(self):
        self.h.do('twhere', t='ctl', groups=[['lib']], ms=500)

    def drain(self):
        self.take(self.k.do('drain', e='k', t='k', idle=0)['got'])


class Crowd(Hub):
    """many sources with something pending at the moment the controller goes on"""
    def run(self, rnd, clients, floods, few, joiners, hostn):
        h, c, k = self.h, self.c, self.k
        self.n = clients + 2
        extra = Agent(self.cmd, name='joiners')
        try:
            for i in range(clients):
                self.join(c, 'c%d' % i, ['c'])
            h.do('fault', t='ctl', call='epoll_wait', who='lib', action='gate', repeat=True)
            c.do('send', e='c0', t='c0', sel=['l', 'k'], mode='m', ty='A', id=0)
            self.src[0] = 1
            self.ev.append(['s', 1, 1])
            k.do('drain', e='k', t='k', until=0, idle=5000)
            self.ev.append(['r', 1, 1])
            del self.src[0]
            base, total, pre = {}, {}, {}
            nxt = 1
            order = list(range(clients))
            rnd.shuffle(order)
            for i in order:
                n = floods.get(i, few)
                base[i + 1], total[i + 1] = nxt, n
                q, done = None, 0
                while done < n:
                    # as much as fits into the socket; the rest follows as fast as it is read
                    m = n - done if q or i not in floods else min(25, n - done)
                    q2 = c.start('burst', e='c%d' % i, t='c%d' % i, sel=['l', 'k'], mode='m', ty='A', base=nxt + done, n=m)
                    done += m
                    if q:
                        break
                    try:
                        r = q2.get(timeout=0.08 if i in floods else HANG)
                    except queue.Empty:
                        q = q2
                        continue
                    if not r or r.get('sent') != m:
                        raise Mismatch('send fails: %s' % r)
                    self.ev.append(['s', i + 1, m])
                    pre[i + 1] = pre.get(i + 1, 0) + m
                nxt += n
            base[0], total[0] = nxt, hostn
            if hostn:
                r = h.do('burst', e='h', t='h', sel=['l', 'k'], mode='m', ty='A', base=nxt, n=hostn)
                if r.get('sent') != hostn:
                    raise Mismatch('send by the host fails: %s' % r)
                self.ev.append(['s', 0, hostn])
                nxt += hostn
            js = [extra.start('join', e='j%d' % j, t='j%d' % j, ident=self.ident, label=['k'], token='t', aff=False, types='A', timeout=60000)
                  for j in range(joiners)]
            # they read at once: one that does not stops the bus
            ds = [extra.start('drain', e='j%d' % j, t='j%d' % j, idle=700, brief=True) for j in range(joiners)]
            if js:
                time.sleep(0.1)
                self.ev.append(['s', self.n - 1, joiners])
            pre[0] = hostn
            h.do('unfault', t='ctl')
            left = nxt - 1
            self.routed = left
            r = k.do('drain', e='k', t='k', idle=10000, total=60000, max=left, brief=True)
            ids = [g[0] if isinstance(g, list) else g for g in r['got']]
            first = []
            for j, q in enumerate(js):
                r = extra.wait(q, 'joining a busy bus', 60)
                if not r.get('ok'):
                    raise Mismatch('joining a busy bus fails: %s' % r)
                g = extra.wait(ds[j], 'drain', 60)['got']
                first.append(g[0][0] if g else None)
            joined = {}
            for f in first:
                joined[f] = joined.get(f, 0) + 1
            seen, run = set(), None
            srcs = sorted(base, key=lambda s: base[s])
            for i in ids:
                if not isinstance(i, int) or i in seen or not 0 < i < nxt:
                    raise Mismatch('a receiver gets %s' % i)
                seen.add(i)
                s = next(s for s in srcs if base[s] <= i < base[s] + total[s])
                if i in joined:
                    self.ev.append(['r', self.n - 1, joined[i]])
                pre[s] -= 1
                if pre[s] < 0:
                    self.ev.append(['s', s, 1])
                if self.ev[-1][0] == 'r' and self.ev[-1][1] == s:
                    self.ev[-1][2] += 1
                else:
                    self.ev.append(['r', s, 1])
            if None in joined:
                self.ev.append(['r', self.n - 1, joined[None]])
        finally:
            extra.close()


def judge(chk, runs, name='HubTrace'):
    if not runs:
        return []
    f = [dict(n=n, ev=ev) for n, ev in runs]
    cfg = 'SPECIFICATION Spec\nCONSTANTS\n Slack = %d\nINVARIANT Judged0\nCHECK_DEADLOCK FALSE\n' % SLACK
    r = tlc('HubTrace', cfg, 'Judged0 == Judged', workers=1, files={'runs.json': json.dumps(f)}, heap='4g')
    chk.model(name, r)
    return sorted(r.lines, key=lambda x: x['run'])


def crowds(rnd, more):
    """(clients, {client: messages of a flood}, messages of the others, joiners, messages of the host)"""
    r = [(3, {}, 5, 0, 2000), (8, {0: 600}, 5, 4, 0), (8, {7: 600}, 5, 4, 0), (8, {0: 400, 5: 400}, 3, 4, 1500),
         (60, {30: 400}, 4, 0, 2000), (10, {}, 2, 50, 600), (1, {0: 600}, 0, 3, 600), (24, {i: 250 for i in range(12)}, 4, 6, 0)]
    for _ in range(more):
        n = rnd.randint(1, 64)
        f = rnd.sample(range(n), rnd.randint(0, min(n, 8)))
        r.append((n, {i: rnd.randint(100, 1500) for i in f}, rnd.randint(0, 20), rnd.randint(0, 40), rnd.choice([0, 100, 1000, 5000])))
    return r
