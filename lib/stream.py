"""Concurrent runs of the implementation, whose logs TLC judges with StreamTrace."""
import random, time
from vlib import *

BASE = 100000
ALL = 'all'
SAFETY = ('received what was not', 'out of order', 'has two receivers', 'another than the first')


class Ep:
    def __init__(self, name, agent, labels, aff=True):
        self.name, self.agent, self.labels, self.aff = name, agent, labels, aff
        self.host = False
        self.lock = threading.Lock()


class Run:
    """one concurrent run; `rnd` decides everything"""
    def __init__(self, cmd, seed, kind, env=None):
        self.cmd, self.seed, self.kind, self.env = cmd, seed, kind, env or {}
        self.rnd = random.Random(seed)
        self.agents, self.recvs, self.sends = [], [], []
        self.lens = {}
        self.rank = 0
        self.lossy = []
        self.ident = ident('st')
        self.jlock = threading.Lock()
        self.tlock = threading.Lock()
        self.hard = True      # the run ended in an orderly way: what is missing is missing
        self.note = {}

    def agent(self, name, **env):
        a = Agent(self.cmd, dict(self.env, **env), name)
        self.agents.append(a)
        return a

    def close(self):
        for a in self.agents:
            a.close()

    def join(self, ep, timeout=15000):
        with self.jlock:
            self.rank += 1
            rank = self.rank
            r = ep.agent.do('join', e=ep.name, t=ep.name, ident=self.ident, label=sorted(ep.labels) + [ALL], aff=ep.aff, types='A', timeout=timeout)
        if not r.get('ok'):
            raise Mismatch('join of %s fails: %s' % (ep.name, r))
        life = dict(g=sorted(ep.labels) + [ALL], rank=rank, j0=r['t0'], j1=r['t1'], l0=0, l1=0, host=ep.host, got=[], name=ep.name)
        self.recvs.append(life)
        ep.life = life
        return life

    def take(self, life, r):
        """the result of a drain"""
        for g in r['got']:
            if isinstance(g, dict):
                raise Mismatch('recv of %s fails: %s' % (life['name'], g))
            i, ln, intact, ts = g
            if not intact or ln != self.lens.get(i):
                raise Mismatch('%s received message %d of %d bytes with another content (%d bytes)' % (life['name'], i, self.lens.get(i, -1), ln))
            life['got'].append([i, ts])

    def leave(self, ep, how='both'):
        r = ep.agent.do('dropr', e=ep.name, t=ep.name)
        ep.life['l0'], ep.life['l1'] = r['t0'], r['t1']
        if how == 'both':
            ep.agent.do('drops', e=ep.name, t=ep.name)

    def thread(self, ep, msgs, gap=0):
        """a new sender thread of ep that will send msgs; returns (index, thread name)"""
        self.sends.append([])
        s = len(self.sends)
        for i, m in enumerate(msgs):
            self.lens[s * BASE + i + 1] = m[2]
        return s

    def more(self, s, msgs):
        pass

    def load(self, ep, s, msgs, gap=0, clone=True):
        """starts the thread"""
        t = '%s.s%d' % (ep.name, s)
        return ep.agent.start('load', e=ep.name, t=t, s=s, msgs=msgs, gap_us=gap)

    def loaded(self, ep, s, msgs, q, timeout=40):
        r = ep.agent.wait(q, 'sending %d messages from %s' % (len(msgs), ep.name), timeout)
        if r['err']:
            raise Mismatch('send from %s fails: %s' % (ep.name, r['err']))
        self.sends[s - 1] = [[m[0], m[1], t[0], t[1], m[3] > 0] for m, t in zip(msgs, r['log'])]

    def log(self):
        ts = [x for r in self.recvs for x in (r['j0'],)] + [m[2] for s in self.sends for m in s]
        base = min(ts) - 1
        f = lambda x: x - base if x else 0
        return dict(sends=[[[m[0], m[1], f(m[2]), f(m[3]), m[4]] for m in s] for s in self.sends],
                    recvs=[dict(g=r['g'], rank=r['rank'], j0=f(r['j0']), j1=f(r['j1']), l0=f(r['l0']), l1=f(r['l1']), host=r['host'],
                                got=[[i, f(t)] for i, t in r['got']]) for r in self.recvs],
                    lossy=[[f(a), f(b)] for a, b in self.lossy])

    # ------------------------------------------------------------------
    def sizes(self):
        return self.rnd.choice([(0, 1, 5), (0, 37, 300), (0, 37, 300, 2000, 8000), (10, 30000), (1, 60000, 100, 50000), (4096, 4095, 4097),
                                (5, 5, 5, 5, 5, 5, 120000)])

    def program(self, n, groups, sizes, ttl=0, pm=0.4):
        r = self.rnd
        return [['m' if r.random() < pm else 'u', r.choice(groups), r.choice(sizes), ttl] for _ in range(n)]

    def disturb(self, a):
        """delays at system calls, which shift the interleaving"""
        r = self.rnd
        for _ in range(r.choice((0, 0, 1, 2))):
            a.do('fault', call=r.choice(('sendmsg', 'recvmsg', 'epoll_wait', 'accept')), action='delay', us=r.choice((50, 500, 3000)),
                 nth=r.randint(1, 60), repeat=r.random() < 0.2, after=r.random() < 0.5, who=r.choice(('lib', 'harness', 'both')))

    def topology(self, nep, nproc, env=None):
        r = self.rnd
        ags = [self.agent('p%d' % i, **(env or {})) for i in range(nproc)]
        eps = []
        for i in range(nep):
            e = Ep('e%d' % i, ags[i % nproc] if r.random() < 0.8 else r.choice(ags), set(g for g in 'xyz' if r.random() < 0.5))
            if i == 0:
                e.host = True
            eps.append(e)
        return ags, eps

    def steady(self, signals=False):
        """everybody stays"""
        r = self.rnd
        ags, eps = self.topology(r.randint(1, 5), r.randint(1, 3))
        for e in eps:
            self.join(e)
        for a in ags:
            self.disturb(a)
        sizes = self.sizes()
        n = r.choice((20, 60, 150)) if max(sizes) < 20000 else r.choice((10, 40))
        groups = sorted({g for e in eps for g in e.labels} | {ALL})
        threads = []
        for _ in range(r.randint(1, 6)):
            ep = r.choice(eps)
            msgs = self.program(n, groups, sizes, pm=r.choice((0, 0.3, 1)))
            msgs.append(['m', ALL, 0, 0])
            threads.append((ep, self.thread(ep, msgs), msgs))
        marks = [s * BASE + len(m) for _, s, m in threads]
        dr = []
        for e in eps:
            if r.random() < 0.3:
                e.agent.start('sleep', t=e.name, ms=r.choice((5, 50, 200)))
            dr.append(e.agent.start('drain', e=e.name, t=e.name, brief=True, until_all=marks, idle=12000, total=30000,
                                    gap_us=r.choice((0, 0, 0, 100, 1000)) if n < 60 else 0))
        qs = [self.load(ep, s, m, r.choice((0, 0, 100, 1000))) for ep, s, m in threads]
        if signals or r.random() < 0.15:
            for a in ags:
                a.start('signalall', t='sig', n=20, gap_us=700)
        for (ep, s, m), q in zip(threads, qs):
            self.loaded(ep, s, m, q)
        for e, q in zip(eps, dr):
            x = e.agent.wait(q, 'receiving', 45)
            self.take(e.life, x)
            if x['end'] != 'until':
                self.hard = False       # time may have run out; again, then
        self.note = dict(processes=len(ags), endpoints=len(eps), threads=len(threads), messages=sum(len(m) for _, _, m in threads), sizes=list(sizes))

    def pressure(self):
        """receivers that do not receive for a while, so that every buffer on the way is full"""
        r = self.rnd
        ags, eps = self.topology(r.randint(2, 4), r.randint(1, 3))
        for e in eps:
            e.labels = set(r.choice(('x', 'y', 'xy')))
            self.join(e)
        for a in ags:
            self.disturb(a)
        sizes = r.choice(((0,), (100, 300), (30000, 10), (120000,), (4000, 8000)))
        n = 500 if max(sizes) < 1000 else 120 if max(sizes) < 10000 else 25
        threads = []
        for _ in range(r.randint(1, 4)):
            ep = r.choice(eps)
            msgs = self.program(n, ['x', 'y', ALL], sizes, pm=r.choice((0, 0.5, 1)))
            msgs.append(['m', ALL, 0, 0])
            threads.append((ep, self.thread(ep, msgs), msgs))
        marks = [s * BASE + len(m) for _, s, m in threads]
        qs = [self.load(ep, s, m) for ep, s, m in threads]
        dr = []
        for e in eps:
            # one after the other begins to receive
            time.sleep(r.choice((0, 0.05, 0.3)))
            dr.append(e.agent.start('drain', e=e.name, t=e.name, brief=True, until_all=marks, idle=12000, total=30000,
                                    gap_us=r.choice((0, 0, 50))))
        if r.random() < 0.3:
            for a in ags:
                a.start('signalall', t='sig', n=10, gap_us=700)
        for (ep, s, m), q in zip(threads, qs):
            self.loaded(ep, s, m, q)
        for e, q in zip(eps, dr):
            x = e.agent.wait(q, 'receiving', 45)
            self.take(e.life, x)
            if x['end'] != 'until':
                self.hard = False       # time may have run out; again, then
        self.note = dict(processes=len(ags), endpoints=len(eps), threads=len(threads), messages=sum(len(m) for _, _, m in threads), sizes=list(sizes))

    def churn(self):
        """endpoints come and go, in all ways, while others keep sending"""
        r = self.rnd
        ags, eps = self.topology(r.randint(2, 4), r.randint(1, 3))
        eps[0].labels -= {'z'}
        for e in eps:
            e.labels -= {'w'}
            self.join(e)
        for a in ags:
            self.disturb(a)
        sizes = self.sizes()
        n = r.choice((60, 150)) if max(sizes) < 20000 else 40
        # host's own endpoint comes last and would take what waits: only groups without it may be without receiver
        free = [g for g in 'wxyz' if g not in eps[0].labels]
        threads = []
        for _ in range(r.randint(1, 4)):
            ep = r.choice(eps)
            msgs = self.program(n, free, sizes, ttl=60000, pm=r.choice((0, 0.3, 0.6)))
            msgs.append(['m', ALL, 0, 0])
            threads.append((ep, self.thread(ep, msgs), msgs))
        marks = [s * BASE + len(m) for _, s, m in threads]
        dr = [e.agent.start('drain', e=e.name, t=e.name, brief=True, until_all=marks, idle=12000, total=30000) for e in eps]
        over = threading.Event()
        errs = []

        def guest(k, seed):
            g = random.Random(seed)
            a, j = None, 0
            try:
                while not over.is_set() and j < 6:
                    kill = g.random() < 0.3
                    if a is None:
                        a = self.agent('g%d' % k) if kill or g.random() < 0.3 else g.choice(ags)
                    ep = Ep('g%d.%d' % (k, j), a, set(x for x in 'wxyz' if g.random() < 0.5), aff=g.random() < 0.5)
                    j += 1
                    own = a.name.startswith('g')
                    kill = kill and own
                    life = self.join(ep)
                    how = g.choice(('none', 'some', 'while'))
                    if kill:
                        if how != 'none':
                            if g.random() < 0.5:
                                a.do('fault', call='recvmsg', nth=g.randint(1, 12), action='kill', after=g.random() < 0.5)
                            a.start('drain', e=ep.name, t=ep.name, brief=True, idle=500, total=2000)
                        time.sleep(g.choice((0, 0.002, 0.01)))
                        life['l0'] = int(time.clock_gettime_ns(time.CLOCK_MONOTONIC) // 1000) if not g.random() < 0 else 0
                        if how != 'none':
                            life['l0'] = life['j1']     # it may have died before
                        a.kill()
                        life['l1'] = int(time.clock_gettime_ns(time.CLOCK_MONOTONIC) // 1000)
                        a = None
                        continue
                    if how == 'some':
                        self.take(life, a.do('drain', e=ep.name, t=ep.name, brief=True, max=g.randint(1, 10), idle=50))
                    elif how == 'while':
                        self.take(life, a.do('drain', e=ep.name, t=ep.name, brief=True, total=g.choice((5, 20)), idle=20))
                    else:
                        time.sleep(g.choice((0, 0.003)))
                    order = g.random()
                    if order < 0.3:
                        a.do('drops', e=ep.name, t=ep.name)
                        self.leave(ep, 'recv')
                    elif order < 0.5:
                        # only the receiving half goes; it still sends
                        self.leave(ep, 'recv')
                        r1 = a.do('send', e=ep.name, t=ep.name, sel=['l', 'nobody'], mode='u', id=7)
                        if not r1.get('ok'):
                            raise Mismatch('an endpoint without receiving half cannot send: %s' % r1)
                        a.do('drops', e=ep.name, t=ep.name)
                    else:
                        self.leave(ep)
                    if g.random() < 0.3 and own:
                        a = None
            except (Mismatch, ToolError) as m:
                errs.append(m)
            except Exception as x:
                errs.append(ToolError('guest: %r' % x))
        gs = [threading.Thread(target=guest, args=(k, self.seed * 17 + k)) for k in range(r.randint(1, 3))]
        qs = [self.load(ep, s, m, r.choice((300, 1000))) for ep, s, m in threads]
        for g in gs:
            g.start()
        try:
            for (ep, s, m), q in zip(threads, qs):
                self.loaded(ep, s, m, q)
        finally:
            over.set()
            for g in gs:
                g.join()
        if errs:
            raise errs[0]
        # whatever still waits goes to one that takes everything
        last = Ep('last', r.choice(ags), set('wxyz'))
        self.join(last)
        # behind everything that any of them sent
        fin = [['m', ALL, 0, 0]]
        marks = set()
        for ep in eps:
            s = self.thread(ep, fin)
            self.loaded(ep, s, fin, self.load(ep, s, fin))
            marks.add(s * BASE + 1)
        for e, q in [(last, None)] + list(zip(eps, dr)):
            if q:
                x = e.agent.wait(q, 'receiving', 45)
                self.take(e.life, x)
                self.hard &= x['end'] == 'until'
            todo = sorted(marks - {g[0] for g in e.life['got']})
            if todo:
                x = e.agent.do('drain', e=e.name, t=e.name, brief=True, until_all=todo, idle=12000, total=30000, _wait=45)
                self.take(e.life, x)
                self.hard &= x['end'] == 'until'
        self.note = dict(processes=len(ags), stay=len(eps), came=len(self.recvs) - len(eps) - 1, threads=len(threads),
                         messages=sum(len(m) for _, _, m in threads), sizes=list(sizes))

    # ------------------------------------------------------------------
    def reader(self, ep, stop, errs):
        """receives for ep all the time, until told to stop"""
        def go():
            try:
                while not stop.is_set() and not ep.agent.killed:
                    with ep.lock:
                        if not ep.rd:
                            return
                        q = ep.agent.start('drain', e=ep.name, t=ep.name, brief=True, idle=100, total=200)
                    x = ep.agent.wait(q, 'receiving at ' + ep.name, 30, may_die=True)
                    if x is None and getattr(ep.agent, 'dying', False):
                        return
                    if x is None:
                        raise Mismatch('the process of %s dies: %s' % (ep.name, ep.agent.stderr()[-300:]))
                    if ep.agent.killed:
                        return
                    with self.tlock:
                        self.take(ep.life, x)
            except (Mismatch, ToolError) as m:
                if not getattr(ep.agent, 'dying', False):
                    errs.append(m)
            except Exception as m:
                errs.append(ToolError('reader: %r' % m))
        t = threading.Thread(target=go)
        t.start()
        return t

    def has(self, ep, ids, timeout):
        end = time.time() + timeout
        while True:
            with self.tlock:
                got = {g[0] for g in ep.life['got']}
            if ids <= got:
                return True
            if time.time() > end or ep.errs:
                return False
            time.sleep(0.005)

    def failover(self, share=False):
        """processes die, the one hosting the bus among them, at any moment"""
        r = self.rnd
        nproc = r.randint(2, 4)
        ags = [self.agent('p%d' % i) for i in range(nproc)]
        errs = []
        eps = []
        for i in range(r.randint(nproc, nproc + 3) if not share else nproc):
            e = Ep('e%d' % i, ags[i % nproc], set(g for g in 'xyz' if r.random() < 0.5), aff=r.random() < 0.7)
            e.errs, e.rd = errs, True
            eps.append(e)
        eps[0].aff = True
        eps[0].host = True
        # whichever process is left can host
        for i in range(nproc):
            eps[i].aff = True
        for e in eps:
            self.join(e)
            e.life['host'], e.life['rank'] = False, 0       # the order of joining again is not known
        self.ranked = False
        for e in eps[1:]:
            if r.random() < 0.25:
                self.leave(e, 'recv')
                e.rd = False
        stop = threading.Event()
        readers = [self.reader(e, stop, errs) for e in eps if e.rd]
        sizes = self.sizes() if r.random() < 0.5 else (0, 37, 300)
        groups = ['x', 'y', 'z', ALL]
        exact, alive = [], list(ags)

        def exact_phase():
            ths = []
            for e in live():
                for _ in range(r.choice((0, 1)) if not share else 1):
                    msgs = self.program(r.choice((5, 20)) if max(sizes) < 20000 else 6, groups, sizes, pm=0.5) + [['m', ALL, 0, 0]]
                    ths.append((e, self.thread(e, msgs), msgs))
            qs = [self.load(e, s, m) for e, s, m in ths]
            for (e, s, m), q in zip(ths, qs):
                self.loaded(e, s, m, q)
            marks = {s * BASE + len(m) for _, s, m in ths}
            for e in live():
                if e.rd and not self.has(e, marks, 12):
                    if errs:
                        raise errs[0]
                    self.hard = False

        def live():
            return [e for e in eps if e.agent in alive]

        def probe(e, n=1):
            fin = [['m', ALL, r.choice((0, 50)), 0]]
            s = self.thread(e, fin)
            self.loaded(e, s, fin, self.load(e, s, fin), 30)
            return s * BASE + 1

        try:
            exact_phase()
            rounds = 0
            while len(alive) > 1:
                rounds += 1
                w0 = now_us()
                victim = r.choice(alive) if r.random() < 0.4 else alive[0] if rounds == 1 else r.choice(alive)
                ths = []
                for e in live():
                    for _ in range(r.choice((0, 1, 1, 2)) if not share else r.randint(2, 6)):
                        msgs = self.program(r.choice((10, 40, 100)) if max(sizes) < 20000 else 12, groups, sizes, pm=0.6)
                        ths.append((e, self.thread(e, msgs), msgs))
                how = r.choice(('time', 'call', 'call', 'calm'))
                for a in alive:
                    # threads that are late to notice
                    if a is not victim and r.random() < 0.6:
                        for _ in range(r.randint(1, 3)):
                            a.do('fault', call=r.choice(('sendmsg', 'sendmsg', 'recvmsg', 'epoll_wait', 'connect', 'bind', 'listen')), action='delay',
                                 us=r.choice((300, 3000, 20000, 60000)), nth=r.randint(1, 50), after=r.random() < 0.5, who=r.choice(('lib', 'harness', 'both')))
                ch = None
                if r.random() < 0.3:
                    ch = victim.do('spawnchild', secs='30')
                victim.dying = True
                if how == 'call':
                    victim.do('fault', call=r.choice(('sendmsg', 'sendmsg', 'recvmsg', 'epoll_wait', 'accept')), nth=r.randint(1, 40),
                              action='kill', after=r.random() < 0.5, who=r.choice(('lib', 'both')))
                qs = [self.load(e, s, m, r.choice((0, 100, 1000))) for e, s, m in ths] if how != 'calm' else []
                late = None
                if r.random() < 0.5:
                    late = Ep('n%d' % rounds, r.choice([a for a in alive if a is not victim]), set(g for g in 'xyz' if r.random() < 0.5), aff=r.random() < 0.5)
                    late.errs, late.rd = errs, True
                time.sleep(r.choice((0, 0.001, 0.005, 0.02)) if how != 'call' else 0.03)
                shut = None
                if r.random() < 0.3:
                    # somebody's receiving half goes at the same time
                    c = [e for e in live() if e.rd and e.agent is not victim]
                    if len(c) > 1:
                        shut = r.choice(c)
                if late and r.random() < 0.5 and any(e.aff and e.rd for e in live() if e.agent is not victim and e is not shut):
                    self.join_late(late, eps, readers, stop, errs)
                    late = None
                k0 = now_us()
                victim.kill(group=ch is None)
                for e in live():
                    if e.agent is victim and e.life['l1'] == 0:
                        e.life['l0'], e.life['l1'] = w0, now_us()
                alive.remove(victim)
                if shut:
                    with shut.lock:
                        shut.rd = False
                    self.leave(shut, 'recv')
                # those that do not receive have to send to take part
                first = []
                for e in live():
                    if not e.rd:
                        fin = [['m', ALL, 0, 0]]
                        first.append((e, self.thread(e, fin), fin))
                if how == 'calm':
                    ths = [t for t in ths if t[0].agent is not victim]
                fqs = [self.load(e, s, m) for e, s, m in first]
                if late:
                    self.join_late(late, eps, readers, stop, errs)
                if how == 'calm':
                    # nobody sends: those that receive find each other all the same
                    time.sleep(r.choice((0, 0.2)))
                    qs = [self.load(e, s, m) for e, s, m in ths]
                ths, qs = ths + first, qs + fqs
                for (e, s, m), q in zip(ths, qs):
                    if e.agent is victim:
                        x = e.agent.wait(q, 'x', 20, may_die=True)
                        lg = x['log'] if x else [[w0, k0]] * len(m)
                        self.sends[s - 1] = [[a[0], a[1], t[0], t[1], False] for a, t in zip(m, lg)]
                    else:
                        self.loaded(e, s, m, q)
                # on one bus again: everybody sends, then everybody receives the same message
                for e in live():
                    probe(e)
                lead = r.choice(live())
                mark = {probe(lead)}
                for e in live():
                    if e.rd and not self.has(e, mark, 15):
                        if errs:
                            raise errs[0]
                        raise Mismatch('%d s after the host died %s does not receive what %s sends to all' % (15, e.name, lead.name))
                self.lossy.append([w0, now_us()])
                if ch:
                    try:
                        os.kill(ch['pid'], signal.SIGKILL)
                    except OSError:
                        pass
                exact_phase()
                if errs:
                    raise errs[0]
        finally:
            stop.set()
            for t in readers:
                t.join()
        if errs:
            raise errs[0]
        self.note = dict(processes=nproc, endpoints=len(eps), rounds=rounds, threads=len(self.sends), messages=sum(len(m) for m in self.sends), sizes=list(sizes))

    def shared(self):
        self.failover(share=True)

    def join_late(self, late, eps, readers, stop, errs):
        self.join(late)
        late.life['host'], late.life['rank'] = False, 0
        eps.append(late)
        readers.append(self.reader(late, stop, errs))


def now_us():
    return time.clock_gettime_ns(time.CLOCK_MONOTONIC) // 1000


def judge(chk, name, logs):
    r = tlc('StreamTrace', 'SPECIFICATION Spec\nINVARIANTS Judged\nCHECK_DEADLOCK FALSE\n', files={'runs.json': json.dumps(logs)}, workers=1, timeout=800)
    chk.model(name, r)
    out = [None] * len(logs)
    for l in r.lines:
        out[l['run'] - 1] = l['bad']
    return out


def campaign(chk, cmd, kind, n, lanes=5, seed0=0, env=None, method=None):
    """n runs of that kind, judged in one go"""
    runs = {}
    failed = {}
    lock = threading.Lock()

    def once(seed):
        x = Run(cmd, seed, kind, env)
        try:
            getattr(x, method or kind)()
        finally:
            x.close()
        return x

    def one(_, k):
        seed = SEED * 100000 + seed0 + k
        try:
            x = once(seed)
            with lock:
                runs[seed] = x
        except Mismatch as m:
            with lock:
                failed[seed] = m
    parallel(range(n), one, lanes=lanes, stop=lambda: len(failed) > 2)
    order = sorted(runs)
    bads = judge(chk, 'StreamTrace/' + kind, [runs[s].log() for s in order]) if order else []
    for s, bad in zip(order, bads):
        x = runs[s]
        chk.trace(dict(kind=kind, seed=s, **x.note))
        chk.count('received', sum(len(r['got']) for r in x.recvs))
        if bad and (x.hard or any(b.startswith(SAFETY) for b in bad)):
            chk.violation('%s run %d: %s' % (kind, s, '; '.join(bad)), dict(kind=kind, seed=s, note=x.note, log=x.log()))
        elif bad:
            failed[s] = Mismatch('; '.join(bad))
    # what time alone may explain has to happen again
    for s, m in list(failed.items())[:3]:
        again = None
        for _ in range(4):
            try:
                x = once(s)
                bad = judge(chk, 'StreamTrace/again', [x.log()])[0]
                if bad:
                    again = '; '.join(bad)
            except Mismatch as m2:
                again = m2.what
            if again:
                break
        if again:
            chk.violation('%s run %d: %s' % (kind, s, again), dict(kind=kind, seed=s, first=m.what))
        else:
            chk.count('unconfirmed')
            chk.notes.setdefault('unconfirmed_what', []).append(m.what[:300])
