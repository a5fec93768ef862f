"""Behaviours of SharedEndpoint forced upon the threads of one endpoint, system call by system call."""
import random, time
from vlib import *

GATES = {'send': 'sendmsg', 'poll': 'epoll_wait', 'conn': 'connect', 'csend': 'sendmsg', 'bind': 'bind'}
CALLS = ['sendmsg', 'connect', 'bind']
TAKES = 15.0


def behaviours(chk, name, senders, aff, maxkill, maxsend, D, n, rare=None):
    rare = dict(dict(kill=8, short=3, dropr=25, host=3), **(rare or {}))
    mc = 'cS == %s\ncChance(k) == CASE %s OTHER -> TRUE' % (
        tla(set(senders)), ''.join('k = "%s" -> RandomElement(1..%d) = 1 [] ' % kv for kv in rare.items()))
    cfg = '''SPECIFICATION Spec
CONSTANTS
 Senders <- cS
 Aff = %s
 MaxKill = %d
 MaxSend = %d
 D = %d
 Chance <- cChance
INVARIANTS RegisteredOnce OneJoins NotStuck Known
CHECK_DEADLOCK FALSE
''' % (str(aff).upper(), maxkill, maxsend, D)
    r = tlc('SharedEndpoint', cfg, mc, simulate=n, depth=D + 2, workers=4)
    chk.model(name, r)
    return [dict(b, senders=list(senders), aff=aff) for b in r.lines if any(h['op'] == 'kill' for h in b['hist'])]


class Cut(Exception):
    pass


class Schedule:
    def __init__(self, chk, cmd, pool):
        self.chk, self.cmd, self.pool = chk, cmd, pool
        self.n = 0
        

    def agent(self, k):
        if k not in self.pool:
            self.pool[k] = Agent(self.cmd, {'AGENT_SLEEP_DIV': '100', 'AGENT_SIGPIPE': '1'}, k)
        return self.pool[k]

    def newhost(self):
        self.n += 1
        self.h = 'h%d' % self.n
        r = self.agent('h').do('join', e=self.h, t=self.h, ident=self.ident, label=['z', '~h'], aff=True, types='A', timeout=8000)
        if not r.get('ok'):
            raise Mismatch('join of a new host: %s' % r)

    def send(self, s):
        self.id += 1
        self.q[s] = self.E.start('send', e='e', t=s, sel=['l', 'z'], mode='u', id=self.id)

    def startr(self):
        self.q['R'] = self.E.start('drain', e='e', t='R', idle=60000, until=9999, max=1000)

    def wait(self, t, what, timeout=TAKES):
        r = self.E.wait(self.q.pop(t), what, timeout)
        if t != 'R' and not r.get('ok'):
            raise Mismatch('%s: %s' % (what, r))
        return r

    def run(self, b):
        hist, S = b['hist'], b['senders']
        self.ident = ident('sh')
        self.id, self.q = 0, {}
        self.newhost()
        E = self.E = self.agent('E')
        r = E.do('join', e='e', t='j', ident=self.ident, label=['me'], aff=b['aff'], types='A', timeout=8000)
        if not r.get('ok'):
            raise Mismatch('join: %s' % r)
        E.do('tstep', t='ctl', threads=S, calls=CALLS)
        E.do('tstep', t='ctl2', threads=S + ['R'], calls=CALLS)
        host, me = True, None
        prev = dict(pc={t: 'idle' for t in S + ['R']}, sent={s: 0 for s in S})
        gone = False
        try:
            E.do('tstep', t='ctl', threads=['R'], calls=CALLS + ['epoll_wait'])
            # threads that send on the same connection are interchangeable: real[x] is the one that plays x
            real = {t: t for t in S + ['R']}
            at = {}
            for i, h in enumerate(hist):
                op, t = h['op'], h['t']
                if op == 'start':
                    self.send(real[t])
                elif op == 'startr':
                    self.startr()
                elif op == 'short':
                    r = E.do('recv', e='e', t='R', timeout=30)
                    if r.get('err') != 'Timeout' or r['us'] > 3000000:
                        raise Mismatch('while another thread joins again recv(30 ms) gives %s' % r)
                elif op == 'dropr':
                    self.q['D'] = E.start('dropr', e='e', t='R')
                    try:
                        E.wait(self.q['D'], 'dropping the receiver', 4)
                        self.q.pop('D')
                    except Mismatch:
                        raise Cut('dropping the receiver waits')
                    finally:
                        gone = True
                elif op == 'kill':
                    self.pool.pop('h').close()
                    host = False
                elif op == 'host':
                    self.newhost()
                    host = True
                elif op == 'permit':
                    if prev['pc'][t] == 'send' and at[real[t]] is None:
                        u = [x for x in S if prev['pc'][x] == 'send' and prev['at'][x] == prev['at'][t] and at[real[x]]][0]
                        real[t], real[u] = real[u], real[t]
                    E.do('tpermit', t='ctl', thread=real[t])
                    if t == 'R' and prev['pc'][t] == 'csend' and h['pc'][t] == 'poll':
                        # for the answer
                        x = E.do('twhere', t='ctl', groups=[['R']], ms=4000)['at']['R']
                        if x != 'epoll_wait':
                            raise Cut('R at %s instead of waiting for the answer' % x)
                        E.do('tpermit', t='ctl', thread='R')
                # everybody where the specification says
                for s in S:
                    if h['sent'][s] > prev['sent'][s]:
                        try:
                            r = E.wait(self.q[real[s]], '', 4)
                        except Mismatch:
                            raise Cut('step %d (%s %s): the send of %s does not end' % (i + 1, op, t, s))
                        self.q.pop(real[s])
                        if not r.get('ok'):
                            raise Mismatch('send of %s: %s' % (s, r))
                groups = {}
                for x in h['pc']:
                    if h['pc'][x] in GATES:
                        k = ('send', h['at'][x]) if h['pc'][x] == 'send' else x
                        groups.setdefault(k, []).append(x)
                at = E.do('twhere', t='ctl', groups=[[real[x] for x in g] for g in groups.values()], ms=4000)['at'] if groups else {}
                for k, g in groups.items():
                    got = {at[real[x]] for x in g} - {None}
                    want = GATES[h['pc'][g[0]]]
                    if not got:
                        # it may wait for one that is stopped; if it is stuck, it remains so
                        raise Cut('step %d (%s %s): %s does not get to %s' % (i + 1, op, t, ' and '.join(g), want))
                    if got != {want}:
                        raise Cut('step %d: %s at %s instead of %s' % (i + 1, g, got, want))
                self.chk.count('steps_forced')
                prev = h
        except Cut as c:
            self.chk.count('schedules_cut')
            self.chk.notes['cut'] = str(c)
        # everybody is let go, and must come to an end
        E.do('tstep', t='ctl', threads=S + ['R'], calls=[])
        if not host and not b['aff']:
            self.newhost()
            host = True
        if 'D' in self.q:
            E.wait(self.q.pop('D'), 'dropping the receiver', TAKES)
        for s in S:
            if s not in self.q:
                self.send(s)
        for s in S:
            self.wait(s, 'after the bus died %d times, a send' % sum(h['op'] == 'kill' for h in hist))
            self.send(s)
        for s in S:
            self.wait(s, 'send')
        # registered with the present bus exactly once
        p = self.agent('h')
        pe = 'p%d' % self.n
        r = p.do('join', e=pe, t=pe, ident=self.ident, label=['me', '~p'], aff=False, types='A', timeout=8000)
        if not r.get('ok'):
            raise Mismatch('another endpoint joins the bus afterwards: %s' % r)
        if not gone:
            if 'R' not in self.q:
                self.startr()
            # let R notice; the first message it sees is this one or none
            for k in (9001, 9999):
                r = p.do('send', e=pe, t=pe, sel=['l', 'me'], mode='m', id=k)
                if not r.get('ok'):
                    raise Mismatch('send to the endpoint: %s' % r)
                if k == 9001:
                    E.do('ping', t='ctl')
                    time.sleep(0.02)
            r = self.wait('R', 'after the bus died, receiving')
            ids = [g.get('id') for g in r['got']]
            if r['end'] != 'until' or ids.count(9999) != 1 or ids.count(9001) > 1 or any(g.get('err') for g in r['got']):
                raise Mismatch('after the bus died the endpoint receives %s' % r)
            r = E.do('drain', e='e', t='R', idle=15, max=5)
            if r['got']:
                raise Mismatch('the endpoint is registered more than once: it receives also %s' % r)
            r = p.do('drain', e=pe, t=pe, idle=3000, until=9999)
        else:
            r = p.do('send', e=pe, t=pe, sel=['l', 'me'], mode='u', id=9999)
            r = p.do('drain', e=pe, t=pe, idle=3000, until=9999)
        if r['end'] != 'until':
            raise Mismatch('another endpoint of the bus receives %s' % r)
        for t in (['R'] if not gone else []):
            E.do('dropr', e='e', t=t)
        E.do('drops', e='e', t='ctl')
        p.do('drops', e=pe, t=pe), p.do('dropr', e=pe, t=pe)


def replay(chk, cmd, behs, lanes=6):
    pools, found = {}, []

    def closeall(pool):
        for a in pool.values():
            a.close()
        pool.clear()

    def brief(b):
        return ['%s %s' % (h['op'], h['t']) for h in b['hist']]

    def one(li, ib):
        n, b = ib
        pool = pools.setdefault(li, {})
        try:
            Schedule(chk, cmd, pool).run(b)
            chk.trace(dict(schedule=brief(b), may_host=b['aff']))
            if n % 10 == 9:
                closeall(pool)
        except Mismatch as m:
            closeall(pool)
            for _ in range(2):
                fresh = {}
                try:
                    Schedule(chk, cmd, fresh).run(b)
                except Mismatch as m2:
                    found.append(1)
                    chk.violation('threads that share an endpoint, schedule %s: %s' % (brief(b), m2.what), dict(kind='shared', behaviour=b))
                    return
                finally:
                    closeall(fresh)
            chk.count('unconfirmed')
            chk.notes.setdefault('unconfirmed_what', []).append(m.what[:300])
    try:
        parallel(enumerate(behs), one, lanes=lanes, stop=lambda: len(found) > 1)
    finally:
        for p in pools.values():
            closeall(p)
