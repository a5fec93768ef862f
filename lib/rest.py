"""At rest: after a history nothing runs, and everybody who waits wakes up for a message."""
import random
from vlib import *
from seq import Lane, Replay, replay_all, PROBE

WINDOW = 30        # ms
TRIES = 40


def rests(agents, what, calls=0, window=WINDOW, tries=TRIES):
    """there is a window in which the processes do nothing; what is being dealt with may take a moment"""
    for n in range(tries):
        qs = [(a, a.start('rest', t='rest', ms=window)) for a in agents]
        rs = [(a, a.wait(q, 'rest')) for a, q in qs]
        busy = [(a, r) for a, r in rs if r['calls'] > calls or r['cpu'] > r['us'] // 3]
        if not busy:
            return n
    a, r = busy[0]
    raise Mismatch('%s: the process of %s does not come to rest: %d system calls, %d us of the processor in %d ms' %
                   (what, a.name, r['calls'], r['cpu'], r['us'] // 1000))


class RestReplay(Replay):
    """a history, after which those who can wait for a message without a timeout"""
    def run(self):
        super().run()
        try:
            self.rest()
        except Mismatch as m:
            raise Mismatch('in the end: %s' % m.what)

    def rest(self):
        rests(self.lane.all(), 'nobody receives')
        if 'mon' not in self.beh['finals']:
            return
        # those the specification says are connected wait for what comes
        fin = sorted(e for e in self.beh['finals'] if e == 'mon' or e in self.rd)
        qs = [(e, self.lane.agent(e).start('recv', e=e, t=e, timeout=None)) for e in fin]
        time.sleep(0.002)
        rests(self.lane.all(), 'receivers wait')
        early = [e for e, q in qs if not q.empty()]
        if early:
            raise Mismatch('recv by %s returns although nothing was sent' % early[0])
        # from one thread for each process: the threads of the endpoints are busy
        types = sorted({ty for x in self.beh['hist'] if x['op'] == 'join' for ty in x['types']} | {'C'})
        who = self.lane.agent('mon')
        for k, ty in enumerate(types):
            r = who.do('send', e='mon', t='wake', sel=['t'], mode='m', ty=ty, id=PROBE + 5000 + k)
            if not r.get('ok'):
                raise Mismatch('send fails: %s' % r)
        for e, q in qs:
            r = self.lane.agent(e).wait(q, 'recv by %s of a message for everybody' % e)
            if r.get('msg', {}).get('id', 0) < PROBE + 5000:
                raise Mismatch('recv by %s: %s, expected a message sent to everybody' % (e, r))
        rests(self.lane.all(), 'messages have woken the receivers')


def crowd(chk, cmd, n, kills, rnd):
    """many endpoints, which leave or are killed: the host comes to rest, again and again"""
    agents = [Agent(cmd, name=x) for x in ('host', 'members', 'victims', 'stays')]
    h, m, v, s = agents
    try:
        i = ident('rest')

        def join(a, e, label, token='t', **kw):
            return a.do('join', e=e, t='j', ident=i, label=label, token=token, aff=a is h, types='A', timeout=15000, **kw)
        for a, e in ((h, 'h'), (s, 's')):
            if not join(a, e, [e]).get('ok'):
                raise Mismatch('join fails')
        live = []
        for k in range(n):
            a = v if rnd.random() < kills else m
            if k % 7 == 3:
                r = join(m, 'x', ['x'], 'other')
                if r.get('err') != 'TokenMismatch':
                    raise Mismatch('join with another token: %s' % r)
            r = join(a, 'e%d' % k, ['g%d' % (k % 3)])
            if not r.get('ok'):
                raise Mismatch('join of endpoint %d: %s' % (k, r))
            live.append((a, 'e%d' % k))
        rests(agents, '%d endpoints have joined' % n)
        v.kill()
        agents.remove(v)
        rests(agents, 'a process with endpoints has been killed')
        mine = [e for a, e in live if a is m]
        rnd.shuffle(mine)
        for part in (mine[:len(mine) // 3], mine[len(mine) // 3:]):
            for e in part:
                for op in rnd.sample(['dropr', 'drops'], 2):
                    m.do(op, e=e, t='j')
            rests(agents, 'endpoints have left')
            s.do('send', e='s', t='s', sel=['o', ['l', 'g0'], ['l', 'g1']], mode='m', id=1)
            s.do('send', e='s', t='s', sel=['l', 'h'], mode='u', id=2)
            r = h.do('recv', e='h', t='h', timeout=None)
            if r.get('msg', {}).get('id') != 2:
                raise Mismatch('the host received %s' % r)
            rests(agents, 'messages were sent to endpoints that had left')
        for a in agents:
            a.do('adv', t='ctl', ms=31000)
        s.do('send', e='s', t='s', sel=['l', 'h'], mode='u', id=3)
        rests(agents, 'half a minute later')
        chk.trace(dict(endpoints=n, killed=n - len(mine)))
    finally:
        for a in agents:
            a.close()


def waiting(chk, cmd):
    """an endpoint that may not host tries to join, or to join again, about every two seconds"""
    a, b, c = [Agent(cmd, name=x) for x in ('joining', 'rejoining', 'host')]
    try:
        i = ident('w')
        q = a.start('join', e='e', t='e', ident=ident('none'), label=['x'], token='', aff=False, types='A', timeout=15000)
        for x, e in ((c, 'h'), (b, 'e')):
            r = x.do('join', e=e, t=e, ident=i, label=['y'], token='', aff=x is c, types='A', timeout=15000)
            if not r.get('ok'):
                raise Mismatch('join: %s' % r)
        q2 = b.start('recv', e='e', t='e', timeout=15000)
        c.kill()
        time.sleep(0.05)
        for _ in range(2):
            # at most one attempt falls into a window of 1.2 s
            rests((a, b), 'waiting for a host', calls=6, window=1200, tries=2)
        if not q.empty() or not q2.empty():
            raise Mismatch('join and recv without a host do not wait')
        chk.trace(dict(waiting='join and recv without a host'))
    finally:
        for x in (a, b, c):
            x.close()
