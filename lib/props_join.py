"""C07: joining at the same time, and buses next to each other."""
import random, time
from vlib import *
from seq import Replay, replay_all, Lane
import busseq

Q = TIER == 'quick'

CFG = '''%s
CONSTANTS
 Procs <- cProcs
 Affs <- cAffs
 Kills = %d
 D = %d
%s
CHECK_DEADLOCK FALSE
'''
INV = 'INVARIANTS OneHost OnlyAllowed OneBus NameKept'


def mc(procs, affs):
    return 'cProcs == %s\ncAffs == {%s}' % (tla(set(procs)), ', '.join(tla(set(a)) for a in affs))


def one_bus(agents, names, what, base=100):
    """every multicast reaches every endpoint exactly once; names: (agent, endpoint)"""
    for i, (a, e) in enumerate(names):
        r = a.do('send', e=e, t=e, sel=['t'], mode='m', id=base + i)
        if not r.get('ok'):
            raise Mismatch('%s: send fails: %s' % (what, r))
    want = sorted(base + i for i in range(len(names)))
    for a, e in names:
        r = a.do('drain', e=e, t=e, max=len(want), idle=6000, total=10000)
        got = [g.get('id') for g in r['got']]
        r = a.do('drain', e=e, t=e, max=3, idle=5)
        got += [g.get('id') for g in r['got']]
        if sorted(got) != want:
            raise Mismatch('%s: %s received %s of the multicasts %s' % (what, e, sorted(got), want))


class Schedule:
    """one behaviour of Election, a process each, stepped one system call at a time"""
    def __init__(self, chk, cmd, pool):
        self.chk, self.cmd, self.pool = chk, cmd, pool

    def agent(self, p):
        a = self.pool.get(p)
        if a is None:
            a = self.pool[p] = Agent(self.cmd, {'AGENT_SLEEP_DIV': '100'}, p)
        return a

    def run(self, b, follow_up):
        hist, aff = b['hist'], set(b['aff'])
        procs = sorted({h[0] for h in hist} | aff | set('pqr'[:3]))
        dead = {h[0] for h in hist if h[1] == 'kill'}
        hosted = any(h[1] == 'listen' for h in hist)
        alive = [p for p in procs if p not in dead]
        can = hosted or bool(aff - dead)
        i = ident('el')
        qs = {}
        for p in procs:
            self.agent(p).do('step', t='ctl', calls=['connect', 'bind', 'listen'])
        for p in procs:
            qs[p] = self.agent(p).start('join', e=p, t=p, ident=i, label=[p], aff=p in aff, types='A', timeout=15000 if can else 400)
        steps = 0
        for p, call, _ in hist:
            if call == 'kill':
                self.agent(p).do('where', t='ctl', ms=3000)
                self.pool.pop(p).close()
                continue
            at = self.agent(p).do('where', t='ctl', ms=1500)['at']
            if at != call:
                self.chk.count('schedules_cut')     # the code takes other steps; the outcome still counts
                break
            self.agent(p).do('permit', t='ctl')
            # until the call is over: at the next one, or joined
            if call == 'bind' or (call == 'connect' and _ == 'refused'):
                self.agent(p).do('where', t='ctl', ms=1500)
            else:
                self.agent(p).wait(qs[p], 'join of %s' % p)
                qs[p] = None
            steps += 1
        for p in alive:
            self.agent(p).do('step', t='ctl', calls=[])
        self.chk.count('steps_forced', steps)
        ok = []
        for p in alive:
            if qs[p] is None:
                ok.append(p)
                continue
            r = self.agent(p).wait(qs[p], 'join of %s' % p)
            if bool(r.get('ok')) != can or (not can and r.get('err') != 'Timeout'):
                raise Mismatch('join of %s: %s, expected %s' % (p, r, 'success' if can else 'a timeout'))
            if can:
                ok.append(p)
        one_bus(self.pool, [(self.agent(p), p) for p in ok], 'after joining at the same time')
        if follow_up and ok:
            # whoever may not host does not take over
            for p in [p for p in ok if p in aff]:
                self.pool.pop(p).close()
            rest = [p for p in ok if p not in aff]
            for p in rest:
                r = self.agent(p).do('recv', e=p, t=p, timeout=60)
                if r.get('err') != 'Timeout':
                    raise Mismatch('an endpoint that may not host gets %s when the host is gone' % r)
            if rest:
                r = self.agent('s').do('join', e='s', t='s', ident=i, label=['s'], aff=False, types='A', timeout=60)
                if r.get('err') != 'Timeout':
                    raise Mismatch('without anybody who may host, join gives %s' % r)
                r = self.agent('s').do('join', e='s', t='s', ident=i, label=['s'], aff=True, types='A', timeout=10000)
                if not r.get('ok'):
                    raise Mismatch('join of one that may host: %s' % r)
                for p in rest:
                    r = self.agent(p).do('recv', e=p, t=p, timeout=60)
                    if r.get('err') != 'Timeout':
                        raise Mismatch('after a new host has come, recv gives %s' % r)
                one_bus(self.pool, [(self.agent(p), p) for p in rest + ['s']], 'after a new host has come', 200)
                self.agent('s').do('drops', e='s', t='s'), self.agent('s').do('dropr', e='s', t='s')
                ok = rest
        for p in ok:
            self.agent(p).do('drops', e=p, t=p)
            self.agent(p).do('dropr', e=p, t=p)


def schedules(chk, cmd, behs):
    pools = {}
    found = []

    def one(li, ib):
        n, b = ib
        pool = pools.setdefault(li, {})
        try:
            Schedule(chk, cmd, pool).run(b, n % 2 == 0)
            chk.trace(dict(may_host=b['aff'], schedule=['%s %s %s' % tuple(h) for h in b['hist']]))
            # an orphaned controller keeps a thread: not for ever
            if n % 15 == 14:
                for a in pool.values():
                    a.close()
                pool.clear()
        except Mismatch as m:
            for a in pool.values():
                a.close()
            pool.clear()
            fails = 0
            for _ in range(3):
                fresh = {}
                try:
                    Schedule(chk, cmd, fresh).run(b, n % 2 == 0)
                except Mismatch as m2:
                    fails += 1
                    m = m2
                finally:
                    for a in fresh.values():
                        a.close()
            if fails:
                found.append(1)
                chk.violation('joining at the same time, schedule %s: %s' % (['%s %s %s' % tuple(h) for h in b['hist']], m.what),
                              dict(kind='election', behaviour=b))
            else:
                chk.count('unconfirmed')
    try:
        parallel(enumerate(behs), one, lanes=8, stop=lambda: len(found) > 1)
    finally:
        for pool in pools.values():
            for a in pool.values():
                a.close()


def crowd(chk, cmd, rounds):
    """many threads of several processes at once, with delays at random system calls"""
    found = []

    def one(li, n):
        rnd = random.Random(SEED * 1000 + n)
        ags = [Agent(cmd, {'AGENT_SLEEP_DIV': '20'}, 'p%d' % k) for k in range(rnd.choice((1, 2, 3, 4)))]
        try:
            for _ in range(rnd.randint(0, 3)):
                for a in ags:
                    if rnd.random() < 0.6:
                        a.do('fault', call=rnd.choice(('connect', 'bind', 'listen', 'accept', 'socketpair')), action='delay',
                             us=rnd.choice((300, 3000)), nth=rnd.randint(1, 4), repeat=rnd.random() < 0.5, after=rnd.random() < 0.5)
            i = ident('crowd')
            eps = [(a, '%s.%d' % (a.name, k)) for a in ags for k in range(rnd.choice((2, 4, 8)))]
            affs = [rnd.random() < 0.6 for _ in eps]
            if not any(affs):
                affs[rnd.randrange(len(eps))] = True
            rnd.shuffle(eps)
            qs = [(a, e, a.start('join', e=e, t=e, ident=i, label=[e], aff=aff, types='A', timeout=15000)) for (a, e), aff in zip(eps, affs)]
            for a, e, q in qs:
                r = a.wait(q, 'join %s' % e, 25)
                if not r.get('ok'):
                    raise Mismatch('%d endpoints of %d processes join at the same time: %s' % (len(eps), len(ags), r))
            one_bus(None, eps, '%d endpoints of %d processes' % (len(eps), len(ags)))
            chk.count('crowds')
            chk.trace(n=1)
        finally:
            for a in ags:
                a.close()

    def safe(li, n):
        try:
            one(li, n)
        except Mismatch as m:
            fails = []
            for _ in range(3):
                try:
                    one(li, n)
                except Mismatch as m2:
                    fails.append(m2)
            if fails:
                found.append(1)
                chk.violation('crowd %d: %s' % (n, fails[0].what), dict(kind='crowd', seed=SEED * 1000 + n))
            else:
                chk.count('unconfirmed')
    parallel(range(rounds), safe, lanes=6, stop=lambda: bool(found))


PAIRS = [lambda b: (b, b + ' '), lambda b: (b + 'x', b + 'X'), lambda b: (b, b + b), lambda b: (b + '/a', b + '/b'),
         lambda b: (b + '.', b), lambda b: (b + 'e\u0301', b + '\u00e9'), lambda b: (b + '\n', b + '\r'),
         lambda b: ((b + 'p' * 106)[:106], (b + 'p' * 106)[:105] + 'q'), lambda b: ((b + 'p' * 106)[:105], (b + 'p' * 106)[:106]),
         lambda b: ('@' + b, b), lambda b: (b, b[:-1]), lambda b: (b + '\u00ff', b + '\u00fe'), lambda b: (b + '\x01', b + '\x02'),
         lambda b: (b + 'a' * 50, b + 'a' * 51)]


class PairReplay:
    """two behaviours on two identifiers, interleaved, in the same processes"""
    def __init__(self, lane, beh, **kw):
        kw.pop('unit', None)
        self.rs = []
        rnd = random.Random(beh['n'])
        names = PAIRS[beh['n'] % len(PAIRS)](ident('pp') + '%04d' % rnd.randrange(10000))
        for k, b in enumerate(beh['pair']):
            r = Prefixed(lane, b, **kw)
            r.prefix = '%d:' % k
            r.ident = names[k]
            self.rs.append(r)
        self.rnd = rnd

    def run(self):
        todo = [[r, 0] for r in self.rs]
        while todo:
            t = self.rnd.choice(todo)
            r, i = t
            if i >= len(r.beh['hist']):
                todo.remove(t)
                continue
            try:
                r.step(i, r.beh['hist'][i])
            except Mismatch as m:
                raise Mismatch('buses %r and %r, step %d: %s' % (self.rs[0].ident, self.rs[1].ident, i + 1, m.what))
            t[1] += 1
        for r in self.rs:
            tail = dict(r.beh, hist=[])
            r.beh = tail
            r.run()

    def cleanup(self):
        for r in self.rs:
            r.cleanup()


class Prefixed(Replay):
    prefix = ''

    def do(self, e, op, **kw):
        return self.lane.agent(e).do(op, e=self.prefix + e, t=self.prefix + e, **kw)


def c07(chk):
    agent = build_agent()
    names = 'pqr'
    allaffs = ['pqr', 'pq', 'p', '']
    r = tlc('Election', CFG % ('SPECIFICATION Fair', 1, 0, INV + '\nPROPERTIES AllJoin'), mc('pqr', allaffs))
    chk.model('Election/3', r)
    r = tlc('Election', CFG % ('SPECIFICATION Fair', 2, 0, INV + '\nPROPERTIES AllJoin'), mc('pqrs' if Q else 'pqrst', ['pqrs', 'pq', 'p']))
    chk.model('Election/4', r)
    r = tlc('Election', CFG % ('SPECIFICATION Spec', 1, 7 if Q else 9, INV), mc('pqr', allaffs), workers='auto', heap='6g')
    chk.model('Election/schedules', r)
    rnd = random.Random(SEED)
    behs = sorted(r.lines, key=lambda b: json.dumps(b, sort_keys=True))
    chk.notes['schedules_enumerated'] = len(behs)
    # rather those where something contends
    hot = [b for b in behs if sum(h[1] == 'bind' for h in b['hist']) >= 2]
    pick = rnd.sample(hot, min(len(hot), 220 if Q else 6000)) + rnd.sample(behs, min(len(behs), 80 if Q else 2000))
    schedules(chk, agent, pick)
    crowd(chk, agent, 40 if Q else 600)
    # isolation
    walks = busseq.walks(chk, 'BusSeq/pairs', 240 if Q else 3000, 14, eps='abc', labels=(('x',), ('y',), ()), sels='{T, L("x"), L("y")}',
                         ttls=(0, 15), rare=dict(dropr=6, drops=6))
    pairs = [dict(hist=a['hist'] + b['hist'], pair=[a, b], n=n) for n, (a, b) in enumerate(zip(walks[::2], walks[1::2]))]
    replay_all(chk, agent, pairs, cls=PairReplay, what='bus_pairs')
    replay_all(chk, agent, pairs[:30], cls=PairReplay, layout='each', what='bus_pairs_processes')
    a = Agent(agent)
    try:
        ids = ['', 'a' + ident('e')]
        for k, i in enumerate(ids):
            rr = a.do('join', e=str(k), t=str(k), ident=i, label=['x'], types='A', timeout=5000)
            if not rr.get('ok'):
                raise Mismatch('join of the identifier %r: %s' % (i, rr))
        long = ident('l') + 'z' * 120
        pre = long[:106]
        for k, i in enumerate((pre + 'a', pre + 'b')):
            rr = a.do('join', e='l%d' % k, t='l%d' % k, ident=i, label=['x'], types='A', timeout=5000)
            if not rr.get('ok'):
                raise Mismatch('join of an identifier of 107 bytes: %s' % rr)
        got = {}
        for n, e in enumerate(('0', '1', 'l0', 'l1')):
            a.do('send', e=e, t=e, sel=['t'], mode='m', id=n)
        for e in ('0', '1', 'l0', 'l1'):
            got[e] = sorted(g['id'] for g in a.do('drain', e=e, t=e, idle=100, max=9)['got'])
        if got['l0'] == got['l1'] == [2, 3]:
            chk.finding('long-identifiers', 'identifiers longer than 106 bytes that share their first 106 bytes name the same bus',
                        dict(kind='long'))
            got['l0'], got['l1'] = [2], [3]
        if got != {'0': [0], '1': [1], 'l0': [2], 'l1': [3]}:
            raise Mismatch('the buses %r received %s' % (ids + [pre + 'a', pre + 'b'], got))
    except Mismatch as m:
        chk.violation(m.what, dict(kind='identifiers'))
    finally:
        a.close()


PROPS = dict(C07=c07)
NOTES = {
    'C07': ('TLA+/TLC: exhaustive exploration of Election; its schedules forced upon real processes system call by system call; '
            'pairs of BusSeq behaviours on two identifiers replayed side by side',
            'Election is explored exhaustively (3 to 5 processes, deaths included, with liveness). Schedules are a sample of all those of '
            'the given length; crowds of up to 32 endpoints are not scheduled. Assumes bind/listen/connect of the kernel are atomic.'),
}
