"""What processes hold: behaviours of BusHold, replayed into the implementation.

Objects are write ends of named pipes, whose read ends the driver has: it sees
whether anybody still holds the object, in whatever process or queue."""
import zlib, random, select, tempfile
from vlib import *
from seq import Lane, Replay, replay_all
from attach import AttachReplay
import attach, busseq, regseq

VER = '0.9.0'
RETRY = 3.0     # descriptors are closed when the other side notices; seconds


def snap(a, **kw):
    r = a.do('fds', **kw)
    return dict(fds=r['n'], threads=r['threads'], maps=r['maps'], list=r['list'], inherit=r['inherit'])


def over(now, limit):
    return ['%d %s, expected at most %d' % (now[k], dict(fds='descriptors', threads='threads', maps='mappings of regions')[k], limit[k])
            for k in ('fds', 'threads', 'maps') if now[k] > limit[k]]


def within(a, limit, base, what):
    """Waits until the process holds no more than that"""
    end = time.time() + RETRY
    while True:
        now = snap(a)
        bad = over(now, limit) + ['a program started now would inherit descriptor %d: %s' % (fd, t)
                                  for fd, t in now['list'] if fd in now['inherit'] and fd not in base['inherit']]
        if not bad:
            return
        if time.time() > end:
            old = {t for _, t in base['list']}
            new = [t for _, t in now['list'] if t not in old]
            raise Mismatch('%s: %s (new: %s)' % (what, ', '.join(bad), new[:6]))
        time.sleep(0.01)


class Warm:
    """A bus on which new processes make their first steps before their descriptors are counted"""
    def __init__(self, cmd):
        self.a, self.ident = Agent(cmd, {'IPMB_VERIF_VERSION': VER}, 'warm'), ident('w')
        r = self.a.do('join', e='w', ident=self.ident, label=['w'], token='', types='A', timeout=5000)
        if not r.get('ok'):
            raise Mismatch('no bus: %s' % r)
        self.lock = threading.Lock()

    def up(self, a, e, bad_version=False):
        with self.lock:
            r = a.do('join', t=e, e=e, ident=self.ident, label=['c'], token='', types='A', timeout=5000)
            if bad_version:
                a.do('unfault', t='ctl')
                return
            if not r.get('ok'):
                raise Mismatch('an endpoint cannot join a bus that exists: %s' % r)
            a.do('rnew', t=e, name='warm', size=10)
            r = a.do('send', t=e, e=e, sel=['l', 'c'], mode='u', id=1, regs=['warm'])
            r = a.do('recv', t=e, e=e, timeout=5000)
            a.do('dropr', t=e, e=e), a.do('drops', t=e, e=e)
            a.do('unfault', t='ctl')

    def close(self):
        self.a.close()


class HoldLane(Lane):
    """one process per endpoint; what each holds before its first endpoint"""
    def __init__(self, cmd, warm, bad=()):
        super().__init__(cmd, 'each')
        self.warm, self.base, self.bad = warm, {}, bad
        self.env = lambda e: {'IPMB_VERIF_VERSION': '9.9.9' if e in bad else VER}

    def agent(self, e):
        k = self.key(e)
        new = k not in self.agents
        a = super().agent(e)
        if new and e != 'h':
            self.warm.up(a, e, e in self.bad)
            self.base[e] = snap(a)
        return a


PIECES = ((31000,), (10000, 10000, 11000), (30000, 1000), (1000, 29500, 500), (5000,) * 6 + (1000,))


def half_minute(rep, n=0, **kw):
    """half a minute and a second, with nothing or little in between"""
    for ms in PIECES[n % len(PIECES)]:
        for a in rep.lane.all():
            a.do('adv', ms=ms, **kw)
        rep.barrier('mon')


def calibrate(cmd, warm):
    """What the halves of an endpoint need in its process and in that of the host"""
    lane = HoldLane(cmd, warm)
    try:
        r = Replay(lane, dict(hist=[], finals={}))
        r.step(0, dict(op='join', e='h', label=['x'], token='tk', aff=True, types=['A'], exp='elect'))
        cost = {'': {}}
        host0 = None
        for hv in ('', 'rs', 's', 'r'):
            if hv:
                r.step(0, dict(op='join', e='a', label=['x'], token='tk', aff=False, types=['A'], exp='connect'))
                for half, op in (('r', 'dropr'), ('s', 'drops')):
                    if half not in hv:
                        r.step(0, dict(op=op, e='a'))
            half_minute(r)
            time.sleep(0.05)
            h = snap(lane.agent('h'))
            if not hv:
                host0 = h
                cost[''] = dict(host=dict(fds=0, threads=0, maps=0), own=dict(fds=0, threads=0, maps=0))
                continue
            a, b = snap(lane.agent('a')), lane.base['a']
            cost[hv] = dict(host={k: h[k] - host0[k] for k in ('fds', 'threads', 'maps')},
                            own={k: a[k] - b[k] for k in ('fds', 'threads', 'maps')})
            for half, op in (('r', 'dropr'), ('s', 'drops')):
                if half in hv:
                    r.step(0, dict(op=op, e='a'))
            half_minute(r)
            within(lane.agent('a'), lane.base['a'], lane.base['a'], 'the process of an endpoint that left')
            within(lane.agent('h'), host0, host0, 'the host after an endpoint left')
        # more of one kind than of another can only be the other's halves
        return cost
    finally:
        lane.close()


class HoldReplay(AttachReplay):
    def __init__(self, lane, beh, **kw):
        super().__init__(lane, beh, **kw)
        self.check_refs = False
        self.pipe = {}
        self.hostbase = None
        self.settled = zlib.crc32(json.dumps(beh['hist']).encode())
        self.cost = lane.cost

    def barrier(self, e):
        super().barrier(e)
        if self.mon and not self.hostbase:
            self.hostbase = snap(self.lane.agent('h'))

    def close_pipes(self):
        for p in self.pipe.values():
            os.close(p)
        self.pipe = {}

    def kept(self, want):
        po = select.poll()
        of = {}
        for r, fd in self.pipe.items():
            if want[r - 1] in ('must', 'no'):
                po.register(fd, 0)
                of[fd] = r
        end = time.time() + RETRY
        while of:
            gone = {of[fd] for fd, ev in po.poll(0) if ev & select.POLLHUP}
            for r in of.values():
                if want[r - 1] == 'must' and r in gone:
                    raise Mismatch('object %d is closed, although it is still in use' % r)
            left = [r for r in of.values() if want[r - 1] == 'no' and r not in gone]
            if not left:
                return
            if time.time() > end:
                raise Mismatch('object %d is still open somewhere, although nobody has it' % left[0])
            time.sleep(0.005)

    def settle(self, need, what):
        self.settled += 1
        half_minute(self, self.settled)
        for e, n in need.items():
            if self.lane.key(e) not in self.lane.agents:
                continue
            a = self.lane.agent(e)
            if e == 'h':
                base = self.hostbase
                sv = dict(n['served'], rs=n['served']['rs'] - 1)    # mon
                extra = {k: sum(self.cost[hv]['host'][k] * sv[hv] for hv in sv) for k in ('fds', 'threads', 'maps')}
            else:
                base = self.lane.base[e]
                extra = dict(self.cost[n['halves']]['own'])
            extra['fds'] += n['o'] + n['g']
            extra['maps'] += 2 * n['g']
            within(a, {k: base[k] + extra[k] for k in extra}, base, '%s%s' % ('the bus host' if e == 'h' else 'the process of ' + e, what))

    def step(self, i, x):
        self.kept(x['kept'])
        op, e = x['op'], x.get('e')
        if op == 'new' and x['k'] == 'o':
            path = '%s/o%s-%d' % (self.lane.dir, self.ident, x['r'])
            os.mkfifo(path, 0o600)
            self.pipe[x['r']] = os.open(path, os.O_RDONLY | os.O_NONBLOCK | os.O_CLOEXEC)
            self.ino[x['r']] = self.do(e, 'onew', kind=path, name=self.hn(x['h']))['ino']
            os.unlink(path)
        elif op == 'new':
            self.ino[x['r']] = self.do(e, 'rnew', size=64, name=self.hn(x['h']))['ino']
        elif op == 'settle':
            self.settle(x['need'], '')
        elif op == 'kill':
            if self.lane.key(e) in self.lane.agents:
                self.lane.kill(e)
            self.rd.discard(e), self.sd.discard(e)
        else:
            super().step(i, x)

    def finals(self):
        self.kept(self.beh['kept'])
        self.settle(self.beh['need'], ' in the end')
        super().finals()

    def cleanup(self):
        try:
            for e in list(self.rd):
                self.do(e, 'dropr')
            self.rd.clear()
            for e in list(self.sd - {'h'}):
                self.do(e, 'drops')
            for k, a in self.lane.agents.items():
                a.do('forget', t=k, prefix=self.ident + '.')
            need = {e: dict(halves='', o=0, g=0, served=dict(rs=1, r=0, s=0)) for e in self.lane.agents if e != 'mon'}
            self.settle(need, ' after everybody left')
            self.kept(['no'] * max(self.pipe, default=0))
            self.do('mon', 'dropr'), self.do('mon', 'drops')
            within(self.lane.agent('mon'), self.lane.base['mon'], self.lane.base['mon'], 'the process of an endpoint that left')
            self.lane.kill('h')
        finally:
            self.close_pipes()

    def run(self):
        try:
            super().run()
        except Exception:
            self.close_pipes()
            raise


def walks(chk, name, num, depth, procs=4, seed=None, ns=(0, 1, 2, 3), maxh=10, maxres=5, **kw):
    kw = dict(dict(rare=dict(join=1, dropr=6, drops=6, adv=5, new=2, clone=4, droph=4, kill=12, vjoin=14, settle=5), ttls=(0, 15, 50),
                   labels=(('x',), ('y',), ('x', 'y')), sels='{T, L("x"), L("y"), L("z")}', eps='habc', tys=('A', 'B', 'BadA'),
                   types=(('A', 'B'), ('A',)), tokens=('tk',), affs=(True, False), verok='e # "c" \\/ f = "c"'), **kw)
    mc = busseq.mc_of(**kw) + '\ncNs == {%s}\n' % ','.join(map(str, ns))
    cfg = busseq.cfg_of(depth, invariants='OnlyMatching InOrderOnce UnicastOnce NoneLeft Known NobodyKeeps SettledServes SettledLive SettledBuf') \
        .replace('SPECIFICATION Spec', 'SPECIFICATION HSpec') \
        .replace('INVARIANTS', ' Ns <- cNs\n MaxH = %d\n MaxRes = %d\nINVARIANTS' % (maxh, maxres))
    out = [None] * procs
    seed = SEED if seed is None else seed

    def one(_, i):
        out[i] = tlc('BusHold', cfg, mc, workers=1, simulate=(num + procs - 1) // procs, depth=depth + 3, seed=seed * 1000 + i, heap='1g')
    parallel(range(procs), one, lanes=procs)
    behs = []
    for i, r in enumerate(out):
        chk.model('%s.%d' % (name, i), r)
        behs += r.lines
    return behs


def drive(chk, agent, behs, what, lanes=8, **kw):
    warm = Warm(agent)
    with tempfile.TemporaryDirectory(prefix='verif-hold') as d:
        try:
            cost = calibrate(agent, warm)
            chk.notes['halves'] = {k or 'none': dict(host=v['host']['fds'], own=v['own']['fds']) for k, v in cost.items()}

            def mk(layout):
                lane = HoldLane(agent, warm, bad=('c',))
                lane.cost, lane.dir = cost, d
                lane.vers = {e: '9.9.9' if e == 'c' else VER for e in 'habc'}
                return lane
            replay_all(chk, agent, behs, layout='each', cls=HoldReplay, mk=mk, what=what, lanes=lanes, recycle=40, **kw)
        finally:
            warm.close()


FAULTS = [dict(who='client', call=c, what=w) for c in ('connect', 'socketpair', 'sendmsg', 'recvmsg') for w in ('errno', 'before', 'after')] + \
         [dict(who='host', call=c, what='errno') for c in ('accept', 'recvmsg', 'sendmsg')]
ERRNO = dict(connect=24, socketpair=24, sendmsg=32, recvmsg=104, accept=24)


def join_faults(chk, agent, rounds):
    """JoinHold: a call of a joining process or of the host fails, or the joining process dies at it"""
    mc = 'cF == {' + ', '.join('[who |-> "%s", call |-> "%s", what |-> "%s"]' % (f['who'], f['call'], f['what']) for f in FAULTS) + '}'
    r = tlc('JoinHold', 'SPECIFICATION Spec\nCONSTANTS\n Outs = {"ok", "token", "version"}\n Faults <- cF\nINVARIANTS NothingLeft OnlyUpIsUp\n'
            'PROPERTY EventuallyQuiet\nCHECK_DEADLOCK FALSE\n', mc)
    chk.model('JoinHold', r)
    x = r.lines[0]
    cases = [(f, o) for f in x['faults'] for o in x['outs']] * rounds
    random.Random(SEED).shuffle(cases)
    warm = Warm(agent)
    lanes = {}

    def one(li, case):
        f, out = case
        lane = lanes.get(li)
        if lane is None:
            lane = lanes[li] = HoldLane(agent, warm, bad=('c',))
            lane.rep = Replay(lane, dict(hist=[], finals={}))
            lane.rep.step(0, dict(op='join', e='h', label=['x'], token='tk', aff=True, types=['A'], exp='elect'))
            lane.hbase = None
        rep, h, e = lane.rep, lane.agent('h'), 'c' if out == 'version' else 'a'
        if not lane.hbase:
            h.do('unfault', t='ctl')
            rep.barrier('mon')
            lane.hbase = snap(h)
        a = lane.agent(e)
        what = 'join answered %s, %s of %s: %s' % (out, f['call'], f['who'], f['what'])
        try:
            who = h if f['who'] == 'host' else a
            if f['call']:
                kw = dict(action='errno', errno=ERRNO[f['call']]) if f['what'] == 'errno' else dict(action='kill', after=f['what'] == 'after')
                who.do('fault', t='ctl', call=f['call'], who='lib' if who is h else None, **kw)
            q = a.start('join', t=e, e=e, ident=rep.ident, label=['x'], token='tk' if out == 'ok' else 'no', types='A', aff=False, timeout=60)
            got = a.wait(q, 'join', may_die=f['what'] in ('before', 'after'))
            if got is None:
                lane.agents.pop(e).close()
            else:
                if who is not h or f['call'] == '':
                    a.do('unfault', t='ctl')
                if got.get('ok'):
                    a.do('dropr', t=e, e=e), a.do('drops', t=e, e=e)
            h.do('unfault', t='ctl')
            half_minute(rep, cases.index(case), t='ctl')
            within(h, lane.hbase, lane.hbase, 'the bus host after a ' + what)
            if got is not None:
                within(a, lane.base[e], lane.base[e], 'the process after a ' + what)
            chk.count('join_faults')
            chk.trace(dict(fault=f, out=out, result='dead' if got is None else got.get('err', 'ok')))
        except Mismatch as m:
            chk.violation(m.what, dict(kind='join', fault=f, out=out))
            raise
    try:
        parallel(cases, one, lanes=4)
    except Mismatch:
        pass
    finally:
        for l in lanes.values():
            l.close()
        warm.close()


def crowd(chk, agent, n, rnd):
    """many endpoints, with messages they never read, leave; some together with their process"""
    h, m, v = [Agent(agent, name=x) for x in ('host', 'members', 'victims')]
    try:
        i = ident('crowd')

        def join(a, e, label, token='t'):
            r = a.do('join', e=e, t='j', ident=i, label=label, token=token, aff=a is h, types='A', timeout=15000)
            if token == 't' and not r.get('ok'):
                raise Mismatch('join: %s' % r)
            return r

        def leave(e):
            for half in rnd.sample(['dropr', 'drops'], 2):
                m.do(half, e=e, t='j')

        def settle(k):
            for ms in PIECES[k % len(PIECES)]:
                for a in (h, m):
                    a.do('adv', t='j', ms=ms)
                h.do('send', e='h', t='j', sel=['l', 'h'], mode='u', id=1)
                h.do('recv', e='h', t='j', timeout=10000)
        join(h, 'h', ['h'])
        join(m, 'w', ['g'])
        for k, x in (('objs', 'o'), ('regs', 'r')):
            h.do('onew', t='j', kind='memfd', name='o') if x == 'o' else h.do('rnew', t='j', size=100, name='r')
            h.do('send', e='h', t='j', sel=['l', 'g'], mode='m', id=1, **{k: ['=' + x]})
        leave('w')
        settle(0)
        base, mine = snap(h), snap(m)
        for k in range(n):
            if k % 5 == 2 and join(m, 'x', ['g'], 'other').get('err') != 'TokenMismatch':
                raise Mismatch('joins with another token')
            join(m if rnd.random() < 0.6 else v, 'e%d' % k, ['g'])
        for k in range(6):
            h.do('send', e='h', t='j', sel=['l', 'g'], mode='m', id=k + 2, objs=['=o'] * (k % 3), regs=['=r'] * (k % 2))
        v.kill()
        # those of the killed process may all be at one end
        for k in rnd.sample(range(n), n):
            leave('e%d' % k)
        settle(n)
        within(h, base, base, 'the bus host after %d endpoints have left' % n)
        within(m, mine, mine, 'the process of %d endpoints that have left' % n)
        chk.count('crowds')
        chk.trace(dict(endpoints=n))
    finally:
        for a in (h, m, v):
            a.close()


def crowds(chk, agent, ns):
    def one(_, n):
        for k in range(3):
            try:
                return crowd(chk, agent, n, random.Random(SEED * 1000 + n))
            except Mismatch as m:
                last = m
        chk.violation(last.what, dict(kind='crowd', n=n))
    parallel(ns, one, lanes=4)


class LeaveReplay(Replay):
    """whoever did not host holds nothing once it left, through the death of hosts as well"""
    def step(self, i, x):
        if not hasattr(self, 'hosts'):
            self.hosts = set()
        if x.get('elects') or x.get('exp') == 'elect':
            self.hosts.add(x['e'])
        if x['op'] == 'kill':
            self.hosts.discard(x['e'])
            if self.lane.key(x['e']) not in self.lane.agents:
                return
        super().step(i, x)

    def cleanup(self):
        super().cleanup()
        for e in list(self.lane.agents):
            if e in self.hosts:
                self.lane.kill(e)
            else:
                within(self.lane.agent(e), self.lane.base[e], self.lane.base[e], 'the process of %s after it left' % e)


def leavers(chk, agent, behs, what, env=None):
    warm = Warm(agent)

    class L(HoldLane):
        def __init__(self):
            super().__init__(agent, warm)
            self.env = lambda e: dict(env or {}, IPMB_VERIF_VERSION=VER)

        def agent(self, e):
            new = e not in self.agents
            a = super().agent(e)
            if new and e not in self.base:
                warm.up(a, e)
                self.base[e] = snap(a)
            return a
    try:
        replay_all(chk, agent, behs, layout='each', cls=LeaveReplay, mk=lambda layout: L(), what=what, lanes=8, recycle=40)
    finally:
        warm.close()


class HeapReplay(AttachReplay):
    """the same history again and again: nothing piles up on the heap of any process that lives on"""
    ROUNDS = 9

    def hn(self, h):
        return '%s.%s' % (self.ident, h)

    def heap(self):
        time.sleep(0.002)
        return {k: a.do('heap', t=k) for k, a in self.lane.agents.items()}

    def run(self):
        self.check_refs = False
        hist = self.beh['hist']
        first, rest = hist[0], hist[1:]
        log = []
        try:
            super().step(0, first)
            for n in range(self.ROUNDS):
                for i, x in enumerate(rest):
                    self.one(i, x)
                self.leave(dict(hist=rest))
                log.append(self.heap())
        except Mismatch as m:
            raise Mismatch('round %d: %s' % (len(log) + 1, m.what))
        for k in log[-1]:
            for unit in ('blocks', 'bytes'):
                v = [l[k][unit] for l in log if k in l][-5:]
                if len(v) == 5 and all(a < b for a, b in zip(v, v[1:])):
                    raise Mismatch('the heap of the process of %s grows with every repetition of the same history: %s %s' % (k, v, unit))

    def one(self, i, x):
        op = x['op']
        if op == 'settle':
            half_minute(self, i)
        elif op == 'kill':
            if x['e'] in self.lane.agents:
                self.lane.kill(x['e'])
            self.rd.discard(x['e']), self.sd.discard(x['e'])
        else:
            super().step(i, x)

    def leave(self, beh):
        for e in list(self.rd | self.sd):
            if e in self.rd:
                r = self.do(e, 'drain', idle=3, max=500)
            if e != 'h':
                if e in self.rd:
                    self.do(e, 'dropr')
                if e in self.sd:
                    self.do(e, 'drops')
                self.rd.discard(e), self.sd.discard(e)
        for k, a in self.lane.agents.items():
            a.do('forget', t=k, prefix=self.ident + '.')
        for _ in range(2):
            for a in self.lane.all():
                a.do('adv', ms=61000)
            self.barrier('mon')
        self.monlog = []

    def cleanup(self):
        self.do('mon', 'dropr'), self.do('mon', 'drops')
        self.lane.kill('h')


def heaps(chk, agent, behs, what):
    def mk(layout):
        lane = Lane(agent, 'each')
        lane.env = lambda e: {'IPMB_VERIF_VERSION': '9.9.9' if e == 'c' else VER}
        lane.vers = {e: '9.9.9' if e == 'c' else VER for e in 'habc'}
        return lane
    replay_all(chk, agent, behs, layout='each', cls=HeapReplay, mk=mk, what=what, lanes=8, recycle=30)


class RegistryExec(regseq.Exec):
    """after a history of registries, regions and their copies nothing is left in either process"""
    def __init__(self, cmd, **kw):
        super().__init__(cmd, **kw)
        self.base = [snap(x) for x in (self.a, self.b)]

    def run(self, ops, *a, **kw):
        r = super().run(ops, *a, **kw)
        for x, base, n in zip((self.a, self.b), self.base, ('with the registries', 'the regions were sent to')):
            within(x, base, base, 'the process %s' % n)
        return r
