"""Behaviours of RecvTiming and JoinTiming in real time."""
import random, socket, time
from vlib import *

H = 0.06        # half a tick
SLACK = 0.045
SLIP = 0.02


def behaviours(chk, name, n, D=20, waits=(0, 1, 2, 3, 99), hosts=('TRUE', 'FALSE'), affs=('TRUE', 'FALSE'), rare=None, seed=None):
    rare = dict(dict(call=2, send=3, noise=3, die=8, host=2, squat=2, leave=3), **(rare or {}))
    mc = ('cPick(S) == {RandomElement(S)}\ncHosts == {%s}\ncAffs == {%s}\ncWaits == %s\ncChance(k) == CASE ' % (', '.join(hosts), ', '.join(affs), tla(set(waits)))
          + ' [] '.join('k = "%s" -> RandomElement(1..%d) = 1' % kv for kv in rare.items()))
    cfg = '''SPECIFICATION Spec
CONSTANTS
 Hosts <- cHosts
 Affs <- cAffs
 Waits <- cWaits
 D = %d
 Chance <- cChance
 Pick <- cPick
INVARIANTS Punctual InOrder AtOnce
CHECK_DEADLOCK FALSE
''' % D
    r = tlc('RecvTiming', cfg, mc, simulate=n, depth=6 * D, workers=1, seed=seed)
    chk.model(name, r)
    return [b for b in r.lines if b['calls']]


class Slip(Exception):
    pass


class Recv:
    """one behaviour of RecvTiming"""
    def __init__(self, cmd):
        self.cmd, self.ags = cmd, []

    def agent(self, name):
        a = Agent(self.cmd, {'AGENT_SIGPIPE': '1'}, name)
        self.ags.append(a)
        return a

    def join(self, a, e, label, aff):
        r = a.do('join', e=e, t=e, ident=self.ident, label=[label], aff=aff, types='A', timeout=8000)
        if not r.get('ok'):
            raise Mismatch('join: %s' % r)

    def run(self, b):
        try:
            self.go(b)
        finally:
            for a in self.ags:
                a.close()
            self.ags = []

    def go(self, b):
        self.ident = ident('rt')
        E, S = self.agent('E'), self.agent('S')
        if not b['self']:
            host = self.agent('H')
            self.join(host, 'h', 'h', True)
        self.join(E, 'e', 'e', True if b['self'] else b['aff'])
        self.join(S, 's', 's', False)
        # the first use of a thread takes a while
        E.do('ping', t='R'), S.do('ping', t='s'), E.do('ping', t='sig')
        steps = [(c['t0'], 1, 'call', c) for c in b['calls']] + [(t, 1, 'call', dict(k=99, out=None)) for t in b['pending']] + \
                [(e['at'], 0, e['op'], e) for e in b['evs']]
        steps.sort(key=lambda s: (s[0], s[1]))
        nh = self.agent('N') if any(s[2] == 'host' for s in steps) else None
        if nh:
            nh.do('ping')
        t0 = time.time() + 0.03
        calls, sends, others, squat = [], {}, [], []
        for at, _, op, x in steps:
            due = t0 + at * H
            time.sleep(max(0, due - time.time()))
            if time.time() > due + SLIP:
                raise Slip()
            if op == 'call':
                kw = {} if x['k'] == 99 else dict(timeout=int(x['k'] * 2 * H * 1000))
                calls.append((x, E.start('recv', e='e', t='R', **kw)))
            elif op in ('A', 'B', 'bad'):
                sends[x['id']] = S.start('send', e='s', t='s', sel=['l', 'e'], mode='u', ty=dict(A='A', B='B', bad='BadA')[op], id=x['id'])
            elif op == 'flood':
                others.append((S, S.start('burst', e='s', t='s', sel=['l', 'e'], mode='u', ty='B', n=6, base=5000, gap_us=8000)))
            elif op == 'signals':
                others.append((E, E.start('signal', t='sig', thread='R', n=6, gap_us=8000)))
            elif op == 'die':
                host.close()
            elif op == 'squat':
                squat.append(Occupant('silent', self.ident))
            elif op == 'leave':
                squat.pop().close()
            elif op == 'host':
                host, nh = nh, self.agent('N')
                others.append((host, host.start('join', e='h', t='h', ident=self.ident, label=['h'], aff=True, types='A', timeout=8000)))
        time.sleep(max(0, t0 + b['end'] * H - time.time()))
        sent = {i: S.wait(q, 'send') for i, q in sends.items()}
        for i, r in sent.items():
            if not r.get('ok'):
                raise Mismatch('send of %d: %s' % (i, r))
        for a, q in others:
            a.wait(q, 'noise')
        for k, (x, q) in enumerate(calls):
            if x['out'] is None:
                try:
                    r = E.wait(q, 'recv', 0.01)
                except Mismatch:
                    continue
                raise Mismatch('recv without timeout returns %s' % r)
            r = E.wait(q, 'recv(%s)' % x['k'], HANG if x['k'] == 99 else 3 + x['k'])
            what = 'call %d at %d, recv(%s)' % (k + 1, x['t0'], 'no timeout' if x['k'] == 99 else '%d ms' % (x['k'] * 2 * H * 1000))
            got = ('timeout', 0) if r.get('err') == 'Timeout' else ('bad', x['id']) if r.get('err') == 'Decode' else \
                ('A', r['msg']['id']) if 'msg' in r else (r.get('err'), 0)
            if got != (x['out'], x['id']):
                raise Mismatch('%s: %s, expected %s %d' % (what, r, x['out'], x['id']))
            us = r['us'] / 1e6
            if x['out'] == 'timeout':
                want = x['k'] * 2 * H
                if us < want:
                    raise Mismatch('%s reports a timeout after %.1f ms already' % (what, us * 1e3))
                want = max(want, (x['at'] - x['t0']) * H)
                if us > want + SLACK:
                    raise Mismatch('%s reports a timeout only after %.1f ms' % (what, us * 1e3))
            else:
                since = max(r['t0'], sent[x['id']]['t1'])
                if r['t1'] - since > SLACK * 1e6:
                    raise Mismatch('%s returns message %d %.1f ms after it was there' % (what, x['id'], (r['t1'] - since) / 1e3))
        # a call that has to wait ends with the next message
        if b['pending'] and not any(s[2] == 'die' for s in steps):
            S.do('send', e='s', t='s', sel=['l', 'e'], mode='u', id=4000)
            r = E.wait(calls[-1][1], 'recv without timeout', 5)
            if r.get('msg', {}).get('id') != 4000:
                raise Mismatch('recv without timeout: %s' % r)


def replay(chk, cmd, behs, cls, what, lanes=24, brief=lambda b: b):
    found = []

    def once(b):
        for _ in range(6):
            try:
                cls(cmd).run(b)
                return True
            except Slip:
                chk.count('late_drivers')
        return False

    again = []

    def one(li, b):
        try:
            if once(b):
                chk.trace(brief(b))
                chk.count(what)
        except Mismatch as m:
            again.append((b, m))
    parallel(behs, one, lanes=lanes, stop=lambda: len(again) > 40)

    def confirm(li, bm):
        b, m = bm
        try:
            for _ in range(3):
                # alone, so that nothing but the library takes the time
                if not once(b):
                    return
        except Mismatch as m2:
            n = 1
            for _ in range(2):
                try:
                    once(b)
                except Mismatch:
                    n += 1
            if n == 3:
                found.append(1)
                chk.violation('%s: %s' % (what, m2.what), dict(kind=what, behaviour=b))
                return
        chk.count('unconfirmed')
        chk.notes.setdefault('unconfirmed_what', []).append(m.what[:200])
    parallel(again[:12], confirm, lanes=2, stop=lambda: bool(found))


def brief_recv(b):
    return dict(host=b['self'], may_host=b['aff'], events=['%d %s' % (e['at'], e['op']) for e in b['evs']],
                calls=['%d recv(%s) -> %s at %d' % (c['t0'], c['k'], c['out'], c['at']) for c in b['calls']])


def exact(chk, cmd, rounds):
    """single waits of odd lengths"""
    found = []
    lens = [1, 300, 999, 1000, 1001, 1500, 2700, 10100, 33333]

    def one(li, n):
        rnd = random.Random(SEED * 77 + n)
        slow = [0] * 2
        ags = [Agent(cmd) for _ in range(2)]
        try:
            i = ident('ex')
            for a, e in zip(ags, 'hc'):
                r = a.do('join', e=e, t=e, ident=i, label=[e], types='A', timeout=8000)
                if not r.get('ok'):
                    raise Mismatch('join: %s' % r)
            for k in range(12):
                us = rnd.choice(lens) + rnd.choice((0, 0, rnd.randrange(3000)))
                sig = rnd.random() < 0.3
                qs = [a.start('recv', e=e, t=e, timeout_us=us) for a, e in zip(ags, 'hc')]
                for x, (a, q) in enumerate(zip(ags, qs)):
                    if sig:
                        a.start('signal', t='sig', thread='hc'[x], n=3, gap_us=300)
                    r = a.wait(q, 'recv(%d us)' % us)
                    if r.get('err') != 'Timeout' or r['us'] < us:
                        raise Mismatch('recv(%d us) returns %s' % (us, r))
                    if r['us'] > us + SLACK * 1e6:
                        slow[x] += 1
            if max(slow) > 4:
                raise Mismatch('of 12 receive calls of some milliseconds %d return more than %d ms late' % (max(slow), SLACK * 1e3))
            chk.count('odd_waits', 24)
            # very long ones
            for t in ((30 * 86400 * 1000, 400 * 86400 * 1000, 25 * 86400 * 1000)[n % 3],):
                ags[1].do('warp', on=True, t='ctl')
                r = ags[1].do('recv', e='c', t='c', timeout=t, virt=True)
                ags[1].do('warp', on=False, t='ctl')
                if r.get('err') != 'Timeout' or r['us'] < t * 1000:
                    raise Mismatch('recv(%d days) returns %s after %.2f days' % (t // 86400000, r.get('err', r), r['us'] / 86400e6))
            for t in (30 * 86400 * 1000, 'max', 2 ** 62):
                for x, (a, e) in enumerate(zip(ags, 'hc')):
                    q = a.start('recv', e=e, t=e, timeout=t)
                    time.sleep(0.004)
                    ags[1 - x].do('send', e='ch'[x], t='ch'[x], sel=['l', e], mode='u', id=5)
                    r = a.wait(q, 'recv(%s ms)' % t)
                    if r.get('msg', {}).get('id') != 5:
                        raise Mismatch('recv(%s ms) returns %s' % (t, r))
            chk.trace(n=1)
        finally:
            for a in ags:
                a.close()

    def safe(li, n):
        try:
            one(li, n)
        except Mismatch:
            try:
                for _ in range(2):
                    one(li, n)
            except Mismatch as m:
                found.append(1)
                chk.violation(m.what, dict(kind='exact', n=n))
                return
            chk.count('unconfirmed')
    parallel(range(rounds), safe, lanes=8, stop=lambda: bool(found))


# ---- joining ----

STEP = 0.25
JTOL = 0.4
R, HZ = 8, 30
ALLOCC = ['free', 'host', 'silent', 'mute', 'full', 'bound', 'closer']


def join_scripts(chk, full):
    """all scripts with the outcomes that are allowed; the properties hold for all of them"""
    cfg = '''SPECIFICATION Spec
CONSTANTS
 Timeouts = {0,2,4,7,10,99}
 First = {%(o)s}
 Then = {%(o)s}
 Times = {%(t)s}
 R = 8
 N = 0
 Hz = %(h)d
 Attempts = 6
 Tell = TRUE
INVARIANTS NotEarly NotLate GetsIn OnlyTrue AtOnce NoLoss
CHECK_DEADLOCK FALSE
''' % dict(o=', '.join('"%s"' % o for o in ALLOCC), t='1,3,5,9,11' if not full else '1,3,5,9,11,13,17', h=HZ if not full else HZ + 10)
    r = tlc('JoinTiming', cfg, workers=8, heap='6g')
    chk.model('JoinTiming', r)
    sc = {}
    for l in r.lines:
        sc.setdefault(json.dumps(l['s'], sort_keys=True), set()).add((l['out'], l['at']))
    r = []
    for k, v in sorted(sc.items()):
        b = dict(json.loads(k), allowed=sorted(v))
        # what the model allows without a timeout
        b['patient'] = any(o == 'ok' for o, _ in sc[json.dumps(dict(json.loads(k), to=99), sort_keys=True)])
        r.append(b)
    return r


class Occupant:
    """binds the identifier in one of several ways"""
    def __init__(self, kind, name):
        self.kind, self.socks, self.th, self.over = kind, [], None, False
        addr = '\0' + name + '\0' * (107 - len(name))
        s = socket.socket(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        self.socks.append(s)
        try:
            s.bind(addr)
        except OSError:
            s.close()
            raise
        if kind != 'bound':
            s.listen(0 if kind == 'full' else 32)
        if kind == 'full':
            for _ in range(20):
                c = socket.socket(socket.AF_UNIX, socket.SOCK_SEQPACKET)
                c.setblocking(False)
                self.socks.append(c)
                try:
                    c.connect(addr)
                except BlockingIOError:
                    break
        if kind in ('mute', 'closer'):
            s.settimeout(0.05)
            self.th = threading.Thread(target=self.serve, daemon=True)
            self.th.start()

    def serve(self):
        held = []
        while not self.over:
            try:
                c, _ = self.socks[0].accept()
            except OSError:
                continue
            if self.kind == 'closer':
                c.close()
                continue
            held.append(c)
            try:
                c.settimeout(0.2)
                held += [socket.socket(fileno=f) for f in socket.recv_fds(c, 1 << 16, 8)[1]]
            except OSError:
                pass
        for c in held:
            c.close()

    def close(self):
        self.over = True
        if self.th:
            self.th.join()
        for s in self.socks:
            s.close()


class Join:
    """one script of JoinTiming"""
    def __init__(self, cmd):
        self.cmd, self.ags, self.occ = cmd, [], None

    def agent(self, name):
        a = Agent(self.cmd, {'AGENT_SIGPIPE': '1'}, name)
        self.ags.append(a)
        a.do('ping')
        return a

    def run(self, b):
        try:
            self.go(b)
        finally:
            self.leave()
            for a in self.ags:
                a.close()
            self.ags = []

    def leave(self):
        o, self.occ = self.occ, None
        if isinstance(o, Agent):
            o.close()
            self.ags.remove(o)
        elif o:
            o.close()

    def enter(self, kind, spare):
        """False: the joiner has the identifier"""
        if kind == 'free':
            self.leave()
        elif kind == 'host':
            self.occ = spare.pop()
            r = self.occ.do('join', e='h', t='h', ident=self.ident, label=['h'], aff=True, types='A', timeout=8000)
            if not r.get('ok'):
                raise Mismatch('join of a host: %s' % r)
        else:
            try:
                self.occ = Occupant(kind, self.ident)
            except OSError:
                return False
        return True

    def go(self, b):
        self.ident = ident('jt')
        kinds = [b['first']] + [e['occ'] for e in b['evs']]
        J = self.agent('J')
        spare = [self.agent('H') for k in kinds if k == 'host'] + [self.agent('H')]
        self.enter(b['first'], spare)
        J.do('ping', t='e')
        t0 = time.time()
        to = b['to'] * 250 if b['to'] != 99 else random.Random(json.dumps(b)).choice((None, None, 'max', 2 ** 62, 10 ** 9))
        q = J.start('join', e='e', t='e', ident=self.ident, label=['e'], aff=b['aff'], types='A', timeout=to)
        r, fired = None, -9
        for e in b['evs'] + [dict(at=HZ, occ=None)]:
            due = t0 + e['at'] * STEP
            try:
                r = J.wait_quietly(q, due - time.time())
            except queue.Empty:
                pass
            if r is not None:
                break
            if time.time() > due + 0.1:
                raise Slip()
            if e['occ'] is None:
                break
            fired = e['at']
            if not self.enter(e['occ'], spare):
                r = J.wait(q, 'join on a free identifier', 5)
                break
        what = 'join(%s) with %s' % ('%.2f s' % (b['to'] / 4) if b['to'] != 99 else to, self.ident)
        outs = {}
        for o, at in b['allowed']:
            outs.setdefault(o, []).append(at)
        if r is None:
            if 'pending' not in outs:
                raise Mismatch('%s has not returned after %.1f s' % (what, HZ * STEP))
            # it waits for a host
            self.leave()
            h = spare.pop()
            rh = h.do('join', e='h', t='h', ident=self.ident, label=['h'], aff=True, types='A', timeout=8000)
            if not rh.get('ok'):
                raise Mismatch('join of a late host: %s' % rh)
            since = time.time()
            r = J.wait(q, what + ' when there is a host at last', 10)
            if not r.get('ok') or time.time() - since > 2 * R * STEP + JTOL:
                raise Mismatch('%s gives %s %.1f s after a host has come' % (what, r, time.time() - since))
            self.use(J)
            return
        out = 'ok' if r.get('ok') else r['err'].split()[0]
        at = r['us'] / 1e6
        if out == 'ok' and 'ok' not in outs and b['to'] != 99 and b['patient'] and at <= (b['to'] + R) * STEP + JTOL:
            outs['ok'] = [b['to'] + R]      # a retry interval too late is allowed
        if out not in outs:
            raise Mismatch('%s gives %s after %.2f s; expected %s' % (what, r, at, outs))
        last = max(outs[out])
        if out == 'Timeout':
            last = max(last, b['to'] + R)
            if at < b['to'] * STEP:
                raise Mismatch('%s times out after %.3f s' % (what, at))
        if at > last * STEP + JTOL:
            raise Mismatch('%s gives %s only after %.2f s, at most %.2f s were allowed' % (what, out, at, last * STEP))
        if out == 'ok' and at > fired * STEP + 0.1:
            self.use(J)

    def use(self, J):
        r = J.do('send', e='e', t='e', sel=['l', 'e'], mode='m', id=7)
        g = J.do('recv', e='e', t='e', timeout=3000)
        if not r.get('ok') or g.get('msg', {}).get('id') != 7:
            raise Mismatch('the new endpoint cannot use the bus: send %s, recv %s' % (r, g))


def brief_join(b):
    return dict(may_host=b['aff'], timeout=None if b['to'] == 99 else b['to'] * STEP,
                bound=[[0, b['first']]] + [[e['at'] * STEP, e['occ']] for e in b['evs']],
                allowed=sorted({o for o, _ in b['allowed']}))
