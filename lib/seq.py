"""Spec -> code: behaviours of BusSeq replayed into the implementation."""
import random, re, time
from vlib import *

PROBE = 60000
ATOMS = {}


class Lane:
    """A set of agent processes; `layout` "one": a single process, "each": one per endpoint"""
    def __init__(self, cmd, layout, env=None):
        self.cmd, self.layout, self.env = cmd, layout, env
        self.agents = {}
        self.used = 0

    def key(self, e):
        return 'one' if self.layout == 'one' else e

    def agent(self, e):
        k = self.key(e)
        a = self.agents.get(k)
        if a is None:
            cmd = self.cmd(e) if callable(self.cmd) else self.cmd
            a = self.agents[k] = Agent(cmd, self.env(e) if callable(self.env) else self.env, k)
        return a

    def all(self):
        return list(self.agents.values())

    def kill(self, e):
        a = self.agents.pop(self.key(e))
        a.kill()
        a.close()

    def close(self):
        for a in self.agents.values():
            a.close()
        self.agents = {}


def conc(atom, amap):
    return amap.get(atom, atom)


def conc_sel(sel, amap):
    if sel[0] == 'l':
        return ['l', conc(sel[1], amap)]
    return [sel[0]] + [conc_sel(x, amap) if isinstance(x, list) else x for x in sel[1:]]


AMAPS = [{'x': 'x', 'y': 'y'}, {'x': '', 'y': 'y'}, {'x': 'foo', 'y': 'foobar'}, {'x': 'X', 'y': 'x'},
         {'x': 'a' * 22 + 'b', 'y': 'a' * 23}, {'x': 'a' * 300 + 'x', 'y': 'a' * 300 + 'y'},
         {'x': 'gr\u00fcn', 'y': 'gru\u0308n'}, {'x': ' x', 'y': 'x '}, {'x': 'x\u0000', 'y': 'x'}, {'x': '\U0001f680', 'y': '~n'}]
# (C strings contain no NUL)
CMAPS = [m for m in AMAPS if not any('\0' in v for v in m.values())]


class Replay:
    noise = 0       # threads of an endpoint that send to nobody while it drops its receiver

    def __init__(self, lane, beh, unit=None, amap=None, lens=None, idle=15, timescale=1000):
        """unit: seconds per logical time unit in real time, None: virtual clock (1 unit = 1 s)"""
        self.lane, self.beh, self.unit = lane, beh, unit
        self.amap, self.idle, self.ts = amap or {}, idle, timescale
        self.scale = beh.get('scale', 1)
        self.lens = lens or (lambda i: i * 37 % 300)
        self.ident = ident('q')
        self.mon, self.monlog = False, []
        self.probe = PROBE
        self.joined = set()
        self.rd, self.sd = set(), set()
        self.token, self.montoken, self.tok = '', '', {}
        self.vers, self.hostver = getattr(lane, 'vers', None), '?'

    def do(self, e, op, **kw):
        return self.lane.agent(e).do(op, e=e, t=e, **kw)

    def patience(self, i, exp):
        """what is there arrives whatever the timeout, also without one"""
        return self.idle if exp == ['t'] else (None, 10000)[(i + len(self.beh['hist'])) // 2 % 2]

    def ttl(self, t):
        return round(t * (self.unit or self.scale) * 1000)

    def drain_mon(self, until):
        r = self.do('mon', 'drain', until=until, idle=10000, total=10000)
        for g in r['got']:
            if g.get('id', 0) < PROBE:
                self.monlog.append(self.outcome(g))
        if r['end'] != 'until':
            raise Mismatch('the bus does not route a message to an idle endpoint within 10 s (%s)' % r['end'])

    def barrier(self, e):
        if not self.mon:
            return
        if e not in self.sd:
            e = 'mon'
        self.probe += 1
        r = self.do(e, 'send', sel=['l', '~m'], mode='u', ty='C', id=self.probe)
        if not r.get('ok'):
            raise Mismatch('send by %s fails: %s' % (e, r))
        self.drain_mon(self.probe)

    def outcome(self, g):
        if 'err' in g:
            return ['d'] if g['err'] == 'Decode' else ['err', g['err']]
        if not g['intact']:
            raise Mismatch('message %s arrived with another content' % g)
        return ['m', g['id'], g['ty']]

    def refusal(self, r):
        k = r.get('err') or ''
        v = re.fullmatch(r'VersionMismatch\(Version\(\((\d+), (\d+), (\d+)\)\)\)', k)
        return 'VersionMismatch ' + '.'.join(v.groups()) if v else k.split()[0] if k.startswith('TokenMismatch') else k

    def elected(self, e):
        self.token = self.tok[e]
        if self.vers:
            self.hostver = self.vers[e]
        self.follow()

    def follow(self):
        """mon joins the bus, or the new bus after an election"""
        if self.mon and self.vers and self.vers['mon'] != self.hostver:
            # a new process, of a version that can join
            self.lane.kill('mon')
            self.mon = False
        if self.vers:
            self.vers['mon'] = self.hostver
        if self.mon and self.montoken != self.token:
            r = self.do('mon', 'recv', timeout=0)
            if r.get('err', '').split()[0] != 'TokenMismatch':
                raise Mismatch('an endpoint with another token than that of the new host: recv gives %s' % r)
            self.do('mon', 'dropr'), self.do('mon', 'drops')
            self.mon = False
        if not self.mon:
            self.montoken = self.token
            r = self.do('mon', 'join', ident=self.ident, label=['~m'], token=self.token, aff=False, types='ABCY', timeout=15000)
            if not r.get('ok'):
                raise Mismatch('an endpoint cannot join a bus that exists: %s' % r)
            self.mon = True
            self.monlog = []
        else:
            r = self.do('mon', 'recv', timeout=0)
            if r.get('err') != 'Timeout':
                self.monlog.append(self.outcome(r['msg']) if 'msg' in r else ['err', r['err']])

    def step(self, i, x):
        op, e = x['op'], x.get('e')
        if op == 'join':
            types = ''.join(sorted(x['types']))
            r = self.do(e, 'join', ident=self.ident, label=[conc(a, self.amap) for a in x['label']], token=x['token'],
                        aff=x['aff'], types=types, timeout=40 if x['exp'] == 'none' else 15000)
            want = {'elect': {'ok': True}, 'connect': {'ok': True}, 'token': {'err': 'TokenMismatch'},
                    'none': {'err': 'Timeout'}, 'version': {'err': 'VersionMismatch ' + self.hostver}}[x['exp']]
            got = {k: r[k] for k in ('ok', 'err') if k in r}
            if x['exp'] in ('token', 'version') and r['us'] > 1900000:
                raise Mismatch('join of %s: refused only after %d ms' % (e, r['us'] // 1000))
            if got != want:
                raise Mismatch('join of %s: %s, expected %s' % (e, got, want))
            if 'ok' in want:
                self.tok[e] = x['token']
                self.rd.add(e), self.sd.add(e)
                if x['exp'] == 'elect':
                    self.elected(e)
                if not x.get('quiet'):
                    self.barrier(e)
        elif op == 'send':
            r = self.do(e, 'send', sel=conc_sel(x['sel'], self.amap), mode=x['mode'], ttl=self.ttl(x['ttl']), ty=x['ty'],
                        id=x['id'], len=self.lens(x['id']))
            if x.get('elects'):
                self.elected(e)
            if x['exp'] == 'ok':
                if not r.get('ok'):
                    raise Mismatch('send by %s fails: %s' % (e, r))
                if not x.get('quiet'):
                    self.barrier(e)
            elif self.refusal(r) != {'token': 'TokenMismatch', 'version': 'VersionMismatch ' + self.hostver}[x['exp']]:
                raise Mismatch('send by %s: %s, expected a %s mismatch' % (e, r, x['exp']))
        elif op == 'recv':
            exp = x['exp']
            r = self.do(e, 'recv', timeout=self.patience(i, exp))
            got = ['t'] if r.get('err') == 'Timeout' else ['token'] if r.get('err') == 'TokenMismatch' else \
                ['version'] if self.refusal(r) == 'VersionMismatch ' + self.hostver else \
                ['d'] if r.get('err') == 'Decode' else self.outcome(r['msg']) if 'msg' in r else ['err', r['err']]
            if got != exp[:3]:
                raise Mismatch('recv by %s: %s, expected %s' % (e, got, exp))
            if x.get('elects'):
                self.elected(e)
            if x.get('rejoins'):
                self.barrier(e)
        elif op == 'dropr':
            k = self.noise if e in self.sd else 0
            r = self.do(e, 'dropr', **({'noise': k} if k else {}))
            if 'err' in r:
                raise Mismatch('send to nobody by %s, which drops its receiver: %s' % (e, r))
            self.rd.discard(e)
        elif op == 'drops':
            self.do(e, 'drops')
            self.sd.discard(e)
        elif op == 'adv':
            if self.unit:
                time.sleep(x['t'] * self.unit)
            else:
                for a in self.lane.all():
                    a.do('adv', ms=round(x['t'] * self.ts * self.scale))
        elif op == 'kill':
            if x['host'] and self.mon:
                self.check_mon(x['mon'])
                self.monlog = []
            self.lane.kill(e)
            self.rd.discard(e), self.sd.discard(e)
        elif op == 'reborn':
            pass
        else:
            raise ToolError('operation %s' % op)

    def check_mon(self, want):
        want = [w[:3] for w in want]
        if self.monlog != want:
            raise Mismatch('monitor endpoint received %s, expected %s' % (self.monlog, want))

    def run(self):
        i, x = -1, {'op': 'start'}
        try:
            for i, x in enumerate(self.beh['hist']):
                self.step(i, x)
            x = {'op': 'end'}
            self.finals()
            fin = self.beh['finals']
            for e in sorted(fin):
                if e == 'mon':
                    if self.mon:
                        self.check_mon(fin[e])
                    continue
                want = [w[:3] for w in fin[e]]
                r = self.do(e, 'drain', max=len(want), idle=10000, total=10000)
                got = [self.outcome(g) for g in r['got']]
                r = self.do(e, 'drain', idle=self.idle, max=5)
                got += [self.outcome(g) for g in r['got']]
                if r['end'] == 'err':
                    got.pop()
                if got != want:
                    raise Mismatch('in the end %s received %s, expected %s' % (e, got, want))
        except Mismatch as m:
            raise Mismatch('step %d (%s %s): %s' % (i + 1, x['op'], x.get('e', ''), m.what), dict(step=i + 1))

    def finals(self):
        pass

    def cleanup(self):
        for e in list(self.rd):
            self.do(e, 'dropr')
        for e in list(self.sd):
            self.do(e, 'drops')
        if self.mon:
            self.do('mon', 'dropr')
            self.do('mon', 'drops')


def annotate(beh):
    """marks the operations at which mon has to follow an election"""
    return beh


def scaled(behs):
    """the same behaviours with other units of time: ttls below a second, above a minute, of a day"""
    return [dict(b, scale=(1, 0.131, 61, 3607, 0.2571, 4.4)[i % 6]) for i, b in enumerate(behs)]


def replay_all(chk, cmd, behs, layout='one', unit=None, lanes=10, amaps=None, env=None, what='behaviours', deadline=None,
               max_violations=3, lens=None, recycle=40, cls=Replay, vers=None, mk=None):
    """Replays behaviours; a mismatch is confirmed in fresh processes before it is reported."""
    pool = {}
    lock = threading.Lock()
    found = []

    def new_lane():
        lane = mk(layout) if mk else Lane(cmd, layout, env)
        if vers:
            lane.vers = dict(vers)
            lane.env = lambda e: dict(env or {}, IPMB_VERIF_VERSION=lane.vers[e])
        return lane

    def once(lane, beh, amap):
        r = cls(lane, beh, unit=unit, amap=amap, lens=lens)
        r.run()
        r.cleanup()

    def one(li, ib):
        i, beh = ib
        if deadline and time.time() > deadline:
            chk.count('skipped_for_time')
            return
        amap = amaps[i % len(amaps)] if amaps else None
        lane = pool.get(li)
        if lane is None:
            lane = pool[li] = new_lane()
        try:
            once(lane, beh, amap)
            lane.used += 1
            chk.trace(dict(layout=layout, unit=unit, ops=[compact(x) for x in beh['hist']]))
            chk.count(what)
            if lane.used >= recycle or vers:
                pool.pop(li).close()
        except Mismatch as m:
            lane.close()
            pool.pop(li)
            n = 0
            last = m
            for _ in range(3):
                fresh = new_lane()
                try:
                    once(fresh, beh, amap)
                except Mismatch as m2:
                    n += 1
                    last = m2
                    break
                finally:
                    fresh.close()
            if n:
                with lock:
                    found.append(last)
                chk.violation('%s: %s' % (what, last.what),
                              dict(kind='seq', who=beh.get('who'), layout=layout, unit=unit, amap=amap, behaviour=beh, first=m.what))
            else:
                chk.count('unconfirmed_mismatches')
                chk.notes.setdefault('unconfirmed', []).append(m.what)
    try:
        parallel(enumerate(behs), one, lanes=lanes, stop=lambda: len(found) >= max_violations)
    finally:
        for l in pool.values():
            l.close()


def compact(x):
    op = x['op']
    e = x.get('e', '')
    if 'res' in x:
        return json.dumps(x)
    if op == 'join':
        return 'join %s label=%s token=%s host=%s -> %s' % (e, x['label'], x['token'], x['aff'], x['exp'])
    if op == 'send':
        return 'send %s #%d %s %s ttl=%s %s -> %s' % (e, x['id'], x['mode'], x['sel'], x['ttl'], x['ty'], x['to'])
    if op == 'recv':
        return 'recv %s -> %s' % (e, x['exp'])
    return '%s %s' % (op, e or x.get('t', ''))
