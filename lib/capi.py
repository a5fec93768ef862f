"""Replays through the C interface and the C++ classes."""
import random
from vlib import *
from seq import Replay, Lane
from attach import AttachReplay

BACKENDS = ('c', 'cpp', 'rust')


class CLane(Lane):
    """endpoints are used through Rust, C or C++; `who` says through which"""
    def __init__(self, cmds, layout):
        super().__init__(None, layout)
        self.cmds, self.who = cmds, {}

    def key(self, e):
        w = self.who.get(e, 'rust')
        return w if self.layout == 'one' else '%s.%s' % (e, w)

    def agent(self, e):
        k = self.key(e)
        a = self.agents.get(k)
        if a is None:
            cmd, env = self.cmds[self.who.get(e, 'rust')]
            a = self.agents[k] = Agent(cmd, env, k)
        return a


def commands():
    cmds, env = build_capi()
    r = {k: (c, env) for k, c in cmds.items()}
    r['rust'] = (build_agent(), {'AGENT_MARKS': '1'})
    return r


def cast(behs, seed, backends=BACKENDS):
    """who uses which interface: what cannot be sent through C is sent through Rust"""
    rnd = random.Random(seed)
    for b in behs:
        b['who'] = {}
        for e in sorted({x['e'] for x in b['hist'] if 'e' in x}):
            bad = any(x['op'] == 'send' and x['e'] == e and x['ty'] == 'BadY' for x in b['hist'] if 'e' in x)
            b['who'][e] = 'rust' if bad else rnd.choice(backends)
    return behs


def mixins(base):
    class R(base):
        def __init__(self, lane, beh, **kw):
            lane.who = dict(beh['who'])
            super().__init__(lane, beh, **kw)

        def barrier(self, e):
            if not self.mon:
                return
            if e not in self.sd:
                e = 'mon'
            self.probe = 60000 + (self.probe + 1) % 5000
            r = self.do(e, 'send', sel=['l', '~m'], mode='u', ty='Y', id=self.probe)
            if not r.get('ok'):
                raise Mismatch('send by %s fails: %s' % (e, r))
            self.drain_mon(self.probe)
    return R


class CReplay(mixins(Replay)):
    pass


class CAttach(mixins(AttachReplay)):
    pass


# ------------------------------------------------------------------- handles
def api_walks(chk, name, num, depth, host, procs=4, seed=None, **more):
    rare = dict(label=3, oleaf=2, obool=4, onot=3, obin=3, badjoin=6, mdata=2, drop=4, get=2, retr=2, join=2, obj=2, reg=2)
    rare.update(more)
    mc = 'cC(op) == CASE ' + ' [] '.join('op = "%s" -> RandomElement(1..%d) = 1' % x for x in rare.items()) + ' [] OTHER -> TRUE\n' + \
        'cP(S) == IF S = {} THEN {} ELSE {RandomElement(S)}'
    cfg = ('SPECIFICATION Spec\nCONSTANTS\n Atoms = {"x", "y", "xy", ""}\n Fmts = {0, 1, 255, 256, 59999}\n Lens = {0, 1, 100, 5000, 70000}\n'
           ' Idx = {0, 1, 2, 1000000}\n MaxH = 14\n HostSelf = %s\n D = %d\n Chance <- cC\n Pick <- cP\nINVARIANTS OnlyMatching CountsPositive\n'
           'CHECK_DEADLOCK FALSE\n' % (str(host).upper(), depth))
    out = [None] * procs
    seed = SEED if seed is None else seed

    def one(_, i):
        out[i] = tlc('CApi', cfg, mc, workers=1, simulate=(num + procs - 1) // procs, depth=depth + 3, seed=seed * 1000 + i, heap='1g')
    parallel(range(procs), one, lanes=procs)
    behs = []
    for i, r in enumerate(out):
        chk.model('%s.%d' % (name, i), r)
        behs += r.lines
    return behs


def api_exhaustive(chk):
    cfg = ('SPECIFICATION Spec\nCONSTANTS\n Atoms = {"x"}\n Fmts = {1}\n Lens = {0}\n Idx = {0, 1}\n MaxH = 4\n HostSelf = FALSE\n D = %d\n'
           ' Chance <- cC\n Pick <- cP\nINVARIANTS OnlyMatching CountsPositive\nCHECK_DEADLOCK FALSE\n' % (4 if TIER == 'quick' else 5))
    r = tlc('CApi', cfg, 'cC(op) == TRUE\ncP(S) == S', heap='6g')
    chk.model('CApi/all', r)


class Handles:
    """two processes: the one whose handles are used, and the other endpoint of the bus"""
    def __init__(self, cmds, kind):
        cmd, env = cmds[kind]
        self.kind = kind
        self.a, self.m = Agent(cmd, env), Agent(*cmds['rust'])
        self.base, self.n, self.probe = None, 0, 0

    def close(self):
        self.a.close()
        self.m.close()

    def do(self, f, a, **kw):
        r = self.a.do('api', t='t', f=f, a=a, **kw)
        if r.get('panic'):
            raise Mismatch('%s: %s' % (f, r['panic']))
        return r

    def follow(self):
        r = self.m.do('join', e='mon', t='t', ident=self.ident, label=['~m'], token='tk', aff=True, types='Y', timeout=15000)
        if not r.get('ok'):
            raise Mismatch('an endpoint of the Rust interface cannot join: %s' % r)

    def drain(self):
        r = self.m.do('drain', e='mon', t='t', until=self.probe, idle=10000, total=10000)
        if r['end'] != 'until':
            raise Mismatch('the bus does not route a message within 10 s')
        for g in r['got'][:-1]:
            if not g['intact']:
                raise Mismatch('a message arrives with another content: %s' % g)
            self.got.append([g['id'], g['len'], len(g.get('objs', [])), len(g.get('regs', []))])

    def run(self, b):
        i, x = -1, dict(f='start')
        mon = not b['host']
        self.ident = ident('h')
        self.got, ids = [], {}
        if mon:
            self.follow()
        try:
            for i, x in enumerate(b['hist']):
                f, a, e, h = x['f'], x['a'], x['exp'], x['h']
                kw = {}
                if f in ('join', 'badjoin'):
                    kw = dict(ident=self.ident, n=i)
                elif f == 'rnew':
                    kw = dict(size=64 + i * 731)
                elif f == 'recv':
                    kw = dict(timeout=15 if e['c'] else (10000, 0xffffffff)[i % 2])
                r = self.do(f, a, h=h, **kw)
                if e and 'c' in e and r['c'] != e['c']:
                    raise Mismatch('%s returns %s, expected %s' % (f, r['c'], e['c']))
                if f in ('onew', 'rnew'):
                    if r.get('c', 0):
                        raise Mismatch('%s returns %s' % (f, r['c']))
                    ids[e['id']] = r['ino']
                elif e and 'id' in e and not r.get('skip'):
                    w = ids[e['id']] if e['id'] else None
                    if r['ino'] != w:
                        raise Mismatch('%s%s gives %s, expected %s' % (f, a, r['ino'], w))
                    if e.get('ref') and r.get('ref') != e['ref']:
                        raise Mismatch('%s: the reference count is %s, the references are %s' % (f, r.get('ref'), e['ref']))
                if f == 'mdata' and (r['fmt'], r['len'], r['intact']) != (e['fmt'], e['len'], True):
                    raise Mismatch('the content of a message is %s, expected %s' % (r, e))
                if f == 'join' and not e['c'] and not mon:
                    mon = True
                    self.follow()
                if f == 'send' and mon:
                    self.probe = 60000 + (self.probe + 1) % 5000
                    r = self.do('probe', [a[0], self.probe])
                    if r['c']:
                        raise Mismatch('send returns %s' % r['c'])
                    n = len(self.got)
                    self.drain()
                    if len(self.got) - n != x['x']['mon']:
                        raise Mismatch('the endpoint of the Rust interface receives %s, expected %d messages' % (self.got[n:], x['x']['mon']))
            x = dict(f='end')
            for h, objs, regs in b['msgs']:
                for f, s in ('oget', objs), ('rget', regs):
                    for j in range(len(s) + 1):
                        r = self.do(f, [h, j])
                        w = ids[s[j]] if j < len(s) else None
                        if not r.get('skip') and r['ino'] != w:
                            raise Mismatch('%s[%d, %d] gives %s, expected %s' % (f, h, j, r['ino'], w))
            names = dict(label='ldrop', op='odrop', msg='mdrop', obj='ofree', reg='rdrop', tx='txdrop', rx='rxdrop')
            left = b['left'].items() if isinstance(b['left'], dict) else [(j + 1, k) for j, k in enumerate(b['left'])]
            for h, k in left:
                self.do(names[k], [int(h)])
        except Mismatch as m:
            raise Mismatch('step %d (%s): %s' % (i + 1, x['f'], m.what), dict(step=i + 1))
        finally:
            if mon:
                self.m.do('dropr', e='mon', t='t'), self.m.do('drops', e='mon', t='t')
        self.n += 1
        return None if b['host'] else self.used()

    def used(self):
        v, f = self.a.do('live', t='t'), self.a.do('fds', t='t')
        return dict(blocks=v['blocks'], descriptors=f['n'], threads=f['threads'], maps=f['maps'])


def api_replay(chk, cmds, behs, lanes=8):
    pool, found, lock = {}, [], threading.Lock()

    def confirmed(kind, b):
        for _ in range(3):
            h = Handles(cmds, kind)
            try:
                h.run(b)
            except Mismatch as m:
                return m
            finally:
                h.close()

    def leaks(kind, b):
        """what stays behind, every time"""
        h = Handles(cmds, kind)
        try:
            us = [h.run(b) for _ in range(5)]
        finally:
            h.close()
        return {k: [u[k] for u in us] for k in us[0] if all(us[i][k] < us[i + 1][k] for i in range(1, 4))}

    def one(li, b):
        kind = ('c', 'cpp')[li % 2]
        h = pool.get(li)
        if h is None:
            h = pool[li] = Handles(cmds, kind)
        try:
            u = h.run(b)
        except Mismatch as m:
            h.close()
            pool.pop(li)
            m = confirmed(kind, b)
            if m:
                with lock:
                    found.append(m)
                chk.violation('handles (%s): %s' % (kind, m.what), dict(kind='capi', interface=kind, behaviour=b))
            else:
                chk.count('unconfirmed_mismatches')
            return
        chk.trace(dict(interface=kind, calls=['%s%s -> %s' % (x['f'], x['a'], x['exp']) for x in b['hist']]))
        chk.count('handle_walks')
        if u:
            if h.base and u != h.base:
                more = leaks(kind, b)
                if more:
                    with lock:
                        found.append(more)
                    chk.violation('handles (%s): a history leaves behind %s' % (kind, more), dict(kind='capi', interface=kind, behaviour=b))
                else:
                    chk.count('settled')
            h.base = u
        if h.n > 60:
            h.close()
            pool.pop(li)
    try:
        parallel(behs, one, lanes=lanes, stop=lambda: len(found) >= 3)
    finally:
        for h in pool.values():
            h.close()
