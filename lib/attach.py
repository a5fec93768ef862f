"""Behaviours of BusAttach, replayed into the implementation."""
from vlib import *
from seq import Replay, replay_all
import busseq


class AttachReplay(Replay):
    def __init__(self, lane, beh, **kw):
        super().__init__(lane, beh, **kw)
        self.ino = {}        # resource -> inode
        self.kind = {}
        self.home = {}       # region -> process that created it
        self.check_refs = True
        self.of = {}         # handle -> resource
        for x in beh['hist']:
            if x['op'] == 'new':
                self.of[x['h']] = x['r']
            elif x['op'] == 'clone':
                self.of[x['as']] = self.of[x['h']]
            elif x['op'] == 'recv' and x['keep']:
                self.of.update({x['base'] + j + 1: y for j, y in enumerate(list(x['o']) + list(x['r']))})
        self.att = {}        # message -> inodes of its objects and regions

    def outcome(self, g):
        r = super().outcome(g)
        if r[0] == 'm' and r[1] in self.att:
            for n, want in zip(('objs', 'regs'), self.att[r[1]]):
                if g.get(n, []) != want:
                    raise Mismatch('message %d arrived with %d %s %s, sent with %d %s' %
                                   (r[1], len(g.get(n, [])), n, g.get(n, [])[:6], len(want), want[:6]))
        return r

    def hn(self, h):
        return '%s.%s' % (self.ident, h)

    def refs(self, want):
        by = {}
        for r, e in self.home.items():
            by.setdefault(self.lane.key(e), (e, []))[1].append(r)
        for e, rs in by.values():
            got = self.lane.agent(e).do('rpeek', t=e, names=['%s.obs%d' % (self.ident, r) for r in rs])['refs']
            for r, g in zip(rs, got):
                if g is not None and g != want[r - 1]:
                    raise Mismatch('the reference count of region %d is %d, its references are %d' % (r, g, want[r - 1]))

    def step(self, i, x):
        op, e = x['op'], x.get('e')
        if self.check_refs and self.home:
            self.refs(x['refs'])
        if op == 'new':
            name = self.hn(x['h'])
            if x['k'] == 'o':
                r = self.do(e, 'onew', kind='memfd', name=name)
            else:
                r = self.do(e, 'rnew', size=64, name=name)
                self.do(e, 'robj', name=name, **{'as': '%s.obs%d' % (self.ident, x['r'])})
                self.home[x['r']] = e
            self.ino[x['r']] = r['ino']
        elif op == 'clone':
            o = 'oclone' if x['k'] == 'o' else 'r' + x['how']
            self.do(e, o, name=self.hn(x['h']), **{'as': self.hn(x['as'])})
        elif op == 'droph':
            self.do(e, 'odrop' if x['k'] == 'o' else 'rdrop', name=self.hn(x['h']))
        elif op == 'write':
            if x['k'] == 'o':
                self.do(e, 'owrite', name=self.hn(x['h']), v=x['v'])
            else:
                self.do(e, 'rmap', name=self.hn(x['h']), lo=0, hi=64, write=[[7, x['v']]])
        elif op == 'read':
            if x['k'] == 'o':
                v = self.do(e, 'oread', name=self.hn(x['h']))['v']
            else:
                v = self.do(e, 'rmap', name=self.hn(x['h']), lo=7, hi=8, read=[0])['bytes'][0]
            if v != x['v']:
                raise Mismatch('through handle %d of %s the content is %s, expected %s' % (x['h'], e, v, x['v']))
        elif op == 'send':
            def names(hs):
                last = {h: i for i, h in enumerate(hs)}
                return [self.hn(h) if x['mv'] and last[h] == i else '=' + self.hn(h) for i, h in enumerate(hs)]
            r = self.do(e, 'send', sel=x['sel'], mode=x['mode'], ttl=self.ttl(x['ttl']), ty=x['ty'], id=x['id'],
                        len=self.lens(x['id']), objs=names(x['ho']), regs=names(x['hr']))
            if not r.get('ok'):
                raise Mismatch('send by %s fails: %s' % (e, r))
            self.att[x['id']] = [[self.ino[self.of[h]] for h in hs] for hs in (x['ho'], x['hr'])]
            self.barrier(e)
        elif op == 'recv':
            exp = x['exp']
            kw = dict(keep='%s.k' % self.ident) if x['keep'] else {}
            r = self.do(e, 'recv', timeout=self.patience(i, exp), **kw)
            got = ['t'] if r.get('err') == 'Timeout' else ['d'] if r.get('err') == 'Decode' else \
                self.outcome(r['msg']) if 'msg' in r else ['err', r['err']]
            if got != exp[:3]:
                raise Mismatch('recv by %s: %s, expected %s' % (e, got, exp))
            if 'msg' in r:
                for k, n in (('o', 'objs'), ('r', 'regs')):
                    want = [self.ino[y] for y in x[k]]
                    if r['msg'].get(n, []) != want:
                        raise Mismatch('message %d arrived with %d %s %s, sent with %d %s' %
                                       (r['msg']['id'], len(r['msg'].get(n, [])), n, r['msg'].get(n, [])[:6], len(want), want[:6]))
                if x['keep']:
                    ren = [['%s.k.o%d' % (self.ident, j), self.hn(x['base'] + j + 1)] for j in range(len(x['o']))] + \
                          [['%s.k.r%d' % (self.ident, j), self.hn(x['base'] + len(x['o']) + j + 1)] for j in range(len(x['r']))]
                    if ren:
                        self.do(e, 'rename', pairs=ren)
        else:
            super().step(i, x)

    def run(self):
        super().run()

    def finals(self):
        if self.check_refs and self.home:
            self.refs(self.beh['refs'])

    def cleanup(self):
        super().cleanup()
        for a in self.lane.all():
            a.do('forget', prefix=self.ident + '.')


def walks(chk, name, num, depth, procs=4, seed=None, ns=(0, 1, 2, 3), maxh=12, maxres=5, **kw):
    kw = dict(dict(rare=dict(join=1, dropr=6, drops=10, adv=4, new=2, clone=3, droph=3, write=3, read=2), ttls=(0, 15),
                   labels=(('x',), ('y',), ('x', 'y')), sels='{T, L("x"), L("y"), L("z")}', eps='abc'), **kw)
    mc = busseq.mc_of(**kw) + '\ncNs == {%s}\n' % ','.join(map(str, ns))
    cfg = busseq.cfg_of(depth, invariants='OnlyMatching InOrderOnce UnicastOnce NoneLeft Known').replace('SPECIFICATION Spec', 'SPECIFICATION ASpec') \
        .replace('INVARIANTS', ' Ns <- cNs\n MaxH = %d\n MaxRes = %d\nINVARIANTS' % (maxh, maxres))
    out = [None] * procs
    seed = SEED if seed is None else seed

    def one(_, i):
        out[i] = tlc('BusAttach', cfg, mc, workers=1, simulate=(num + procs - 1) // procs, depth=depth + 3, seed=seed * 1000 + i, heap='1g')
    parallel(range(procs), one, lanes=procs)
    behs = []
    for i, r in enumerate(out):
        chk.model('%s.%d' % (name, i), r)
        behs += r.lines
    return behs
