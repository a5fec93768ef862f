"""Checks of objects, regions and registries."""
import random
from vlib import *
from seq import replay_all
import attach, regseq

Q = TIER == 'quick'
GS = ('g', 'k')


def registry(chk, about):
    agent = build_agent()
    regseq.model(chk, 'Registry', 5 if Q else 6)
    ops = regseq.walks(chk, 'Registry/walks', 500 if Q else 5000, 30, gs=GS)
    ops += regseq.walks(chk, 'Registry/one', 400 if Q else 5000, 40, gs=('g',), sizes=(1, 2, 3), tags=('', 's', 'st'), seed=SEED + 1)
    ops += regseq.walks(chk, 'Registry/tight', 300 if Q else 4000, 40, gs=('g',), sizes=(1,), tags=('',), seed=SEED + 2)
    rnd = random.Random(SEED)
    ops += [regseq.large(rnd, rnd.choice((60, 150, 250))) for _ in range(60 if Q else 800)]
    res = regseq.drive(chk, agent, ops)
    bad, fin = regseq.check_traces(chk, 'RegistryTrace', [t for _, t in res], GS)
    mine = [b for b in bad if ('callback' in b[1]) == (about == 'C13')]
    if mine:
        # confirm in fresh processes
        again = regseq.drive(chk, agent, [res[t][0] for t, _, _ in mine[:4]] * 2, lanes=2)
        bad2, _ = regseq.check_traces(chk, 'RegistryTrace/again', [t for _, t in again], GS)
        if bad2:
            for t, why, i in mine[:4]:
                chk.violation('history %d, event %d: %s' % (t, i, why), dict(kind='registry', events=res[t][1][:i]))
        else:
            chk.count('unconfirmed')
    chk.trace(dict(events=[' '.join(str(v) for v in e.values()) for e in res[0][1][:12]]), n=len(res))
    chk.notes['callbacks_run'] = sum(len(e['f']) for _, t in res for e in t)
    chk.notes['reused'] = sum(len([e for e in t if e['op'] == 'alloc']) - len({e['r'] for e in t if e['op'] == 'alloc'}) for _, t in res)
    if about == 'C13' and fin:
        chk.finding('expired-in-use', 'the callback of alloc_with_free runs five seconds after the allocation while the region is still in use '
                            '(%d times in this run)' % len(fin))


def c12(chk):
    registry(chk, 'C12')


def c13(chk):
    registry(chk, 'C13')


BIG = 2000000000


def unbig(x):
    return x if x < BIG - 1 else 2 ** 64 - 1 - (BIG - x)


def bound(r, big=unbig):
    kw = {}
    if r[0] != 'u':
        kw['lo' if r[0] == 'i' else 'lo_excl'] = big(r[1])
    if r[2] != 'u':
        kw['hi' if r[2] == 'e' else 'hi_incl'] = big(r[3])
    return kw


def win_cfg(table, d, sizes, walk):
    return ('SPECIFICATION Spec\nCONSTANTS\n Sizes <- cSizes\n Handles = {1, 2, 3, 4}\n D = %d\n Page = 4096\n Hdr = 12\n Pick <- cPick\n'
            ' Table = %s\nINVARIANTS Inv\nCHECK_DEADLOCK FALSE\n' % (d, 'TRUE' if table else 'FALSE'),
            'cSizes == ' + tla(set(sizes)) + '\ncPick(X) == ' + ('{RandomElement(X)}' if walk else 'X'))


def show(r):
    return {'i': '[', 'x': '(', 'u': '(-'}[r[0]] + '%s, %s' % (r[1], r[3]) + {'e': ')', 'i': ']', 'u': '+)'}[r[2]]


def c17(chk):
    agent = build_agent()
    sizes = [0, 1, 11, 12, 13, 100, 4083, 4084, 4085, 4095, 4096, 4097, 8180, 8192, 20000, 65536, 300001]
    cfg, mc = win_cfg(True, 0, sizes, False)
    r = tlc('Windows', cfg, mc, workers=1)
    chk.model('Windows/table', r)

    # 1. every kind of range, at every interesting place, of every size
    def table(_, t):
        n = t['size']
        a = Agent(agent)
        try:
            rows = list(t['rows'])
            random.Random(SEED).shuffle(rows)
            got = a.do('rnew', name='r', size=n)
            if got.get('size') != n:
                raise Mismatch('a region of size %d: %s' % (n, got))
            a.do('rclone', name='r', **{'as': 's'})
            for i, (rg, want) in enumerate(rows):
                got = a.do('rmap', name='rs'[i % 2], sum=True, **bound(rg))
                if got.get('len', -1) != want:
                    raise Mismatch('mapping %s of a region of %d bytes gives %s, expected %s' % (show(rg), n, got, want),
                                   dict(kind='map', size=n, range=rg))
                if got.get('nonzero'):
                    raise Mismatch('a new region of %d bytes contains %s at %s' % (n, got['nonzero'], show(rg)), dict(kind='map', size=n, range=rg))
                if a.do('rref', name='r')['ref'] != 2:
                    raise Mismatch('mapping changes the reference count', dict(kind='map', size=n, range=rg))
            chk.count('ranges', len(rows))
            chk.trace(dict(size=n, ranges=len(rows), first=[show(x[0]) for x in rows[:5]]))
        except Mismatch as m:
            chk.violation(m.what, m.data or dict(size=n))
        finally:
            a.close()
    parallel(r.lines, table, lanes=8)

    large_windows(chk, agent, r.lines)

    # 2. sequences of windows and writes through several handles, two of them in another process
    cfg, mc = win_cfg(False, 24, sizes[1:], True)
    outs = [None] * 4

    def gen(_, i):
        outs[i] = tlc('Windows', cfg, mc, workers=1, simulate=60 if Q else 1500, depth=27, seed=SEED * 1000 + i, heap='1g')
    parallel(range(4), gen, lanes=4)
    behs = []
    for i, o in enumerate(outs):
        chk.model('Windows/walks.%d' % i, o)
        behs += o.lines
    pairs = {}

    def walk(li, b):
        if li not in pairs:
            p, q = Agent(agent), Agent(agent)
            i = ident('w')
            p.do('join', e='p', t='t', ident=i, label=['p'], types='A', timeout=5000)
            q.do('join', e='q', t='t', ident=i, label=['q'], types='A', timeout=5000)
            pairs[li] = (p, q)
        p, q = pairs[li]
        try:
            p.do('rnew', t='t', name='h1', size=b['size'])
            p.do('rfrom', t='t', name='h1', **{'as': 'h2'})
            p.do('send', e='p', t='t', sel=['l', 'q'], mode='u', id=1, regs=['=h1', '=h2'])
            m = q.do('recv', e='q', t='t', timeout=10000, keep='k')
            if len(m.get('msg', {}).get('regs', [])) != 2:
                raise Mismatch('a message with two regions arrives as %s' % m)
            q.do('rename', t='t', pairs=[['k.r0', 'h3'], ['k.r1', 'h4']])
            for i, x in enumerate(b['hist']):
                ag = p if x['h'] < 3 else q
                name = 'h%d' % x['h']
                if x['op'] == 'write':
                    ag.do('rmap', t='t', name=name, write=[[x['rel'], x['v']]], **bound(x['r']))
                    continue
                got = ag.do('rmap', t='t', name=name, sum=True, **bound(x['r']))
                if got.get('len', -1) != x['len']:
                    raise Mismatch('step %d: mapping %s of a region of %d bytes gives %s, expected %s' % (i + 1, show(x['r']), b['size'], got, x['len']))
                if sorted(got.get('nonzero', [])) != sorted(x['seen']):
                    raise Mismatch('step %d: window %s of handle %d of a region of %d bytes contains %s, expected %s' % (
                        i + 1, show(x['r']), x['h'], b['size'], got['nonzero'], x['seen']))
            chk.trace(dict(size=b['size'], ops=['%s h%d %s' % (x['op'], x['h'], show(x['r'])) for x in b['hist'][:10]]))
            for ag in (p, q):
                ag.do('forget', t='t', prefix='h')
        except Mismatch as m:
            chk.violation(m.what, dict(kind='windows', behaviour=b))
            raise
    try:
        parallel(behs, walk, lanes=6)
    finally:
        for p, q in pairs.values():
            p.close(), q.close()

    # 3. sizes that cannot be provided
    a = Agent(agent)
    try:
        for n in (2 ** 64 - 1, 2 ** 64 - 2, 2 ** 64 - 11, 2 ** 64 - 12, 2 ** 64 - 13, 2 ** 63, 2 ** 63 - 1, 2 ** 63 - 12, 2 ** 63 + 5):
            f0 = a.do('fds')
            got = a.do('rnew', name='x', size=n)
            if not got.get('none'):
                raise Mismatch('a region of %d bytes is provided: %s' % (n, got), dict(size=n))
            f1 = a.do('fds')
            if f1['n'] != f0['n'] or f1['maps'] != f0['maps']:
                raise Mismatch('a refused region of %d bytes leaves something behind' % n, dict(size=n))
            chk.trace()
    finally:
        a.close()


def large_windows(chk, agent, tables):
    """the same table with every number multiplied: regions of many gigabytes (of which few bytes are touched)"""
    def table(_, x):
        t, f = x
        a = Agent(agent)
        try:
            got = a.do('rnew', name='r', size=t['size'] * f)
            if got.get('size') != t['size'] * f:
                raise Mismatch('a region of %d bytes: %s' % (t['size'] * f, got), dict(size=t['size'] * f))
            mem = {}
            rnd = random.Random(SEED)
            rows = rnd.sample(t['rows'], min(len(t['rows']), 260))
            for rg, want in rows:
                lo, hi = rg[1], rg[3]
                big = lambda v, off: unbig(v) if v >= BIG - 1 else (v + off) * f - off
                rg2 = [rg[0], big(lo, rg[0] == 'x'), rg[2], big(hi, rg[2] == 'i')]
                n, kw = want * f, {}
                first = {'i': lo * f, 'x': (lo + 1) * f, 'u': 0}[rg[0]]
                if n > 0:
                    at = rnd.choice((0, n - 1, n // 2))
                    v = rnd.randint(1, 255)
                    kw = dict(read=sorted({0, n - 1, at}))
                got = a.do('rmap', name='r', **bound(rg2, int), **kw)
                if got.get('len', -1) != (n if want >= 0 else -1):
                    raise Mismatch('mapping %s of a region of %d bytes gives %s, expected %s' % (show(rg2), t['size'] * f, got, n),
                                   dict(kind='map', size=t['size'] * f, range=rg2))
                if n > 0:
                    seen = [mem.get(first + o, 0) for o in kw['read']]
                    if got['bytes'] != seen:
                        raise Mismatch('window %s of a region of %d bytes contains %s at %s, expected %s' % (
                            show(rg2), t['size'] * f, got['bytes'], kw['read'], seen), dict(kind='map', size=t['size'] * f, range=rg2))
                    a.do('rmap', name='r', **bound(rg2, int), write=[[at, v]])
                    mem[first + at] = v
            chk.count('large_ranges', len(rows))
            chk.trace(dict(size=t['size'] * f, ranges=len(rows)))
        except Mismatch as m:
            chk.violation(m.what, m.data or dict(size=t['size'] * f))
        finally:
            a.close()
    parallel([(t, f) for t in tables for f in (1 << 17, 1 << 20, 65537) if 4095 <= t['size'] <= 20000], table, lanes=8)


def c11(chk):
    agent = build_agent()
    kw = dict(cls=attach.AttachReplay)
    b = attach.walks(chk, 'BusAttach', 500 if Q else 6000, 24, ttls=(0, 5, 15, 25), tys=('A', 'B', 'BadA'), types=(('A', 'B'), ('A',)))
    replay_all(chk, agent, b, what='walks', **kw)
    replay_all(chk, agent, b[:120 if Q else 1500], layout='each', what='walks_processes', **kw)
    b = attach.walks(chk, 'BusAttach/buffer', 250 if Q else 4000, 30, ttls=(5, 15, 25), seed=SEED + 1,
                     rare=dict(join=3, dropr=3, drops=8, adv=2, new=4, clone=6, droph=3, write=9, read=9))
    replay_all(chk, agent, b, what='buffer_walks', **kw)
    concurrent_refs(chk, agent)


def concurrent_refs(chk, agent):
    """many threads of two processes clone and drop handles of one region: the count is right when they are done"""
    for size in (0, 64):
        p, q = Agent(agent), Agent(agent)
        try:
            i = ident('w')
            p.do('join', e='p', t='t', ident=i, label=['p'], types='A', timeout=5000)
            q.do('join', e='q', t='t', ident=i, label=['q'], types='A', timeout=5000)
            p.do('rnew', t='t', name='h', size=size)
            p.do('send', e='p', t='t', sel=['l', 'q'], mode='u', id=1, regs=['=h'])
            q.do('recv', e='q', t='t', timeout=10000, keep='k')
            q.do('rename', t='t', pairs=[['k.r0', 'h']])
            qs = [(ag, ag.start('rspin', t='t%d' % k, name='h', n=3000 if Q else 60000)) for ag in (p, q) for k in range(4)]
            for ag, x in qs:
                ag.wait(x, 'cloning and dropping handles', 120)
            got = p.do('rref', t='t', name='h')['ref']
            if got != 2:
                raise Mismatch('after concurrent clones and drops the reference count is %d, its references are 2' % got)
            chk.trace(dict(concurrent='8 threads, 2 processes'))
        except Mismatch as m:
            chk.violation(m.what, dict(kind='concurrent'))
        finally:
            p.close(), q.close()


class Waiting(attach.AttachReplay):
    def patience(self, i, exp):
        return self.idle if exp == ['t'] else None


def c10(chk):
    agent = build_agent()
    kw = dict(cls=attach.AttachReplay)
    b = attach.walks(chk, 'BusAttach', 350 if Q else 5000, 24, ttls=(0, 5, 15), ns=(0, 1, 2, 3, 5), maxh=30)
    replay_all(chk, agent, b, what='walks', **kw)
    b = attach.walks(chk, 'BusAttach/processes', 120 if Q else 2000, 30, ttls=(0, 15), ns=(0, 1, 3, 4, 5), seed=SEED + 1, maxh=30,
                     rare=dict(join=1, dropr=10, drops=12, adv=9, new=3, clone=6, droph=8, write=2, read=1))
    replay_all(chk, agent, b, layout='each', what='walks_processes', **kw)
    b = attach.walks(chk, 'BusAttach/many', 200 if Q else 2000, 16, ttls=(0, 15), ns=(0, 0, 1, 5, 63, 64, 65, 100, 126, 127, 189, 252, 253), seed=SEED + 2,
                     maxh=400, rare=dict(join=1, dropr=10, drops=12, adv=9, new=2, clone=9, droph=9, write=3, read=3))
    replay_all(chk, agent, b, what='walks_many', **kw)
    replay_all(chk, agent, b[::2], what='walks_many_waiting', cls=Waiting)
    replay_all(chk, agent, b[:20 if Q else 400], layout='each', what='walks_many_processes', **kw)


PROPS = dict(C10=c10, C11=c11, C17=c17, C12=c12, C13=c13)
_N = 'Each history is executed on the real registry (virtual clock, two processes) and judged by TLC against the specification. '
_A = ('TLA+/TLC: behaviours of BusAttach replayed into the implementation', 'Each generated behaviour is executed on the real library in one or several processes; '
      'identity, order and content of everything received and every reference count are compared with the specification. ')
NOTES = {
    'C10': _A, 'C11': _A,
    'C17': ('TLA+/TLC: tables and behaviours of Windows replayed into the implementation', 'All kinds of ranges at all interesting places of 17 sizes; sampled sequences over four handles in two processes.'),
    'C12': ('TLA+/TLC: model checking of Registry, histories recorded from the code checked against it', _N),
    'C13': ('TLA+/TLC: model checking of Registry, histories recorded from the code checked against it', _N),
}
