"""Payloads of every length over every route."""
from vlib import *

LIMIT = 131040
LABELS = dict(h='h', p='p', q='q')


def model(chk):
    cfg = ('SPECIFICATION Spec\nCONSTANTS\n W = %d\n MaxSel = %d\n MaxPay = %d\n Vals = {0, 1}\n Hops = 2\n Limit = 100\n Table = FALSE\n Over = 0\n Upto = 0\n'
           'INVARIANTS Arrives Whole\nCHECK_DEADLOCK FALSE\n')
    for x in ((4, 5, 5), (2, 6, 6)) if TIER == 'quick' else ((4, 6, 6), (2, 7, 7), (8, 5, 9)):
        chk.model('Frame/W=%d' % x[0], tlc('Frame', cfg % x, heap='4g', timeout=1500))


def table(chk, over, upto, name=''):
    cfg = ('SPECIFICATION Spec\nCONSTANTS\n W = 4\n MaxSel = 0\n MaxPay = 0\n Vals = {0}\n Hops = 0\n Limit = %d\n Table = TRUE\n Over = %d\n Upto = %d\n'
           'INVARIANTS LastFits\nCHECK_DEADLOCK FALSE\n' % (LIMIT, over, upto))
    r = tlc('Frame', cfg, workers=1)
    chk.model('Frame/table' + name, r)
    t = r.lines[0]
    return sorted(n for n, ok in t['rows'] if ok), sorted(n for n, ok in t['rows'] if not ok), t['cap']


class Bus:
    """a host and two clients, one process each"""
    def __init__(self, cmd):
        self.cmd = cmd
        self.ident = ident('fr')
        self.ag, self.id = {}, 0
        for e in 'hpq':
            self.ag[e] = Agent(cmd, name=e)
            self.join(e, self.ag[e], [LABELS[e], 'all'])
        # each also answers with a type that shows its id
        self.n = 0

    def join(self, e, a, label):
        r = a.do('join', e=e, t=e, ident=self.ident, label=label, token='t', aff=a is self.ag['h'], types='R', timeout=15000)
        if not r.get('ok'):
            raise Mismatch('join of %s: %s' % (e, r))

    def close(self):
        for a in self.ag.values():
            a.close()

    def overhead(self, e, to, sel=None, mode='u'):
        """frame bytes that are not payload, measured on the way"""
        self.sweep(e, to, [1000], sel, mode)
        for _ in range(500):
            # (the thread that sends notes the length after the bytes are on their way)
            f = self.ag[e].do('sums', t='sums', base=0, lens=[])['frame']
            if f >= 1000:
                return f - 1000
            time.sleep(0.02)
        raise ToolError('no frame seen')

    def sweep(self, e, to, lens, sel=None, mode='u', what='', timeout=60, **kw):
        """e sends messages of these lengths; each of `to` receives exactly them"""
        base, self.id = self.id, self.id + len(lens)
        sel = sel or ['l', LABELS[to[0]]]
        a = self.ag[e]
        sums = a.start('sums', t='sums', base=base, lens=lens)
        rs = {x: self.ag[x].start('drain', e=x, t='%s.r' % x, idle=15000, total=timeout * 1000, max=len(lens), brief=True) for x in to}
        s = a.start('burst', e=e, t='%s.s' % e, sel=sel, mode=mode, ty='R', base=base, n=len(lens), lens=lens, **kw)
        where = '%s -> %s%s' % (e, ','.join(to), what)
        r = a.wait(s, '%s: sending %d messages of %d..%d bytes' % (where, len(lens), lens[0], lens[-1]), timeout)
        if r.get('sent') != len(lens):
            raise Mismatch('%s: sending message %s of %d fails: %s' % (where, r.get('sent'), len(lens), r), dict(route=where, lens=lens[:50]))
        want = a.wait(sums)['sums']
        for x in to:
            got = self.ag[x].wait(rs[x], 'drain', timeout + 20)['got']
            self.compare(where, lens, want, got)

    def compare(self, where, lens, want, got):
        for i, w in enumerate(want):
            g = got[i] if i < len(got) else None
            if g is None:
                raise Mismatch('%s: of %d messages only %d arrive; the next has %d bytes' % (where, len(lens), i, lens[i]), dict(route=where, len=lens[i]))
            if not isinstance(g, list) or g[:2] != w:
                raise Mismatch('%s: a payload of %d bytes arrives with another content%s' % (
                    where, lens[i], ' (%d bytes)' % g[1] if isinstance(g, list) else ': %s' % g), dict(route=where, len=lens[i]))
        if len(got) != len(want):
            raise Mismatch('%s: %d messages were sent and %d arrive' % (where, len(want), len(got)))

    def late(self, e, lens):
        """messages that wait for their receiver"""
        base, self.id = self.id, self.id + len(lens)
        a = self.ag[e]
        r = a.do('burst', e=e, t='%s.s' % e, sel=['l', 'late'], mode='u', ty='R', base=base, n=len(lens), lens=lens, ttl=600000)
        if r.get('sent') != len(lens):
            raise Mismatch('sending message %s of %d fails: %s' % (r.get('sent'), len(lens), r))
        want = a.do('sums', t='sums', base=base, lens=lens)['sums']
        b = Agent(self.cmd, name='late')
        try:
            self.join('z', b, ['late'])
            got = b.do('drain', e='z', t='z', idle=10000, total=60000, max=len(lens), brief=True)['got']
            self.compare('%s -> a later endpoint' % e, lens, want, got)
        finally:
            b.close()


ROUTES = [('p', 'q', 'u'), ('p', 'h', 'u'), ('h', 'p', 'u'), ('p', 'p', 'u'), ('h', 'h', 'u'), ('p', 'hpq', 'm'), ('h', 'hpq', 'm')]


def route(chk, cmd, r, upto, seed):
    e, to, mode = r
    b = Bus(cmd)
    try:
        sel = ['l', 'all'] if mode == 'm' else None
        over = 40 if (e, to) == ('h', 'h') else b.overhead(e, list(to), sel, mode)
        fit, _, cap = table(chk, over, upto, '/%s-%s' % (e, to))
        for k in range(0, len(fit), 1500):
            b.sweep(e, list(to), fit[k:k + 1500], sel, mode)
        # up and down, so that a long one precedes a short one
        mixed = [x for i in range(200) for x in (fit[(i * 7919 + seed) % len(fit)], i % 9)]
        b.sweep(e, list(to), mixed, sel, mode, what=' (mixed)')
        chk.count('payloads', len(fit) + len(mixed))
        chk.trace(dict(sender=e, receivers=to, lengths=len(fit), largest=fit[-1], overhead=over))
    finally:
        b.close()


def late(chk, cmd, e, upto):
    b = Bus(cmd)
    try:
        over = b.overhead('p', ['q'])
        fit, _, cap = table(chk, over + 16, upto, '/late')
        b.late(e, fit)
        chk.count('payloads', len(fit))
        chk.trace(dict(sender=e, receivers='a later endpoint', lengths=len(fit)))
    finally:
        b.close()


def selectors(chk, cmd, ks, ns):
    """selectors of every length before payloads of every alignment"""
    b = Bus(cmd)
    try:
        for e, to in (('p', 'q'), ('p', 'h'), ('h', 'q')):
            for k in ks:
                b.sweep(e, [to], ns, ['o', ['l', 'z' * k], ['l', LABELS[to]]], what=' (a label of %d bytes)' % k)
                b.sweep(e, [to], ns, ['o', ['l', 'z' * k], ['l', LABELS[to]]], what=' (a label of %d bytes, ttl)' % k, ttl_us=k * 1013 + 250)
                chk.count('payloads', 2 * len(ns))
            chk.trace(dict(sender=e, receivers=to, labels=len(ks), lengths=len(ns)))
    finally:
        b.close()


def attached(chk, cmd, lens):
    """with a region and objects beside the payload"""
    b = Bus(cmd)
    try:
        for e, to, mode in (('p', 'q', 'u'), ('p', 'h', 'u'), ('h', 'q', 'u'), ('h', 'h', 'u'), ('q', 'hpq', 'm')):
            a = b.ag[e]
            a.do('onew', name='o', kind='memfd'), a.do('rnew', name='r', size=64)
            for objs, regs in ((['=o'], ['=r']), (['=o'] * 3, []), ([], ['=r'] * 2)):
                b.sweep(e, list(to), lens, ['l', 'all'] if mode == 'm' else None, mode, what=' (with attachments)', objs=objs, regs=regs)
                chk.count('payloads', len(lens))
            chk.trace(dict(sender=e, receivers=to, attachments='objects and regions', lengths=len(lens)))
    finally:
        b.close()


def too_large(chk, cmd, kind, by):
    """what cannot be carried: not reported as sent, and nobody else is disturbed"""
    b = Bus(cmd)
    try:
        a = b.ag[by]
        over = b.overhead(by, ['q'])
        kw = dict(len=LIMIT - over + 1)
        if kind == 'attachments':
            a.do('onew', name='o', kind='memfd')
            kw = dict(len=5, objs=['=o'] * 254)
        key = '%s-from-%s' % ('oversized' if kind == 'size' else 'too-many-attachments', 'host' if by == 'h' else 'client')
        q = a.start('send', e=by, t='%s.l' % by, sel=['l', 'q'], mode='u', ty='R', id=1, **kw)
        try:
            r = q.get(timeout=3)
        except queue.Empty:
            r = 'hangs'
        if r == 'hangs':
            b.ag.pop(by).kill()
            chk.finding(key, 'a client that sends %s joins again and again; send never returns' % (
                'a message too large for the transport' if kind == 'size' else '254 attachments'), dict(kind=kind, by=by))
            if by == 'h':
                return
        elif r.get('ok'):
            g = b.ag['q'].do('recv', e='q', t='q.r', timeout=1000)
            if 'msg' not in g:
                chk.finding(key, 'send by the bus host of %s reports success; the message is dropped and its receiver taken off the bus' % (
                    'a message too large for the transport' if kind == 'size' else '254 attachments'), dict(kind=kind, by=by))
                return
        # the others do not notice
        x, y = ('q', 'h') if by == 'p' else ('p', 'q')
        b.sweep(x, [y], [0, 5, 1000], what=' (after a message that is too large)')
        b.sweep(y, [x], [0, 5, 1000], what=' (after a message that is too large)')
    finally:
        for x in b.ag.values():
            x.kill()
            x.close()
    chk.trace(dict(kind=kind, sender=by))
