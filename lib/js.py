"""The Node interface."""
import random
from vlib import *
from seq import Replay, Lane
from capi import CLane, mixins

SHORT, LIMIT = 700, 0.4


def commands():
    lib = build_cdylib('ipmb-js')
    return {'rust': (build_agent(), {'AGENT_MARKS': '1'}),
            'node': (['node', '--expose-gc', os.path.join(ROOT, 'harness/node/agent.js'), lib], None)}


def walks(chk, name, num, depth, procs=4, seed=None, **rare):
    rare = dict(dict(call=1, send=1, elapse=3, close=25, lost=60, post=5), **rare)
    mc = 'cC(op) == CASE ' + ' [] '.join('op = "%s" -> RandomElement(1..%d) = 1' % x for x in rare.items()) + ' [] OTHER -> TRUE\n' + \
        'cP(S) == IF S = {} THEN {} ELSE {RandomElement(S)}'
    cfg = 'SPECIFICATION Spec\nCONSTANTS\n MaxWait = 6\n MaxQ = 6\n D = %d\n Chance <- cC\n Pick <- cP\n%sCHECK_DEADLOCK FALSE\n' % (depth, INV)
    out = [None] * procs
    seed = SEED if seed is None else seed

    def one(_, i):
        out[i] = tlc('JsReceiver', cfg, mc, workers=1, simulate=(num + procs - 1) // procs, depth=depth + 3, seed=seed * 1000 + i, heap='1g')
    parallel(range(procs), one, lanes=procs)
    behs = []
    for i, r in enumerate(out):
        chk.model('%s.%d' % (name, i), r)
        behs += r.lines
    return behs


INV = 'INVARIANTS NeverBoth OnceInOrder NothingLost EachCallOnce EveryCall ClosedEndsAll\n'


def exhaustive(chk, depth):
    cfg = 'SPECIFICATION Spec\nCONSTANTS\n MaxWait = 3\n MaxQ = 3\n D = %d\n Chance <- cC\n Pick <- cP\n%sCHECK_DEADLOCK FALSE\n' % (depth, INV)
    r = tlc('JsReceiver', cfg, 'cC(op) == op # "post"\ncP(S) == IF S = 0..2 THEN {0} ELSE S', heap='6g')
    chk.model('JsReceiver/all', r)


class JLane(CLane):
    def __init__(self, cmds, layout, chk):
        super().__init__(cmds, layout)
        self.chk = chk
        self.who = dict(n='node')

    def key(self, e):
        return self.who.get(e, 'rust')


class TooSlow(Exception):
    pass


class JsReplay:
    """one endpoint of the Node interface; another process hosts the bus and sends"""
    def __init__(self, lane, beh, **_):
        self.lane, self.beh = lane, beh
        self.ident = ident('j')
        self.calls, self.n = {}, 0
        self.atts = {}
        self.gone = False
        self.token = 't'
        self.born = 0

    def host(self, token):
        dedicated = any(x['op'] == 'lost' for x in self.beh['hist'])
        if dedicated:
            self.lane.who['h'] = 'rust'
            if 'h.own' in self.lane.agents:
                self.lane.agents.pop('h.own').close()
            self.h = self.lane.agents['h.own'] = Agent(*self.lane.cmds['rust'])
        else:
            self.h = self.lane.agent('h')
        r = self.h.do('join', e='h', t='h', ident=self.ident, label=['h'], token=token, aff=True, types='ABCY', timeout=15000)
        if not r.get('ok'):
            raise Mismatch('cannot host a bus: %s' % r)

    def want(self, res, i, what):
        """the outcome of call i"""
        q, t, at = self.calls.pop(i)
        r = self.node.wait(q, 'the receive call %d, after %s' % (i, what), 10)
        o = res[0]
        if 'thrown' in r:
            got = 'thrown'
        elif 'err' in r:
            got = {'Timeout': 'timeout', 'Decode': 'd', 'closed': 'closed', 'TokenMismatch': 'token'}.get(r['err'], r['err'])
        else:
            m = r['msg']
            if not m['intact']:
                raise Mismatch('message %s arrives with another content' % m)
            got = 'm'
        if got == 'token' and o == 'token' or got == o:
            pass
        elif o == 'token' and 'oken' in got:
            pass
        else:
            raise Mismatch('receive call %d: %s, expected %s' % (i, r, res))
        if got == 'timeout' and r['t1'] - r['t0'] < {'short': SHORT, 'zero': 0, 'long': 30000}[t] * 1000:
            raise Mismatch('receive call %d with a timeout of %s is rejected after %d us' % (i, t, r['t1'] - r['t0']))
        if got == 'm':
            objs, regs = self.atts[m['id']] if m['id'] in self.atts else (None, None)
            if m['id'] != res[1] or m.get('objs', []) != objs or m.get('regs', []) != regs:
                raise Mismatch('receive call %d: %s, expected message %d with %s and %s' % (i, m, res[1], objs, regs))
        if 'n' in r:
            return r['n']

    def outcomes(self, x, what):
        ns = [(y['o'][0], self.want(y['o'], y['i'], what)) for y in x['res']]
        ns = [n for o, n in ns if o in 'md']
        if ns != sorted(ns):
            raise Mismatch('%s: the calls are answered in another order' % what)
        self.others(what)

    def others(self, what):
        for i, (q, t, at) in self.calls.items():
            if not q.empty():
                raise Mismatch('receive call %d ends after %s: %s, expected to wait' % (i, what, self.node.wait(q)))

    def call(self, i, t):
        self.calls[i] = (self.node.start('recv', e='n', timeout={'none': None, 'short': SHORT, 'zero': 0, 'long': 30000}[t]), t, time.time())

    def step(self, x):
        op = x['op']
        if op != 'elapse' and any(t == 'short' and time.time() - at > LIMIT for _, t, at in self.calls.values()):
            raise TooSlow()
        if op == 'call':
            if self.gone:
                return
            self.call(x['i'], x['t'])
            self.outcomes(x, 'the call')
        elif op == 'send':
            for j, it in enumerate(x['items']):
                i, objs, regs = x['base'] + j + 1, [], []
                if it[0] == 'm':
                    for k in range(it[2]):
                        r = self.h.do('onew', t='h', kind='memfd', name='%s.o%d' % (self.ident, k))
                        objs.append(r['ino'])
                    for k in range(it[3]):
                        r = self.h.do('rnew', t='h', size=64 + k * 5000, name='%s.r%d' % (self.ident, k))
                        regs.append(r['ino'])
                    self.atts[i] = (objs, regs)
                r = self.h.do('send', e='h', t='h', sel=['l', 'n'], mode='u', ty='Y' if it[0] == 'm' else 'BadY', id=i, len=i * 37 % 300,
                              objs=['%s.o%d' % (self.ident, k) for k in range(len(objs))], regs=['%s.r%d' % (self.ident, k) for k in range(len(regs))])
                if not r.get('ok'):
                    raise Mismatch('send to the endpoint: %s' % r)
            if x['res']:
                self.outcomes(x, 'a message')
            else:
                # it is on its way: what follows it through the bus has come
                self.h.do('send', e='h', t='h', sel=['l', 'h'], mode='u', ty='Y', id=9, len=1)
                r = self.h.do('recv', e='h', t='h', timeout=10000)
                if r.get('msg', {}).get('id') != 9:
                    raise Mismatch('the bus does not route a message within 10 s: %s' % r)
                time.sleep(0.02)
                self.others('a message')
        elif op == 'post':
            r = self.node.do('send', e='n', sel=['l', 'h'], mode='u', id=x['id'], len=x['len'], bufs=[[n, x['id'] + k] for k, n in enumerate(x['bufs'])])
            if not r.get('ok'):
                raise Mismatch('send by the endpoint: %s' % r)
            r = self.h.do('recv', e='h', t='h', timeout=10000, keep=self.ident + '.k')
            m = r.get('msg', {})
            if (m.get('id'), m.get('len'), m.get('intact'), len(m.get('regs', [])), len(m.get('objs', []))) != (x['id'], x['len'], True, len(x['bufs']), 0):
                raise Mismatch('%s arrives as %s' % (x, r))
            for k, n in enumerate(x['bufs']):
                r = self.h.do('rmap', t='h', name='%s.k.r%d' % (self.ident, k), read=sorted({0, n // 2, n - 1}) if n else [])
                if r.get('len') != n or n and r['bytes'] != [pad(x['id'] + k, j) for j in sorted({0, n // 2, n - 1})]:
                    raise Mismatch('buffer %d of %s arrives as %s' % (k, x, r))
            self.h.do('forget', t='h', prefix=self.ident)
        elif op == 'elapse':
            self.outcomes(x, 'its timeout')
        elif op == 'close':
            how = x['how']
            if self.gone:
                return
            q = self.node.start('dropr', e='n', keep=True) if how == 'close' else self.node.start('collect', e='n')
            r = self.node.wait(q, 'closing the receiver', 10)
            if how == 'gc':
                self.gone = True
            self.outcomes(x, 'closing')
        elif op == 'lost':
            self.h.kill()
            self.lane.agents.pop('h.own').close()
            self.host('t2')
            self.outcomes(x, 'the death of the host')
        else:
            raise ToolError(op)

    def run(self):
        for _ in range(4):
            try:
                return self.once()
            except TooSlow:
                self.node.do('dropr', e='n')
                self.cleanup()
                self.__init__(self.lane, self.beh)
        self.lane.chk.count('too_slow')

    def once(self):
        i, x = -1, dict(op='start')
        self.node = self.lane.agent('n')
        try:
            self.host('t')
            r = self.node.do('join', e='n', ident=self.ident, label=['n'], token='t', aff=False, timeout=15000)
            if not r.get('ok'):
                raise Mismatch('an endpoint of the Node interface cannot join: %s' % r)
            for i, x in enumerate(self.beh['hist']):
                self.step(x)
            x = dict(op='end')
            n = 100000
            for o in self.beh['q']:
                n += 1
                self.call(n, 'none')
                self.want(o, n, 'the end')
            self.others('the end')
            if not self.gone:
                self.node.wait(self.node.start('dropr', e='n'), 'closing the receiver', 10)
            for i in sorted(self.beh['wait']):
                self.want(['closed'], i, 'closing')
            self.others('closing')
        except Mismatch as m:
            raise Mismatch('step %d (%s): %s' % (i + 1, x['op'], m.what), dict(step=i + 1))

    def cleanup(self):
        self.node.do('drops', e='n')
        self.h.do('dropr', e='h', t='h'), self.h.do('drops', e='h', t='h')
        self.h.do('forget', t='h', prefix=self.ident)


def pad(i, k):
    return (i * 31 + k * 7 + (k >> 8) * 13 + (k >> 16) * 17) & 255


# ------------------------------------------------- calls and arrivals at any time
def record(cmds, seed, big=False):
    """a history of one endpoint: messages, calls and timeouts as they fall"""
    rnd = random.Random(seed)
    n, h = Agent(*cmds['node']), Agent(*cmds['rust'])
    try:
        i = ident('j')
        r = h.do('join', e='h', t='h', ident=i, label=['h'], token='', aff=True, types='ABCY', timeout=15000)
        r2 = n.do('join', e='n', ident=i, label=['n'], token='', aff=False, timeout=15000)
        if not r.get('ok') or not r2.get('ok'):
            raise Mismatch('cannot join: %s %s' % (r, r2))
        ev, qs = [], []
        pause = rnd.choice((0, 0.003, 0.02, 0.1))

        def sends():
            m = 0
            for _ in range(rnd.randint(6, 14)):
                for _ in range(rnd.choice((1, 40, 100) if big else (1, 1, 2, 4))):
                    m += 1
                    bad = rnd.random() < 0.15
                    r = h.do('send', e='h', t='h', sel=['l', 'n'], mode='u', ty='BadY' if bad else 'Y', id=m, len=m * 37 % 300)
                    if not r.get('ok'):
                        raise Mismatch('send: %s' % r)
                    ev.append((r['t0'], dict(op='sent', m=0 if bad else m)))
                time.sleep(rnd.random() * 2 * pause)

        fail = []

        def guarded():
            try:
                sends()
            except Exception as x:
                fail.append(x)
        th = threading.Thread(target=guarded)
        th.start()
        for k in range(rnd.randint(10, 24)):
            for _ in range(rnd.choice((1, 30, 80) if big else (1, 1, 2, 3))):
                t = rnd.choice((None, 0, 1, 20, 100, 200, 250, 400))
                qs.append((n.start('recv', e='n', timeout=t), t))
            time.sleep(rnd.random() * 2 * pause)
        th.join()
        if fail:
            raise fail[0]
        # what is left over is asked for, what still waits gets a message each
        rs = [(q.get(timeout=10), q) if t is not None else None for q, t in qs]
        for x in rs:
            if x:
                x[1].put(x[0])
        time.sleep(0.1)
        rs = [None if q.empty() else n.wait(q) for q, t in qs]
        got = sum(1 for r in rs if r and ('msg' in r or r.get('err') == 'Decode'))
        m = 10000
        for _ in range(sum(1 for _, e in ev if e['op'] == 'sent') - got):
            qs.append((n.start('recv', e='n', timeout=None), None))
        for r in rs:
            if r is None:
                m += 1
                r = h.do('send', e='h', t='h', sel=['l', 'n'], mode='u', ty='Y', id=m, len=0)
                ev.append((r['t0'], dict(op='sent', m=m)))
        out = []
        for k, (q, t) in enumerate(qs):
            r = rs[k] if k < len(rs) and rs[k] is not None else n.wait(q, 'receive call %d with a timeout of %s, though there are messages for all' % (k + 1, t), 10)
            if 'msg' in r:
                if not r['msg']['intact']:
                    raise Mismatch('a message arrives with another content: %s' % r)
                o = r['msg']['id']
            elif r.get('err') == 'Decode':
                o = 0
            elif r.get('err') == 'Timeout' and t is not None:
                o = 'timeout'
            else:
                raise Mismatch('receive call with a timeout of %s: %s' % (t, r))
            out.append((r['c'], r['t0'], dict(op='call', i=k + 1)))
            out.append((r['n'], r['t1'], dict(op='end', i=k + 1, o=o, early=o == 'timeout' and r['t1'] - r['t0'] < t * 1000)))
        # the order within the process is known; the sends come in by their times
        out.sort(key=lambda x: x[0])
        ev.sort(key=lambda x: x[0])
        tr = []
        for _, t, e in out:
            while ev and ev[0][0] <= t:
                tr.append(ev.pop(0)[1])
            tr.append(e)
        return tr + [e for _, e in ev]
    finally:
        n.close(), h.close()


def judge(chk, name, traces):
    """-> those the specification does not allow"""
    f = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
    json.dump([[dict(e, o=str(e['o'])) if 'o' in e else dict(e, m=str(e['m'])) if 'm' in e else e for e in t] for t in traces], f)
    f.close()
    try:
        r = tlc('JsTrace', 'SPECIFICATION Spec\nCONSTANTS\n File <- cFile\nCHECK_DEADLOCK FALSE\n', 'cFile == "%s"' % f.name, workers='auto', heap='4g')
    finally:
        os.unlink(f.name)
    chk.model(name, r)
    ok = {x['accepted'] for x in r.lines}
    return [k for k in range(len(traces)) if k + 1 not in ok]


def campaign(chk, cmds, num):
    traces = [None] * num

    def one(_, k):
        try:
            traces[k] = record(cmds, SEED * 1000 + k, k % 7 == 6)
        except Mismatch as m:
            chk.violation('calls at any time: ' + m.what, m.data or dict(kind='js', seed=SEED * 1000 + k))
    parallel(range(num), one, lanes=8)
    ts = [t for t in traces if t]
    bad = judge(chk, 'JsTrace', ts)
    for k in bad[:3]:
        t = ts[k]
        # where it stops to be explained
        lo = next((n for n in range(1, len(t) + 1) if not prefix_ok(chk, t[:n])), len(t))
        chk.violation('calls at any time: event %d (%s) of a history is not possible after the events before it' % (lo, json.dumps(t[lo - 1])),
                      dict(kind='js', events=t[:lo]))
    chk.trace(dict(events=[json.dumps(e) for e in ts[0][:20]]) if ts else None, n=len(ts))
    chk.count('histories', len(ts))


def prefix_ok(chk, t):
    """the prefix, continued so that everything ends"""
    sent = [e['m'] for e in t if e['op'] == 'sent']
    got = [e['o'] for e in t if e['op'] == 'end' and e['o'] != 'timeout']
    calls = [e['i'] for e in t if e['op'] == 'call']
    ended = {e['i'] for e in t if e['op'] == 'end'}
    t = list(t)
    todo, left = [i for i in calls if i not in ended], sent[len(got):]
    k = 100000
    for _ in range(len(left) - len(todo)):
        k += 1
        t.append(dict(op='call', i=k))
        todo.append(k)
    for _ in range(len(todo) - len(left)):
        k += 1
        t.append(dict(op='sent', m=k))
        left.append(k)
    # a call that was handed its item is first in the order
    for i, m in zip(todo, left):
        t.append(dict(op='end', i=i, o=m, early=False))
    return not judge(chk, 'JsTrace/prefix', [t])


# --------------------------------------------------------------- closing in time
def busy_close(chk, cmds, gap, calls, how):
    """closing while messages keep coming"""
    n, h = Agent(*cmds['node']), Agent(*cmds['rust'])
    stop = threading.Event()
    try:
        i = ident('j')
        r = h.do('join', e='h', t='h', ident=i, label=['h'], token='', aff=True, types='ABCY', timeout=15000)
        r2 = n.do('join', e='n', ident=i, label=['n'], token='', aff=False, timeout=15000)
        if not r.get('ok') or not r2.get('ok'):
            raise Mismatch('cannot join: %s %s' % (r, r2))

        def pump():
            k = 0
            while not stop.is_set():
                k = k % 1000 + 1
                if not h.do('send', e='h', t='h', sel=['l', 'n'], mode='u', ty='Y', id=k, len=3).get('ok'):
                    return
                time.sleep(gap)
        th = threading.Thread(target=pump, daemon=True)
        th.start()
        time.sleep(0.3)
        qs = [n.start('recv', e='n', timeout=None) for _ in range(calls)]
        q = n.start('dropr', e='n', keep=True) if how == 'close' else n.start('collect', e='n')
        n.wait(q, 'closing the receiver while a message comes every %d ms' % (gap * 1000), 15)
        for q in qs:
            r = n.wait(q, 'a receive call when the receiver is closed', 10)
            if 'msg' not in r and r.get('err') != 'closed':
                raise Mismatch('a receive call when the receiver is closed: %s' % r)
        if how == 'close':
            r = n.do('recv', e='n', timeout=0)
            if 'thrown' not in r:
                raise Mismatch('a receive call after the receiver was closed: %s' % r)
        chk.trace(dict(closing=how, every_ms=gap * 1000, waiting=calls))
    except Mismatch as m:
        chk.violation(m.what, m.data or dict(kind='js_close', gap=gap, calls=calls, how=how))
    finally:
        stop.set()
        n.close(), h.close()


# ------------------------------------------------------------------ tables
def windows(chk, cmds, lines, bound):
    """windows of received regions"""
    n, h = Agent(*cmds['node']), Agent(*cmds['rust'])
    try:
        i = ident('j')
        r = h.do('join', e='h', t='h', ident=i, label=['h'], token='', aff=True, types='ABCY', timeout=15000)
        r2 = n.do('join', e='n', ident=i, label=['n'], token='', aff=False, timeout=15000)
        if not r.get('ok') or not r2.get('ok'):
            raise Mismatch('cannot join: %s %s' % (r, r2))
        for k, t in enumerate(lines):
            size = t['size']
            h.do('rnew', t='h', name='r', size=size)
            w = [[p, (p * 7 + 3) & 255] for p in sorted({0, 1, 11, 12, 13, size // 2, size - 1}) if 0 <= p < size]
            h.do('rmap', t='h', name='r', write=w)
            h.do('send', e='h', t='h', sel=['l', 'n'], mode='u', ty='Y', id=k, len=0, regs=['=r'])
            r = n.do('recv', e='n', timeout=10000, keep='w%d' % k, bare=True)
            if 'msg' not in r:
                raise Mismatch('a region of %d bytes does not arrive: %s' % (size, r))
            calls = {}
            for rg, want in t['rows']:
                b = bound(rg)
                if 'lo_excl' in b or 'hi_incl' in b or b.get('hi', 2 ** 64) < b.get('lo', 0):
                    continue
                lo, m = b.get('lo', 0), b['hi'] - b.get('lo', 0) if 'hi' in b else -1
                if lo < 2 ** 32 and m < 2 ** 31:
                    calls[lo, m] = want
            for (lo, m), want in sorted(calls.items()):
                got = n.do('rmap', name='w%d' % k, i=0, off=lo, n=m)
                if got.get('len', -1) != want:
                    raise Mismatch('mapping %d bytes at %d of a region of %d bytes gives %s, expected %s' % (m, lo, size, got, want))
                for p, v in w:
                    if lo <= p < lo + min(max(want, 0), 64) and got['data'][p - lo] != v:
                        raise Mismatch('window of %d bytes at %d of a region of %d bytes: byte %d is %d, expected %d' % (m, lo, size, p, got['data'][p - lo], v))
            chk.count('windows', len(calls))
            n.do('forget', prefix='w'), h.do('rdrop', t='h', name='r')
        chk.trace(dict(windows=len(lines)))
    except Mismatch as m:
        chk.violation(m.what, m.data or dict(kind='js_windows'))
    finally:
        n.close(), h.close()


class NReplay(mixins(Replay)):
    """endpoints of the Node and the Rust interface on one bus"""
    def do(self, e, op, **kw):
        if self.lane.who.get(e) == 'node' and kw.get('len') is None and op == 'send':
            kw['len'] = 0
        return super().do(e, op, **kw)


def cast(behs, seed):
    rnd = random.Random(seed)
    for b in behs:
        b['who'] = {}
        for e in sorted({x['e'] for x in b['hist'] if 'e' in x}):
            bad = any(x['op'] == 'send' and x.get('e') == e and x['ty'] == 'BadY' for x in b['hist'])
            b['who'][e] = 'rust' if bad else rnd.choice(('node', 'node', 'rust'))
    return behs


def rounds(chk, cmds, n_rounds=12):
    """endpoints that come and go leave no threads and descriptors behind, and let the process end"""
    env = dict(cmds['node'][1] or {}, AGENT_NATURAL='1')
    n, h = Agent(cmds['node'][0], env), Agent(*cmds['rust'])
    try:
        i = ident('j')
        r = h.do('join', e='h', t='h', ident=i, label=['h'], token='', aff=True, types='ABCY', timeout=15000)
        if not r.get('ok'):
            raise Mismatch('cannot host a bus: %s' % r)
        seen = []
        for k in range(n_rounds):
            for how in ('close', 'gc', 'late', 'refused'):
                r = n.do('join', e='n', ident=i, label=['n'], token='x' if how == 'refused' else '', aff=False, timeout=15000)
                if r.get('ok', False) != (how != 'refused'):
                    raise Mismatch('join: %s' % r)
                if how == 'refused':
                    continue
                h.do('rnew', t='h', name='r', size=100), h.do('onew', t='h', kind='memfd', name='o')
                r = h.do('send', e='h', t='h', sel=['l', 'n'], mode='u', ty='Y', id=1, len=9, regs=['r'], objs=['o'])
                q = None
                if how != 'late':
                    r = n.do('recv', e='n', timeout=10000)
                    if 'msg' not in r:
                        raise Mismatch('receive call: %s' % r)
                    q = n.start('recv', e='n', timeout=None)
                n.wait(n.start('dropr', e='n') if how != 'gc' else n.start('collect', e='n'), 'closing the receiver', 10)
                if q and n.wait(q, 'a receive call when the receiver is closed', 10).get('err') != 'closed':
                    raise Mismatch('a receive call when the receiver is closed does not fail')
                n.do('drops', e='n')
            seen.append(None)
            for _ in range(40):
                r = n.do('fds')
                seen[-1] = (r['n'], r['threads'], r['maps'])
                if len(seen) < 4 or seen[-1] <= seen[2]:
                    break
                n.do('gc'), time.sleep(0.05)
        if any(a > b for s in seen[3:] for a, b in zip(s, seen[2])):
            raise Mismatch('descriptors, threads and mappings of a process whose endpoints have left, round after round: %s' % seen)
        n.p.stdin.close()
        try:
            n.p.wait(10)
        except subprocess.TimeoutExpired:
            raise Mismatch('a process whose receivers are closed does not end')
        chk.trace(dict(rounds=n_rounds, counts=seen[-1]))
    except Mismatch as m:
        chk.violation('Node interface: ' + m.what, m.data or dict(kind='js_rounds'))
    finally:
        n.close(), h.close()
