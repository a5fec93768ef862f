"""Checks decided on sequential histories of one bus."""
import random
from vlib import *
from seq import replay_all, scaled, AMAPS
import busseq

Q = TIER == 'quick'

def c01(chk):
    agent = build_agent()
    # 1. the Boolean meaning of every expression, as a table
    depth, atoms = 2, ('x', 'y')
    r = tlc('LabelTable', 'SPECIFICATION Spec\nCONSTANTS Atoms <- cAtoms\n Depth = %d\nINVARIANTS Laws\nCHECK_DEADLOCK FALSE\n' % depth,
            'cAtoms == ' + tla(set(atoms)), workers=1)
    chk.model('LabelTable', r)
    rows = [row for l in r.lines for row in l]
    a = Agent(agent)
    try:
        for am in (AMAPS if not Q else AMAPS):
            from seq import conc_sel
            cases, want = [], []
            for sel, labs in rows:
                for lab, val in labs:
                    # other labels on the endpoint make no difference
                    cases.append([conc_sel(sel, am), ['pre'] + [am[x] for x in lab] + ['post']])
                    want.append(val)
            got = a.do('validate', cases=cases)['r']
            for c, w, g in zip(cases, want, got):
                if w != g:
                    raise Mismatch('%s against label %s is %s' % (c[0], c[1], g), dict(kind='validate', case=c, want=w))
            chk.count('table_rows', len(cases))
            chk.trace(dict(table='%d expressions' % len(rows), atoms=am))
        for sel, labs, vals in busseq.large_table(chk, random.Random(SEED), 400 if Q else 6000):
            got = a.do('validate', cases=[[sel, lab] for lab in labs])['r']
            for lab, w, g in zip(labs, vals, got):
                if w != g:
                    raise Mismatch('%s against label %s is %s' % (sel, lab, g), dict(kind='validate', case=[sel, lab], want=w))
            chk.count('large_expressions')
        # 2. edits of a label
        r = tlc('LabelEdit', 'SPECIFICATION Spec\nCONSTANTS Atoms = {"x", "y", "z"}\n D = %d\nINVARIANTS Sane\nCHECK_DEADLOCK FALSE\n' % (4 if Q else 5),
                workers=1)
        chk.model('LabelEdit', r)
        probes = [[], ['x'], ['y'], ['z'], ['x', 'y'], ['y', 'x'], ['x', 'y', 'z'], ['x', 'x']]
        for n, (edits, sets) in enumerate(r.lines):
            am = dict(AMAPS[n % len(AMAPS)], z='zz')
            rr = a.do('labeledit', edits=[[o, am[x]] for o, x in edits], probe=[[am[x] for x in p] for p in probes])['r']
            for (it, al), s in zip(rr, sets):
                want = {am[x] for x in s}
                if sorted(it) != sorted(want) or al != [all(x in s for x in p) for p in probes]:
                    raise Mismatch('label after %s (%s): contains %s, subset tests %s' % (edits, am, it, al), dict(kind='labeledit', edits=edits))
            chk.trace(n=1)
    except Mismatch as m:
        chk.violation(m.what, m.data)
    finally:
        a.close()
    # 3. through the bus
    exprs = random.Random(SEED).sample([sel for sel, _ in rows], 300 if Q else 2000)
    behs = busseq.walks(chk, 'BusSeq/labels', 500 if Q else 6000, 14, sels='{' + ', '.join(tla(e) for e in exprs) + '}', eps='abcd',
                        rare=dict(dropr=8, drops=12, join=1), labels=(('x',), ('y',), ('x', 'y'), ()))
    replay_all(chk, agent, behs, amaps=AMAPS, what='bus_behaviours')
    rnd = random.Random(SEED)
    eps = ['e%d' % i for i in range(12)]

    def large():
        atoms = ['a%d' % k for k in range(rnd.choice((3, 30)))]
        h = [busseq.j(e, [a for a in atoms if rnd.random() < 0.5] + ['b%d' % k for k in range(rnd.choice((0, 0, 20, 200)))]) for e in eps]
        for _ in range(25):
            h.append(busseq.s(rnd.choice(eps), busseq.expression(rnd, rnd.choice((3, 10, 60)), atoms, rnd.random() < 0.5), rnd.choice('um'), rnd.choice((0, 15))))
        return h
    replay_all(chk, agent, busseq.scripts(chk, 'BusScript/labels', [large() for _ in range(12 if Q else 200)], eps), what='large_labels')


WITH_TIME = dict(ops=('join', 'send', 'recv', 'dropr', 'drops', 'adv'), advs=(10, 31))


def c02(chk):
    agent = build_agent()
    kw = dict(modes=('u',), eps='abc', sels='{T, L("x"), L("y"), N(L("x")), A(L("x"), L("y")), L("z")}', ttls=(0, 15))
    behs = busseq.walks(chk, 'BusSeq/unicast', 500 if Q else 6000, 16, **kw)
    replay_all(chk, agent, behs, what='unicast_walks')
    behs = busseq.walks(chk, 'BusSeq/unicast5', 150 if Q else 3000, 30, procs=3, seed=SEED + 1,
                        **dict(kw, eps='abcdef', modes=('u', 'm'), rare=dict(adv=4, dropr=3, drops=8), **WITH_TIME))
    replay_all(chk, agent, behs, what='unicast_long_walks')
    ex = busseq.exhaustive(chk, 'BusSeq/unicast_all', 5 if Q else 6, limit=1500 if Q else 20000, eps='abc', labels=(('x',),), sels='{L("x")}',
                           modes=('u',), ops=('join', 'send', 'dropr', 'drops'))
    replay_all(chk, agent, ex, what='unicast_enumerated')
    replay_all(chk, agent, behs[:60], layout='each', what='unicast_processes')
    crowds(chk, agent, 'uuum')


def c03(chk):
    agent = build_agent()
    kw = dict(modes=('m',), eps='abc', sels='{T, L("x"), L("y"), N(L("x")), A(L("x"), L("y")), L("z")}', ttls=(0, 15))
    behs = busseq.walks(chk, 'BusSeq/multicast', 500 if Q else 6000, 16, **kw)
    replay_all(chk, agent, behs, what='multicast_walks')
    behs = busseq.walks(chk, 'BusSeq/multicast6', 150 if Q else 3000, 30, procs=3, seed=SEED + 1,
                        **dict(kw, eps='abcdefgh', modes=('m', 'u'), rare=dict(adv=4, dropr=3, drops=8), **WITH_TIME))
    replay_all(chk, agent, behs, what='multicast_long_walks')
    ex = busseq.exhaustive(chk, 'BusSeq/multicast_all', 5 if Q else 6, limit=1500 if Q else 20000, eps='abc', labels=(('x',),), sels='{L("x")}',
                           modes=('m',), ops=('join', 'send', 'dropr', 'drops'))
    replay_all(chk, agent, ex, what='multicast_enumerated')
    replay_all(chk, agent, behs[:60], layout='each', what='multicast_processes')
    crowds(chk, agent, 'mmmu')


def crowds(chk, agent, modes):
    """dozens of endpoints, many of which are gone"""
    rnd = random.Random(SEED)
    g = [busseq.crowd(rnd, rnd.randint(35, 90), modes) for _ in range(10 if Q else 150)]
    for i in range(0, len(g), 50):
        replay_all(chk, agent, busseq.scripts(chk, 'BusScript/crowds', g[i:i + 50], ['e%d' % k for k in range(90)]), what='crowds')
    g = [busseq.crowd(rnd, n, modes) for n in ((280,) if Q else (140, 280, 530, 1100))]
    replay_all(chk, agent, busseq.scripts(chk, 'BusScript/crowds_large', g, ['e%d' % k for k in range(280 if Q else 1100)]), what='crowds_large', recycle=1)


def c05(chk):
    agent = build_agent()
    kw = dict(modes=('u', 'm'), eps='abc', labels=(('x',), ('y',), ('x', 'y')), sels='{L("x"), L("y"), A(L("x"), L("y")), L("z")}',
              ttls=(0, 5, 15, 25), advs=(10, 20), ops=('join', 'send', 'recv', 'dropr', 'drops', 'adv'), rare=dict(adv=2, dropr=2))
    behs = busseq.walks(chk, 'BusSeq/ttl', 900 if Q else 9000, 16, **kw)
    replay_all(chk, agent, scaled(behs), what='ttl_walks')
    behs2 = busseq.walks(chk, 'BusSeq/ttl_burst', 300 if Q else 5000, 22, procs=3, seed=SEED + 1,
                         **dict(kw, rare=dict(join=4, adv=4, dropr=3, drops=8, recv=3)))
    replay_all(chk, agent, behs2, what='ttl_buffer_walks')
    # endpoints and host in different processes, and the real clock
    replay_all(chk, agent, [b for b in behs2 if sum(x['op'] == 'adv' for x in b['hist']) <= 3][:40 if Q else 400],
               layout='each', what='ttl_processes')
    real = [b for b in behs if busseq.interesting_ttl(b)][:24 if Q else 200]
    replay_all(chk, agent, real, unit=0.05, lanes=24, what='ttl_real_clock')
    b = busseq.lives_of(chk, 'BusScript/lives', 200 if Q else 4000)
    replay_all(chk, agent, b[50:], what='times_to_live')
    replay_all(chk, agent, b[:50], layout='each', what='times_to_live_processes')
    huge(chk, agent)
    rnd = random.Random(SEED)
    g = [busseq.backlog(rnd, rnd.randint(a, b)) for a, b in ((60, 200), (200, 300), (400, 600), (1100, 1150)) * (1 if Q else 6)] + ([] if Q else [busseq.backlog(rnd, 4300)])
    behs = busseq.scripts(chk, 'BusScript/backlog', g, 'hcxyz')
    replay_all(chk, agent, behs, what='backlogs')
    replay_all(chk, agent, behs[:1], layout='each', what='backlogs_processes')


def huge(chk, agent):
    """any ttl is accepted: u64::MAX seconds, and sub-millisecond ones"""
    for ttl, us, adv, want in (('max', None, 10 ** 9, True), (None, 2 ** 62, 10 ** 9, True), (2 ** 53, None, 10 ** 9, True),
                               (None, 900, 1000, False), (1, None, 1000, False)):
        a = Agent(agent)
        try:
            i = ident('h')
            a.do('join', e='a', t='a', ident=i, label=['h'], aff=True, types='A', timeout=5000)
            a.do('send', e='a', t='a', sel=['l', 'x'], mode='u', id=1, **({'ttl': ttl} if ttl else {'ttl_us': us}))
            a.do('adv', ms=adv)
            for _ in range(2):
                a.do('send', e='a', t='a', sel=['l', 'h'], mode='u', id=2)
                a.do('recv', e='a', t='a', timeout=5000)
            r = a.do('join', e='b', t='b', ident=i, label=['x'], aff=True, types='A', timeout=5000)
            if not r.get('ok'):
                raise Mismatch('join after a message with ttl %s fails: %s' % (ttl or us, r))
            r = a.do('recv', e='b', t='b', timeout=5000 if want else 50)
            if ('msg' in r) != want:
                raise Mismatch('message with ttl %s %s, %d ms later: %s' % (ttl, us, adv, r))
            chk.trace(dict(ttl=ttl or us, after_ms=adv, delivered=want))
        except Mismatch as m:
            chk.violation(m.what, dict(kind='ttl', ttl=ttl, us=us))
        finally:
            a.close()


def c16(chk):
    agent = build_agent()
    types = (('A',), ('B',), ('A', 'B'), ('A', 'B', 'C'), ('Y',), ('A', 'B', 'C', 'Y'))
    kw = dict(modes=('u', 'm'), eps='abc', labels=(('x',), ('x', 'y')), sels='{T, L("x"), L("y")}', ttls=(0, 15), types=types,
              tys=('A', 'B', 'C', 'Y', 'BadA'), rare=dict(dropr=12, drops=20, join=2))
    behs = busseq.walks(chk, 'BusSeq/types', 700 if Q else 8000, 20, **kw)
    replay_all(chk, agent, behs, what='type_walks')
    behs = busseq.walks(chk, 'BusSeq/types_host', 300 if Q else 4000, 20, seed=SEED + 1, procs=2, **dict(kw, eps='ab'))
    replay_all(chk, agent, behs, what='type_walks_small')
    rnd = random.Random(SEED)
    behs = busseq.scripts(chk, 'BusScript/skips', [busseq.skips(rnd, n, h) for h in (True, False) for n in ((400, 2000) if Q else (400, 2000, 6000))], 'hc')
    replay_all(chk, agent, behs, what='long_skips')


VERSIONS = [(0, 0, 0), (0, 0, 7), (0, 8, 0), (0, 9, 0), (0, 9, 1), (0, 9, 255), (0, 10, 0), (0, 255, 0), (1, 0, 0), (1, 9, 0),
            (1, 255, 255), (2, 0, 0), (255, 9, 0)]
TOKENS = ['', 'a', 'A', 'a ', 'aa', 'x' * 300, 'x' * 299 + 'y', 'gr\u00fcn', 'a\u0000', 'a\u0000b']


def vstr(v):
    return '.'.join(map(str, v))


def c06(chk):
    agent = build_agent()
    cfg = 'SPECIFICATION Spec\nCONSTANTS Versions <- cV\n Tokens <- cT\n MaxTries = %d\nINVARIANTS Peers Equivalence\nCHECK_DEADLOCK FALSE\n'
    # the specification by itself, and the table of all outcomes
    r = tlc('Admission', cfg % 3, 'cV == %s\ncT == {"", "a"}' % tla({(0, 8, 0), (0, 9, 0), (0, 9, 1), (1, 0, 0), (1, 9, 0)}))
    chk.model('Admission', r)
    r1 = tlc('Admission', cfg % 0, 'cV == %s\ncT == {"t"}' % tla(set(VERSIONS)), workers=1)
    chk.model('Admission/versions', r1)
    toks = {'t%d' % i: t for i, t in enumerate(TOKENS)}
    r2 = tlc('Admission', cfg % 0, 'cV == %s\ncT == %s' % (tla({(0, 9, 0)}), tla(set(toks))), workers=1)
    chk.model('Admission/tokens', r2)
    r3 = tlc('Admission', cfg % 0, 'cV == %s\ncT == %s' % (tla({(0, 9, 0), (0, 8, 1), (0, 9, 3), (1, 0, 0)}), tla({'t1', 't2'})), workers=1)
    chk.model('Admission/both', r3)

    def env(v):
        return {'IPMB_VERIF_VERSION': vstr(v)}

    def host_rows(_, t):
        hv, ht = t['host']['v'], toks.get(t['host']['tok'], 't')
        for attempt in range(3):
            try:
                one_host(hv, ht, t['rows'])
                return
            except Mismatch as m:
                if attempt == 2:
                    chk.violation(m.what, dict(kind='admission', host=[hv, ht]))

    def one_host(hv, ht, rows):
        h = Agent(agent, env(hv))
        js = []
        try:
            i = ident('adm')
            r = h.do('join', e='h', t='h', ident=i, label=['h'], token=ht, types='A', timeout=5000)
            if not r.get('ok'):
                raise Mismatch('version %s cannot host a bus: %s' % (vstr(hv), r))
            nid, want = 0, {}
            byver = {}
            for v, tok, outs in rows:
                v, tok = tuple(v), toks.get(tok, 't')
                if v not in byver:
                    byver[v] = Agent(agent, env(v))
                    js.append(byver[v])
                a = byver[v]
                e = 'e%d' % nid
                r = a.do('join', e=e, t=e, ident=i, label=['j', e], token=tok, aff=nid % 2 == 0, types='A', timeout=8000)
                got = 'ok' if r.get('ok') else 'version' if r['err'] == 'VersionMismatch ' + vstr(hv) else \
                    'token' if r['err'] == 'TokenMismatch' else r['err']
                if got not in outs:
                    raise Mismatch('version %s token %r joining host of version %s token %r: %s, expected %s' % (vstr(v), tok, vstr(hv), ht, r, outs))
                if got != 'ok' and r['us'] > 1900000:
                    raise Mismatch('version %s token %r joining host of version %s token %r is refused only after %d ms' % (
                        vstr(v), tok, vstr(hv), ht, r['us'] // 1000))
                nid += 1
                if got == 'ok':
                    want[e] = a
                chk.trace(dict(host=[vstr(hv), ht], joins=[vstr(v), tok], outcome=got))
            # the bus and its members are as they should be
            h.do('send', e='h', t='h', sel=['l', 'j'], mode='m', id=77)
            for e, a in want.items():
                r = a.do('recv', e=e, t=e, timeout=10000)
                if r.get('msg', {}).get('id') != 77:
                    raise Mismatch('a member (version %s) of the bus hosted by version %s received %s' % (a.name, vstr(hv), r))
                r = a.do('send', e=e, t=e, sel=['l', 'h'], mode='u', id=78)
                r = h.do('recv', e='h', t='h', timeout=10000)
                if r.get('msg', {}).get('id') != 78:
                    raise Mismatch('the host (version %s) received %s from a member' % (vstr(hv), r))
        finally:
            for a in js + [h]:
                a.close()
    parallel(r1.lines + r2.lines + r3.lines, host_rows, lanes=8)

    # refused attempts at any point of a history leave no trace
    kw = dict(eps='abcd', tokens=('tk', 't2'), ttls=(0, 15), labels=(('x',), ('y',)), sels='{T, L("x"), L("y")}', rare=dict(join=1, dropr=5, drops=6))
    behs = busseq.walks(chk, 'BusSeq/tokens', 300 if Q else 4000, 18, **kw)
    replay_all(chk, agent, behs, what='token_walks')
    vers = dict(a='0.9.0', b='0.9.7', c='0.8.9', d='1.9.0', mon='?')
    ok = 'e = "mon" \\/ f = "mon" \\/ e = f \\/ {e, f} = {"a", "b"}'
    behs = busseq.walks(chk, 'BusSeq/versions', 100 if Q else 1500, 18, seed=SEED + 1, procs=2, verok=ok, **kw)
    replay_all(chk, agent, behs, layout='each', what='version_walks', vers=vers)
    # also of those that lose their host, when somebody of another version or with another token was faster
    eps = ['a1', 'a2', 'a3', 'c1', 'c2', 'c3']
    vers = dict(a1='0.9.0', a2='0.9.7', a3='0.9.1', c1='1.8.9', c2='1.0.0', c3='1.9.0', mon='?')
    kind = lambda e: '(IF %s = "mon" THEN "" ELSE IF %s \\in {"a1", "a2", "a3"} THEN "a" ELSE "c")' % (e, e)
    rnd = random.Random(SEED)
    behs = busseq.scripts(chk, 'BusScript/versions', [busseq.other_host(rnd) for _ in range(80 if Q else 1500)], eps,
                          verok='e = "mon" \\/ f = "mon" \\/ %s = %s' % (kind('e'), kind('f')))
    replay_all(chk, agent, behs, layout='each', what='versions_after_host_death', vers=vers, env={'AGENT_SLEEP_DIV': '100'})


PROPS = dict(C06=c06, C01=c01, C02=c02, C03=c03, C05=c05, C16=c16)

_T = 'TLA+/TLC: behaviours of BusSeq replayed into the implementation'
_N = ('TLC checks the specification\'s invariants on every generated behaviour; each behaviour is executed on the real library '
      '(real sockets, virtual or real clock) and every result compared. Assumes operations one at a time; sampled beyond the enumerated depths. ')
NOTES = {
    'C01': ('TLA+/TLC: exhaustive truth table of label expressions compared with the code, ' + _T,
            _N + 'Label expressions: all of depth 2 over two atoms, under ten concrete renderings of the atoms.'),
    'C02': (_T, _N), 'C03': (_T, _N),
    'C05': (_T, _N + 'Time is virtual (interposed clock) for most walks, real for a sample.'),
    'C06': ('TLA+/TLC: admission table of Admission and behaviours of BusSeq replayed into the implementation',
            _N + 'The version of a test process is set through the hook; all pairs of 13 versions and of 10 tokens.'),
    'C16': (_T, _N)}
