"""Checks of the C interface and the C++ classes."""
import random
from vlib import *
from seq import replay_all, scaled, CMAPS
import attach, busseq, capi, props_mem, regseq

Q = TIER == 'quick'


def c20(chk):
    cmds = capi.commands()
    mk = lambda layout: capi.CLane(cmds, layout)
    # 1. handles: every value behind one, who owns it, what each call returns
    capi.api_exhaustive(chk)
    for host in (False, True):
        b = capi.api_walks(chk, 'CApi/' + ('host' if host else 'client'), 120 if Q else 3000, 60, host)
        b += capi.api_walks(chk, 'CApi/held_' + ('host' if host else 'client'), 60 if Q else 2000, 60, host, procs=2, seed=SEED + 7,
                            label=9, oleaf=4, obool=9, onot=9, obin=9, badjoin=40, mdata=5, drop=30, get=4, retr=2, join=4, obj=1, reg=1, msg=6,
                            linsert=4, rref=4, rclone=4)
        capi.api_replay(chk, cmds, b)
    # 2. endpoints of the three interfaces on one bus
    kw = dict(modes=('u', 'm'), eps='abcd', types=(('Y',),), tys=('Y',), ttls=(0, 5, 15), advs=(10, 20), labels=(('x',), ('y',), ('x', 'y'), ()),
              ops=('join', 'send', 'recv', 'dropr', 'drops', 'adv'), rare=dict(adv=4, dropr=6, drops=8))
    b = busseq.walks(chk, 'BusSeq/c', 120 if Q else 3000, 20, **kw)
    replay_all(chk, None, capi.cast(scaled(b), SEED), what='walks', amaps=CMAPS, mk=mk, cls=capi.CReplay)
    b = [x for x in busseq.walks(chk, 'BusSeq/c_ttl', 300 if Q else 4000, 14, seed=SEED + 5,
                                 **dict(kw, rare=dict(adv=2, dropr=3))) if busseq.interesting_ttl(x)][:90 if Q else 3000]
    replay_all(chk, None, capi.cast(scaled(b), SEED), what='ttl_walks', mk=mk, cls=capi.CReplay)
    b = busseq.lives_of(chk, 'BusScript/c_lives', 60 if Q else 1500)
    replay_all(chk, None, capi.cast(b, SEED), what='times_to_live', mk=mk, cls=capi.CReplay)
    b = busseq.walks(chk, 'BusSeq/c_errors', 60 if Q else 2000, 20, seed=SEED + 1, procs=2,
                     **dict(kw, tys=('Y', 'BadY'), tokens=('tk', 't2'), ops=('join', 'send', 'recv', 'dropr', 'drops', 'kill'), rare=dict(kill=3, dropr=9, drops=9)))
    replay_all(chk, None, capi.cast(b, SEED), what='error_walks', layout='each', mk=mk, cls=capi.CReplay)
    # 3. attachments
    b = attach.walks(chk, 'BusAttach/c', 120 if Q else 3000, 24, ttls=(0, 15), tys=('Y', 'BadY'), types=(('Y',),), maxh=30)
    replay_all(chk, None, capi.cast(b, SEED + 1), what='attachment_walks', mk=mk, cls=capi.CAttach)
    # 4. registries
    ops = regseq.walks(chk, 'Registry/c', 60 if Q else 1500, 30, gs=props_mem.GS, procs=2)
    res = regseq.drive(chk, cmds['c'], ops[::2], mk=lambda c: regseq.Exec(c, cmds['rust'], 'Y')) + \
        regseq.drive(chk, cmds['cpp'], ops[1::2], mk=lambda c: regseq.Exec(c, cmds['c'], 'Y'))
    bad, _ = regseq.check_traces(chk, 'RegistryTrace', [t for _, t in res], props_mem.GS)
    if bad:
        again = regseq.drive(chk, cmds['c'], [res[t][0] for t, _, _ in bad[:4]] * 2, lanes=2, mk=lambda c: regseq.Exec(c, cmds['rust'], 'Y'))
        bad2, _ = regseq.check_traces(chk, 'RegistryTrace/again', [t for _, t in again], props_mem.GS)
        again = regseq.drive(chk, cmds['cpp'], [res[t][0] for t, _, _ in bad[:4]] * 2, lanes=2, mk=lambda c: regseq.Exec(c, cmds['rust'], 'Y'))
        bad2 += regseq.check_traces(chk, 'RegistryTrace/again', [t for _, t in again], props_mem.GS)[0]
        if bad2:
            for t, why, i in bad[:4]:
                chk.violation('registry history %d, event %d: %s' % (t, i, why), dict(kind='registry', events=res[t][1][:i]))
        else:
            chk.count('unconfirmed')
    chk.trace(n=len(res))
    chk.count('registry_walks', len(res))
    # 5. windows
    windows(chk, cmds)
    # 6. times and codes
    parallel([(f, k) for f in (times, codes) for k in ('c', 'cpp')], lambda _, x: x[0](chk, cmds, x[1]), lanes=4)


def windows(chk, cmds):
    sizes = [0, 1, 11, 12, 4083, 4084, 4085, 4096, 20000, 65536]
    cfg, mc = props_mem.win_cfg(True, 0, sizes, False)
    r = tlc('Windows', cfg, mc, workers=1)
    chk.model('Windows/table', r)

    def table(_, x):
        t, kind = x
        n = t['size']
        a = Agent(*cmds[kind])
        try:
            if a.do('rnew', name='r', size=n, mark=False).get('size') != n:
                raise Mismatch('a region of %d bytes is not provided' % n)
            calls = {}
            for rg, want in t['rows']:
                b = props_mem.bound(rg)
                if 'lo_excl' in b or 'hi_incl' in b or b.get('hi', 2 ** 64) < b.get('lo', 0):
                    continue
                k = (b.get('lo', 0), b['hi'] - b.get('lo', 0) if 'hi' in b else -1)
                if k[1] < 2 ** 63:
                    calls[k] = want
            # offset and size beyond what can be added
            for lo in (2 ** 64 - 1, 2 ** 64 - 7, 2 ** 63, 2 ** 63 - 1, 2 ** 64 - 12, 2 ** 64 - 13):
                for m in (0, 1, 6, 7, 8, 12, 13, 2 ** 63 - 1):
                    calls.setdefault((lo, m), -1)
                calls.setdefault((lo, -1), -1)
            calls[(n, -5)] = calls.get((n, -1), 0)
            for (lo, m), want in sorted(calls.items(), key=str):
                got = a.do('rmap', name='r', lo=lo, n=m)
                if got.get('len', -1) != want:
                    raise Mismatch('mapping %d bytes at %d of a region of %d bytes gives %s, expected %s' % (m, lo, n, got, want), dict(size=n, lo=lo, n=m))
            chk.count('windows', len(calls))
            chk.trace(dict(size=n, interface=kind, windows=len(calls)))
        except Mismatch as m:
            chk.violation(m.what, m.data or dict(size=n, interface=kind))
        finally:
            a.close()
    parallel([(t, k) for t in r.lines for k in ('c', 'cpp')], table, lanes=8)


def times(chk, cmds, kind):
    """waiting as long as asked; all ones: for ever"""
    a, b = Agent(*cmds[kind]), Agent(*cmds['rust'])
    try:
        i = ident('t')
        j = dict(ident=i, label=['x'], token='t', t='w')
        for ms in (0, 1, 60, 350):
            r = a.do('join', e='n', **dict(j, aff=False, timeout=ms))
            if r.get('err') != 'Timeout' or not ms * 1000 <= r['us'] <= (ms + 700) * 1000:
                raise Mismatch('joining with a timeout of %d ms where nobody hosts a bus: %s' % (ms, r))
        q = a.start('join', e='a', **dict(j, aff=False, timeout=None))
        time.sleep(0.7)
        if not q.empty():
            raise Mismatch('joining without a timeout where nobody hosts a bus returns: %s' % a.wait(q))
        r = b.do('join', e='b', t='b', ident=i, label=['y'], token='t', types='Y', timeout=5000)
        r = a.wait(q, 'joining after a host has appeared', 15)
        if not r.get('ok'):
            raise Mismatch('joining without a timeout: %s' % r)
        for ms in (0, 1, 60, 350):
            r = a.do('recv', e='a', t='w', timeout=ms)
            if r.get('err') != 'Timeout' or not ms * 1000 <= r['us'] <= (ms + 300) * 1000:
                raise Mismatch('recv with a timeout of %d ms: %s' % (ms, r))
        for ms in (None, 0xfffffffe):
            q = a.start('recv', e='a', t='w', timeout=ms)
            time.sleep(0.7)
            if not q.empty():
                raise Mismatch('recv without a timeout returns: %s' % a.wait(q))
            b.do('send', e='b', t='b', sel=['l', 'x'], mode='u', ty='Y', id=5, len=9)
            r = a.wait(q, 'recv with a message on the way', 10)
            if r.get('msg', {}).get('id') != 5 or not r['msg']['intact']:
                raise Mismatch('recv without a timeout: %s' % r)
        chk.trace(dict(interface=kind, timeouts='join, recv'))
    except Mismatch as m:
        chk.violation('%s: %s' % (kind, m.what), dict(kind='times', interface=kind))
    finally:
        a.close(), b.close()


def codes(chk, cmds, kind):
    """the code of each error: of join, and of send and recv that have to join again"""
    a = Agent(*cmds[kind])
    hosts = []

    def host(i, **env):
        h = Agent(cmds['rust'][0], dict(cmds['rust'][1], **env))
        hosts.append(h)
        r = h.do('join', e='h', t='h', ident=i, label=['y'], token='t', types='Y', timeout=15000)
        if not r.get('ok'):
            raise Mismatch('cannot host a bus: %s' % r)
        return h
    try:
        v = a.do('version', t='w')
        i = ident('c')
        h = host(i)
        r = h.do('version')
        if v['version'] != r['version'] or v['pre'] != r['pre']:
            raise Mismatch('the version is %s, of the Rust interface %s' % (v, r))
        a.do('sleepdiv', n=50)
        for e, want, env in (('v', 'VersionMismatch', {'IPMB_VERIF_VERSION': '%d.%d.0' % (v['version'][0] + 1, v['version'][1])}),
                             ('p', 'PermissionDenied', None), ('k', 'TokenMismatch', None)):
            for op in ('join', 'recv', 'send'):
                i = ident('c')
                j = dict(e=e, t='w', ident=i, label=['x'], token='t', aff=False, timeout=15000)
                if op != 'join':
                    h = host(i)
                    r = a.do('join', **j)
                    if not r.get('ok'):
                        raise Mismatch('join: %s' % r)
                    h.kill()
                if e == 'k':
                    h = Agent(*cmds['rust'])
                    hosts.append(h)
                    h.do('join', e='h', t='h', ident=i, label=['y'], token='u', types='Y', timeout=15000)
                else:
                    host(i, **(env or {}))
                a.do('refuse', errno=13 if e == 'p' else 0)
                r = a.do('join', **j) if op == 'join' else a.do('recv', e=e, t='w', timeout=15000) if op == 'recv' else \
                    a.do('send', e=e, t='w', sel=['l', 'y'], mode='u', id=1)
                a.do('refuse', errno=0)
                if r.get('err') != want:
                    raise Mismatch('%s where it should fail with %s: %s' % (op, want, r))
                if op != 'join':
                    a.do('dropr', e=e, t='w'), a.do('drops', e=e, t='w')
                chk.trace(dict(interface=kind, call=op, code=want))
    except Mismatch as m:
        chk.violation('%s: %s' % (kind, m.what), dict(kind='codes', interface=kind))
    finally:
        for x in [a] + hosts:
            x.close()


PROPS = dict(C20=c20)
NOTES = {'C20': ('TLA+/TLC: behaviours of CApi, BusSeq, BusAttach and Registry and the table of Windows replayed through the C interface and the C++ classes',
                 'Every call is made on the real shared library, by handles, with endpoints of C, C++ and Rust on one bus; results, outputs of failing '
                 'calls, identities, reference counts and the heap blocks, descriptors and threads left behind are compared with the specification. '
                 'Times and error codes of calls that join again are a table executed in real time. ')}
