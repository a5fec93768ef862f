"""Behaviours of BusSeq."""
import random
from vlib import *

INV = 'RoutingSound OnlyMatching InOrderOnce UnicastOnce BufferedHadNoReceiver NothingExpired'


def cfg_of(D, mc_extra='', invariants=INV):
    return '''SPECIFICATION Spec
CONSTANTS
 Eps <- cEps
 Labels <- cLabels
 Sels <- cSels
 Tokens <- cTokens
 Affs <- cAffs
 TypeSets <- cTypeSets
 Modes <- cModes
 Ttls <- cTtls
 Tys <- cTys
 Advs <- cAdvs
 Ops <- cOps
 Pick <- cPick
 Chance <- cChance
 VerOk <- cVerOk
 D = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
''' % (D, invariants)


def mc_of(eps='abc', labels=(('x',), ('y',), ('x', 'y'), ()), sels='Exprs({"x", "y"}, 1)', tokens=('tk',), affs=(True,),
          types=(('A', 'B', 'Y'),), modes=('u', 'm'), ttls=(0,), tys=('A',), advs=(10,),
          ops=('join', 'send', 'recv', 'dropr', 'drops'), rare=None, exhaustive=False, verok='TRUE'):
    fs = lambda xs: '{' + ', '.join(tla(set(x)) if isinstance(x, (tuple, set, list)) else tla(x) for x in xs) + '}'
    rare = dict(dict(dropr=3, drops=4, adv=1, kill=2), **(rare or {}))
    if exhaustive:
        pick, chance = 'cPick(S) == S', 'cChance(op) == TRUE'
    else:
        pick = 'cPick(S) == {RandomElement(S)}'
        chance = 'cChance(op) == ' + 'CASE ' + ' [] '.join(
            'op = "%s" -> RandomElement(1..%d) = 1' % (o, n) for o, n in rare.items() if n > 1) + ' [] OTHER -> TRUE'
    return '\n'.join([pick, chance, 'cVerOk(e, f) == ' + verok, 'cEps == ' + fs(eps), 'cLabels == ' + fs(labels), 'cSels == ' + sels,
                      'cTokens == ' + fs(tokens), 'cAffs == ' + fs(affs), 'cTypeSets == ' + fs(types), 'cModes == ' + fs(modes),
                      'cTtls == ' + fs(ttls), 'cTys == ' + fs(tys), 'cAdvs == ' + fs(advs), 'cOps == ' + fs(ops)])


def walks(chk, name, num, depth, procs=4, seed=None, **kw):
    """random behaviours"""
    mc, cfg = mc_of(**kw), cfg_of(depth)
    out = [None] * procs
    seed = SEED if seed is None else seed

    def one(_, i):
        out[i] = tlc('BusSeq', cfg, mc, workers=1, simulate=(num + procs - 1) // procs, depth=depth + 3, seed=seed * 1000 + i, heap='1g')
    parallel(range(procs), one, lanes=procs)
    behs = []
    for i, r in enumerate(out):
        chk.model('%s.%d' % (name, i), r)
        behs += r.lines
    return behs


def exhaustive(chk, name, depth, limit=None, **kw):
    """every behaviour of that length"""
    r = tlc('BusSeq', cfg_of(depth), mc_of(exhaustive=True, **kw), workers='auto', heap='6g')
    chk.model(name, r)
    behs = sorted(r.lines, key=lambda b: json.dumps(b, sort_keys=True))
    if limit and len(behs) > limit:
        import random
        rnd = random.Random(SEED)
        behs = rnd.sample(behs, limit)
    return behs


# ---- given histories: large ones --------------------------------------------------------------------------------------------------

def scripts(chk, name, given, eps, **kw):
    """the specification's results for given histories; what it does not know ("quiet") is kept"""
    mc = mc_of(eps=eps, ops=('join', 'send', 'recv', 'dropr', 'drops', 'kill', 'adv'), exhaustive=True, labels=(), tokens=(), sels='{}', **kw) + \
        '\ncFile == "given.json"'
    cfg = cfg_of(0, invariants='NothingExpired SoundSmall').replace('SPECIFICATION Spec', 'SPECIFICATION SSpec') \
        .replace('CONSTANTS\n', 'VIEW Where\nCONSTANTS\n File <- cFile\n')
    strip = [[{k: v for k, v in x.items() if k not in ('quiet',)} for x in g] for g in given]
    r = tlc('BusScript', cfg, mc, workers='auto', files={'given.json': json.dumps(strip)}, heap='4g', java=('-Xss400m',))
    chk.model(name, r)
    out = [None] * len(given)
    for l in r.lines:
        for op in ('join', 'send'):
            js = [g for g in given[l['k'] - 1] if g['op'] == op]
            for x, g in zip([x for x in l['hist'] if x['op'] == op], js):
                x['quiet'] = g.get('quiet', False)
        out[l['k'] - 1] = l
    if None in out:
        raise ToolError('%s: the specification does not allow given history %d' % (name, out.index(None)))
    return out


def j(e, label, types='A', aff=True):
    return dict(op='join', e=e, label=sorted(label), token='tk', aff=aff, types=list(types))


def s(e, sel, mode='u', ttl=0, ty='A'):
    return dict(op='send', e=e, sel=sel, mode=mode, ttl=ttl, ty=ty)


X, Y, Z = ['l', 'x'], ['l', 'y'], ['l', 'z']


def interesting_ttl(b):
    return any(x['op'] == 'adv' for x in b['hist']) and any(x['op'] == 'send' and x['ttl'] and not x['to'] for x in b['hist'])


def crowd(rnd, n, modes):
    """many endpoints, many of them gone when something is sent"""
    eps = ['e%d' % i for i in range(n)]
    lab = lambda: [a for a in 'xyz' if rnd.random() < 0.5]
    h = [j(e, lab()) for e in eps]
    if n > 100:
        # everybody is still there
        h += [s('e0', x, m) for x, m in ((['o', X, ['o', Y, Z]], 'm'), (['a', X, ['a', Y, Z]], 'u'), (['a', X, Y], 'm'))]
    alive = eps[1:] if rnd.random() < 0.7 else eps[:]
    sels = [X, Y, Z, ['a', X, Y], ['o', Y, Z], ['n', X], ['t'], ['a', X, ['n', ['o', Y, Z]]]]
    for _ in range(rnd.randint(3, 5)):
        # neighbours leave
        i = rnd.randrange(len(alive))
        for e in alive[i:i + rnd.choice((1, 2, 7, 20, 40))]:
            how = rnd.random()
            h += [dict(op='dropr', e=e)]
            if how < 0.7 and e != 'e0':
                h.append(dict(op='drops', e=e))
                if rnd.random() < 0.25:
                    h.append(j(e, lab()))
                    continue
            alive.remove(e)
        rest = [x for x in alive]
        if not rest:
            break
        if rnd.random() < 0.3:
            # long enough for the controller to look for those that are gone
            h.append(dict(op='adv', t=31))
            h.append(s(rnd.choice(rest), rnd.choice(sels), rnd.choice(modes)))
        for _ in range(rnd.randint(2, 6)):
            h.append(s(rnd.choice(rest), rnd.choice(sels), rnd.choice(modes)))
    return h


def backlog(rnd, n):
    """many messages wait for endpoints that join one after the other; some expire"""
    h = [j('h', ['h']), j('c', ['c'])]
    boxes = {e: 0 for e in 'xyz'}
    sels = [(X, 'x'), (Y, 'y'), (Z, 'z'), (['o', X, Y], 'xy'), (['n', ['o', ['l', 'h'], ['o', ['l', 'c'], ['l', '~m']]]], 'xyz')]
    # of the large ones everything is still there in the end
    steps = sorted(rnd.sample(range(n), 2)) if n < 1000 else [n - 1]
    e = 'h'
    for i in range(n):
        if i in steps:
            h[-1].pop('quiet', 0)
            h.append(dict(op='adv', t=10))
        h.append(s(e, rnd.choice(sels)[0], rnd.choice('um'), rnd.choice((5, 15, 15, 25, 25, 600)) if n < 1000 or rnd.random() < 0.02 else 600))
        # the bus need not be finished with what one sender has sent before it sends more
        if i + 1 < n and rnd.random() < 0.97:
            h[-1]['quiet'] = True
        else:
            e = rnd.choice('hc')
    order = list('xyz')
    rnd.shuffle(order)
    for k, e in enumerate(order):
        h.append(dict(j(e, [e]), quiet=True))
        h.append(dict(op='readall', e=e))
        if k < 2 and rnd.random() < 0.5:
            h.append(dict(op='adv', t=10))
    return h


def other_host(rnd, free=('a1', 'a2', 'a3', 'c1', 'c2', 'c3'), rounds=(2, 3), aff=0.8, tokens=('tk', 'tk', 'tk', 't2')):
    """those who lose their host find one of another version, or with another token"""
    free = rnd.sample(free, len(free))
    h, up, tok = [], [], {}
    lab = lambda: rnd.choice((['x'], ['y'], ['x', 'y']))
    for _ in range(rnd.randint(*rounds)):
        # the next host, then others: of its kind mostly
        if free:
            e = free.pop()
            h.append(dict(j(e, lab(), aff=True), token=rnd.choice(tokens)))
            up.append(e)
        for _ in range(rnd.randint(3, 7)):
            k = rnd.random()
            if k < 0.35 and free:
                same = [x for x in free if x[0] == up[-1][0]] or free
                e = rnd.choice(same)
                free.remove(e)
                h.append(dict(j(e, lab(), aff=rnd.random() < aff), token=rnd.choice(tokens)))
                up.append(e)
            elif k < 0.7:
                h.append(s(rnd.choice(up), rnd.choice((X, Y, ['t'])), rnd.choice('um'), rnd.choice((0, 15))))
            else:
                h.append(dict(op='recv', e=rnd.choice(up)))
        h += [dict(op='quiesce'), dict(op='killhost')]
    for _ in range(3):
        h.append(s(rnd.choice(up), X, 'm') if rnd.random() < 0.5 else dict(op='recv', e=rnd.choice(up)))
    return [dict(x, **{'try': True}) for x in h]


TTLS = (700, 999, 1000, 1700, 1999, 2500, 4096, 10001, 59999, 61000, 65536, 66700, 3600700, 16777216, 259200000, 1 << 30)


def lives(rnd):
    """messages wait; just before and after their time to live has passed, somebody joins.  Times are in ms"""
    h = [j('h', ['h'], 'Y'), j('c', ['c'], 'Y')]
    ts = sorted(rnd.sample(TTLS, 3))
    while any(0 < b - a < 600 for a in ts for b in ts):
        ts = sorted(rnd.sample(TTLS, 3))
    for _ in range(rnd.randint(5, 8)):
        h.append(s(rnd.choice('hc'), ['l', rnd.choice('xyz')], rnd.choice('um'), rnd.choice(ts), 'Y'))
    # what the real clock adds decides nothing
    moment = lambda at: next(x for x in (at, at - 1000, at - 2000, 0) if x >= 0 and not any(0 < b - x < 600 for b in ts))
    now, order = 0, rnd.sample('xyz', 3)
    for e, at in zip(order, sorted(moment(x - 600 if rnd.random() < 0.65 else x) for x in (ts if rnd.random() < 0.5 else rnd.choices(ts, k=3)))):
        if at - now > 0:
            h.append(dict(op='adv', t=at - now))
            now = at
        h.append(j(e, [e], 'Y'))
        h.append(dict(op='readall', e=e))
    return h


def lives_of(chk, name, n):
    return [dict(b, scale=0.001) for b in scripts(chk, name, [lives(random.Random(SEED * 100003 + i)) for i in range(n)], 'hcxyz')]


def skips(rnd, n, host):
    """long runs of messages of types the receiver does not take"""
    e = 'h' if host else 'c'
    h = [j('h', ['h', 'x'] if host else ['h']), j('c', ['c'] if host else ['c', 'x'])]
    for k in (1, 30, 60) + ((n,) if host else (80, 90)):
        for _ in range(k):
            h.append(s(rnd.choice('hc'), X, rnd.choice('um'), 0, rnd.choice('BCY')))
        last = rnd.choice(('A', 'BadA'))
        h += [s(rnd.choice('hc'), X, 'u', 0, last), s('h', X, 'u', 0, 'B'), s('c', X, 'u', 0, 'A')]
        h += [dict(op='recv', e=e)] * 3
    return h


def expression(rnd, size, atoms, chain):
    """a random expression: a chain of `size` operators, or one with that many leaves"""
    leaf = lambda: rnd.choice((['t'], ['f'])) if rnd.random() < 0.06 else ['l', rnd.choice(atoms)]
    if chain:
        x = leaf()
        for _ in range(size):
            y = leaf() if rnd.random() < 0.8 else ['n', leaf()]
            x = ['n', x] if rnd.random() < 0.3 else [rnd.choice('ao')] + ([x, y] if rnd.random() < 0.5 else [y, x])
        return x
    if size <= 1:
        return leaf()
    k = rnd.randint(1, size - 1)
    x = [rnd.choice('ao'), expression(rnd, k, atoms, False), expression(rnd, size - k, atoms, False)]
    return ['n', x] if rnd.random() < 0.2 else x


def large_table(chk, rnd, n):
    """large expressions and labels with what they mean"""
    cases = []
    for i in range(n):
        atoms = ['a%d' % k for k in range(rnd.choice((2, 5, 40)))]
        sel = expression(rnd, rnd.choice((4, 8, 16, 33, 64, 100)), atoms, i % 2)
        labs = [[a for a in atoms if rnd.random() < p] for p in (0.1, 0.3, 0.5, 0.7, 0.9)] + [[], atoms]
        labs[2] = labs[2] + ['b%d' % k for k in range(rnd.choice((10, 70, 300)))]
        cases.append([sel, labs])
    r = tlc('LabelGiven', 'SPECIFICATION Spec\nCONSTANTS File <- cFile\nINVARIANTS Printed\nCHECK_DEADLOCK FALSE\n', 'cFile == "given.json"',
            files={'given.json': json.dumps(cases)}, workers=1, java=('-Xss200m',))
    chk.model('LabelGiven', r)
    if len(r.lines) != n:
        raise ToolError('LabelGiven: %d of %d cases evaluated' % (len(r.lines), n))
    return [(c[0], c[1], l['vals']) for c, l in zip(cases, sorted(r.lines, key=lambda l: l['k']))]
