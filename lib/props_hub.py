"""Checks of the bus host's service."""
import random
from vlib import *
import frames, hub, stream

Q = TIER == 'quick'


def c18(chk):
    cmd = build_agent()
    # 1. the design
    for cl, mm, mw in (('{1, 2}', 4, 2), ('{1, 2, 3}', 2, 1)) if Q else (('{1, 2}', 6, 2), ('{1, 2, 3}', 4, 2), ('{1, 2, 3, 4}', 2, 1)):
        cfg = ('SPECIFICATION FairSpec\nCONSTANTS\n Clients = %s\n MaxMsgs = %d\n MaxWaking = %d\n Stepped = FALSE\n D = 0\n Pick <- cP\n'
               'INVARIANTS Fair NothingLeft Noticed\nPROPERTIES EverythingRouted Admitted Rests\nCHECK_DEADLOCK FALSE\n' % (cl, mm, mw))
        chk.model('Hub', tlc('Hub', cfg, 'cP(S) == S', heap='6g', timeout=1500))
    # 2. its schedules, and crowds
    jobs = [('walk', w) for w in hub.walks(chk, 240 if Q else 6000, 40)]
    rnd = random.Random(SEED)
    cr = hub.crowds(rnd, 0 if Q else 60)
    jobs += [('crowd', c) for c in cr]
    runs, bad, lock = [], [], threading.Lock()

    def run(kind, x, seed):
        h = (hub.Stepped if kind == 'walk' else hub.Crowd)(cmd)
        try:
            if kind == 'walk':
                h.n = 5
                ok = h.run(x, random.Random(seed))
            else:
                h.run(random.Random(seed), *x)
                ok = True
            return h.n, h.ev, ok, h.n_routed()
        finally:
            h.close()

    def one(_, j):
        i, (kind, x) = j
        try:
            n, ev, ok, c = run(kind, x, i)
        except Mismatch as m:
            with lock:
                bad.append((kind, x, i, m.what))
            return
        if not ok:
            chk.count('schedules_not_followed')
        with lock:
            runs.append((kind, x, i, n, ev, ok))
        chk.trace(dict(kind=kind, sources=n, routed=c))
        chk.count('messages', c)
    parallel(list(enumerate(jobs)), one, lanes=8, stop=lambda: len(bad) >= 4)

    def judge(rs):
        js = hub.judge(chk, [r[3:5] for r in rs])
        out = []
        for r, j in zip(rs, js):
            why = j['bad']
            if why:
                out.append((r[0], r[1], r[2], '%s (source %s, %d others in between; left: %s)' % ('; '.join(why), j['who'], j['max'], j['left'])))
        return out
    for k in range(0, len(runs), 400):
        bad += judge(runs[k:k + 400])
    for kind, x, i, what in bad[:6]:
        for _ in range(3):
            try:
                n, ev, ok, c = run(kind, x, i)
                again = [w for *_, w in judge([(kind, x, i, n, ev, ok)])]
            except Mismatch as m:
                again = [m.what]
            if again:
                chk.violation('%s: %s' % (kind, again[0]), dict(kind=kind, run=x, seed=i))
                break
        else:
            chk.count('unconfirmed')


def c23(chk):
    cmd = build_agent()
    frames.model(chk)
    upto = 2100 if Q else 9000
    jobs = [(frames.route, r, upto, SEED + i) for i, r in enumerate(frames.ROUTES)]
    jobs += [(frames.late, e, upto // 3) for e in 'hp']
    ks = list(range(0, 24)) + [100, 249, 250, 251, 252] if Q else list(range(0, 300))
    jobs += [(frames.selectors, ks[i::4], list(range(10))) for i in range(4)]
    jobs += [(frames.attached, list(range(0, 60 if Q else 600)) + [5000, 65535, 65536, 120001])]
    jobs += [(frames.too_large, k, by) for k in ('size', 'attachments') for by in 'hp']

    def one(_, j):
        for n in range(3):
            try:
                j[0](chk, cmd, *j[1:])
                if n:
                    chk.count('unconfirmed')
                return
            except Mismatch as m:
                last = m
        chk.violation(last.what, last.data or dict(kind=j[0].__name__))
    parallel(jobs, one, lanes=8)
    # many at once, nothing may get mixed up
    for i, m in enumerate(('steady', 'pressure')):
        stream.campaign(chk, cmd, 'steady', 60 if Q else 1000, seed0=700000 + i * 10000 + SEED, method=m)


PROPS = dict(C18=c18, C23=c23)
NOTES = {'C23': ('TLA+/TLC: framing of Frame for all small selectors, payloads and fillings; its table of lengths sent over every route, logs of concurrent runs judged by Stream',
                 'Every payload length up to a bound, around powers of two and up to the exact limit, with zeros, ones, patterns and noise, over all routes '
                 '(own endpoint, host, client, several, a later endpoint), with selectors of every length and with attachments. '),
         'C18': ('TLA+/TLC: fairness and wake-ups of Hub for all interleavings; its schedules replayed against the stopped controller, recorded orders judged by HubTrace',
                 'The controller is stopped before every wait and every clearing of its eventfd, senders of the host between queueing and waking; up to 60 '
                 'sources with pending messages, floods and joiners run freely. ')}
