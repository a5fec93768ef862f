"""At rest."""
import random
from vlib import *
from seq import replay_all
import busseq, rest

Q = TIER == 'quick'
FAST = {'AGENT_SLEEP_DIV': '100'}


def c24(chk):
    agent = build_agent()
    # 1. the design: whatever happened, the host's turns end
    for cl, mm, mw in (('{1, 2}', 4, 2), ('{1, 2, 3}', 2, 1)) if Q else (('{1, 2}', 6, 2), ('{1, 2, 3}', 4, 2)):
        cfg = ('SPECIFICATION FairSpec\nCONSTANTS\n Clients = %s\n MaxMsgs = %d\n MaxWaking = %d\n Stepped = FALSE\n D = 0\n Pick <- cP\n'
               'INVARIANTS NothingLeft Noticed\nPROPERTIES Rests EverythingRouted\nCHECK_DEADLOCK FALSE\n' % (cl, mm, mw))
        chk.model('Hub', tlc('Hub', cfg, 'cP(S) == S', heap='6g', timeout=1500))
    # 2. histories, after which there is nothing to do
    kw = dict(modes=('u', 'm'), eps='abcd', tokens=('tk', 't2'), ttls=(0, 15), types=(('A',), ('A', 'B'), ('B',)), tys=('A', 'B', 'BadA'),
              labels=(('x',), ('x', 'y'), ('y',)), sels='{T, L("x"), L("y"), L("z")}')
    for k, d in enumerate((4, 9, 16)):
        behs = busseq.walks(chk, 'BusSeq/rest%d' % d, 120 if Q else 2500, d, procs=2, seed=SEED + k,
                            **dict(kw, ops=('join', 'send', 'recv', 'dropr', 'drops', 'adv'), advs=(10, 31), rare=dict(dropr=2, drops=2, adv=3)))
        replay_all(chk, agent, behs, cls=rest.RestReplay, what='walks')
        behs = busseq.walks(chk, 'BusSeq/rest_deaths%d' % d, 50 if Q else 1200, d, procs=2, seed=SEED + 10 + k,
                            **dict(kw, affs=(True, True, False), ops=('join', 'send', 'recv', 'dropr', 'drops', 'kill'), rare=dict(dropr=4, drops=6, kill=2)))
        replay_all(chk, agent, behs, layout='each', env=FAST, cls=rest.RestReplay, what='death_walks', recycle=10)
    # 3. many
    rnd = random.Random(SEED)
    jobs = [(rest.crowd, n, kills, random.Random(rnd.random())) for n, kills in ((5, 0.3), (40, 0.5), (90, 0.2), (300, 0.4)) * (1 if Q else 8)]
    jobs.append((rest.waiting,))

    def one(_, job):
        for n in range(3):
            try:
                job[0](chk, agent, *job[1:])
                if n:
                    chk.count('unconfirmed')
                return
            except Mismatch as m:
                last = m
        chk.violation(last.what, dict(kind=job[0].__name__, args=[str(x) for x in job[1:3]]))
    parallel(jobs, one, lanes=5)


PROPS = dict(C24=c24)
NOTES = {
    'C24': ('TLA+/TLC: model checking of Hub (the controller comes to rest, in all interleavings); behaviours of BusSeq replayed into the implementation, '
            'after which no process may run',
            'System calls and processor time of every process are counted in windows of 30 ms at the end of every behaviour, with receivers waiting and '
            'without; histories are sampled. Endpoints that wait for a bus are observed for some seconds.'),
}
