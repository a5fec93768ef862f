"""C14, C15: how long recv and join take."""
import random
from vlib import *
import timing

Q = TIER == 'quick'


def c14(chk):
    cmd = build_agent()
    k = 1 if Q else 8
    behs = timing.behaviours(chk, 'RecvTiming', 180 * k)
    behs += timing.behaviours(chk, 'RecvTiming, others host', 180 * k, hosts=('FALSE',),
                              rare=dict(call=1, send=4, noise=6, die=3, host=6, squat=2), seed=SEED * 10 + 5)
    timing.replay(chk, cmd, behs, timing.Recv, 'recv', brief=timing.brief_recv)
    if not chk.violations:
        timing.exact(chk, cmd, 8 * k)


def nontrivial(b):
    return len({o for o, _ in b['allowed']}) > 1 or max(at for _, at in b['allowed']) > 0


def c15(chk):
    cmd = build_agent()
    scripts = timing.join_scripts(chk, not Q)
    rnd = random.Random(SEED)
    hard = [b for b in scripts if nontrivial(b)]
    easy = [b for b in scripts if not nontrivial(b)]
    chk.count('scripts_of_the_model', len(scripts))
    # every kind of occupant with and without a timeout, then at random
    groups = {}
    for b in hard:
        groups.setdefault((b['first'], b['evs'][-1]['occ'] if b['evs'] else '', b['aff'], b['to'] == 99), []).append(b)
    picked = [rnd.choice(g) for g in groups.values()]
    n = 260 if Q else 4000
    picked = rnd.sample(picked, min(len(picked), n * 2 // 3))
    picked += rnd.sample(hard, n - len(picked)) + rnd.sample(easy, 24 if Q else 200)
    rnd.shuffle(picked)
    timing.replay(chk, cmd, picked, timing.Join, 'join', lanes=64, brief=timing.brief_join)


PROPS = dict(C14=c14, C15=c15)
NOTES = dict(
    C14=('TLA+ model of recv in time, TLC behaviours replayed against real processes in real time',
         'calls, arrivals, signals, floods, deaths and new hosts at separated instants of 60 ms; results and instants compared, 45 ms late allowed, reported only if three further runs alone fail too'),
    C15=('TLA+ model of join in time, all scripts checked by TLC, sampled scripts replayed in real time',
         'what is bound to the identifier follows scripts of up to two changes among eight kinds; outcome and instant must be among those TLC found for the script'))
