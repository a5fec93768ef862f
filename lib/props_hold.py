"""What is released."""
from vlib import *
import busseq, hold, js, regseq

Q = TIER == 'quick'
FAST = {'AGENT_SLEEP_DIV': '100'}


def c22(chk):
    agent = build_agent()
    hold.join_faults(chk, agent, 1 if Q else 20)
    b = hold.walks(chk, 'BusHold', 200 if Q else 8000, 36)
    hold.drive(chk, agent, b, 'walks')
    b = hold.walks(chk, 'BusHold/buffer', 96 if Q else 4000, 36, seed=SEED + 1, ns=(0, 1, 2), maxres=8,
                   rare=dict(join=4, dropr=9, drops=9, adv=3, new=1, clone=8, droph=6, kill=15, settle=5, vjoin=30, recv=3), ttls=(15, 50))
    hold.drive(chk, agent, b, 'buffer_walks')
    # the same history again and again, on one bus
    b = hold.walks(chk, 'BusHold/rounds', 96 if Q else 3000, 28, seed=SEED + 2,
                   rare=dict(join=1, dropr=6, drops=6, adv=5, new=2, clone=4, droph=4, kill=20, settle=5, vjoin=6))
    b = [x for x in b if not any(y['op'] == 'dropr' and y['e'] == 'h' for y in x['hist'])]
    hold.heaps(chk, agent, b, 'repeated')
    # hosts die, others take over
    kw = dict(modes=('u', 'm'), eps='abcd', tokens=('tk', 't2'), affs=(True, True, False), labels=(('x',), ('x', 'y'), ('y',)), sels='{T, L("x"), L("y")}',
              ttls=(0, 15), types=(('A',), ('A', 'B'), ('B',)), tys=('A', 'B'), ops=('join', 'send', 'recv', 'dropr', 'drops', 'kill'))
    b = busseq.walks(chk, 'BusSeq/kill', 160 if Q else 4000, 24, rare=dict(dropr=10, drops=30, kill=3), seed=SEED + 3, **kw)
    hold.leavers(chk, agent, b, 'host_death_walks', env=FAST)
    hold.crowds(chk, agent, (10, 70, 150, 300) if Q else (10, 33, 65, 70, 130, 150, 260, 300, 520, 700) * 3)
    js.rounds(chk, js.commands(), 12 if Q else 60)
    ops = regseq.walks(chk, 'Registry/walks', 200 if Q else 4000, 30, gs=('g', 'k'), seed=SEED + 4)
    try:
        res = regseq.drive(chk, agent, ops, mk=hold.RegistryExec)
        chk.trace(dict(events=[' '.join(str(v) for v in e.values()) for e in res[0][1][:12]]), n=len(res))
    except Mismatch as m:
        chk.violation(m.what, m.data)


PROPS = dict(C22=c22)
NOTES = {
    'C22': ('TLA+/TLC: model checking of JoinHold and BusHold; behaviours replayed into the implementation, with faults and deaths',
            'Each behaviour is executed by real processes. At the points of the specification that require it the descriptors, threads and mappings of every '
            'process are compared with what it has to hold, and the objects in use with those still open anywhere. Heap growth is judged over repetitions.'),
}
