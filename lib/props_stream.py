"""Checks of concurrent runs: order and loss, leaving, failover, shared endpoints."""
import random
from vlib import *
from seq import replay_all
import noise, busseq, stream, shared

Q = TIER == 'quick'
FAST = {'AGENT_SLEEP_DIV': '100', 'AGENT_SIGPIPE': '1'}
u, m = 'u', 'm'

ASYNC = '''SPECIFICATION Spec
CONSTANTS
 N <- cN
 Groups <- cGroups
 Prog <- cProg
 Late <- cLate
 Leavers <- cLeavers
 Cap = %d
 HostDies = %s
 Keep = %s
INVARIANTS Safe Complete NoneStuck
CHECK_DEADLOCK FALSE
'''


def bus_async(chk, name, groups, prog, late=(), leavers=(), cap=1, dies=False, keep=False, timeout=800):
    mc = 'cN == %d\ncGroups == %s\ncProg == %s\ncLate == %s\ncLeavers == %s' % (
        len(groups), tla(groups), tla(prog), tla(set(late)), tla(set(leavers)))
    r = tlc('BusAsync', ASYNC % (cap, str(dies).upper(), str(keep).upper()), mc, heap='10g', timeout=timeout)
    chk.model('BusAsync/' + name, r)


def c04(chk):
    agent = build_agent()
    bus_async(chk, 'static', [['x'], ['x'], ['x', 'y']], [[(m, 'x')], [(u, 'x'), (m, 'x')], [(m, 'y'), (m, 'x')]])
    if not Q:
        bus_async(chk, 'static4', [['x'], ['x'], ['x', 'y'], ['y']], [[(m, 'x')], [(u, 'x'), (m, 'x')], [(m, 'y'), (m, 'x')], [(u, 'y')]])
        bus_async(chk, 'static3', [['x'], ['x'], ['x', 'y']], [[(m, 'x'), (u, 'y')], [(u, 'x'), (m, 'x'), (u, 'y')], [(m, 'y'), (m, 'x')]], cap=2)
    stream.campaign(chk, agent, 'steady', 700 if Q else 12000)
    stream.campaign(chk, agent, 'steady', 60 if Q else 1500, seed0=50000, method='pressure')


def c09(chk):
    agent = build_agent()
    bus_async(chk, 'leave', [['x'], ['x'], ['x']], [[(u, 'x')], [], [(u, 'x'), (m, 'x')]], leavers=[2])
    bus_async(chk, 'late', [['z'], ['z'], ['x']], [[(u, 'x')], [(u, 'x'), (u, 'x')], []], late=[3], keep=True)
    bus_async(chk, 'late_mixed', [['z'], ['x', 'y'], ['x']], [[(u, 'x')], [], []], late=[2, 3], keep=True)
    if not Q:
        bus_async(chk, 'late_mixed2', [['z'], ['z'], ['x'], ['y']], [[], [(m, 'x'), (u, 'y')], [], []], late=[3, 4], keep=True)
        bus_async(chk, 'late_nokeep', [['z'], ['z'], ['x']], [[(u, 'x')], [(u, 'x'), (m, 'x')], []], late=[3])
        bus_async(chk, 'leave2', [['x'], ['x'], ['x']], [[(u, 'x'), (u, 'x')], [(m, 'x')], [(u, 'x'), (m, 'x')]], leavers=[2, 3])
    kw = dict(modes=('u', 'm'), eps='abcd', labels=(('x',), ('x', 'y'), ('y',)), sels='{T, L("x"), L("y")}', ttls=(0, 15),
              rare=dict(dropr=2, drops=2, join=1, kill=3))
    behs = busseq.walks(chk, 'BusSeq/leaving', 500 if Q else 6000, 22, **kw)
    replay_all(chk, agent, behs, what='leave_walks')
    behs = busseq.walks(chk, 'BusSeq/dying', 160 if Q else 2500, 20, seed=SEED + 1, procs=2, ops=('join', 'send', 'recv', 'dropr', 'drops', 'kill'),
                        **dict(kw, affs=(True, False)))
    replay_all(chk, agent, behs, layout='each', env=FAST, what='death_walks', recycle=10)
    behs = busseq.walks(chk, 'BusSeq/noise', 150 if Q else 2500, 18, seed=SEED + 2, procs=2, **dict(kw, affs=(True, False), ops=('join', 'send', 'recv', 'dropr', 'drops'), rare=dict(drops=9)))
    for layout, n in (('one', 100), ('each', 50)):
        replay_all(chk, agent, behs[:n] if Q else behs, layout=layout, cls=noise.NoisyReplay, what='noisy_walks_%s' % layout)
    stream.campaign(chk, agent, 'churn', 300 if Q else 6000)


def c08(chk):
    agent = build_agent()
    if not Q:
        bus_async(chk, 'die', [['x'], ['x'], ['x']], [[(m, 'x')], [(u, 'x'), (m, 'x')], [(m, 'x')]], dies=True)
    bus_async(chk, 'die2', [['x'], ['x']], [[(m, 'x')], [(u, 'x'), (m, 'x')]], dies=True)
    kw = dict(modes=('u', 'm'), eps='abcd', tokens=('tk',), affs=(True, True, False), labels=(('x',), ('x', 'y'), ('y',)), sels='{T, L("x"), L("y")}',
              ttls=(0, 15), types=(('A',), ('A', 'B'), ('B',)), tys=('A', 'B'), ops=('join', 'send', 'recv', 'dropr', 'drops', 'kill'))
    behs = busseq.walks(chk, 'BusSeq/kill', 700 if Q else 6000, 22, rare=dict(dropr=10, drops=30, kill=3), **kw)
    hot = [b for b in behs if any(x['op'] == 'kill' and x['host'] for x in b['hist'])]
    replay_all(chk, agent, hot[:220 if Q else 3000], layout='each', env=FAST, what='host_death_walks', recycle=10)
    kw.update(tokens=('tk', 't2'))
    behs = busseq.walks(chk, 'BusSeq/kill_tokens', 200 if Q else 2000, 20, seed=SEED + 1, procs=2, rare=dict(dropr=10, drops=30, kill=3), **kw)
    hot = [b for b in behs if any(x['op'] == 'kill' and x['host'] for x in b['hist'])]
    replay_all(chk, agent, hot[:60 if Q else 1000], layout='each', env=FAST, what='host_death_walks_tokens', recycle=10)
    # one host after the other, and those that cannot take over wait
    eps = ['e%d' % i for i in range(8)]
    rnd = random.Random(SEED)
    behs = busseq.scripts(chk, 'BusScript/deaths', [busseq.other_host(rnd, eps, (3, 5), 0.4, ('tk',)) for _ in range(70 if Q else 1500)], eps)
    replay_all(chk, agent, behs, layout='each', env=FAST, what='deaths_in_a_row', recycle=10)
    stream.campaign(chk, agent, 'failover', 90 if Q else 2500, env=FAST)


LOCKS = '''SPECIFICATION Spec
CONSTANTS
 Senders <- cS
 Sends = %d
 Cap = 1
 MaxDie = %d
 Protocol = "%s"
 Drops = %s
INVARIANTS NotStuck One Exclusive
PROPERTIES Finish
CHECK_DEADLOCK FALSE
'''


def locks(n, sends, die, drops, protocol='new'):
    return tlc('SharedLocks', LOCKS % (sends, die, protocol, str(drops).upper()), 'cS == ' + tla({'s%d' % i for i in range(n)}), heap='8g')


def c19(chk):
    agent = build_agent()
    for a in [(2, 2, 2, True), (2, 2, 2, False)] + ([] if Q else [(3, 1, 2, True), (3, 2, 2, True), (2, 3, 3, True)]):
        chk.model('SharedLocks/%d senders, %d sends, %d deaths, drop %s' % a, locks(*a))
    # that the specification tells a protocol that gets stuck
    r = locks(2, 2, 2, True, 'old')
    if r.ok or 'NotStuck is violated' not in r.out:
        raise ToolError('SharedLocks does not find the deadlock of the old protocol:\n' + r.log())
    k = 1 if Q else 12
    behs = []
    for i, (ss, aff, kills, sends, d, n) in enumerate([(('s1', 's2'), True, 2, 4, 22, 120), (('s1', 's2'), False, 2, 4, 24, 120),
                                                       (('s1', 's2', 's3'), True, 3, 3, 32, 100), (('s1',), True, 2, 4, 20, 60),
                                                       (('s1', 's2', 's3', 's4'), False, 2, 3, 36, 60)]):
        behs += shared.behaviours(chk, 'SharedEndpoint/%d' % i, ss, aff, kills, sends, d, n * k)
    random.Random(SEED).shuffle(behs)
    shared.replay(chk, agent, behs[:500 if Q else 8000])
    stream.campaign(chk, agent, 'shared', 40 if Q else 2000, env=FAST)


PROPS = dict(C04=c04, C08=c08, C09=c09, C19=c19)
_R = ('Runs of real processes with many threads are logged and every log is judged by TLC against Stream (what may be received, in which order, '
      'what must be). The runs are samples; interleavings vary by system call delays, signals and load. ')
NOTES = {
    'C04': ('TLA+/TLC: exhaustive exploration of BusAsync; logs of concurrent runs of the implementation checked by TLC against Stream', _R),
    'C09': ('TLA+/TLC: BusAsync explored with leaving and late endpoints; behaviours of BusSeq replayed (one process and a process each, killed); '
            'logs of concurrent runs with endpoints that come, go and die checked against Stream', _R),
    'C08': ('TLA+/TLC: BusAsync explored with a dying host; behaviours of BusSeq in which hosts die replayed into processes that are killed; '
            'logs of concurrent runs with deaths at any moment checked against Stream', _R),
    'C19': ('TLA+/TLC: lock protocol SharedLocks explored exhaustively with liveness; behaviours of SharedEndpoint forced upon the threads of '
            'one endpoint system call by system call; logs of concurrent runs checked against Stream',
            'SharedLocks models the locks of the code by hand. ' + _R)}
