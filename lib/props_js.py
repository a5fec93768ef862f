"""The Node interface."""
from vlib import *
from seq import replay_all, scaled, AMAPS
import busseq, js, props_mem

Q = TIER == 'quick'


def c21(chk):
    cmds = js.commands()
    mk = lambda l: js.JLane(cmds, l, chk)
    js.exhaustive(chk, 4 if Q else 5)
    b = js.walks(chk, 'JsReceiver/walks', 160 if Q else 3000, 24)
    b += js.walks(chk, 'JsReceiver/calls', 160 if Q else 3000, 24, seed=SEED + 1, send=4, elapse=4)
    b += js.walks(chk, 'JsReceiver/end', 80 if Q else 1500, 24, seed=SEED + 2, send=3, lost=9, close=9, elapse=3, post=3)
    replay_all(chk, None, b, what='receiver_walks', mk=mk, cls=js.JsReplay, lanes=12)
    js.campaign(chk, cmds, 40 if Q else 800)
    parallel([(g, k, how) for g in ((0.02, 0.1) if Q else (0.001, 0.005, 0.02, 0.05, 0.1, 0.19)) for k in (0, 3) for how in ('close', 'gc')],
             lambda _, x: js.busy_close(chk, cmds, *x), lanes=4)
    # selectors and labels: endpoints of both interfaces on one bus
    kw = dict(modes=('u', 'm'), eps='abcd', types=(('Y',),), tys=('Y', 'BadY'), ttls=(0, 600), labels=(('x',), ('y',), ('x', 'y'), ()),
              rare=dict(dropr=6, drops=8))
    b = busseq.walks(chk, 'BusSeq/node', 120 if Q else 3000, 20, **kw)
    replay_all(chk, None, js.cast(b, SEED), what='bus_walks', amaps=AMAPS, mk=mk, cls=js.NReplay)
    b = [x for x in busseq.walks(chk, 'BusSeq/node_ttl', 300 if Q else 4000, 14, seed=SEED + 5,
                                 **dict(kw, ttls=(0, 5, 15), advs=(10, 20), ops=('join', 'send', 'recv', 'dropr', 'drops', 'adv'), rare=dict(adv=2, dropr=3)))
         if busseq.interesting_ttl(x)][:60 if Q else 2000]
    b = js.cast(scaled(b), SEED)
    b += js.cast(busseq.lives_of(chk, 'BusScript/node_lives', 60 if Q else 1500), SEED)
    for x in b:
        # the bus is hosted where time can be advanced
        x['who'].update({y['e']: 'rust' for y in x['hist'] if y['op'] == 'join' and y['exp'] == 'elect'})
    replay_all(chk, None, b, what='ttl_walks', mk=mk, cls=js.NReplay)
    cfg, mc = props_mem.win_cfg(True, 0, [0, 1, 11, 12, 4083, 4084, 4085, 20000], False)
    r = tlc('Windows', cfg, mc, workers=1)
    chk.model('Windows/node', r)
    js.windows(chk, cmds, r.lines, props_mem.bound)


PROPS = dict(C21=c21)
NOTES = {
    'C21': ('TLA+/TLC: model checking of JsReceiver, its behaviours replayed through the Node addon; histories recorded from it checked against JsTrace',
            'The addon built from the tree is loaded into node; calls, arrivals, timeouts, close and the death of the host come in every order of the '
            'specification, and at times that are not controlled, where TLC decides whether the history is one of the specification. '),
}
