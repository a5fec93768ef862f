"""Behaviours executed while other threads of the same endpoint send to nobody, which changes nothing."""
from seq import Replay


class NoisyReplay(Replay):
    noise = 3

    def step(self, i, x):
        op, e = x['op'], x.get('e')
        qs = []
        if op in ('send', 'recv') and e in self.sd:
            a = self.lane.agent(e)
            for k in range(i % 2):
                qs.append((a, a.start('burst', e=e, t='%s.n%d' % (e, k), sel=['l', '~n'], mode='um'[(i + k) % 2], ty='C', base=900000, n=15, ttl=0)))
        super().step(i, x)
        for a, q in qs:
            r = a.wait(q, 'sending to nobody, while another thread executes %s %s' % (op, e), 30)
            if 'err' in r:
                from vlib import Mismatch
                raise Mismatch('send to nobody fails: %s' % r)
