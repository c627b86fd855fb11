"""C04: debts are never overpaid; minimum and accelerated payments are honoured."""
from ..engine import Enum, Hist, Fail, unread
from ..lib import *
from .c03 import norm_timing, model_end, TIMINGS, DEFAULT_TIMING, NPER, YEAR
from forecaster import Person, Debt
from forecaster.utility import Timing


def build(cfg):
    p = Person(YEAR, 'P', '1 January 1980', retirement_date='1 January 2045')
    kw = {}
    if cfg['acc'] is not None:
        kw['accelerated_payment'] = INF if cfg['acc'] == 'inf' else cfg['acc']
    if cfg['min'] is not None:
        kw['minimum_payment'] = cfg['min']
    rates = cfg.get('rates')
    rate = cfg['rate'] if rates is None else (lambda year: rates[min(year - YEAR, len(rates) - 1)])
    return Debt(p, balance=cfg['bal'], rate=rate, nper=cfg['nper'],
                default_timing=Timing(DEFAULT_TIMING), **kw)


class System:
    def __init__(self, cfg):
        self.cfg = cfg
        self.d = build(cfg)
        self.n = NPER[cfg['nper']]
        self.bal, self.tx, self.year = -abs(float(cfg['bal'])), {}, YEAR
        self.minp = cfg['min'] or 0
        self.acc = INF if cfg['acc'] in (None, 'inf') else cfg['acc']
        self.custom = False
        self.check()

    def events(self):
        evs = [['offer', k, t, f] for t in self.cfg['timings'] for k in ('min', 'max') for f in (1, 0.5)]
        if self.cfg.get('pays'):
            evs += [['pay', v, w] for v, w in self.cfg['pays']]
        evs += [['set', k, v] for k, v in self.cfg.get('sets', ())]
        return evs + [['year']]

    @property
    def rate(self):
        rates = self.cfg.get('rates')
        return self.cfg['rate'] if rates is None else rates[min(self.year - YEAR, len(rates) - 1)]

    def end(self, extra=()):
        return model_end(self.bal, self.rate, self.n, [(v, w) for w, v in self.tx.items()] + list(extra))

    def paid(self):
        return sum(v for v in self.tx.values() if v > 0)

    def offer(self, kind, timing):
        per = sum(w * growth(1 - t, self.rate, self.n) for t, w in timing.items())
        owed = max(0.0, -self.end()) / per
        cap = self.minp if kind == 'min' else self.minp + self.acc
        return max(0.0, min(owed, cap - self.paid()))

    def add(self, v, w):
        self.d.add_transaction(v, when=w)
        self.tx[w] = self.tx.get(w, 0.0) + v

    def apply(self, ev):
        if ev[0] == 'year':
            self.bal = self.end()
            self.tx, self.year = {}, self.year + 1
            self.d.next_year()
        elif ev[0] == 'pay':
            self.custom = True
            self.add(ev[1], ev[2])
        elif ev[0] == 'set':
            if ev[1] == 'min':
                self.d.minimum_payment = self.minp = ev[2]
            else:
                self.acc = INF if ev[2] == 'inf' else ev[2]
                self.d.accelerated_payment = self.acc
        else:
            t = TIMINGS[ev[2]]
            got = (self.d.min_inflows if ev[1] == 'min' else self.d.max_inflows)(t)
            for k, v in got.items():
                self.add(v * ev[3], k)
        self.check()

    def check(self):
        d = self.d
        expect('balance', d.balance, self.bal, 'opening balance')
        expect('balance', d.balance_at_time('end'), self.end(), 'year-end balance')
        if not self.custom:
            check('overpaid', float(d.balance_at_time('end')) <= 1e-6,
                  'debt overpaid by offered payments: %s' % d.balance_at_time('end'))
        for tname in sorted(set(self.cfg['timings'] + ['default'])):
            timing = norm_timing(tname)
            arg = TIMINGS[tname]
            mn, mx = d.min_inflows(arg), d.max_inflows(arg)
            a, b = self.offer('min', timing), self.offer('max', timing)
            expect_map('min_payment', mn, {k: a * w for k, w in timing.items()}, 'minimum payment (%s)' % tname)
            expect_map('max_payment', mx, {k: b * w for k, w in timing.items()}, 'maximum payment (%s)' % tname)
            check('min_over_max', sum(mn.values()) <= sum(mx.values()) + 1e-6, 'minimum exceeds maximum')
            if self.end() < 0 and self.acc == INF:
                expect('retire', d.balance_at_time('end', transactions=mx), 0, 'balance after maximum payment', abs_=1e-5)
            out = d.max_outflows(arg)
            check('withdrawal', all(abs(v) < 1e-9 for v in out.values()), 'debt offers a withdrawal: %s' % out)
            out = d.min_outflows(arg)
            check('withdrawal', all(abs(v) < 1e-9 for v in out.values()), 'debt demands a withdrawal: %s' % out)
            hyp = d.max_inflows(arg, transactions=mn) if sum(mn.values()) else None
            if hyp is not None:
                owed = max(0.0, -self.end([(v, w) for w, v in mn.items()]))
                per = sum(w * growth(1 - t, self.rate, self.n) for t, w in timing.items())
                expect('max_after_min', sum(hyp.values()),
                       max(0.0, min(owed / per, self.minp + self.acc - self.paid() - a)),
                       'maximum beyond the minimum (%s)' % tname, abs_=1e-5)
            lim = d.max_inflows(arg, transaction_limit=25)
            expect('transaction_limit', sum(lim.values()), min(25, b), 'limited maximum')
            lim = d.min_inflows(arg, transaction_limit=25)
            expect('transaction_limit', sum(lim.values()), min(25, a), 'limited minimum')
            for k, f, full in (('min', d.min_inflows, a), ('max', d.max_inflows, b)):
                expect('transaction_limit', sum(f(arg, transaction_limit=0).values()), 0, '%simum limited to nothing' % k)
                per = sum(w * growth(1 - t, self.rate, self.n) for t, w in timing.items())
                for keep in (-300.0, -20.0, 0.0):
                    left = max(0.0, keep - self.end()) / per
                    cap = (self.minp if k == 'min' else self.minp + self.acc) - self.paid()
                    expect('balance_limit', sum(f(arg, balance_limit=keep).values()), max(0.0, min(left, cap)),
                           '%simum payment down to %s (%s)' % (k, keep, tname), abs_=1e-5)
        for when, t in (('start', 0.0), (0.5, 0.5), ('end', 1.0)):
            b = model_end(self.bal, self.rate, self.n, [(v, w) for w, v in self.tx.items()], t)
            expect('max_inflow', d.max_inflow(when), min(max(-b, 0), self.minp + self.acc), 'payment at %s' % when)
            expect('withdrawal', d.max_outflow(when), 0, 'withdrawal at %s' % when)
            expect('min_inflow', d.min_inflow(when), self.minp, 'minimum payment at %s' % when)

    def canon(self):
        return (self.year, r9(self.bal), self.custom, self.minp, self.acc,
                sorted((w, round(v, 6)) for w, v in self.tx.items()))


def configs(tier):
    out = []
    for bal in (-1000, 1000, 50):
        for rate, nper in ((0.1, 'A'), (0, 'A'), (0.24, 'M'), (0.05, 'C')):
            for mn, acc in ((100, 50), (100, 'inf'), (0, 'inf'), (None, None), (100, 0), (2000, 0), (2000, 300), (0, 0), (0, 120)):
                for tims in (['two'], ['uneven', 'end']):
                    out.append(dict(bal=bal, rate=rate, nper=nper, min=mn, acc=acc, timings=tims))
    for mn, acc in ((100, 50), (100, 'inf'), (100, 0)):
        out.append(dict(bal=-1000, rate=0.1, nper='A', min=mn, acc=acc, timings=['two'],
                        pays=[[120, 0.5], [900, 0.25], [30, 'end'], [-60, 0.5]]))
    for bal in (-1000, 1000):
        out.append(dict(bal=bal, rate=-0.1, nper='A', min=100, acc=50, timings=['two']))
        out.append(dict(bal=bal, rate=0.1, rates=[0.1, -0.05, 0.0, 0.3], nper='A', min=100, acc='inf', timings=['two']))
    for mn, acc in ((100, 50), (0, 'inf'), (None, None)):
        out.append(dict(bal=-1000, rate=0.1, nper='A', min=mn, acc=acc, timings=['two'], pays=[[90, 0.5]],
                        sets=[['min', 60], ['min', 0], ['min', 700], ['acc', 0], ['acc', 'inf'], ['acc', 40]]))
    for c in out:
        for k in c.get('pays') or []:
            if k[1] == 'end':
                k[1] = 1.0
    return out


FAMILIES = [
    Hist('payments', configs, System, lambda tier, c: 3 if tier == 'quick' else 4,
         about='histories of minimum, maximum, partial and arbitrary payments and advances'),
]
FAMILIES += [unread(f) for f in FAMILIES if f.name in ('payments',)]
