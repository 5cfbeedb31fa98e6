"""User-defined modules, written against the documented base classes only: the roles the shipped modules do not have."""
import numpy as np


def kinds():
    from pymgrid.modules.base import BaseMicrogridModule
    from pymgrid.modules import LoadModule, RenewableModule

    class PenaltyLoad(LoadModule):
        """A load that costs something each time it is met: a fixed sink with a reward."""
        yaml_tag = u'!PenaltyLoad'
        price = 0.0

        def update(self, external_energy_change, as_source=False, as_sink=False):
            reward, done, info = super().update(external_energy_change, as_source=as_source, as_sink=as_sink)
            return reward - self.price * info['absorbed_energy'], done, info

    class FeedIn(RenewableModule):
        """Production that cannot be curtailed, paid per unit: a fixed source with a reward."""
        yaml_tag = u'!FeedIn'
        module_type = ('feedin', 'fixed')
        price = 0.0

        def update(self, external_energy_change, as_source=False, as_sink=False):
            assert as_source
            e = self.current_renewable
            return self.price * e, self._done(), {'provided_energy': e, 'curtailment': 0.0}

    class Sink(BaseMicrogridModule):
        """Absorbs at most `capacity`, at `price` per unit."""
        capacity = 1.0
        price = 0.0

        def __init__(self, capacity, price):
            self.capacity, self.price = capacity, price
            self.total = 0.0
            super().__init__(raise_errors=False, provided_energy_name=None, absorbed_energy_name='dumped')

        def update(self, external_energy_change, as_source=False, as_sink=False):
            assert as_sink
            self.total = self.total + external_energy_change
            return -self.price * external_energy_change, False, {'absorbed_energy': external_energy_change}

        def _state_dict(self):
            return {'total': self.total}

        min_obs = property(lambda self: np.array([0.0]))
        max_obs = property(lambda self: np.array([1e6]))
        min_act = property(lambda self: -1.0 * self.capacity)
        max_act = property(lambda self: 0.0)
        max_consumption = property(lambda self: self.capacity)
        is_sink = property(lambda self: True)
        absorption_marginal_cost = property(lambda self: self.price)

    class Dump(Sink):
        """Takes what is left over, up to its capacity: a flex sink."""
        yaml_tag = u'!Dump'
        module_type = ('dump', 'flex')

    class Heater(Sink):
        """Absorbs what it is told to: a controllable sink."""
        yaml_tag = u'!Heater'
        module_type = ('heater', 'controllable')

    return dict(penload=PenaltyLoad, feedin=FeedIn, dump=Dump, heater=Heater)


def make(ctx, kind, T, i, ts_kw):
    cls = kinds()[kind]
    price = ctx.real(f'{kind}{i}_price', 0, 100)
    if kind in ('penload', 'feedin'):
        free = ts_kw.get('free')
        s = [ctx.real(f'{kind}{i}_{t}', 0, 1000000) if free is None or t < free else 1000000.0 for t in range(T)]
        m = cls(time_series=ctx.array(s), **{k: v for k, v in ts_kw.items() if k != 'free'})
        m.price = price
        return m, dict(price=price, series=s)
    cap = ctx.real(f'{kind}{i}_capacity', 0, 1000000, lo_open=True)
    return cls(cap, price), dict(price=price, capacity=cap)
