"""Records response factors made by ResponseFactorFactory for random walls."""
import copy
import json
import math
import random


def rf_record(rf):
    def pad(v):
        v = [float(x) for x in v]
        return v
    return dict(a0=float(rf.rfa0), t0=float(rf.rft0), a1=pad(rf.rfa1), t1=pad(rf.rft1), row=pad(rf.row))


def random_layer(rng):
    kind = rng.random()
    if kind < 0.2:                                             # air space: no capacity
        return {'name': 'air', 'thermal_resistance': round(rng.uniform(0.05, 0.3), 4), 'thermal_capacity': 0.0}
    if kind < 0.5:                                             # insulation
        return {'name': 'ins', 'thermal_resistance': round(rng.uniform(0.3, 6.0), 4),
                'thermal_capacity': round(rng.uniform(0.3, 5.0), 4)}
    if kind < 0.75:                                            # boards
        return {'name': 'board', 'thermal_resistance': round(rng.uniform(0.02, 0.2), 4),
                'thermal_capacity': round(rng.uniform(4.0, 30.0), 4)}
    return {'name': 'mass', 'thermal_resistance': round(rng.uniform(0.03, 0.3), 4),
            'thermal_capacity': round(rng.uniform(80.0, 500.0), 4)}


def wide_layer(rng):
    """Anything from a foil to a metre of rammed earth."""
    def log(a, b):
        return round(math.exp(rng.uniform(math.log(a), math.log(b))), 5)
    c = rng.choice([0.0, log(2e-5, 0.3), log(0.3, 30.0), log(30.0, 2500.0)])
    return {'name': rng.choice(['', 'x', '断熱材']), 'thermal_resistance': log(0.001, 12.0 if c < 30 else 2.0), 'thermal_capacity': c}


def decay(layers):
    """How far the fastest wave fades on its way through (the code works with cosh of it)."""
    return sum(math.sqrt(x['thermal_resistance'] * x['thermal_capacity'] * 1000.0 * 0.030006) for x in layers)


def wide_layers(rng):
    while True:
        layers = [wide_layer(rng) for _ in range(rng.choice([1, 1, 2, 3, 5, 8, 12]))]
        if decay(layers) < 500.0:
            return layers


def random_spec(rng):
    t = rng.random()
    if t < 0.12:
        kind = rng.choice(['external_transparent_part', 'external_opaque_part'])
        ri = round(rng.uniform(0.09, 0.16), 3)
        return {'method': 'u_value', 'boundary_type': kind, 'u_value': round(rng.uniform(rng.choice([0.05, 0.2]), 1.0 / (ri + rng.choice([0.002, 0.02]))), 4),
                'inside_heat_transfer_resistance': ri}
    if t < 0.2:
        n = 12
        return {'method': 'response_factor', 'phi_a0': rng.uniform(0.01, 1.0), 'phi_t0': rng.uniform(0.0, 1.0),
                'phi_a1': [rng.uniform(-1, 1) for _ in range(n)], 'phi_t1': [rng.uniform(-1, 1) for _ in range(n)],
                'r': [rng.uniform(0.0, 0.999) for _ in range(n)]}
    if rng.random() < 0.35:
        layers = wide_layers(rng)
    else:
        layers = [random_layer(rng) for _ in range(rng.randint(1, 6))]
    if t < 0.4:
        return {'method': rng.choice(['layers', 'layers_ground']), 'boundary_type': 'ground', 'layers': layers}
    return {'method': 'layers', 'boundary_type': rng.choice(['external_general_part', 'internal']), 'layers': layers,
            'outside_heat_transfer_resistance': rng.choice([0.04, 0.11, 0.0, round(rng.uniform(0.02, 0.2), 3), round(rng.uniform(0.0, 2.0), 4)])}


def relative(rng, spec):
    """The same wall but for one thing - what a memory of earlier walls would mix up."""
    s = copy.deepcopy(spec)
    if 'layers' not in s:
        if 'u_value' in s:
            s['inside_heat_transfer_resistance'] = round(s['inside_heat_transfer_resistance'] * 0.9, 4)
        return s
    k = rng.randrange(len(s['layers']))
    what = rng.choice(['outside', 'outside', 'resistance', 'capacity', 'order', 'split', 'name', 'type'])
    if what == 'outside' and 'outside_heat_transfer_resistance' in s:
        s['outside_heat_transfer_resistance'] = round(s['outside_heat_transfer_resistance'] + 0.07, 4)
    elif what == 'resistance':
        s['layers'][k]['thermal_resistance'] *= 1.5
    elif what == 'capacity':
        s['layers'][k]['thermal_capacity'] *= 1.5
    elif what == 'order':
        s['layers'].reverse()
    elif what == 'split':
        x = s['layers'][k]
        half = dict(x, thermal_resistance=x['thermal_resistance'] / 2, thermal_capacity=x['thermal_capacity'] / 2)
        s['layers'][k:k + 1] = [half, dict(half)]
    elif what == 'type' and s['boundary_type'] == 'internal':
        s['boundary_type'] = 'external_general_part'
    elif what == 'type' and s['boundary_type'] == 'ground':
        s = {'method': 'layers', 'boundary_type': 'internal', 'layers': s['layers'],
             'outside_heat_transfer_resistance': 0.11}
    else:
        s['layers'][k]['name'] = 'other'
    return s


def case(spec, first, again, anew, untouched):
    c = dict(first=first, again=again, anew=anew, untouched=untouched, type=spec.get('boundary_type', '-'), ground=False)
    if spec['method'] == 'response_factor':
        c.update(kind='given', given=dict(a0=spec['phi_a0'], t0=spec['phi_t0'], a1=spec['phi_a1'], t1=spec['phi_t1'],
                                          row=spec['r']))
    elif 'u_value' in spec:
        c.update(kind='steady', res=1.0 / spec['u_value'] - spec['inside_heat_transfer_resistance'])
    else:
        ls = [dict(r=float(x['thermal_resistance']), c=1000.0 * x['thermal_capacity']) for x in spec['layers']]
        g = spec['boundary_type'] == 'ground'
        ls.append(dict(r=3.0, c=9900.0e3) if g else dict(r=float(spec['outside_heat_transfer_resistance']), c=0.0))
        c.update(kind='layers', layers=ls, ground=g)
    return c


def job(p, path):
    from heat_load_calc.initializer.response_factor import ResponseFactorFactory
    rng = random.Random(p['seed'])
    cases = []
    open_factories = []
    spec = None
    for k in range(p['n']):
        spec = relative(rng, spec) if k % 3 else random_spec(rng)
        keep = copy.deepcopy(spec)
        f = ResponseFactorFactory.create(spec)
        first = rf_record(f.get_response_factors())
        # other walls are asked for in between
        if open_factories:
            rng.choice(open_factories).get_response_factors()
        again = rf_record(f.get_response_factors())
        anew = rf_record(ResponseFactorFactory.create(spec).get_response_factors())
        open_factories.append(f)
        cases.append(case(keep, first, again, anew, spec == keep))
    with open(path, 'w') as f:
        json.dump({'cases': cases}, f)
    return {'walls': len(cases)}
