"""Random small houses and weather for the core calculation, as the files it reads.

Everything is drawn from one random.Random, so a scenario is its seed and its knobs.
"""
import json
import math
import os
import random

STEPS_DAY = 96


def _layers(rng, heavy):
    out = []
    for _ in range(rng.randint(1, 4)):
        out.append({
            'name': 'l', 'thermal_resistance': round(rng.uniform(0.02, 1.2), 4),
            'thermal_capacity': round(rng.uniform(5.0, 120.0) if heavy else rng.uniform(0.5, 20.0), 3)})
    return out


def _rf_spec(rng):
    """Response factors given directly: a wall with two decaying terms."""
    roots = [math.exp(-900.0 * a) for a in (2.0e-6, 3.1e-5, 4.9e-4)]
    a1 = [0.0] * 12
    t1 = [0.0] * 12
    r = [0.0] * 12
    for m, x in enumerate(roots):
        r[m] = x
        a1[m] = rng.uniform(0.0005, 0.004) * (1 - x)
        t1[m] = rng.uniform(0.05, 0.3) * (1 - x)
    t0 = rng.uniform(0.001, 0.05)
    # a steady temperature behind the wall shows in full on this side
    k = (1.0 - t0) / sum(t / (1.0 - x) for t, x in zip(t1, r))
    return {'method': 'response_factor', 'phi_a0': rng.uniform(0.01, 0.08), 'phi_a1': a1,
            'phi_t0': t0, 'phi_t1': [k * t for t in t1], 'r': r}


def almost(rng, x, name=''):
    """The same thing with some of its figures a little different."""
    if isinstance(x, dict):
        return {k: almost(rng, v, k) for k, v in x.items()}
    if isinstance(x, list):
        return [almost(rng, v, name) for v in x]
    if isinstance(x, float) and name in ('area', 'h_c', 'volume', 'mechanical', 'natural', 'heat_capacity', 'heat_cond', 'moisture_capacity',
                                         'moisture_cond', 'thermal_resistance', 'thermal_capacity', 'q_min', 'v_min', 'max_capacity', 'u_value'):
        return x * rng.choice([1.0, 1.0, 1.0 + rng.uniform(-0.07, 0.07), 1.0 + rng.uniform(-0.004, 0.004)])
    return x


def near(rng, n_rooms, **k):
    """A house of rooms that are almost the same room."""
    one = house(rng, n_rooms=1, **k)
    rooms, bds = [], []
    for i in range(n_rooms):
        h = json.loads(json.dumps(one)) if i == 0 else almost(rng, one)
        r = h['spaces'][0]
        r.update(id=i, name='room%d' % i)
        r['ventilation']['next_spaces'] = [0.0] * n_rooms
        for b in h['boundaries']:
            b.update(connected_space_id=i, id=b['id'] + i * len(h['boundaries']))
            if b['k_inside']:
                b['k_inside']['id'] += i * len(h['boundaries'])
        rooms.append(r)
        bds += h['boundaries']
    return dict(one, spaces=rooms, boundaries=bds)


def _free(rng, rooms, bds):
    """Nothing in proportion to anything: every figure of the house on its own."""
    for i, r in enumerate(rooms):
        mine = [b for b in bds if b['connected_space_id'] == i]
        w = [rng.choice([rng.random(), rng.random() ** 3]) + 0.001 for _ in mine]
        for b, x in zip(mine, w):
            b['f_mrt_hum'] = x / sum(w)
            if b['name'] != 'floor':
                b['is_solar_absorbed'] = rng.choice(['False', 'True'])
            if not b['name'].startswith('inner'):
                b['h_c'] = round(rng.choice([rng.uniform(0.2, 2.0), rng.uniform(2.0, 12.0)]), 3)
        some = rng.sample(mine, rng.randint(1, min(4, len(mine))))
        z = [rng.random() + 0.05 for _ in some]
        for b in mine:
            b['flr'] = 0.0
        for b, x in zip(some, z):
            b['flr'] = x / sum(z)
        v = r['volume']
        r['beta'] = round(rng.choice([0.0, rng.random(), 1.0]), 3)
        r['ventilation'].update(mechanical=rng.choice([0.0, v / 3600.0, rng.uniform(0.0, 0.1)]), natural=rng.choice([0.0, rng.uniform(0.0, 1.0)]))
        cf, cm = v * rng.uniform(500.0, 40000.0), v * rng.uniform(1.0, 60.0)
        r['furniture'] = {'heat_capacity': cf, 'heat_cond': cf * rng.uniform(2.0e-5, 2.0e-3),
                          'moisture_capacity': cm, 'moisture_cond': cm * rng.uniform(2.0e-5, 5.0e-3)}
        for e in (r['equipment']['heating']['radiative'], r['equipment']['cooling']['radiative']):
            if e['installed']:
                e['max_capacity'] = rng.choice([0.0, rng.uniform(1.0, 100.0), rng.uniform(100.0, 2000.0), 1.0e5])
    # partitions that see the outdoor air with part of their rear side
    for b in bds:
        if b['name'].startswith('inner') and rng.random() < 0.5:
            b['k_outside'] = round(rng.uniform(0.01, 0.95), 3)
            b['k_inside']['coef'] = 1.0 - b['k_outside']


def house(rng, n_rooms=2, interzone=False, rear_differs=False, rad_h=0.5, rad_c=0.3, caps=True, beta=False,
          light=False, rac=0.8, ground=True, no_ground=False, big_vent=False, self_floor=True, shuffle=False, party=False,
          small_coil=False, free=False, alike=False, dull=False):
    if alike:
        return near(rng, n_rooms, rad_h=rad_h, rad_c=rad_c, caps=caps, beta=beta, rac=rac, free=free, shuffle=shuffle)
    bds = []

    def add(**k):
        k['id'] = len(bds)
        bds.append(k)
        return k['id']

    def base(room, area, name, fmh, hc=None):
        return dict(name=name, sub_name='', is_ground='false', connected_space_id=room, area=area,
                    h_i=9.0, h_c=hc if hc is not None else round(rng.uniform(1.5, 6.5), 3), flr=0.0,
                    is_solar_absorbed='False', f_mrt_hum=fmh, k_outside=1.0, k_inside=None)

    rooms = []
    for i in range(n_rooms):
        area = rng.uniform(6.0, 40.0)
        vol = 0.4 if light else area * rng.uniform(2.2, 3.0)
        has_rac = rng.random() < rac
        rh, rc = rng.random() < rad_h, rng.random() < rad_c
        conv_c = {}
        if has_rac:
            qmin = rng.uniform(300.0, 700.0)
            qmax = rng.uniform(2000.0, 6000.0)
            vmax = rng.uniform(8.0, 20.0)
            if small_coil:                           # little air through the coil: it gets very cold, and soon is overloaded
                qmax = qmin + rng.uniform(100.0, 800.0)
            if small_coil == 'starved':              # no air at all at small loads
                qmin = rng.uniform(300.0, 900.0)
                qmax = qmin + rng.uniform(1500.0, 2500.0)
            conv_c = {'installed': True, 'q_min': qmin, 'q_max': qmax, 'v_min': vmax * (rng.uniform(0.05, 0.2) if small_coil else rng.uniform(0.4, 0.7)), 'v_max': vmax}
        else:
            conv_c = {'installed': False}
        rad = {'installed': True, 'max_capacity': rng.choice([rng.uniform(100.0, 600.0), 1.0e5]) if caps else 1.0e5}
        radc = {'installed': True, 'max_capacity': rng.choice([rng.uniform(50.0, 400.0), 1.0e5]) if caps else 1.0e5}
        cf = 1.0e3 if light else vol * 12600.0
        rooms.append({
            'id': i, 'name': 'room%d' % i, 'volume': vol, 'beta': round(rng.uniform(0.1, 0.5), 2) if beta else 0.0,
            'ventilation': {'mechanical': (40.0 * vol if big_vent else vol * rng.uniform(0.0, 1.0)) / 3600.0,
                            'next_spaces': [0.0] * n_rooms,
                            'natural': vol * rng.choice([0.0, 5.0, 20.0]) / 3600.0},
            'furniture': {'heat_capacity': cf, 'heat_cond': 0.00022 * cf * (1.0 if not light else 0.1),
                          'moisture_capacity': 16.8 * vol, 'moisture_cond': 0.0018 * 16.8 * vol},
            'equipment': {'heating': {'radiative': rad if rh else {'installed': False}, 'convective': {'installed': not rh}},
                          'cooling': {'radiative': radc if rc else {'installed': False}, 'convective': conv_c}},
        })
        rooms[i]['_area'] = area
    if interzone and n_rooms > 1:
        for i in range(n_rooms):
            for k in range(n_rooms):
                if i != k and rng.random() < 0.6:
                    rooms[i]['ventilation']['next_spaces'][k] = rng.uniform(5.0, 60.0) / 3600.0

    for i, r in enumerate(rooms):
        a = r['_area']
        scale = 0.02 if light else 1.0
        # outer walls
        for w in range(rng.randint(1, 3)):
            b = base(i, scale * rng.uniform(2.0, 20.0), 'wall%d' % w, 0.0)
            if light or rng.random() < 0.35:
                b['spec'] = {'method': 'u_value', 'boundary_type': 'external_opaque_part', 'u_value': rng.uniform(0.3, 3.0),
                             'inside_heat_transfer_resistance': 0.11} if light else _rf_spec(rng)
            else:
                b['spec'] = {'method': 'layers', 'boundary_type': 'external_general_part', 'layers': _layers(rng, rng.random() < 0.3),
                             'outside_heat_transfer_resistance': 0.04}
            b['is_solar_absorbed'] = rng.choice(['False', 'False', 'True'])
            add(**b)
        # window
        b = base(i, scale * rng.uniform(0.5, 6.0), 'window', 0.0)
        b['spec'] = {'method': 'u_value', 'boundary_type': 'external_transparent_part', 'u_value': rng.uniform(1.5, 4.65),
                     'inside_heat_transfer_resistance': 0.11}
        add(**b)
        # floor
        kind = rng.choice(['self', 'outer', 'outer'] if no_ground else ['ground', 'self', 'outer']) if not light else 'outer'
        if i == 0 and ground and not light:
            kind = 'ground'
        if i == n_rooms - 1 and n_rooms > 1 and self_floor and not light:
            kind = 'self'
        b = base(i, scale * a, 'floor', 0.0)
        b['is_solar_absorbed'] = 'True'
        b['flr'] = 1.0
        if kind == 'ground':
            b['is_ground'] = 'true'
            b['k_outside'] = 1.0
            b['spec'] = {'method': 'layers', 'boundary_type': 'ground', 'layers': _layers(rng, True)} \
                if rng.random() < 0.7 else _rf_spec(rng)
        else:
            b['spec'] = {'method': 'u_value', 'boundary_type': 'external_opaque_part', 'u_value': rng.uniform(0.3, 3.0),
                         'inside_heat_transfer_resistance': 0.15} if light else \
                {'method': 'layers', 'boundary_type': 'external_general_part', 'layers': _layers(rng, True),
                 'outside_heat_transfer_resistance': 0.04}
            if kind == 'self':
                h = round(rng.uniform(0.1, 0.9), 2)
                b['k_outside'] = h
                b['k_inside'] = {'id': len(bds), 'coef': 1.0 - h}
        add(**b)
    # inner walls between rooms
    for i in range(n_rooms):
        for k in range(i + 1, n_rooms):
            if light or (rng.random() < 0.3 and not party):
                continue
            area = rng.uniform(4.0, 25.0)
            hc = round(rng.uniform(1.5, 5.0), 3)
            lay = _layers(rng, False)
            if party:                        # a thin partition that couples the two rooms closely
                lay = [{'name': 'l', 'thermal_resistance': round(rng.uniform(0.004, 0.05), 4),
                        'thermal_capacity': round(rng.uniform(0.5, 3.0), 3)}]
            one = base(i, area, 'inner%d-%d' % (i, k), 0.0, hc)
            two = base(k, area, 'inner%d-%d' % (k, i), 0.0, hc if not rear_differs else hc + 1.5)
            for b, l in ((one, lay), (two, list(reversed(lay)))):
                b['k_outside'] = 0.0
                b['spec'] = {'method': 'layers', 'boundary_type': 'internal', 'layers': [dict(x) for x in l],
                             'outside_heat_transfer_resistance': round(rng.uniform(0.09, 0.15), 3)}
            j = len(bds)
            one['k_inside'] = {'id': j + 1, 'coef': 1.0}
            two['k_inside'] = {'id': j, 'coef': 1.0}
            add(**one)
            add(**two)
    # weights of the person's mean radiant temperature and of the radiant floor
    for i in range(n_rooms):
        mine = [b for b in bds if b['connected_space_id'] == i]
        s = sum(b['area'] * (1.0 + (b['name'] == 'floor')) for b in mine)
        for b in mine:
            b['f_mrt_hum'] = b['area'] * (1.0 + (b['name'] == 'floor')) / s
        if party and n_rooms > 1:                    # the radiant panel is in a partition
            fl = rng.choice([b for b in mine if b['name'].startswith('inner')])
            for b in mine:
                b['flr'] = 1.0 if b is fl else 0.0
        elif rng.random() < 0.4:                       # radiant panels on two surfaces
            share = round(rng.uniform(0.3, 0.9), 2)
            fl = [b for b in mine if b['name'] == 'floor'][0]
            other = rng.choice([b for b in mine if b is not fl])
            fl['flr'], other['flr'] = share, 1.0 - share
    if free:
        _free(rng, rooms, bds)
    if dull:                                         # a room where no surface absorbs light
        i = rng.randrange(n_rooms)
        for b in bds:
            if b['connected_space_id'] == i:
                b['is_solar_absorbed'] = 'False'
    if shuffle:
        order = list(range(len(bds)))
        rng.shuffle(order)                           # new position -> old id
        new = {old: pos for pos, old in enumerate(order)}
        bds2 = []
        for pos, old in enumerate(order):
            b = bds[old]
            b['id'] = pos
            if b['k_inside']:
                b['k_inside'] = {'id': new[b['k_inside']['id']], 'coef': b['k_inside']['coef']}
            bds2.append(b)
        bds = bds2
    for r in rooms:
        del r['_area']
    return {
        'building': {'infiltration_method': 'balance_residential', 'story': rng.choice([1, 2]),
                     'c_value': round(rng.choice([rng.uniform(0.2, 9.0), rng.uniform(9.0, 40.0)] if free else [rng.uniform(0.2, 9.0)]), 2),
                     'inside_pressure': rng.choice(['balanced', 'positive', 'negative'])},
        'spaces': rooms, 'boundaries': bds,
    }


def series(rng, hs, days, kind='mild'):
    """Weather and schedules, one row per step."""
    n = days * STEPS_DAY
    n_r, n_b = len(hs['spaces']), len(hs['boundaries'])
    w = {'to': [], 'xo': []}
    s = {k: [] for k in ('lv', 'qg', 'xg', 'nh', 'dem', 'qt', 'tos')}
    mean = {'cold': 3.0, 'mild': 16.0, 'hot': 31.0, 'humid': 27.0}.get(kind, 16.0)
    amp = rng.uniform(2.0, 7.0)
    jump = 0.0
    dem = [1.0] * n_r
    occ = [0.0] * n_r
    level = 18.0
    if kind == 'wild':
        return _wild(rng, hs, n)
    if kind.startswith('rich'):
        return _rich(rng, hs, n, kind[4:])
    for k in range(n):
        hour = (k % STEPS_DAY) / 4.0
        if kind == 'year':
            mean = 13.0 - 14.0 * math.cos(2 * math.pi * k / n)
        if kind == 'swing':
            if rng.random() < 0.06:
                level = rng.choice([-12.0, -3.0, 4.0, 11.0, 16.0, 19.5, 22.0, 24.0, 26.0, 28.0, 30.0, 34.0, 42.0])
            to = level + rng.uniform(-0.6, 0.6)
        elif kind == 'extremes':
            to = rng.choice([-25.0, 0.0, 45.0, 20.0]) + rng.uniform(-1.0, 1.0)
        else:
            if rng.random() < 0.01:
                jump = rng.uniform(-9.0, 9.0) if kind != 'year' else rng.uniform(-4.0, 4.0)
            to = mean + jump + amp * math.sin((hour - 9.0) / 24.0 * 2 * math.pi) + rng.uniform(-0.5, 0.5)
        w['to'].append(round(to, 3))
        xs = 0.004 + 0.0005 * max(to, -4.0) + rng.uniform(-0.001, 0.003)
        if kind == 'humid':
            xs += 0.006
        w['xo'].append(round(min(max(xs, 0.001), 0.024), 6))
        if rng.random() < 0.08:
            i = rng.randrange(n_r)
            dem[i] = rng.choice([0.0, 0.0, 1.0, 1.0, 1.0, 0.35, 0.8])
            occ[i] = rng.choice([0.0, 0.0, 1.0, 2.0, 3.5])
        sun = max(0.0, math.sin((hour - 6.0) / 12.0 * math.pi))
        s['lv'].append([rng.choice([0.0, 0.0, 0.02]) if kind != 'swing' else 0.0 for _ in range(n_r)])
        s['qg'].append([round(rng.uniform(0.0, 20.0 if kind == 'swing' else 250.0), 3) for _ in range(n_r)])
        s['xg'].append([round(rng.uniform(0.0, 5.0e-4 if kind == 'humid' else 5.0e-5), 9) if kind != 'swing' else 0.0 for _ in range(n_r)])
        s['nh'].append([0.0 if kind == 'swing' else x for x in occ])
        s['dem'].append(list(dem))
        s['qt'].append([round(sun * rng.uniform(0.0, 5.0 if kind == 'swing' else 900.0), 3) for _ in range(n_r)])
        s['tos'].append([round(to + sun * rng.uniform(0.0, 20.0), 3) for _ in range(n_b)])
    return _outside(hs, w, s)


def _wild(rng, hs, n):
    """A climate and a use of the house that change altogether every few hours, far beyond the ordinary."""
    n_r, n_b = len(hs['spaces']), len(hs['boundaries'])
    w = {'to': [], 'xo': []}
    s = {k: [] for k in ('lv', 'qg', 'xg', 'nh', 'dem', 'qt', 'tos')}
    left = 0
    for k in range(n):
        if left == 0:
            left = rng.randint(4, 28)
            t0 = rng.choice([-30.0, -18.0, -5.0, 3.0, 12.0, 20.0, 26.0, 33.0, 41.0, 47.0])
            damp = rng.choice([0.02, 0.3, 0.7, 0.98])
            use = []
            for i in range(n_r):
                big = min(1.0, hs['spaces'][i]['volume'] / 15.0)
                use.append(dict(
                    lv=rng.choice([0.0, 0.0, 0.02, 0.3, 1.0]), qg=big * rng.choice([0.0, 50.0, 800.0, 6000.0]),
                    xg=big * rng.choice([0.0, 2.0e-6, 5.0e-5, 8.0e-4]), nh=big * rng.choice([0.0, 0.0, 0.5, 1.0, 2.0, 3.5, 12.0]),
                    dem=rng.choice([0.0, 0.0, 1.0, 1.0, 1.0, 0.3, 0.75]), qt=big * rng.choice([0.0, 0.0, 150.0, 2500.0])))
        left -= 1
        to = t0 + rng.uniform(-1.0, 1.0)
        sat = 0.622 * 0.6112 * math.exp(17.62 * to / (243.12 + to)) / 101.325
        w['to'].append(round(to, 3))
        w['xo'].append(round(max(sat * damp, 2.0e-4), 6))
        for f, lo in (('lv', 0.5), ('qg', 0.5), ('xg', 0.5), ('nh', 1.0), ('dem', 1.0), ('qt', 0.5)):
            s[f].append([x[f] * (1.0 if lo == 1.0 else round(rng.uniform(lo, 1.0), 3)) for x in use])
        s['tos'].append([round(to + rng.choice([0.0, -4.0, 15.0, 40.0]) * rng.random(), 3) for _ in range(n_b)])
    return _outside(hs, w, s)


def _rich(rng, hs, n, kind):
    """Every series takes any value it may, each at its own pace; the climate drifts."""
    n_r, n_b = len(hs['spaces']), len(hs['boundaries'])
    w = {'to': [], 'xo': []}
    s = {k: [] for k in ('lv', 'qg', 'xg', 'nh', 'dem', 'qt', 'tos')}
    draw = dict(
        lv=lambda: rng.choice([0.0, rng.random() ** 4, rng.uniform(0.0, 0.03)]), qg=lambda: rng.choice([0.0, rng.uniform(0.0, 40.0), rng.uniform(0.0, 900.0), rng.uniform(-80.0, 0.0)]),
        xg=lambda: rng.choice([0.0, rng.uniform(0.0, 1.0e-6), rng.uniform(0.0, 3.0e-4), rng.uniform(-1.0e-8, 0.0)]),
        nh=lambda: rng.choice([0.0, rng.random(), rng.uniform(0.0, 6.0)]),
        dem=lambda: rng.choice([0.0, 1.0, 1.0, rng.random(), rng.random() ** 3]), qt=lambda: rng.choice([0.0, rng.uniform(0.0, 3.0), rng.uniform(0.0, 1500.0)]))
    now = {k: [f() for _ in range(n_r)] for k, f in draw.items()}
    big = [min(1.0, r['volume'] / 15.0) for r in hs['spaces']]
    pace = {k: rng.choice([0.03, 0.15, 0.5]) for k in draw}
    to = {'cold': 0.0, 'hot': 32.0}.get(kind, 16.0) + rng.uniform(-6.0, 6.0)
    aim = to
    damp = rng.random()
    off = [0.0] * n_b
    for k in range(n):
        if rng.random() < 0.06:
            aim = {'cold': rng.uniform(-28.0, 14.0), 'hot': rng.uniform(20.0, 44.0)}.get(kind, rng.uniform(-15.0, 42.0))
            damp = rng.random()
        to += 0.2 * (aim - to) + rng.uniform(-0.4, 0.4)
        sat = 0.622 * 0.6112 * math.exp(17.62 * to / (243.12 + to)) / 101.325
        w['to'].append(round(to, 3))
        w['xo'].append(round(max(sat * damp, 2.0e-4), 6))
        for f in draw:
            for i in range(n_r):
                if rng.random() < pace[f]:
                    now[f][i] = draw[f]()
            s[f].append([x * (big[i] if f in ('qg', 'xg', 'nh', 'qt') else 1.0) for i, x in enumerate(now[f])])
        for j in range(n_b):
            if rng.random() < 0.2:
                off[j] = rng.choice([0.0, rng.uniform(-5.0, 0.0), rng.uniform(0.0, 45.0)])
        s['tos'].append([round(to + x, 3) for x in off])
    return _outside(hs, w, s)


def _outside(hs, w, s):
    n = len(w['to'])
    # ground boundaries see the yearly mean
    mean_to = sum(w['to']) / n
    for j, b in enumerate(hs['boundaries']):
        if b['is_ground'] == 'true':
            for row in s['tos']:
                row[j] = mean_to
        elif b['k_outside'] == 0.0:
            for row in s['tos']:
                row[j] = 0.0
    return w, s


def roll(w, s, k):
    """Data of which row i is row i - k of the original."""
    n = len(w['to'])
    ix = [(i - k) % n for i in range(n)]
    return ({a: [v[i] for i in ix] for a, v in w.items()}, {a: [v[i] for i in ix] for a, v in s.items()})


FILES = {'lv': 'local_vent', 'qg': 'heat_generation', 'xg': 'moisture_generation', 'nh': 'occupants',
         'dem': 'ac_demand', 'qt': 'q_trs_sol', 'tos': 'theta_o_sol'}


def write(dirname, hs, w, s):
    os.makedirs(dirname, exist_ok=True)
    with open(os.path.join(dirname, 'mid_data_house.json'), 'w', encoding='utf-8') as f:
        json.dump(hs, f)
    for k, name in FILES.items():
        with open(os.path.join(dirname, 'mid_data_%s.csv' % name), 'w') as f:
            for row in s[k]:
                f.write(','.join(repr(float(x)) for x in row) + '\n')
    with open(os.path.join(dirname, 'weather.csv'), 'w') as f:
        f.write('date,temperature,absolute humidity,normal direct solar radiation,horizontal sky solar radiation,'
                'outward radiation,sun altitude,sun azimuth\n')
        for k in range(len(w['to'])):
            f.write('1989-01-%02d %02d:%02d:00,%r,%r,0.0,0.0,0.0,0.0,0.0\n'
                    % (k // 96 % 28 + 1, k % 96 // 4, k % 4 * 15, w['to'][k], w['xo'][k]))
