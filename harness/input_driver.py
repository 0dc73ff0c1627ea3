"""Records what the initializer makes of building descriptions, and of broken ones."""
import copy
import csv
import json
import math
import os
import random
import shutil
import tempfile

N = 35040
TYPES = ['main_occupant_room', 'other_occupant_room', 'non_occupant_room']
VERTICAL = ['s', 'sw', 'w', 'nw', 'n', 'ne', 'e', 'se']
_cache = {}
SQUARE = [96 * 35 * (j + 1) + 24 + j for j in range(9)]


# ---------------------------------------------------------------- weather
def weather(seed):
    """A year of made-up weather under a plausible sun."""
    import numpy as np
    if seed in _cache:
        return _cache[seed]
    r = np.random.RandomState(seed)
    lat = math.radians(r.uniform(24, 46))
    n = np.arange(N)
    decl = np.radians(23.45 * np.sin(2 * math.pi * (n / 96.0 - 81) / 365))
    t = np.radians((n % 96) / 96.0 * 360 - 180 + r.uniform(-10, 10))
    h = np.arcsin(math.sin(lat) * np.sin(decl) + math.cos(lat) * np.cos(decl) * np.cos(t))
    a = np.arctan2(np.cos(decl) * np.sin(t), np.sin(math.radians(90) - 0 * h) * 0 + math.sin(lat) * np.cos(decl) * np.cos(t)
                   - math.cos(lat) * np.sin(decl))
    up = h > 0
    dn = np.where(up, r.uniform(0, 950, N), 0.0)
    sky = np.where(up, r.uniform(0, 350, N), 0.0)
    dn[r.uniform(size=N) < 0.1] = 0.0
    # as interpolated tables have it, some light remains with the sun just below the horizon
    dusk = (h > -0.1) & ~up & (r.uniform(size=N) < 0.6)
    dn = np.where(dusk, r.uniform(0, 250, N), dn)
    sky = np.where(dusk, r.uniform(0, 60, N), sky)
    if seed % 2:                                    # some tables put the sun at rest at night
        h = np.where(up, h, 0.0)
        a = np.where(up, a, 0.0)
    to = r.uniform(-5, 20) + 12 * np.sin(2 * math.pi * n / N) + 5 * np.sin(2 * math.pi * n / 96) + r.uniform(-2, 2, N)
    # the sun squarely before a surface: at the horizon before every wall, and at the zenith, where it has no azimuth
    for j, x in enumerate(SQUARE):
        h[x], a[x] = (0.0, math.radians((0.0, 45.0, 90.0, 135.0, 180.0, -135.0, -90.0, -45.0)[j])) if j < 8 else (math.pi / 2, math.nan)
        dn[x], sky[x] = 100.0 * j + 10, 200.0
    rn = r.uniform(20, 160, N)
    x = r.uniform(0.002, 0.015, N)
    w = dict(to=to, dn=dn, sky=sky, rn=rn, x=x, h=h, a=a)
    _cache[seed] = w
    return w


def write_weather(w, d):
    import pandas as pd
    pd.DataFrame({'temperature': w['to'], 'normal direct solar radiation': w['dn'], 'horizontal sky solar radiation': w['sky'],
                  'outward radiation': w['rn'], 'absolute humidity': w['x'], 'sun altitude': w['h'], 'sun azimuth': w['a']},
                 index=pd.date_range('1989-01-01', periods=N, freq='15min')).to_csv(os.path.join(d, 'weather.csv'))


# ---------------------------------------------------------------- descriptions
def size(rng, a, b, digits, below=4.0, above=4.0):
    """Usually between a and b, now and then well outside."""
    return round(rng.uniform(a, b) if rng.random() < 0.8 else rng.choice([a / rng.uniform(1.0, below), b * rng.uniform(1.0, above)]), digits)


def layers(rng):
    return [{'name': 'l%d' % i, 'thermal_resistance': size(rng, 0.02, 3.0, 4),
             'thermal_capacity': rng.choice([0.0, size(rng, 1.0, 300.0, 3)])} for i in range(rng.randint(1, 5))]


def shading(rng, how, direction):
    # overhangs are for upright windows
    if how == 'none' or direction in ('top', 'bottom', None) or rng.random() < 0.3:
        return {'existence': False}
    return {'existence': True, 'input_method': 'simple', 'depth': size(rng, 0.1, 2.5, 3),
            'd_h': size(rng, 0.5, 2.5, 3), 'd_e': rng.choice([0.0, size(rng, 0.01, 1.0, 3)])}


def describe(rng, o):
    nr = o.get('rooms', rng.randint(1, 3))
    kinds = TYPES[:nr]
    if o.get('order', True) and rng.random() < 0.5:
        rng.shuffle(kinds)
    small = o.get('total')
    rooms = []
    for i, t in enumerate(kinds):
        area = (small / nr) if small else size(rng, 8, 60, 2)
        ups = [u for u in range(nr) if u != i]
        nxt = []
        for _ in range(rng.randint(0, 3) if ups else 0):       # the same room may come twice
            nxt.append({'upstream_room_id': rng.choice(ups), 'volume': size(rng, 1, 120, 2)})
        def equip():
            e = rng.choice(['not_installed', 'convective', 'radiative'])
            d = {'equipment_type': e}
            if e == 'convective':
                d['convective'] = {'q_min': size(rng, 100, 600, 1, 4.0, 2.0), 'q_max': size(rng, 2000, 9000, 1, 1.5),
                                   'v_min': round(rng.uniform(5, 12), 2), 'v_max': round(rng.uniform(13, 25), 2)}
            if e == 'radiative':
                d['radiative'] = {'max_capacity': size(rng, 50, 200, 1), 'area': size(rng, 2, 20, 2)}
            return d
        rooms.append({'id': i, 'name': rng.choice(TYPES) if o.get('names') else t, 'room_type': t, 'floor_area': area,
                      'volume': round(area * rng.uniform(1.8, 5.5), 2), 'vent': rng.choice([0.0, size(rng, 10, 200, 1)]),
                      'natural_vent_time': rng.choice([0.0, 5.0, 20.0, round(rng.uniform(0, 30), 1)]), 'next_vent': nxt,
                      'heating_equipment': equip(), 'cooling_equipment': equip()})
    bds = []

    def bd(room, kind, **k):
        b = dict(name='b%d' % len(bds), connected_room_id=room, boundary_type=kind, area=size(rng, 0.5, 40, 3),
                 is_floor=False, is_solar_absorbed_inside=rng.random() < 0.5,
                 inside_heat_transfer_resistance=round(rng.uniform(0.09, 0.2), 3), h_c=round(rng.uniform(0.7, 5.0), 2),
                 solar_shading_part={'existence': False})
        if kind in ('external_general_part', 'external_opaque_part', 'external_transparent_part'):
            sun = rng.random() < 0.8
            b.update(is_sun_striked_outside=sun, temp_dif_coef=rng.choice([1.0, 1.0, 0.7, 0.05, 0.35, 0.0, 0.97]),
                     outside_heat_transfer_resistance=round(rng.uniform(0.02, 0.12), 3))
            if sun:
                b['direction'] = k.pop('direction', None) or rng.choice(VERTICAL + ['top', 'bottom'])
                b.update(outside_emissivity=round(rng.uniform(0.05, 1.0), 2))
                if kind != 'external_transparent_part':
                    b['outside_solar_absorption'] = round(rng.uniform(0.02, 1.0), 2)
                b['solar_shading_part'] = shading(rng, o.get('shade', 'some'), b['direction'])
        if kind == 'external_transparent_part':
            b.update(eta_value=round(rng.uniform(0.02, 0.95), 3), incident_angle_characteristics=rng.choice(['single', 'multiple']))
        if kind in ('external_opaque_part', 'external_transparent_part'):
            b['u_value'] = round(rng.uniform(0.2, 4.5), 3)
        if kind in ('external_general_part', 'internal', 'ground'):
            b['layers'] = layers(rng)
        if kind == 'internal':
            b['outside_heat_transfer_resistance'] = round(rng.uniform(0.09, 0.2), 3)
        b.update(k)
        bds.append(b)
        return b

    for i in range(nr):
        f = rng.choice(['ground', 'external_general_part', 'internal'])
        if f == 'internal':
            b = bd(i, 'internal', is_floor=True, next_room_type=kinds[i])
            b['rear'] = b
        else:
            bd(i, f, is_floor=True)
        if rng.random() < 0.4:
            bd(i, 'ground', is_floor=True)
        bd(i, 'external_general_part')
        for _ in range(rng.choice([0, 1, 2, 3, 4, 6])):
            bd(i, 'external_transparent_part')
        for _ in range(rng.randint(0, 2)):
            bd(i, rng.choice(['external_general_part', 'external_opaque_part']))
    for i in range(nr):
        for j in range(i):
            x, y = bd(i, 'internal', next_room_type=kinds[j]), bd(j, 'internal', next_room_type=kinds[i])
            x['rear'], y['rear'] = y, x
    if rng.random() < 0.3:                              # parts alike
        for b in rng.sample(bds, min(3, len(bds))):
            if 'rear' not in b:
                bds.append(copy.deepcopy(b))
    rng.shuffle(bds)
    if rng.random() < 0.3:                              # and parts of one name
        for b in bds:
            b['name'] = b['boundary_type']
    for j, b in enumerate(bds):
        b['id'] = j
    for b in bds:
        if 'rear' in b:
            b['rear_surface_boundary_id'] = b.pop('rear')['id']
    d = {'building': {'story': rng.choice([1, 2]), 'c_value': size(rng, 0.2, 5.0, 2),
                      'inside_pressure': rng.choice(['positive', 'negative', 'balanced'])}, 'rooms': rooms, 'boundaries': bds}
    bare = [r['id'] for r in rooms if 'radiative' not in (r['heating_equipment']['equipment_type'], r['cooling_equipment']['equipment_type'])]
    if bare and rng.random() < 0.25:                    # a room where nothing is called a floor
        no_floor(d, rng.choice(bare))
    return d


def no_floor(d, room):
    for b in d['boundaries']:
        if b['connected_room_id'] == room:
            b['is_floor'] = False


def whole_numbers(d):
    """The same kind of description written with whole numbers, as JSON often has them."""
    if isinstance(d, dict):
        return {k: whole_numbers(v) for k, v in d.items()}
    if isinstance(d, list):
        return [whole_numbers(v) for v in d]
    if isinstance(d, float):
        return max(1, round(d)) if d > 1 else d
    return d


def endless_numbers(rng, d):
    """The same kind of description with figures of any number of digits."""
    if isinstance(d, dict):
        return {k: endless_numbers(rng, v) for k, v in d.items()}
    if isinstance(d, list):
        return [endless_numbers(rng, v) for v in d]
    if isinstance(d, float) and d not in (0.0, 1.0):
        x = d * rng.uniform(0.999, 1.001)
        return min(x, 1.0) if d < 1 else x
    return d


BREAKS = ['room type', 'main missing', 'room type twice', 'room name', 'room ids', 'story', 'pressure', 'heating type',
          'cooling type', 'boundary type', 'direction', 'glazing', 'shading method', 'next room type', 'missing room key',
          'missing boundary key', 'missing layers', 'missing building key', 'detail shading', 'no floor to heat']


def damage(rng, d, how):
    """Break the description; returns (what, name of a missing key or '') or None when it has nothing to break."""
    rooms, bds = d['rooms'], d['boundaries']
    ext = [b for b in bds if b['boundary_type'].startswith('external') and b['is_sun_striked_outside']]
    win = [b for b in ext if b['boundary_type'] == 'external_transparent_part']
    if how == 'room type':
        rng.choice(rooms)['room_type'] = rng.choice(['living', 'MAIN_OCCUPANT_ROOM', '', 'main_occupant_room '])
    elif how == 'main missing':
        m = [r for r in rooms if r['room_type'] == 'main_occupant_room'][0]
        m['room_type'] = 'underfloor'
    elif how == 'room type twice':
        if len(rooms) < 2:
            return None
        a, b = rng.sample(rooms, 2)
        b['room_type'] = a['room_type']
    elif how == 'room name':
        rng.choice(rooms)['name'] = rng.choice(['kitchen', 'underfloor', ''])
    elif how == 'room ids':
        r = rng.choice(rooms)
        r['id'] = r['id'] + rng.choice([1, 7]) if rng.random() < 0.7 or len(rooms) < 2 else r['id'] - 1
    elif how == 'story':
        d['building']['story'] = rng.choice([0, 3, -1])
    elif how == 'pressure':
        d['building']['inside_pressure'] = rng.choice(['Positive', 'none', ''])
    elif how in ('heating type', 'cooling type'):
        rng.choice(rooms)[how.split()[0] + '_equipment']['equipment_type'] = rng.choice(['floor', 'Convective', ''])
    elif how == 'boundary type':
        rng.choice(bds)['boundary_type'] = rng.choice(['wall', 'external', 'Internal'])
    elif how == 'direction':
        if not ext:
            return None
        rng.choice(ext)['direction'] = rng.choice(['south', 'S', 'ss', ''])
    elif how == 'glazing':
        if not win:
            return None
        rng.choice(win)['incident_angle_characteristics'] = rng.choice(['double', 'Single', 'triple'])
    elif how in ('shading method', 'detail shading'):
        ws = [b for b in (win if how == 'detail shading' else ext) if b['direction'] in VERTICAL]
        if not ws:
            return None
        b = rng.choice(ws)
        s = {'existence': True, 'input_method': 'detail' if how == 'detail shading' else rng.choice(['complex', 'Simple']),
             'depth': 0.5, 'd_h': 1.0, 'd_e': 0.2}
        s.update({k: 0.5 for k in ('x1', 'x2', 'x3', 'y1', 'y2', 'y3', 'z_x_pls', 'z_x_mns', 'z_y_pls', 'z_y_mns')})
        b['solar_shading_part'] = s
    elif how == 'no floor to heat':
        r = rng.choice(rooms)
        r[rng.choice(['heating', 'cooling']) + '_equipment'].update(equipment_type='radiative', radiative={'max_capacity': 100.0, 'area': 6.0})
        no_floor(d, r['id'])
    elif how == 'next room type':
        ins = [b for b in bds if b['boundary_type'] == 'internal']
        if not ins:
            return None
        rng.choice(ins)['next_room_type'] = rng.choice(['bath', '', 'Main'])
    elif how == 'missing room key':
        k = rng.choice(['name', 'room_type', 'volume', 'vent', 'floor_area', 'next_vent', 'natural_vent_time', 'heating_equipment',
                        'cooling_equipment'])
        del rng.choice(rooms)[k]
        return how, k
    elif how == 'missing boundary key':
        k = rng.choice(['id', 'name', 'connected_room_id', 'boundary_type', 'area', 'is_floor', 'is_solar_absorbed_inside',
                        'inside_heat_transfer_resistance', 'h_c', 'solar_shading_part'])
        del rng.choice(bds)[k]
        return how, k
    elif how == 'missing layers':
        w = [b for b in bds if 'layers' in b]
        del rng.choice(w)['layers']
        return how, 'layers'
    elif how == 'missing building key':
        k = rng.choice(['story', 'c_value', 'inside_pressure'])
        del d['building'][k]
        return how, k
    return how, ''


def concrete(rng, s):
    """A full description of a state of Faults.tla, and the name of the key that is missing."""
    rooms, bds = [], []

    def equip(kind):
        return {'equipment_type': kind, 'convective': {'q_min': 500.0, 'q_max': 5000.0, 'v_min': 8.0, 'v_max': 16.0},
                'radiative': {'max_capacity': 100.0, 'area': 6.0}}
    for i, (r, k) in enumerate(zip(s['rooms'], s['ids'])):
        area = round(rng.uniform(8, 40), 2)
        rooms.append({'id': k, 'name': r['name'], 'room_type': r['type'], 'floor_area': area, 'volume': round(area * 2.4, 2),
                      'vent': 30.0, 'natural_vent_time': 5.0,
                      'next_vent': [{'upstream_room_id': i - 1, 'volume': 20.0}] if i else [],
                      'heating_equipment': equip(r['heat']), 'cooling_equipment': equip(r['cool'])})

    def bd(room, kind, **k):
        b = dict(id=len(bds), name='b%d' % len(bds), connected_room_id=room, boundary_type=kind, area=round(rng.uniform(2, 20), 3),
                 is_floor=False, is_solar_absorbed_inside=True, inside_heat_transfer_resistance=0.11, h_c=2.5,
                 solar_shading_part={'existence': False}, is_sun_striked_outside=False, temp_dif_coef=1.0,
                 outside_heat_transfer_resistance=0.04, outside_emissivity=0.9, outside_solar_absorption=0.8, u_value=2.0,
                 eta_value=0.5, incident_angle_characteristics='single', layers=layers(rng))
        if kind == 'internal':
            b.update(rear_surface_boundary_id=b['id'])
        b.update(k)
        bds.append(b)
    for x in s['bds']:
        k = dict(is_sun_striked_outside=x['sun'], direction=x['dir'], incident_angle_characteristics=x['glass'],
                 next_room_type=x['next'])
        if x['shade'] != 'none':
            k['solar_shading_part'] = dict({'existence': True, 'input_method': x['shade'], 'depth': 0.5, 'd_h': 1.0, 'd_e': 0.2},
                                           **{z: 0.5 for z in ('x1', 'x2', 'x3', 'y1', 'y2', 'y3', 'z_x_pls', 'z_x_mns', 'z_y_pls',
                                                               'z_y_mns')})
        bd(x['room'] - 1, x['type'], **k)
    for i in range(len(rooms)):
        bd(i, 'ground', is_floor=s['rooms'][i]['floor'])
        bd(i, 'external_general_part', is_sun_striked_outside=True, direction='n')
    d = {'building': {'story': s['story'], 'c_value': 2.0, 'inside_pressure': s['pressure']}, 'rooms': rooms, 'boundaries': bds}
    miss = s['missing']
    if miss.startswith('room '):
        del rooms[s['where'] - 1][miss[5:]]
    elif miss.startswith('boundary '):
        del bds[s['where'] - 1][miss[9:]]
    elif miss:
        del d['building'][miss]
    return d, miss.split(' ')[-1]


# ---------------------------------------------------------------- what the specification reads
def F(x):
    return float(x)


def spoken(d, missing):
    """The description in the words of Description.tla."""
    rooms, bds = [], []
    for r in d['rooms']:
        def eq(e):
            c, q = e.get('convective', {}), e.get('radiative', {})
            return dict(type=e.get('equipment_type', '-'), qmin=F(c.get('q_min', 0)), qmax=F(c.get('q_max', 0)),
                        vmin=F(c.get('v_min', 0)), vmax=F(c.get('v_max', 0)), cap=F(q.get('max_capacity', 0)),
                        area=F(q.get('area', 0)))
        rooms.append(dict(id=r['id'], name=r.get('name', '-'), type=r.get('room_type', '-'), area=F(r.get('floor_area', 1)),
                          vol=F(r.get('volume', 1)), vent=F(r.get('vent', 0)), nat=F(r.get('natural_vent_time', 0)),
                          next=[dict(up=v['upstream_room_id'], q=F(v['volume'])) for v in r.get('next_vent', [])],
                          heat=eq(r.get('heating_equipment', {})), cool=eq(r.get('cooling_equipment', {}))))
    for b in d['boundaries']:
        s = b.get('solar_shading_part', {'existence': False})
        bds.append(dict(id=b.get('id', -1), name=b.get('name', '-'), room=b.get('connected_room_id', 0),
                        type=b.get('boundary_type', '-'), area=F(b.get('area', 1)), sun=bool(b.get('is_sun_striked_outside', False)),
                        htd=F(b.get('temp_dif_coef', 1)), dir=b.get('direction', '-'), floor=bool(b.get('is_floor')),
                        abs=bool(b.get('is_solar_absorbed_inside')), ri=F(b.get('inside_heat_transfer_resistance', 1)),
                        hc=F(b.get('h_c', 0)), ro=F(b.get('outside_heat_transfer_resistance', 0)),
                        eps=F(b.get('outside_emissivity', 0)), u=F(b.get('u_value', 0)), eta=F(b.get('eta_value', 0)),
                        glass=b.get('incident_angle_characteristics', '-'), next=b.get('next_room_type', '-'),
                        rear=b.get('rear_surface_boundary_id', -1),
                        layers=[dict(r=F(x['thermal_resistance']), c=F(x['thermal_capacity'])) for x in b.get('layers', [])],
                        shade=dict(has=bool(s['existence']), method=s.get('input_method', '-'), depth=F(s.get('depth', 0)),
                                   de=F(s.get('d_e', 0)), dh=F(s.get('d_h', 1)))))
        bds[-1]['as'] = F(b.get('outside_solar_absorption', 0))
    u = d['building']
    return dict(story=u.get('story', 0), pressure=u.get('inside_pressure', '-'), cvalue=F(u.get('c_value', 0)), missing=missing,
                rooms=rooms, bds=bds)


def made(o):
    """mid_data_house.json in the words of the specification."""
    sp, bs = [], []
    for s in o['spaces']:
        h, c = s['equipment']['heating'], s['equipment']['cooling']
        sp.append(dict(id=s['id'], name=s['name'], vol=F(s['volume']), beta=F(s['beta']), mech=F(s['ventilation']['mechanical']),
                       nat=F(s['ventilation']['natural']), next=[F(x) for x in s['ventilation']['next_spaces']],
                       cf=F(s['furniture']['heat_capacity']), gf=F(s['furniture']['heat_cond']),
                       cw=F(s['furniture']['moisture_capacity']), gw=F(s['furniture']['moisture_cond']),
                       radh=h['radiative']['installed'], caph=F(h['radiative'].get('max_capacity', 0)),
                       convh=h['convective']['installed'], radc=c['radiative']['installed'],
                       capc=F(c['radiative'].get('max_capacity', 0)), convc=c['convective']['installed'],
                       qmin=F(c['convective'].get('q_min', 0)), qmax=F(c['convective'].get('q_max', 0)),
                       vmin=F(c['convective'].get('v_min', 0)), vmax=F(c['convective'].get('v_max', 0))))
    for b in o['boundaries']:
        k, s = b['k_inside'], b['spec']
        bs.append(dict(id=b['id'], name=b['name'], room=b['connected_space_id'], area=F(b['area']), hi=F(b['h_i']), hc=F(b['h_c']),
                       ground={'true': True, 'false': False}[b['is_ground']], abs={'True': True, 'False': False}[b['is_solar_absorbed']],
                       fmh=F(b['f_mrt_hum']), flr=F(b['flr']), kout=F(b['k_outside']),
                       kin=[k['id'], F(k['coef'])] if k else [-1, 0.0],
                       spec=dict(method=s['method'], type=s['boundary_type'], u=F(s.get('u_value', 0)),
                                 ri=F(s.get('inside_heat_transfer_resistance', 0)), ro=F(s.get('outside_heat_transfer_resistance', 0)),
                                 layers=[dict(r=F(x['thermal_resistance']), c=F(x['thermal_capacity'])) for x in s.get('layers', [])])))
    u = o['building']
    return dict(story=u['story'], pressure=u['inside_pressure'], cvalue=F(u['c_value']), method=u['infiltration_method'], spaces=sp, bds=bs)


def table(d, name):
    with open(os.path.join(d, 'mid_data_%s.csv' % name)) as f:
        return [[float(x) for x in r] for r in csv.reader(f)]


def instants(rng, w, n):
    """Instants of every sort: the sun high, low and below, beside the window and behind it."""
    import numpy as np
    if n >= N:
        return range(N)
    day = np.nonzero(w['h'] > 0)[0]
    low = np.nonzero((w['h'] > 0) & (w['h'] < 0.12))[0]
    night = np.nonzero(w['h'] <= 0)[0]
    dusk = np.nonzero((w['h'] <= 0) & (w['dn'] > 0))[0]
    out = {0, N - 1} | set(SQUARE)
    out |= {int(dusk[rng.randrange(len(dusk))]) for _ in range(n // 6)}
    out |= {int(day[rng.randrange(len(day))]) for _ in range(n * 2 // 3)}
    out |= {int(low[rng.randrange(len(low))]) for _ in range(n // 6)}
    out |= {int(night[rng.randrange(len(night))]) for _ in range(n // 6)}
    return sorted(out)


def some_days(rng, n):
    return range(365) if n >= 365 else sorted({0, 364} | {rng.randrange(365) for _ in range(n)})


def house_case(rng, d, what, missing, wseed, n_rows, days, share=None):
    from heat_load_calc.initializer import initializer
    w = weather(wseed)
    tmp, made_tmp = share, None
    if tmp is None:
        tmp = made_tmp = tempfile.mkdtemp(prefix='hlc_i_')
        write_weather(w, tmp)
    tmp2 = tempfile.mkdtemp(prefix='hlc_o_')
    case = dict(kind='house', what=what, desc=spoken(d, missing), refused=False, error='', written=False, rows=[], days=[], mean=0.0,
                lengths=True)
    try:
        try:
            initializer.make_house(d=copy.deepcopy(d), input_data_dir=tmp, output_data_dir=tmp2)
        except Exception as x:
            case.update(refused=True, error='%s: %s' % (type(x).__name__, str(x)[:80]))
        case['written'] = bool(os.listdir(tmp2))
        if not case['refused'] and missing == '' and what in ('valid', 'detail shading', 'edited'):
            with open(os.path.join(tmp2, 'mid_data_house.json')) as f:
                case['out'] = made(json.load(f))
            q, tos = table(tmp2, 'q_trs_sol'), table(tmp2, 'theta_o_sol')
            case['mean'] = float(w['to'].mean())
            for n in instants(rng, w, n_rows):
                case['rows'].append(dict(n=n, w={k: 0.0 if math.isnan(w[k][n]) else float(w[k][n]) for k in ('to', 'dn', 'sky', 'rn', 'h', 'a')}, q=q[n], tos=tos[n]))
            tabs = {k: table(tmp2, f) for k, f in (('nh', 'occupants'), ('dem', 'ac_demand'), ('lv', 'local_vent'),
                                                   ('qg', 'heat_generation'), ('xg', 'moisture_generation'))}
            nr, nb = len(d['rooms']), len(d['boundaries'])
            case['lengths'] = (len(q) == N and len(tos) == N and all(len(r) == nr for r in q) and all(len(r) == nb for r in tos)
                               and all(len(t) == N and all(len(r) == nr for r in t) for t in tabs.values()))
            for day in some_days(rng, days):
                case['days'].append(dict(day=day + 1, rooms=[{k: [t[n][i] for n in range(day * 96, day * 96 + 96)] for k, t in tabs.items()}
                                                             for i in range(nr)]))
    finally:
        if made_tmp:
            shutil.rmtree(made_tmp)
        shutil.rmtree(tmp2)
    return case


def schedule_case(rng, np_, days):
    import numpy as np
    from heat_load_calc.initializer import schedule_loader
    rooms = [dict(name=n, area=round(rng.uniform(5, 90), 2)) for n in rng.sample(TYPES, rng.randint(1, 3))]
    c = dict(kind='schedules', what='np', np=float(np_), rooms=rooms, refused=False, days=[], lengths=True)
    try:
        q, x, v, nh, dem = schedule_loader.get_compiled_schedules(n_p=np_, room_name_is=[r['name'] for r in rooms],
                                                                  a_floor_is=np.array([r['area'] for r in rooms]))
    except Exception:
        c['refused'] = True
        return c
    c['lengths'] = all(a.shape == (len(rooms), N) for a in (q, x, v, nh, dem))
    for day in some_days(rng, days):
        sl = slice(day * 96, day * 96 + 96)
        c['days'].append(dict(day=day + 1, rooms=[dict(nh=nh[i, sl].tolist(), dem=dem[i, sl].tolist(), lv=v[i, sl].tolist(),
                                                       qg=q[i, sl].tolist(), xg=x[i, sl].tolist()) for i in range(len(rooms))]))
    return c


def residents_case(rng, n):
    from heat_load_calc.initializer import residents_number as m
    near = [30.0, 60.0, 90.0, 120.0]
    floors = [rng.choice([rng.uniform(0.5, 400), rng.choice(near), rng.choice(near) + rng.choice([-1, 1]) * 10 ** rng.uniform(-9, 0)])
              for _ in range(n)]
    return dict(kind='residents', what='floors', floors=floors, people=[float(m.get_total_number_of_residents(a_floor_total=a)) for a in floors])


def calc_case(rng, what):
    """A calculation asked for on a small house, with one thing of its input or its periods damaged (or none)."""
    import housegen
    from core_driver import calc
    hs = housegen.house(rng, n_rooms=1)
    w, sr = housegen.series(rng, hs, 2, 'mild')
    run, build = rng.choice([(0, 0), (1, 0), (1, 1), (2, 1)])
    if what == 'periods':
        run, build = rng.choice([(0, 1), (1, 2), (0, 3)])
    if what == 'method':
        hs['building']['infiltration_method'] = rng.choice(['residential', '', 'balance'])
    if what == 'story':
        hs['building']['story'] = rng.choice([0, 3])
    if what == 'pressure':
        hs['building']['inside_pressure'] = rng.choice(['Negative', '', 'zero'])
    if what == 'wall':
        rng.choice(hs['boundaries'])['spec'] = {'method': 'layers', 'boundary_type': rng.choice(['wall', 'External', '']),
                                                'layers': layers(rng), 'outside_heat_transfer_resistance': 0.04}
    c = dict(kind='calc', what=what, method=hs['building']['infiltration_method'], story=hs['building']['story'],
             pressure=hs['building']['inside_pressure'], run=run, build=build, refused=False, error='',
             walls=[b['spec'].get('boundary_type', '-') if b['spec']['method'] != 'response_factor' else '-' for b in hs['boundaries']])
    tmp = tempfile.mkdtemp(prefix='hlc_i_')
    try:
        housegen.write(tmp, hs, w, sr)
        calc(tmp, n_d_main=1, n_d_run_up=run, n_d_run_up_build=build)
    except Exception as x:
        c.update(refused=True, error=str(x)[-80:])
    finally:
        shutil.rmtree(tmp)
    return c


def source():
    import heat_load_calc.initializer as I
    with open(os.path.join(os.path.dirname(I.__file__), 'schedules.json'), encoding='utf-8') as f:
        s = json.load(f)
    return dict(calendar=s['calendar'], sched=[{room: {day: {c: [float(x) for x in v] for c, v in cols.items() if isinstance(v, list)}
                                                       for day, cols in ds.items()} for room, ds in s['daily_schedule'][str(n)].items()}
                                               for n in (1, 2, 3, 4)])


def job(p, path):
    rng = random.Random(p['seed'])
    cases = []
    for _ in range(p.get('houses', 0)):
        d = describe(rng, p.get('house', {}))
        if p.get('whole'):
            d = whole_numbers(d)
        if p.get('endless'):
            d = endless_numbers(rng, d)
        cases.append(house_case(rng, d, 'valid', '', rng.randrange(10 ** 6), p.get('rows', 20), p.get('days', 1)))
    for how in p.get('breaks', []):
        for _ in range(20):
            d = describe(rng, dict(p.get('house', {}), shade='some'))
            r = damage(rng, d, how)
            if r:
                cases.append(house_case(rng, d, r[0], r[1], p['seed'], 4, 0))
                break
    if 'behaviours' in p:
        with open(p['behaviours']) as f:
            states = json.load(f)['states']
        states.sort(key=lambda s: json.dumps(s, sort_keys=True))
        states.sort(key=lambda s: s['valid'])               # the costly ones spread evenly over the jobs
        share = tempfile.mkdtemp(prefix='hlc_i_')
        try:
            write_weather(weather(p['seed']), share)
            for s in states[p['part']::p['parts']]:
                d, missing = concrete(rng, s['d'])
                c = house_case(rng, d, 'edited', missing, p['seed'], 0, 0, share)
                c['expected'] = s['valid']
                cases.append(c)
        finally:
            shutil.rmtree(share)
    for np_ in p.get('people', []):
        cases.append(schedule_case(rng, np_, p.get('days', 1)))
    if p.get('floors'):
        cases.append(residents_case(rng, p['floors']))
    for what in p.get('calcs', []):
        cases.append(calc_case(rng, what))
    with open(path, 'w') as f:
        json.dump(dict(source(), cases=cases), f)
    return {'cases': len(cases)}
