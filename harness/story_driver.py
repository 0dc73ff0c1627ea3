"""From a building description to results: what the initializer writes is what the calculation reads."""
import csv
import json
import os
import random
import shutil
import tempfile

import core_driver
import housegen
import input_driver


BOARD = [(0.05, 8.0), (0.08, 12.0), (0.03, 20.0)]
MASS = [(0.08, 230.0), (0.1, 300.0), (0.06, 120.0)]
INSULATION = [(0.5, 0.6), (1.2, 1.5), (2.5, 2.5), (4.0, 3.5)]
AIR = [(0.09, 0.0), (0.18, 0.0)]


def walls(rng, kind):
    """Walls as they are built (response factors with fixed decay rates do not describe any others)."""
    parts = {'internal': [[BOARD], [BOARD, AIR, BOARD], [BOARD, MASS, BOARD]],
             'ground': [[BOARD, INSULATION, MASS], [MASS], [MASS, INSULATION]]}.get(
                 kind, [[BOARD, INSULATION, AIR, BOARD], [BOARD, INSULATION, MASS], [MASS, INSULATION], [BOARD, AIR, BOARD]])
    while True:
        w = [{'name': 'l', 'thermal_resistance': round(r * rng.uniform(0.8, 1.2), 4), 'thermal_capacity': round(c * rng.uniform(0.8, 1.2), 4)}
             for r, c in [rng.choice(p) for p in rng.choice(parts)]]
        # the slowest decay rate is 2e-6 1/s: mass behind much insulation is slower than that
        if kind == 'ground' or all(1000.0 * x['thermal_capacity'] * sum(y['thermal_resistance'] for y in side) < 3.0e5
                                   for k, x in enumerate(w) for side in (w[:k], w[k + 1:])):
            return w


def tame(rng, d, interzone):
    """A house that could stand: walls as they are built, both sides of a wall alike, and air between rooms in small amounts only
    (known findings C01, C04: it does not balance, and large flows run away)."""
    for r in d['rooms']:
        r['next_vent'] = [dict(v, volume=min(v['volume'], 0.3 * r['volume'])) for v in r['next_vent']] if interzone else []
    for b in d['boundaries']:
        if 'layers' in b:
            b['layers'] = walls(rng, b['boundary_type'])
        if b['boundary_type'] == 'external_transparent_part':
            b['area'] = min(b['area'], 6.0)
    for b in d['boundaries']:
        k = b.get('rear_surface_boundary_id', b['id'])
        if k < b['id']:
            x = d['boundaries'][k]
            b.update(area=x['area'], layers=x['layers'][::-1])
    return d


def cut(src, dst, first, n, head):
    with open(src, encoding='utf-8') as f:
        lines = f.readlines()
    body = lines[head:]
    with open(dst, 'w', encoding='utf-8') as f:
        f.writelines(lines[:head] + [body[(first + k) % len(body)] for k in range(n)])


def job(p, path):
    from heat_load_calc.initializer import initializer
    from heat_load_calc.weather import weather
    rng = random.Random(p['seed'])
    d = tame(rng, input_driver.describe(rng, p.get('house', {})), p.get('interzone', False))
    days, main = p['days'], p.get('main') or p['days']
    src, dst = tempfile.mkdtemp(prefix='hlc_s_'), tempfile.mkdtemp(prefix='hlc_s_')
    try:
        if p.get('region'):
            weather.make_weather(region=p['region'], output_data_dir=src, csv_output=True)
        else:
            input_driver.write_weather(input_driver.weather(p['seed']), src)
        initializer.make_house(d=json.loads(json.dumps(d)), input_data_dir=src, output_data_dir=src)
        first = 96 * rng.randrange(365)
        cut(os.path.join(src, 'weather.csv'), os.path.join(dst, 'weather.csv'), first, days * 96, 1)
        for name in housegen.FILES.values():
            f = 'mid_data_%s.csv' % name
            cut(os.path.join(src, f), os.path.join(dst, f), first, days * 96, 0)
        shutil.copy(os.path.join(src, 'mid_data_house.json'), dst)
        with open(os.path.join(dst, 'mid_data_house.json')) as f:
            hs = json.load(f)
        with open(os.path.join(dst, 'weather.csv')) as f:
            rows = list(csv.DictReader(f))
        w = dict(to=[float(r['temperature']) for r in rows], xo=[float(r['absolute humidity']) for r in rows])
        s = {k: input_driver.table(dst, name) for k, name in housegen.FILES.items()}
        _, dd = core_driver.calc(dst, n_step_hourly=4, n_d_main=main, n_d_run_up=p['g'], n_d_run_up_build=0)
        with open(path, 'w') as f:
            json.dump(core_driver.trace(hs, w, s, dd, p['g'] * 96), f)
    finally:
        shutil.rmtree(src)
        shutil.rmtree(dst)
    return {'rooms': len(hs['spaces']), 'boundaries': len(hs['boundaries']), 'first day': first // 96}
