"""The comfort index by itself, sizes of room air conditioners, airtightness: arguments and answers."""
import json
import random


def F(x):
    return float(x)


def pick(rng, lo, hi, special):
    return rng.choice(special) if rng.random() < 0.25 else rng.uniform(lo, hi)


def comfort(rng):
    from heat_load_calc.external import iso7730
    a = dict(met=pick(rng, 0.8, 4.0, [1.0, 1.1, 1.2, 0.8]), eff=rng.choice([0.0, 0.0, rng.uniform(0, 0.5)]),
             ta=pick(rng, -10, 45, [0.0, 20.0, 22.0, 34.0]), clo=pick(rng, 0, 2.5, [0.0, 0.3, 0.5, 0.7, 1.0, 1.1, 0.503, 0.504]),
             var=pick(rng, 0, 1.5, [0.0, 0.1, 0.001]), rh=pick(rng, 0, 100, [0.0, 50.0, 100.0]))
    a['tr'] = a['ta'] if rng.random() < 0.3 else rng.uniform(-5, 60)
    c = dict(a, kind='pmv', pmv=0.0, ppd=0.0, error='')
    try:
        p, q = iso7730.get_pmv_ppd(met_value=a['met'], p_eff=a['eff'], t_a=a['ta'], t_r_bar=a['tr'], clo_value=a['clo'],
                                   v_ar=a['var'], rh=a['rh'])
        c.update(pmv=F(p), ppd=F(q))
    except Exception as x:
        c['error'] = '%s: %s' % (type(x).__name__, str(x)[:80])
    return c


def unit(rng):
    import numpy as np
    from heat_load_calc.external import rac
    areas = sorted(pick(rng, 2.5, 60, [6.0, 10.0, 29.1, 29.2, 200.0]) for _ in range(rng.randint(1, 8)))
    c = dict(kind='unit', areas=[F(a) for a in areas], error='')
    try:
        h, k = rac.get_q_rtd(np.array(areas))
        mh, mc = rac.get_q_max(h, k)
        v = rac.get_v_max(k)
        c.update(rh=[F(x) for x in h], rc=[F(x) for x in k], mh=[F(x) for x in mh], mc=[F(x) for x in mc],
                 leasth=F(rac.get_q_min_h()), leastc=F(rac.get_q_min_c()), vmax=[F(x) for x in v], vmin=[F(x) for x in rac.get_v_min(v)])
    except Exception as x:
        c['error'] = '%s: %s' % (type(x).__name__, str(x)[:80])
    return c


def tightness(rng):
    from heat_load_calc.initializer import estimate_c_value as e
    c = dict(kind='structure', ua=pick(rng, 0.05, 6, [0.87, 0.46, 1.0]), structure=rng.choice(['rc', 'src', 'wooden', 'steel']), error='')
    try:
        c['c'] = F(e.estimate_c_value(c['ua'], e.Structure(c['structure'])))
    except Exception as x:
        c['error'] = '%s: %s' % (type(x).__name__, str(x)[:80])
    return c


def job(p, path):
    rng = random.Random(p['seed'])
    make = dict(comfort=[comfort], sizes=[unit, tightness])[p['kind']]
    cases = [make[i % len(make)](rng) for i in range(p['n'])]
    with open(path, 'w') as f:
        json.dump(dict(cases=cases), f)
    return {'cases': len(cases)}
