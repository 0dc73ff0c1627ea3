"""Runs heat_load_calc.core on generated houses and records the run as a trace.

Only the public face is used: core.calc, the files it reads, the tables it returns, and the response factors of
ResponseFactorFactory (the laws of the specification take them as data; they have their own specification).
"""
import contextlib
import io
import json
import math
import os
import random
import shutil
import subprocess
import sys
import tempfile
import traceback
import warnings

import housegen

warnings.filterwarnings('ignore')


class ImplError(Exception):
    """The code under test raised on legitimate input."""


def calc(dirname, **kw):
    from heat_load_calc.core import core
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return core.calc(input_data_dir=dirname, **kw)
        except Exception:
            raise ImplError(traceback.format_exc(limit=-3))


def response_factors(spec):
    from heat_load_calc.initializer.response_factor import ResponseFactorFactory
    rf = ResponseFactorFactory.create(json.loads(json.dumps(spec))).get_response_factors()
    return [float(rf.rfa0), [float(x) for x in rf.rfa1], float(rf.rft0), [float(x) for x in rf.rft1],
            [float(x) for x in rf.row]]


def _f(v):
    return [float(x) for x in v]


MODES = {1: 'COOLING', 2: 'HEATING', 3: 'STOP_OPEN', 4: 'STOP_CLOSE'}


def _name(mode):
    return mode.name if hasattr(mode, 'name') else MODES.get(int(mode), str(mode))


def building(hs, w, dd):
    """The building as the specification wants it."""
    rooms = []
    nan = float('nan')
    for r in hs['spaces']:
        eq, fu, ve = r['equipment'], r['furniture'], r['ventilation']
        hr, cr, cc = eq['heating']['radiative'], eq['cooling']['radiative'], eq['cooling']['convective']
        rooms.append(dict(
            vol=float(r['volume']), beta=float(r['beta']), vmech=float(ve['mechanical']), vnat=float(ve['natural']),
            vnext=_f(ve['next_spaces']), cf=float(fu['heat_capacity']), gf=float(fu['heat_cond']),
            cw=float(fu['moisture_capacity']), gw=float(fu['moisture_cond']),
            radh=bool(hr['installed']), caph=float(hr.get('max_capacity', 0.0)),
            radc=bool(cr['installed']), capc=float(cr.get('max_capacity', 0.0)),
            rac='q_min' in cc, qmin=float(cc.get('q_min', 0.0)), qmax=float(cc.get('q_max', 0.0)),
            vmin=float(cc.get('v_min', 0.0)), vmax=float(cc.get('v_max', 0.0))))
    count = [0] * len(rooms)
    bds = []
    for b in hs['boundaries']:
        i = b['connected_space_id']
        pre = 'rm%d_b%d_' % (i, count[i])
        count[i] += 1
        a0, a1, t0, t1, row = response_factors(b['spec'])
        bds.append(dict(
            room=i + 1, ground=b['is_ground'] == 'true', area=float(b['area']), hc=float(b['h_c']),
            hr=float(dd[pre + 'hir_s'].iloc[0]), flr=float(b['flr']), abs=b['is_solar_absorbed'] == 'True',
            fmh=float(b['f_mrt_hum']), kout=float(b['k_outside']),
            kin=[b['k_inside']['id'] + 1, float(b['k_inside']['coef'])] if b['k_inside'] else [0, 0.0],
            phia0=a0, phia1=a1, phit0=t0, phit1=t1, r=row))
        bds[-1]['_pre'] = pre
    bl = hs['building']
    return dict(dt=900.0, to=_f(w['to']), xo=_f(w['xo']), story=bl['story'], cvalue=float(bl['c_value']),
                pressure=bl['inside_pressure'], rooms=rooms, bds=bds)


ROOM = {'hc': 'hc_hum', 'hr': 'hr_hum', 'tr': 't_r', 'rh': 'rh_r', 'xr': 'x_r', 'mrt': 'mrt', 'ot': 'ot',
        'qhs': 'q_hum_s', 'qhl': 'q_hum_l', 'lc': 'l_s_c', 'lr': 'l_s_r', 'll': 'l_l_c', 'tf': 't_fun',
        'qsf': 'q_s_fun', 'qssf': 'q_s_sol_fun', 'xf': 'x_fun', 'qlf': 'q_l_fun', 'vl': 'v_reak', 'vn': 'v_ntrl',
        'occ': 'occupancy', 'qsolt': 'q_sol_t', 'qse': 'q_s_except_hum', 'qle': 'q_l_except_hum'}
SURF = {'ts': 't_s', 'te': 't_e', 'tb': 't_b', 'hir': 'hir_s', 'hic': 'hic_s', 'qir': 'qir_s', 'qic': 'qic_s',
        'qis': 'qisol_s', 'q': 'qiall_s'}


def rows(hs, b, dd, first=0, last=None):
    n_r = len(hs['spaces'])
    cols = {k: [dd['rm%d_%s' % (i, c)].tolist() for i in range(n_r)] for k, c in ROOM.items()}
    surf = {k: [dd[x['_pre'] + c].tolist() for x in b['bds']] for k, c in SURF.items()}
    mode = [dd['rm%d_ac_operate' % i].tolist() for i in range(n_r)]
    rem = [dd['rm%d_remarks' % i].tolist() for i in range(n_r)]
    out_t, out_x = dd['out_temp'].tolist(), dd['out_abs_humid'].tolist()
    res = []
    for n in range(first, len(dd) if last is None else last):
        row = {k: [float(c[n]) for c in v] for k, v in cols.items()}
        row.update({k: [float(c[n]) for c in v] for k, v in surf.items()})
        row['mode'] = [_name(m[n]) for m in mode]
        row['rem'] = []
        for r in rem:
            x = r[n] if isinstance(r[n], dict) else json.loads(r[n])
            row['rem'].append({'pmv': float(x['pmv_target']), 'v': float(x['v_hum m/s']), 'clo': float(x['clo'])})
        row['outT'], row['outX'] = float(out_t[n]), float(out_x[n])
        res.append(row)
    return res


def trace(hs, w, s, dd, g):
    b = building(hs, w, dd)
    rws = rows(hs, b, dd)
    for x in b['bds']:
        del x['_pre']
    inp = {k: [[float(x) for x in row] for row in v] for k, v in s.items()}
    return {'g': g, 'b': b, 'inp': inp, 'rows': rws, 'build': 0, 'every': 1}


def job_run(p, path):
    """One run, recorded; with "default" the way it is run by anybody who gives nothing but the directory."""
    rng = random.Random(p['seed'])
    hs = housegen.house(rng, **p['house'])
    w, s = housegen.series(rng, hs, p['days'], p['kind'])
    g, build = (365, 183) if p.get('default') else (p['g'], p.get('build', 0))
    main = p.get('main') or p['days']
    d = tempfile.mkdtemp(prefix='hlc_core_')
    try:
        housegen.write(d, hs, w, s)
        _, dd = calc(d) if p.get('default') else calc(d, n_step_hourly=4, n_d_main=main, n_d_run_up=g, n_d_run_up_build=build)
        with open(path, 'w') as f:
            json.dump(dict(trace(hs, w, s, dd, (g - build) * 96), build=build * 96, every=p.get('every', 1)), f)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {'rooms': len(hs['spaces']), 'boundaries': len(hs['boundaries'])}


# --- pairs of runs -------------------------------------------------------------------------------------------------

def run_rows(hs, w, s, g_days=0, b_days=0, main=None):
    """Rows of one run, boundaries in the order of the house."""
    d = tempfile.mkdtemp(prefix='hlc_core_')
    try:
        housegen.write(d, hs, w, s)
        days = len(w['to']) // 96 if main is None else main
        _, dd = calc(d, n_step_hourly=4, n_d_main=days, n_d_run_up=g_days, n_d_run_up_build=b_days)
        return rows(hs, building(hs, w, dd), dd)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def apart(todo):
    """Rows of runs, one after another, in a process of their own."""
    d = tempfile.mkdtemp(prefix='hlc_apart_')
    try:
        with open(os.path.join(d, 'in.json'), 'w') as f:
            json.dump(todo, f)
        r = subprocess.run([sys.executable, os.path.abspath(__file__), d], capture_output=True, text=True)
        if not os.path.exists(os.path.join(d, 'out.json')):
            raise ImplError(r.stderr[-1500:])
        with open(os.path.join(d, 'out.json')) as f:
            return json.load(f)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def permute(rng, hs, s):
    """The same house with rooms and boundaries in another order: (house, series, room map, boundary map)."""
    hs = json.loads(json.dumps(hs))
    n_r, n_b = len(hs['spaces']), len(hs['boundaries'])
    ro, bo = list(range(n_r)), list(range(n_b))
    while n_r > 1 and ro == list(range(n_r)):
        rng.shuffle(ro)
    rng.shuffle(bo)                                   # position -> old index
    rmap = {old: new for new, old in enumerate(ro)}
    bmap = {old: new for new, old in enumerate(bo)}
    rooms = [hs['spaces'][o] for o in ro]
    for new, r in enumerate(rooms):
        r['id'] = new
        nx = r['ventilation']['next_spaces']
        r['ventilation']['next_spaces'] = [nx[o] for o in ro]
    bds = [hs['boundaries'][o] for o in bo]
    for new, b in enumerate(bds):
        b['id'] = new
        b['connected_space_id'] = rmap[b['connected_space_id']]
        if b['k_inside']:
            b['k_inside']['id'] = bmap[b['k_inside']['id']]
    s2 = {k: [[row[o] for o in (bo if k == 'tos' else ro)] for row in v] for k, v in s.items()}
    return dict(hs, spaces=rooms, boundaries=bds), s2, [rmap[i] + 1 for i in range(n_r)], [bmap[j] + 1 for j in range(n_b)]


def merge(h1, s1, h2, s2):
    h2 = json.loads(json.dumps(h2))
    n_r, n_b = len(h1['spaces']), len(h1['boundaries'])
    m_r = len(h2['spaces'])
    h1 = json.loads(json.dumps(h1))
    for r in h1['spaces']:
        r['ventilation']['next_spaces'] += [0.0] * m_r
    for r in h2['spaces']:
        r['id'] += n_r
        r['ventilation']['next_spaces'] = [0.0] * n_r + r['ventilation']['next_spaces']
    for b in h2['boundaries']:
        b['id'] += n_b
        b['connected_space_id'] += n_r
        if b['k_inside']:
            b['k_inside']['id'] += n_b
    hs = dict(h1, spaces=h1['spaces'] + h2['spaces'], boundaries=h1['boundaries'] + h2['boundaries'])
    return hs, {k: [a + b for a, b in zip(s1[k], s2[k])] for k in s1}


def job_twins(p, path):
    rng = random.Random(p['seed'])
    hs = housegen.house(rng, **p['house'])
    days = p.get('days', 1)
    w, s = housegen.series(rng, hs, days, p['kind'])
    ident_r = [i + 1 for i in range(len(hs['spaces']))]
    ident_b = [j + 1 for j in range(len(hs['boundaries']))]
    runs, pairs = [], []

    def pair(prop, name, a, b, steps, rooms=ident_r, bds=ident_b, off_a=0, off_b=0, exact=False, outdoor=True, len_a=None,
             len_b=None):
        pairs.append(dict(prop=prop, name=name, a=a, b=b, steps=steps, rooms=rooms, bds=bds, offA=off_a, offB=off_b,
                          exact=exact, outdoor=outdoor, lenA=len_a if len_a is not None else 96 * days,
                          lenB=len_b if len_b is not None else 96 * days))

    def add(*a, **k):
        runs.append(run_rows(*a, **k))
        return len(runs)

    what = p['what']
    if what == 'labels':
        a = add(hs, w, s)
        pair('C12', 'the same run twice', a, add(hs, w, s), 96 * days, exact=True)
        for _ in range(2):
            h2, s2, rm, bm = permute(rng, hs, s)
            pair('C12', 'rooms and boundaries renumbered', a, add(h2, w, s2), 96 * days, rooms=rm, bds=bm)
    elif what == 'causality':
        a = add(hs, w, s)
        for cut in (1, rng.randrange(2, 96 * days - 1)):
            h2 = hs
            w2, s2 = housegen.series(rng, hs, days, rng.choice(['cold', 'hot', 'swing']))
            w2 = {k: w[k][:cut] + w2[k][cut:] for k in w}
            s2 = {k: s[k][:cut] + s2[k][cut:] for k in s}
            pair('C12', 'later inputs differ', a, add(h2, w2, s2), cut)
    elif what == 'neighbours':
        h2 = housegen.house(rng, **p['house2'])
        hs['building'] = dict(hs['building'], c_value=0.0)
        h2['building'] = dict(hs['building'])
        w2, s2 = housegen.series(rng, h2, days, p['kind'])
        # one weather for both: the second house keeps its own series of everything else
        hm, sm = merge(hs, s, h2, s2)
        a, b = add(hs, w, s), add(h2, w, s2)
        m = add(hm, w, sm)
        pair('C12', 'house beside another (first)', a, m, 96 * days)
        pair('C12', 'house beside another (second)', b, m, 96 * days,
             rooms=[len(hs['spaces']) + i + 1 for i in range(len(h2['spaces']))],
             bds=[len(hs['boundaries']) + j + 1 for j in range(len(h2['boundaries']))])
    elif what == 'phases':
        g, k, main = p['g'], p['k'], p['main']
        b = add(hs, w, s, g_days=g + k, b_days=k, main=main)
        w2, s2 = housegen.roll(w, s, 96 * k)
        a = add(hs, w2, s2, g_days=g, b_days=0, main=main + k)
        pair('C10', 'run-up steps are steps like any other', a, b, 96 * main, off_a=96 * k, len_a=96 * (main + k),
             len_b=96 * main)
        if main > 1:
            c = add(hs, w, s, g_days=g + k, b_days=k, main=1)
            pair('C10', 'a shorter run is a prefix', c, b, 96, exact=True, len_a=96, len_b=96 * main)
    elif what == 'default':
        # nothing but the directory given: a year of run-up, the second half of it with the whole house, and a year
        d = tempfile.mkdtemp(prefix='hlc_core_')
        try:
            housegen.write(d, hs, w, s)
            _, dd = calc(d)
            runs.append(rows(hs, building(hs, w, dd), dd))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        w2, s2 = housegen.roll(w, s, 96 * 183)
        a = add(hs, w2, s2, g_days=182, b_days=0, main=365)
        pair('C10', 'the default run', a, 1, 96 * 182, off_a=96 * 183)
    elif what == 'memory':
        # the house, the house renumbered and houses almost the same, one after another in a process of their own, and the other
        # way round in another
        others = [housegen.almost(rng, hs) for _ in range(3)]
        h2, s2, rm, bm = permute(rng, hs, s)
        todo = [(hs, w, s), (h2, w, s2)] + [(o, w, s) for o in others]
        k = len(todo)
        runs += apart(todo) + apart(todo[::-1])
        for i in range(k):
            pair('C12', 'after other houses', i + 1, 2 * k - i, 96 * days, exact=True)
        pair('C12', 'rooms and boundaries renumbered', 1, k + k - 1, 96 * days, rooms=rm, bds=bm)
    elif what == 'histories':
        with open(p['behaviours']) as f:
            todo = sorted(json.load(f)['states'], key=lambda x: (x['d'], x['g'], x['k'], x['m']))[p['part']::p['parts']]
        done = {}

        def once(data, g, k, m):
            key = (tuple(data), g, k, m)
            if key not in done:
                ix = [96 * x + i for x in data for i in range(96)]
                pick = lambda q: {a: [v[i] for i in ix] for a, v in q.items()}
                done[key] = add(hs, pick(w), pick(s), g_days=g, b_days=k, main=m)
            return done[key]
        dry = not any(b['is_ground'] == 'true' for b in hs['boundaries'])
        for x in todo:
            d, g, k, m = x['d'], x['g'], x['k'], x['m']
            b = once(range(d), g, k, m)
            if k and (dry or x['even']):
                a = once(x['laid'], g - k, 0, k + m)
                pair('C10', 'run-up days are days like any other', a, b, 96 * m, off_a=96 * k, len_a=96 * (k + m), len_b=96 * m)
            if m < d:
                pair('C10', 'a shorter run is a prefix', b, once(range(d), g, k, d), 96 * m, exact=True, len_a=96 * m, len_b=96 * d)
            if dry and g > k:
                pair('C10', 'the ground run-up concerns the ground only', b, once(range(d), k, k, m), 96 * m, exact=True,
                     len_a=96 * m, len_b=96 * m)
    with open(path, 'w') as f:
        json.dump({'runs': runs, 'pairs': pairs}, f)
    return {'rooms': len(hs['spaces']), 'boundaries': len(hs['boundaries']), 'runs': len(runs)}


# --- the reports -----------------------------------------------------------------------------------------------------

def _cell(name, x):
    """A cell as the specification sees it: a real, or text."""
    if name.endswith('_remarks'):
        return json.dumps(x if isinstance(x, dict) else json.loads(x))
    return _name(x) if name.endswith('_ac_operate') else float(x)


def _table(df):
    t0 = df.index[0]
    return dict(names=[str(c) for c in df.columns],
                first=str(t0), minutes=[int((t - t0).total_seconds()) // 60 for t in df.index],
                cols={str(c): [_cell(str(c), x) for x in df[c].tolist()] for c in df.columns})


def _file(path):
    import csv
    import datetime
    with open(path, encoding='cp932', newline='') as f:
        rows = list(csv.reader(f))
    head, rows = rows[0][1:], rows[1:]
    at = [datetime.datetime.strptime(r[0], '%Y-%m-%d %H:%M:%S') for r in rows]

    def cell(name, x):
        if name.endswith('_remarks'):
            return json.dumps(json.loads(x))
        if name.endswith('_ac_operate'):
            return MODES.get(int(x), x) if x.isdigit() else x.split('.')[-1]
        return float(x)
    return dict(names=head, first=str(at[0]), minutes=[int((t - at[0]).total_seconds()) // 60 for t in at],
                cols={c: [cell(c, r[k + 1]) for r in rows] for k, c in enumerate(head)})


def job_report(p, path):
    """A run that writes its files: the tables returned and the files as read back."""
    rng = random.Random(p['seed'])
    hs = housegen.house(rng, **p['house'])
    days, main = p.get('days', 2), p.get('main', 2)
    w, s = housegen.series(rng, hs, days, p['kind'])
    d = tempfile.mkdtemp(prefix='hlc_report_')
    out = tempfile.mkdtemp(prefix='hlc_report_')
    simple, detail = p.get('simple', True), p.get('detail', True)
    try:
        housegen.write(d, hs, w, s)
        ds, dd = calc(d, n_step_hourly=4, n_d_main=main, n_d_run_up=p.get('g', 0), n_d_run_up_build=p.get('build', 0),
                      output_data_dir=out, show_simple_result=simple, show_detail_result=detail)
        tables = {'detail': _table(dd), 'digest': _table(ds)}
        names = sorted(os.listdir(out))
        files = {}
        for k, f in (('detail', 'result_detail.csv'), ('digest', 'result_digest.csv')):
            if f in names:
                files[k] = _file(os.path.join(out, f))
        per_room = [sum(b['connected_space_id'] == i for b in hs['boundaries']) for i in range(len(hs['spaces']))]
        with open(path, 'w') as f:
            json.dump(dict(days=main, bds=per_room, tables=tables, files=files, written=names,
                           asked=dict(digest=simple, detail=detail)), f)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
    return {'rooms': len(hs['spaces']), 'boundaries': len(hs['boundaries'])}


if __name__ == '__main__':
    with open(os.path.join(sys.argv[1], 'in.json')) as f:
        _res = [run_rows(*x) for x in json.load(f)]
    with open(os.path.join(sys.argv[1], 'tmp.json'), 'w') as f:
        json.dump(_res, f)
    os.rename(os.path.join(sys.argv[1], 'tmp.json'), os.path.join(sys.argv[1], 'out.json'))
