"""Records weather tables made by make_weather, beside the hourly source they are made from."""
import csv
import json
import os
import random
import shutil
import tempfile

NAMES = {1: '01_kitami', 2: '02_iwamizawa', 3: '03_morioka', 4: '04_nagano', 5: '05_utsunomiya', 6: '06_okayama',
         7: '07_miyazaki', 8: '08_naha'}
COLS = ['temperature', 'normal direct solar radiation', 'horizontal sky solar radiation', 'outward radiation',
        'absolute humidity', 'sun altitude', 'sun azimuth']
HEAD = ['外気温度', '法線面直達日射', '水平面天空日射', '夜間放射量', '絶対湿度']


def source(region):
    import heat_load_calc
    path = os.path.join(os.path.dirname(heat_load_calc.__file__), 'weather', 'expanded_amedas', NAMES[region] + '.csv')
    with open(path, encoding='utf-8-sig') as f:
        rows = list(csv.reader(f))
    cols = [rows[0].index(h) for h in HEAD]
    out = []
    for i, r in enumerate(rows[2:]):
        assert int(r[1]) == i % 24 + 1
        out.append([float(r[c]) for c in cols])
    assert len(out) == 8760
    return out


def job(p, path):
    import pandas as pd
    from heat_load_calc.weather import weather
    rng = random.Random(p['seed'])
    region, interval = p['region'], p['interval']
    per = {'1h': 1, '30m': 2, '15m': 4}[interval]
    d = tempfile.mkdtemp(prefix='hlc_w_')
    try:
        df = weather.make_weather(region=region, output_data_dir=d, csv_output=True, interval=interval)
        back = pd.read_csv(os.path.join(d, 'weather.csv'), index_col=0)
        if interval == '15m':
            again = weather.make_weather(region)
        else:
            again = weather.make_weather(region=region, interval=interval)
    finally:
        shutil.rmtree(d)
    same_file = (list(back.columns) == list(df.columns) and len(back) == len(df)
                 and float(abs(back.values - df[COLS].values if list(df.columns) == COLS else
                               back[COLS].values - df[COLS].values).max()) < 1e-9
                 and [str(x) for x in back.index[:3]] == [str(x) for x in df.index[:3]])
    stamps = df.index.equals(pd.date_range(start='1989-01-01 00:00', periods=len(df), freq='%dmin' % (60 // per)))
    same_again = bool((again[COLS].values == df[COLS].values).all())
    vals = df[COLS].values
    days = p.get('days') or 365
    chosen = list(range(365)) if days >= 365 else sorted({0, 1, 363, 364} | set(rng.sample(range(365), days)))
    out, steps = [], 0
    for day in chosen:
        rows = []
        for n in range(day * 24 * per, (day + 1) * 24 * per):
            if n < len(vals):
                v = [float(x) for x in vals[n]]
                rows.append(dict(n=n, t=v[0], dn=v[1], sky=v[2], rn=v[3], x=v[4], h=v[5], a=v[6]))
        steps += len(rows)
        out.append(dict(day=day + 1, rows=rows))
    with open(path, 'w') as f:
        json.dump(dict(region=region, per=per, src=source(region), days=out, length=len(df), stamps=bool(stamps),
                       same_file=bool(same_file), same_again=same_again, steps=steps), f)
    return {'rows': steps}
