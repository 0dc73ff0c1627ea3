#!/usr/bin/env python3
"""Development aid: samples one-place mutants of the given files and shows which the checks of a group miss.

automutate.py GROUP N SEED [file-filter]      GROUP: core | wall | weather | init | convert | part | all-at-once names in GROUPS
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'bin'))
import check
import suites
import tlc

GROUPS = {
    'core': (['core/' + f for f in ('sequence', 'next_condition', 'pre_calc_parameters', 'ot_target_pmv', 'infiltration', 'occupants',
              'conditions', 'shape_factor', 'log', 'sequence_ground', 'core', 'period', 'ot_target', 'operation_mode')]
             + ['external/psychrometrics'],
             lambda: suites.family('quick', 1) + suites.jobs('C10', 'quick', 1)[11:12] + suites.phases('quick', 1)[:2]),
    'wall': (['initializer/response_factor'], lambda: suites.jobs('C13', 'quick', 1)),
    'weather': (['weather/weather', 'weather/weather_data', 'weather/solar_position', 'weather/region_location', 'weather/calc_interval'],
                lambda: suites.jobs('C14', 'quick', 1)),
    'init': (['initializer/' + f for f in ('oblique_incidence_charac', 'occupants_form_factor', 'transmission_solar_radiation',
              'solar_shading', 'schedule_loader', 'a22_radiative_heating_spec', 'inclined_surface_solar_radiation', 'outside_eqv_temp',
              'a12_indoor_radiative_heat_transfer', 'initializer', 'boundary_simple', 'external_boundaries_direction', 'furniture',
              'residents_number')],
             lambda: suites.jobs('C17', 'quick', 1) + suites.jobs('C15', 'quick', 1) + suites.jobs('C19', 'quick', 1)),
    'convert': (['convert/' + f for f in ('general_functions', 'check_ua_a_eta_a', 'model_house', 'convert_indices_to_lv2_info', 'ees_house',
                 'convert_lv2_to_lv3', 'convert_lv3_to_lv4', 'get_u_psi_eta_from_u_a_and_eta_a', 'factor_f')]
                + ['external/factor_h', 'external/factor_nu'],
                lambda: sum((suites.jobs(p, 'quick', 1)[:4] for p in ('C21', 'C22', 'C23', 'C24')), [])),
}
SKIP = {'main', 'run', 'entrypoint_main', '__repr__', '__str__'}


def mutants(path):
    src = open(path, encoding='utf-8').read()
    tree = ast.parse(src)
    lines = src.encode().split(b'\n')
    out = []

    def seg(node):
        return node.lineno, node.col_offset, node.end_lineno, node.end_col_offset

    def add(l1, c1, l2, c2, new, what):
        if l1 == l2:
            out.append((l1, c1, c2, new, what))

    def visit(node, fn):
        if isinstance(node, ast.FunctionDef):
            if node.name in SKIP:
                return
            fn = node.name
            if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
                body = node.body[1:]
            else:
                body = node.body
            for b in body:
                visit(b, fn)
            return
        if isinstance(node, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        if isinstance(node, ast.Call) and getattr(node.func, 'attr', '') in ('info', 'debug', 'warning', 'error', 'add_argument'):
            return
        if isinstance(node, ast.BinOp):
            m = {ast.Add: b'-', ast.Sub: b'+', ast.Mult: b'/', ast.Div: b'*'}.get(type(node.op))
            if m and node.left.end_lineno == node.right.lineno and not isinstance(node.left, ast.Constant):
                ln = lines[node.left.end_lineno - 1]
                a, b = node.left.end_col_offset, node.right.col_offset
                gap = ln[a:b]
                for ch in (b'+', b'-', b'*', b'/'):
                    if gap.count(ch) == 1 and b'**' not in gap and b'//' not in gap:
                        k = a + gap.index(ch)
                        add(node.left.end_lineno, k, node.left.end_lineno, k + 1, m, fn)
                        break
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and node.left.end_lineno == node.comparators[0].lineno:
            m = {ast.Lt: b'>=', ast.LtE: b'<', ast.Gt: b'<=', ast.GtE: b'>', ast.Eq: b'!=', ast.NotEq: b'=='}.get(type(node.ops[0]))
            o = {ast.Lt: b'<', ast.LtE: b'<=', ast.Gt: b'>', ast.GtE: b'>=', ast.Eq: b'==', ast.NotEq: b'!='}.get(type(node.ops[0]))
            if m:
                ln = lines[node.left.end_lineno - 1]
                a, b = node.left.end_col_offset, node.comparators[0].col_offset
                if o in ln[a:b]:
                    k = a + ln[a:b].index(o)
                    add(node.left.end_lineno, k, node.left.end_lineno, k + len(o), m, fn)
        if isinstance(node, ast.Constant) and type(node.value) in (int, float):
            v = node.value
            n = repr(v + 1 if isinstance(v, int) else (v * 1.07 if v else 0.5)).encode()
            add(*seg(node), n, fn)
        if isinstance(node, ast.Constant) and type(node.value) is bool:
            add(*seg(node), repr(not node.value).encode(), fn)
        if isinstance(node, ast.BoolOp):
            for x, y in zip(node.values, node.values[1:]):
                if x.end_lineno == y.lineno:
                    ln = lines[x.end_lineno - 1]
                    gap = ln[x.end_col_offset:y.col_offset]
                    for p, q in ((b'and', b'or'), (b'or', b'and')):
                        if gap.count(p) == 1:
                            k = x.end_col_offset + gap.index(p)
                            add(x.end_lineno, k, x.end_lineno, k + len(p), q, fn)
                            break
        if isinstance(node, ast.Attribute) and node.attr in ('sin', 'cos', 'maximum', 'minimum', 'max', 'min', 'floor', 'ceil'):
            q = dict(sin='cos', cos='sin', maximum='minimum', minimum='maximum', max='min', min='max', floor='ceil', ceil='floor')[node.attr]
            add(node.end_lineno, node.end_col_offset - len(node.attr), node.end_lineno, node.end_col_offset, q.encode(), fn)
        if isinstance(node, ast.Name) and node.id in ('max', 'min'):
            add(*seg(node), {'max': b'min', 'min': b'max'}[node.id], fn)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) and not isinstance(node.operand, ast.Constant):
            add(node.lineno, node.col_offset, node.lineno, node.col_offset + 1, b'', fn)
        if isinstance(node, ast.Assign) and isinstance(node.value, (ast.Subscript, ast.Name, ast.Attribute)) \
                and node.value.lineno == node.value.end_lineno and isinstance(node.value, ast.Attribute) is False and isinstance(node.value, ast.Name):
            pass
        for c in ast.iter_child_nodes(node):
            visit(c, fn)
    visit(tree, '')
    res = []
    for l, a, b, new, fn in out:
        ls = list(lines)
        ls[l - 1] = ls[l - 1][:a] + new + ls[l - 1][b:]
        txt = b'\n'.join(ls)
        try:
            ast.parse(txt)
        except SyntaxError:
            continue
        res.append((l, fn, lines[l - 1].decode().strip(), ls[l - 1].decode().strip(), txt.decode()))
    return res


def run(jobs, repo):
    os.environ['HLC_REPO'] = repo
    work = tempfile.mkdtemp(prefix='hlc_am_')
    names = {(f['property'], f['name']) for f in json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']}
    try:
        found = []

        def one(job, k):
            if found:
                return
            if job.get('driver') and not job['impl']['ok']:
                found.append('crash: ' + job['impl']['error'].strip().split('\n')[-1][:100])
                return
            out = os.path.join(work, 'verdict%d.json' % k)
            env = dict(job.get('env', {}), PROP='ALL', OUT=out)
            if job.get('driver'):
                env['TRACE'] = job['trace']
            r = tlc.run(job['spec'], env, cfg=job.get('cfg'), workers=job.get('workers', 1), extra=job.get('extra', ()), heap=job.get('heap', '1600m'))
            if not job.get('driver'):
                return
            if r['kind'] == 'eval':
                found.append('eval error')
                return
            v = json.load(open(out))
            bad = v['bad'] + [dict(p=d[0], c='deviation ' + d[1]) for d in v.get('dev', []) if tuple(d) not in names]
            if bad:
                found.append(', '.join(sorted({b['p'] + ' ' + b['c'] for b in bad}))[:150])
        check.run_all(jobs, work, 'quick', one)
        return found
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    group, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    flt = sys.argv[4] if len(sys.argv) > 4 else ''
    files, mk = GROUPS[group]
    base = tempfile.mkdtemp(prefix='hlc_mut_')
    repo = os.path.join(base, 'repo')
    subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
    tlc.classes()
    rng = random.Random(seed)
    allm = []
    for f in files:
        if flt in f:
            p = os.path.join(repo, 'heat_load_calc', f + '.py')
            allm += [(f, p) + m for m in mutants(p)]
    rng.shuffle(allm)
    # at most one per source line
    pick, used = [], set()
    for m in allm:
        if (m[0], m[2]) not in used:
            used.add((m[0], m[2]))
            pick.append(m)
    pick = pick[:n]
    print(len(allm), 'mutants in all,', len(pick), 'tried', flush=True)
    caught = 0
    try:
        for f, p, l, fn, old, new, txt in pick:
            src = open(p, encoding='utf-8').read()
            open(p, 'w', encoding='utf-8').write(txt)
            try:
                r = run(mk(), repo)
            except tlc.MachineryError as x:
                r = ['MACHINERY ' + str(x)[:200]]
            open(p, 'w', encoding='utf-8').write(src)
            caught += bool(r)
            print('%s %s:%d %s\n    - %s\n    + %s   => %s' % ('caught' if r else 'MISSED', f, l, fn, old, new, r[:1]), flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print('caught %d of %d' % (caught, len(pick)))


if __name__ == '__main__':
    main()
