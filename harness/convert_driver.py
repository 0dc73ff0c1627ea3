"""Records what the conversions of envelopes make: parts, houses from indices, division over rooms, model houses."""
import copy
import json
import random

POINTS = ['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw']
SUNNY = POINTS + ['top', 'bottom']
INNER = SUNNY + ['upward', 'downward', 'horizontal']
NEXT = ['open_space', 'closed_space', 'air_conditioned', 'open_underfloor', 'closed_underfloor']
KINDS = ['roof', 'ceiling', 'wall', 'floor', 'boundary_wall', 'upward_boundary_floor', 'downward_boundary_floor']
GLASS = ['single', 'double', 'triple_and_more', 'unknown']
FRAME = ['wood', 'resin', 'metal', 'wood_and_metal', 'resin_and_metal', 'unknown']
ROOMS = ['main_occupant_room', 'other_occupant_room', 'non_occupant_room']
SPACES = ROOMS + ['underfloor']


def size(rng, a, b, digits=3):
    """Usually between a and b, now and then well outside."""
    x = rng.uniform(a, b) if rng.random() < 0.8 else rng.choice([a / rng.uniform(1.0, 4.0), b * rng.uniform(1.0, 4.0)])
    return round(x, digits) or a


def layer(rng, k):
    d = {'name': 'layer%d' % k, 'thickness': size(rng, 0.005, 0.2, 4),
         'volumetric_specific_heat': round(rng.uniform(1.0, 2000.0), 2)}
    if rng.random() < 0.5:
        d.update(heat_resistance_input_method='conductivity', thermal_conductivity=size(rng, 0.03, 1.6, 4))
    else:
        d.update(heat_resistance_input_method='resistance', thermal_resistance=size(rng, 0.05, 3.0, 4))
    return d


def spec(rng, structure):
    if structure == 'other':
        return {'structure': 'other', 'u_value_other': size(rng, 0.15, 3.0, 4), 'weight': rng.choice(['light', 'heavy'])}
    n = rng.choice([1, 1, 2, 2, 3, 3, 5])
    cuts = sorted(round(rng.uniform(0.002, 0.998), 3) for _ in range(n - 1))
    ratios = [b - a for a, b in zip([0.0] + cuts, cuts + [1.0])]
    d = {'structure': structure, 'r_srf_in': round(rng.uniform(0.09, 0.16), 3), 'r_srf_ex': round(rng.uniform(0.03, 0.16), 3),
         'parts': [{'name': 'section%d' % i, 'part_area_ratio': r, 'layers': [layer(rng, k) for k in range(rng.choice([1, 2, 3, 4, 4, 7]))]}
                   for i, r in enumerate(ratios)]}
    if structure == 'steel':
        d['u_r_value_steel'] = size(rng, 0.05, 0.4)
    return d


def detailed(rng):
    d = {'is_defined': True, 'input': 'complex'}
    for x in ('x1', 'x2', 'x3', 'y1', 'y2', 'y3', 'z_x_pls', 'z_x_mns', 'z_y_pls', 'z_y_mns'):
        d[x] = round(rng.uniform(0.1, 2.0), 3)
    return d


def shade_opaque(rng, exposed):
    if not exposed:
        return {'is_defined': False}
    return {'is_defined': True, 'input': 'not_input'} if rng.random() < 0.8 else detailed(rng)


def shade_window(rng, exposed, how=None):
    if not exposed:
        return {'is_defined': False}
    how = how or rng.choice(['not_input', 'simple', 'simple', 'simple', 'not_exist', 'complex'])
    if how == 'simple':
        return {'is_defined': True, 'input': 'simple', 'depth': size(rng, 0.1, 3.0),
                'd_h': size(rng, 0.3, 2.5), 'd_e': rng.choice([0.0, size(rng, 0.01, 0.8), size(rng, 0.01, 0.8)])}
    return detailed(rng) if how == 'complex' else {'is_defined': True, 'input': how}


def place(rng, exposed=None):
    exposed = rng.random() < 0.65 if exposed is None else exposed
    return ('outdoor', rng.choice(SUNNY)) if exposed else (rng.choice(NEXT), rng.choice(INNER))


def opening_dir(rng, exposed):
    return rng.choice(POINTS + ['top']) if exposed else rng.choice(INNER)


def draw_parts(rng, spaces, computable=False, flat=None):
    """flat: keep directions so that floors and walls of a room stay within reason (for the division over rooms)."""
    def space():
        return rng.choice(spaces)
    gps, ws, ds, hbs, eps, ecs = [], [], [], [], [], []
    for i in range(rng.randint(3, 7)):
        nx, di = place(rng)
        gps.append({'name': 'part%d' % i, 'general_part_type': rng.choice(KINDS), 'next_space': nx, 'direction': di,
                    'area': size(rng, 1.0, 60.0), 'space_type': space(),
                    'spec': spec(rng, rng.choice(['wood', 'rc', 'steel', 'other'])),
                    'sunshade': {'is_defined': True, 'input': 'not_input'} if computable and nx == 'outdoor'
                    else shade_opaque(rng, nx == 'outdoor')})
    for i in range(rng.randint(2, 5)):
        nx, _ = place(rng)
        ws.append({'name': 'window%d' % i, 'next_space': nx, 'direction': opening_dir(rng, nx == 'outdoor'),
                   'area': size(rng, 0.3, 9.0), 'space_type': space(),
                   'sunshade': shade_window(rng, nx == 'outdoor', rng.choice(['not_input', 'simple']) if computable else None),
                   'spec': {'u_value': size(rng, 1.0, 6.51), 'eta_d_h_value': round(rng.uniform(0.1, 0.88), 3),
                            'eta_d_c_value': round(rng.uniform(0.1, 0.88), 3), 'glass_type': rng.choice(GLASS),
                            'flame_type': rng.choice(FRAME)}})
    for i in range(rng.randint(0, 3)):
        nx, _ = place(rng)
        ds.append({'name': 'door%d' % i, 'next_space': nx, 'direction': opening_dir(rng, nx == 'outdoor'),
                   'area': size(rng, 1.0, 3.0), 'space_type': space(),
                   'sunshade': {'is_defined': True, 'input': 'not_input'} if computable and nx == 'outdoor'
                   else shade_opaque(rng, nx == 'outdoor'),
                   'spec': {'u_value': size(rng, 1.0, 6.51)}})
    for i in range(rng.randint(0, 3)):
        n = rng.randint(1, 4)
        pl = [place(rng) for _ in range(n)]
        hbs.append({'name': 'bridge%d' % i, 'next_spaces': [x for x, _ in pl], 'directions': [y for _, y in pl],
                    'length': size(rng, 0.5, 20.0), 'space_type': space(),
                    'spec': {'psi_value': size(rng, 0.05, 1.8)}})
    for i in range(rng.randint(0, 3)):
        eps.append({'name': 'edge%d' % i, 'next_space': rng.choice(['outdoor'] + NEXT), 'length': size(rng, 0.5, 20.0),
                    'space_type': space(), 'spec': {'psi_value': size(rng, 0.1, 1.8)}})
    for i in range(rng.randint(0, 2)):
        ecs.append({'name': 'earth%d' % i, 'area': size(rng, 0.5, 40.0), 'space_type': space(),
                    'spec': {'layers': [layer(rng, 0)] if rng.random() < 0.5 else []}})
    for l in (gps, ws, ds, hbs, eps, ecs):
        if l and rng.random() < 0.3:      # parts alike, and parts of one name
            l.append(copy.deepcopy(rng.choice(l)))
            if rng.random() < 0.5:
                l[-1]['space_type'] = space()
        if len(l) > 1 and rng.random() < 0.3:
            for x in l:
                x['name'] = l[0]['name']
        rng.shuffle(l)
    return {'general_parts': gps, 'windows': ws, 'doors': ds, 'heat_bridges': hbs, 'earthfloor_perimeters': eps,
            'earthfloor_centers': ecs}


def parts_case(rng, p):
    from heat_load_calc.convert import ees_house as eh
    from heat_load_calc.convert import check_ua_a_eta_a as cue
    region = p.get('region') or rng.randint(1, 8)
    E = draw_parts(rng, SPACES, computable=rng.random() < 0.6)
    given = copy.deepcopy(E)
    uadd = rng.choice([0.0, round(rng.uniform(0.0, 0.1), 4)])
    make = {'general_parts': eh.GeneralPart.make_general_parts, 'windows': eh.Window.make_windows, 'doors': eh.Door.make_doors,
            'heat_bridges': eh.Heatbridge.make_heatbridges, 'earthfloor_perimeters': eh.EarthfloorPerimeter.make_earthfloor_perimeters,
            'earthfloor_centers': eh.EarthfloorCenter.make_earthfloor_centers}
    obj = {k: f(E[k]) for k, f in make.items()}
    back = {k: [x.get_as_dict() for x in v] for k, v in obj.items()}

    def able(d):
        return d['next_space'] != 'outdoor' or d['sunshade']['input'] in ('not_input', 'simple')

    def gains(x, d):
        if d is not None and not able(d):
            return dict(mh=None, mc=None)
        return dict(mh=None if region == 8 else x.get_m(region=region, season='heating'),
                    mc=x.get_m(region=region, season='cooling'))

    def norm(d):
        d = dict(d)
        d['connected'] = d.pop('connected_room_id', d.pop('connected_id', None))
        return d
    o = {'gps': [dict(u=x.get_u(), eta=x.get_eta(), q=x.get_q(region=region), **gains(x, d),
                      init=[norm(y) for y in x.make_initializer_dict(u_add=uadd, region=region)])
                 for x, d in zip(obj['general_parts'], E['general_parts'])],
         'ws': [dict(u=x.get_u(), q=x.get_q(region=region), **gains(x, d), init=norm(x.make_initializer_dict(region=region)))
                for x, d in zip(obj['windows'], E['windows'])],
         'ds': [dict(u=x.get_u(), q=x.get_q(region=region), **gains(x, d), init=norm(x.make_initializer_dict(region=region)))
                for x, d in zip(obj['doors'], E['doors'])],
         'hbs': [dict(q=x.get_q(region=region), **gains(x, None)) for x in obj['heat_bridges']],
         'eps': [dict(q=x.get_q(region=region)) for x in obj['earthfloor_perimeters']]}
    ev = []
    if all(able(d) for k in ('general_parts', 'windows', 'doors') for d in E[k]):
        ua, h, c = cue.check_u_a_and_eta_a(region, E)
        ev = [dict(ua=ua, eh=h, ec=c)]
    return dict(kind='parts', region=region, uadd=uadd, E=given, back=back, o=o, ev=ev)


def flat_parts(gps, ws, ds, eps, ecs):
    v = lambda x: getattr(x, 'value', x)
    out = [dict(sort='gp', kind=v(x.general_part_type), next=v(x.next_space), dir=v(x.direction), size=x.area) for x in gps]
    for s, l in (('win', ws), ('door', ds)):
        out += [dict(sort=s, kind='-', next=v(x.next_space), dir=v(x.direction), size=x.area) for x in l]
    out += [dict(sort='edge', kind='-', next=v(x.next_space), dir='-', size=x.length) for x in eps]
    out += [dict(sort='earth', kind='-', next='-', dir='-', size=x.area) for x in ecs]
    return out


FORMS = [('detached', 'floor', 'floor'), ('detached', 'floor', 'base'), ('detached', 'floor', 'not_exist'),
         ('detached', 'base', None), ('detached', 'base', 'base'), ('attached', None, None)]


def usual(ht, A, r, scale):
    """Sizes for which windows and plan surely fit: no area may be negative."""
    if ht == 'detached':
        return A >= 80.0 and r <= 0.15 and scale <= 1.03
    return A <= 85.0 and r <= 0.1 and scale <= 1.01


def box_case(rng, p):
    from heat_load_calc.convert import model_house as mh
    ht, fi, bi = p['form'] if 'form' in p else rng.choice(FORMS)
    fine = rng.random() < 0.8
    A = round(rng.uniform(60.0, 300.0) if fine else rng.uniform(20.0, 800.0), 3)
    r = round(rng.uniform(0.05, 0.15) if fine else rng.uniform(0.02, 0.6), 4)
    if A < 90:
        r = min(r, 0.12)
    env, scale = None, 1.0
    if rng.random() < 0.65:
        scale = rng.uniform(1.0, 1.1) if fine else rng.uniform(0.7, 2.5)
        env = mh.calc_area(house_type=ht, a_f_total=A, r_open=r, floor_ins_type=fi, bath_ins_type=bi)['a_evp_total'] * scale
    out = mh.calc_area(house_type=ht, a_f_total=A, r_open=r, floor_ins_type=fi, bath_ins_type=bi, a_env_input=env)
    parts = flat_parts(*mh.get_model_house_no_spec(**out))
    return dict(kind='box', inp=dict(house_type=ht, a_f_total=A, r_open=r, floor_ins_type=fi, bath_ins_type=bi, a_env_input=env),
                out=out, parts=parts,
                admissible=fine and usual(ht, A, r, scale))


def index_case(rng, p):
    from heat_load_calc.convert import model_house as mh
    from heat_load_calc.convert import convert_indices_to_lv2_info as conv
    from heat_load_calc.convert import check_ua_a_eta_a as cue
    region = p.get('region') or rng.randint(1, 8)
    ht = p.get('type') or rng.choice(['detached', 'attached'])
    A = round(rng.uniform(60.0, 220.0) if rng.random() < 0.8 else rng.uniform(40.0, 600.0), 2)
    fi, bi = ('floor', 'base') if ht == 'detached' else (None, None)
    env = mh.calc_area(house_type=ht, a_f_total=A, r_open=0.1, floor_ins_type=fi, bath_ins_type=bi)['a_evp_total']
    scale = rng.uniform(1.0, 1.1)
    env = round(env * scale, 3)
    ua = round(rng.choice([rng.uniform(0.2, 1.0), rng.uniform(1.0, 4.0), rng.uniform(4.0, 9.0)]), 3)
    if ht == 'attached' and rng.random() < 0.5:
        ua = round(rng.uniform(0.15, 0.9), 3)
    eh = None if region == 8 else round(rng.uniform(0.3, 5.5), 3)
    ec = round(rng.uniform(0.3, 5.5), 3)
    d = {'common': {'region': region, 'house_type': ht, 'main_occupant_room_floor_area': 30.0, 'other_occupant_room_floor_area': 20.0,
                    'total_floor_area': A},
         'envelope': {'input_method': 'index', 'total_area': env, 'indices': {'u_a': ua, 'eta_a_h': eh, 'eta_a_c': ec}}}
    E = conv.convert_spec(copy.deepcopy(d))
    got = cue.check_u_a_and_eta_a(region, E)
    out = mh.calc_area(house_type=ht, a_f_total=A, r_open=0.1, floor_ins_type=fi, bath_ins_type=bi, a_env_input=env)
    parts = [dict(sort='gp', kind=x['general_part_type'], next=x['next_space'], dir=x['direction'], size=x['area'])
             for x in E['general_parts']]
    for s, k in (('win', 'windows'), ('door', 'doors')):
        parts += [dict(sort=s, kind='-', next=x['next_space'], dir=x['direction'], size=x['area']) for x in E[k]]
    parts += [dict(sort='edge', kind='-', next=x['next_space'], dir='-', size=x['length']) for x in E['earthfloor_perimeters']]
    parts += [dict(sort='earth', kind='-', next='-', dir='-', size=x['area']) for x in E['earthfloor_centers']]
    return dict(kind='index', region=region, u_a=ua, eta_a_h=eh, eta_a_c=ec, E=E, ev=dict(ua=got[0], eh=got[1], ec=got[2]),
                inp=dict(house_type=ht, a_f_total=A, r_open=0.1, floor_ins_type=fi, bath_ins_type=bi, a_env_input=env),
                out=out, parts=parts, admissible=usual(ht, A, 0.1, scale))


def calib_case(rng, p):
    """Coefficients for any collection of parts, not only those of the model house."""
    from heat_load_calc.convert import ees_house as eh
    from heat_load_calc.convert import check_ua_a_eta_a as cue
    from heat_load_calc.convert import get_u_psi_eta_from_u_a_and_eta_a as g
    region = p.get('region') or rng.randint(1, 8)
    E = draw_parts(rng, ['undefined'], computable=True)
    E['heat_bridges'] = []
    for x in E['general_parts']:
        x['spec'] = {'structure': 'other', 'u_value_other': 1.0, 'weight': 'light'}
    w = E['windows'][0]
    if w['next_space'] != 'outdoor':
        w.update(next_space='outdoor', direction=rng.choice(POINTS), sunshade={'is_defined': True, 'input': 'not_input'})
    ua = round(rng.choice([rng.uniform(0.1, 1.0), rng.uniform(1.0, 4.0), rng.uniform(4.0, 9.0)]), 3)
    eh_t = None if region == 8 else round(rng.uniform(0.3, 5.5), 3)
    ec_t = round(rng.uniform(0.3, 5.5), 3)
    u, eta, etah, etac = g.calc_parts_spec(
        region=region, u_a_target=ua, eta_a_h_target=eh_t, eta_a_c_target=ec_t,
        gps=eh.GeneralPart.make_general_parts(E['general_parts']), ds=eh.Door.make_doors(E['doors']),
        ws=eh.Window.make_windows(E['windows']), eps=eh.EarthfloorPerimeter.make_earthfloor_perimeters(E['earthfloor_perimeters']),
        ecs=eh.EarthfloorCenter.make_earthfloor_centers(E['earthfloor_centers']))
    name = {'upward_boundary_floor': 'boundary_ceiling', 'downward_boundary_floor': 'boundary_floor'}
    for x in E['general_parts']:
        x['spec']['u_value_other'] = getattr(u, name.get(x['general_part_type'], x['general_part_type']))
    for x in E['windows']:
        x['spec'].update(u_value=u.window, eta_d_h_value=etah, eta_d_c_value=etac)
    for x in E['doors']:
        x['spec']['u_value'] = u.door
    for x in E['earthfloor_perimeters']:
        x['spec']['psi_value'] = u.earthfloor_perimeter
    got = cue.check_u_a_and_eta_a(region, E)
    return dict(kind='calib', region=region, u_a=ua, eta_a_h=eh_t, eta_a_c=ec_t, E=E, upsi=[[k, getattr(u, k)] for k in u._fields],
                ev=dict(ua=got[0], eh=got[1], ec=got[2]))


def rooms_case(rng, p):
    from heat_load_calc.convert import convert_lv2_to_lv3 as l3
    from heat_load_calc.convert import convert_lv3_to_lv4 as l4
    total = round(rng.choice([rng.uniform(40.0, 250.0), rng.uniform(40.0, 250.0), rng.uniform(12.0, 700.0)]), 2)
    mix = p['mix'] if 'mix' in p else rng.choice(['all', 'all', 'all', 'no other', 'no non', 'main only', 'no main'])
    main, other = round(total * rng.uniform(0.02, 0.6), 2), round(total * rng.uniform(0.02, 0.38), 2)
    if mix == 'no other':
        other = 0.0
    elif mix == 'no non':
        other = total - main
    elif mix == 'main only':
        main, other = total, 0.0
    elif mix == 'no main':
        main = 0.0
    common = dict(main_occupant_room_floor_area=main, other_occupant_room_floor_area=other, total_floor_area=total)
    whole = rng.random() < 0.5
    if whole:
        lv2 = draw_parts(rng, ['undefined'])
    else:
        lv2 = 'none'
        lv3 = draw_parts(rng, SPACES)
    for x in (lv2 if whole else lv3)['general_parts']:      # floors no larger than the house, some crawl space
        x['area'] = round(x['area'] * total / 150.0, 3)
        if x['direction'] in ('bottom', 'downward') and rng.random() < 0.7:
            x['area'] = round(x['area'] * 0.1, 3)
    given = copy.deepcopy(lv2 if whole else lv3)
    if whole:
        lv3 = l3.convert_spec(common, copy.deepcopy(lv2))
        lv3.pop('input_method', None)
    keep = copy.deepcopy(lv3)
    refused, error, lv4 = False, '-', 'none'
    try:
        lv4 = l4.convert_spec(common, lv3)
    except Exception as e:
        if main > 0:
            raise
        refused, error = True, '%s: %s' % (type(e).__name__, e)
    return dict(kind='rooms', common=common, refused=refused, error=error, lv2=[given] if whole else [], lv3=keep, lv4=lv4)


def chain_case(rng, p):
    """A house from its indices down to its rooms, evaluated at every level, and the air of those rooms."""
    from heat_load_calc.convert import convert_indices_to_lv2_info as conv
    from heat_load_calc.convert import convert_lv2_to_lv3 as l3
    from heat_load_calc.convert import convert_lv3_to_lv4 as l4
    from heat_load_calc.convert import convert_lv4_to_h_hlc as hl
    from heat_load_calc.convert import check_ua_a_eta_a as cue
    from heat_load_calc.convert import a_06_common_items as surf
    from heat_load_calc.convert import model_house as mh
    region = p.get('region') or rng.randint(1, 8)
    total = round(rng.uniform(80.0, 200.0), 2)
    main = round(total * rng.uniform(0.15, 0.6), 2)
    other = round(total * rng.uniform(0.1, 0.38), 2) if rng.random() < 0.7 else rng.choice([0.0, total - main])
    common = dict(main_occupant_room_floor_area=main, other_occupant_room_floor_area=other, total_floor_area=total)
    if rng.random() < 0.5:
        ht = p.get('type') or rng.choice(['detached', 'attached'])
        fi, bi = ('floor', 'base') if ht == 'detached' else (None, None)
        env = mh.calc_area(house_type=ht, a_f_total=total, r_open=0.1, floor_ins_type=fi, bath_ins_type=bi)['a_evp_total']
        common.update(region=region, house_type=ht)
        lv2 = conv.convert_spec({'common': dict(common), 'envelope': {
            'input_method': 'index', 'total_area': round(env * rng.uniform(1.0, 1.05), 3),
            'indices': {'u_a': round(rng.uniform(0.3, 3.0), 3), 'eta_a_h': None if region == 8 else round(rng.uniform(0.5, 4.0), 3),
                        'eta_a_c': round(rng.uniform(0.5, 4.0), 3)}}})
    else:
        lv2 = draw_parts(rng, ['undefined'], computable=True)
    lv2.pop('input_method', None)
    lv3 = l3.convert_spec(common, copy.deepcopy(lv2))
    lv4 = l4.convert_spec(common, copy.deepcopy(lv3))
    ev = []
    for x in (lv2, lv3, lv4):
        ua, h, c = cue.check_u_a_and_eta_a(region, x)
        ev.append(dict(ua=ua, eh=h, ec=c))
    n = round(rng.uniform(0.1, 2.0), 2)
    vent = [round(rng.uniform(0.0, 20.0), 1), round(rng.uniform(0.0, 20.0), 1)]
    uf = hl.get_a_uf(lv4['earthfloor_centers'])
    nr = total - main - other if rng.random() < 0.8 else 0.0
    no_main = rng.random() < 0.1
    refused, rooms = False, []
    try:
        rooms = [r for r in hl.make_initial_rooms(a_a=total, a_mr=0.0 if no_main else main, a_or=other if other > 0 or not no_main else 1.0,
                                                  a_nr=nr, a_uf=uf, n=n, v_nv_mr=vent[0], v_nv_or=vent[1])
                 if r is not None]
    except ValueError:
        refused = True
    table = []
    for kind in KINDS:
        for nx in ['outdoor'] + NEXT:
            try:
                ri, ro = surf.get_r_surf(general_part_type=kind, next_space=nx)
                table.append(dict(kind=kind, next=nx, given=True, ri=ri, ro=ro))
            except ValueError:
                table.append(dict(kind=kind, next=nx, given=False, ri=0.0, ro=0.0))
    return dict(kind='chain', region=region, common=common, lv2=lv2, ev=ev, rate=n, natural=vent, non=nr, no_main=no_main,
                earths=lv4['earthfloor_centers'], uf=uf, refused=refused, rooms=rooms, surfaces=table)


CASES = dict(chain=chain_case, calib=calib_case, parts=parts_case, box=box_case, index=index_case, rooms=rooms_case)


def floats(x):
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return 'null' if x is None else x
    if isinstance(x, dict):
        return {k: v if k in ('region', 'connected') else [] if v is None and k in ('eh', 'a_env_input') else floats(v)
                for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [floats(v) for v in x]
    return float(x)


def job(p, path):
    rng = random.Random(p['seed'])
    cases = []
    for k in range(p['n']):
        q = dict(p)
        if 'forms' in p:
            q['form'] = FORMS[(k + p['seed']) % len(FORMS)]
        if p.get('regions'):
            q['region'] = 1 + (k + p['seed']) % 8
            q['type'] = ['detached', 'attached'][(k // 8 + p['seed']) % 2]
        cases.append(CASES[p['kind']](rng, q))
    with open(path, 'w') as f:
        json.dump({'cases': [floats(c) for c in cases]}, f)
    return {'cases': len(cases)}
