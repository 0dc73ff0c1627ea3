"""Which traces and models decide which property."""


def core(seed, house=None, kind='mild', days=1, g=0, **k):
    return dict(spec='HeatLoadTrace', driver='core_driver:job_run',
                params=dict(seed=seed, house=house or {}, kind=kind, days=days, g=g, **k))


def story(seed, house=None, days=1, g=0, **k):
    """From the description of a building, through the initializer, to the calculation."""
    return dict(spec='HeatLoadTrace', driver='story_driver:job', params=dict(seed=seed, house=house or {}, days=days, g=g, **k))


FAMILY = 35


def family(tier, seed, prop=''):
    """Houses and weathers that together reach every situation the laws speak about."""
    base = [
        core(seed * 1000 + 1, dict(n_rooms=1), 'mild'),
        core(seed * 1000 + 2, dict(n_rooms=2), 'cold'),
        core(seed * 1000 + 3, dict(n_rooms=2, rac=1.0, rad_c=0.0), 'hot'),
        core(seed * 1000 + 4, dict(n_rooms=3), 'swing'),
        core(seed * 1000 + 5, dict(n_rooms=3, interzone=True), 'mild'),
        core(seed * 1000 + 6, dict(n_rooms=2, beta=True, rad_h=1.0), 'cold'),
        core(seed * 1000 + 7, dict(n_rooms=2, rad_c=1.0, beta=True), 'hot'),
        core(seed * 1000 + 8, dict(n_rooms=2, shuffle=True), 'extremes'),
        core(seed * 1000 + 9, dict(n_rooms=2, light=True, big_vent=True), 'swing'),
        core(seed * 1000 + 10, dict(n_rooms=3, rac=0.3, shuffle=True), 'hot'),
        core(seed * 1000 + 11, dict(n_rooms=1, rac=1.0, rad_c=0.0), 'humid'),
        core(seed * 1000 + 12, dict(n_rooms=2, ground=True, interzone=True, shuffle=True), 'mild', g=2, days=2, main=1),
        core(seed * 1000 + 13, dict(n_rooms=2, rear_differs=True), 'mild'),
        core(seed * 1000 + 14, dict(n_rooms=4, self_floor=True), 'cold'),
        core(seed * 1000 + 15, dict(n_rooms=2, light=True, big_vent=True, rad_h=0.0, rad_c=0.0), 'swing'),
        core(seed * 1000 + 16, dict(n_rooms=1, light=True, big_vent=True), 'swing'),
        core(seed * 1000 + 4115, dict(n_rooms=3, rad_h=1.0, rad_c=1.0, party=True), 'hot'),
        core(seed * 1000 + 4113, dict(n_rooms=3, rad_h=1.0, rad_c=1.0, party=True), 'cold'),
        core(seed * 1000 + 21, dict(n_rooms=2, rac=1.0, rad_c=0.0, small_coil=True), 'wild'),
        core(seed * 1000 + 22, dict(n_rooms=3, rac=0.7, shuffle=True, beta=True), 'wild'),
        core(seed * 1000 + 23, dict(n_rooms=2, light=True, big_vent=True, rac=1.0, rad_c=0.2), 'wild'),
        core(seed * 1000 + 24, dict(n_rooms=1, rac=1.0, rad_c=0.0, small_coil=True), 'humid'),
        core(seed * 1000 + 25, dict(n_rooms=4, big_vent=True, interzone=True), 'wild'),
        core(seed * 1000 + 26, dict(n_rooms=2, rad_h=1.0, rad_c=1.0, beta=True), 'wild'),
        core(seed * 1000 + 27, dict(n_rooms=4, rac=1.0, rad_c=0.0, small_coil='starved'), 'humid'),
        core(seed * 1000 + 28, dict(n_rooms=4, rac=1.0, rad_c=0.0, small_coil='starved', light=True), 'wild'),
        core(seed * 1000 + 31, dict(n_rooms=2, free=True, rac=1.0), 'richhot'),
        core(seed * 1000 + 32, dict(n_rooms=3, free=True, rad_h=1.0), 'richcold'),
        core(seed * 1000 + 33, dict(n_rooms=2, free=True, rad_c=1.0, shuffle=True), 'richhot'),
        core(seed * 1000 + 34, dict(n_rooms=1, free=True, rac=1.0, rad_c=0.0), 'rich'),
        core(seed * 1000 + 35, dict(n_rooms=5, free=True, shuffle=True), 'rich'),
        core(seed * 1000 + 36, dict(n_rooms=2, free=True, light=True, rac=1.0), 'rich'),
        core(seed * 1000 + 37, dict(n_rooms=4, alike=True, rac=1.0), 'richhot'),
        core(seed * 1000 + 38, dict(n_rooms=4, alike=True, free=True, rad_h=1.0, shuffle=True), 'richcold'),
        core(seed * 1000 + 39, dict(n_rooms=3, dull=True, shuffle=True), 'mild'),
    ]
    # longer stories: enough for the slow walls and ground to come round, and for a day to come long after the first
    long = [core(seed * 1000 + 51, dict(n_rooms=1), 'mild', days=15),
            core(seed * 1000 + 52, dict(n_rooms=1, free=True, rac=1.0), 'rich', days=8)]
    # a whole year: the way the calculation is run by default (walls, and what depends on them, need a run without a run-up)
    long.insert(0, core(seed * 1000 + 57, dict(n_rooms=1, rac=1.0), 'year', days=365, every=5, default=prop not in ('C02', 'C06', 'C10')))
    long += [core(seed * 1000 + 58, dict(n_rooms=9, shuffle=True, free=True), 'rich'),
             core(seed * 1000 + 59, dict(n_rooms=13, rad_h=0.5, rac=0.4), 'swing'),
             core(seed * 1000 + 60, dict(n_rooms=3, rac=0.5, shuffle=True), 'rich', days=3, g=2, build=1)]
    if tier == 'thorough':
        long += [core(seed * 1000 + 53, dict(n_rooms=1, rac=1.0), 'mild', days=120),
                 core(seed * 1000 + 54, dict(n_rooms=2, rad_h=1.0), 'cold', days=60),
                 core(seed * 1000 + 55, dict(n_rooms=1), 'swing', days=90)]
    long += [story(seed * 1000 + 61, dict(rooms=2), interzone=True), story(seed * 1000 + 62, dict(rooms=1), region=1 + seed % 8),
             story(seed * 1000 + 63, dict(rooms=3))]
    if tier == 'thorough':
        long += [story(seed * 1000 + 6400 + r, days=2, region=(r % 9) or None, interzone=r % 2 == 0) for r in range(30)]
    base = long + base      # first: they take longest
    for r in range(3 if tier == 'quick' else 24):
        for j in list(base[len(long):len(long) + FAMILY]):
            p = j['params']
            base.append(core(p['seed'] + 100 * (r + 1), p['house'], p['kind'], days=2 if tier == 'thorough' else max(1, p['g']),
                             g=p['g'], main=p.get('main')))
    return base


BREAKS = ['room type', 'main missing', 'room type twice', 'room name', 'room ids', 'story', 'pressure', 'heating type',
          'cooling type', 'boundary type', 'direction', 'glazing', 'shading method', 'next room type', 'missing room key',
          'missing boundary key', 'missing layers', 'missing building key', 'detail shading', 'no floor to heat']
PEOPLE = [1.0, 1.3, 2.0, 2.5, 2.999, 3.0, 3.7, 4.0]
NOBODY = [0.0, 0.99, -1.0, 4.0001, 5.0, 40.0]


def inputs(prop, tier, seed):
    """Building descriptions for the initializer."""
    def d(k, **p):
        return dict(spec='InputTrace', driver='input_driver:job', params=dict(seed=seed * 1000 + 900 + k, **p))
    out = []
    for r in range(1 if tier == 'quick' else 10):
        z = 60 * r
        for k in range(8):
            rows = 0 if prop in ('C17', 'C18', 'C19') else 40000 if k == 1 else 2500
            days = 0 if prop != 'C17' else 365 if k == 1 else 60
            out.append(d(z + k, houses=2 if k == 1 else 4, rows=rows, days=days, whole=k == 7, endless=k in (0, 4),
                         house=[{}, dict(rooms=1), dict(rooms=3), dict(names=True), dict(rooms=2), dict(rooms=3),
                                dict(total=[12.0, 29.99, 30.0, 119.9, 120.0, 260.0][(k + r) % 6]), {}][k]))
        if prop in ('C17', 'C18'):
            for k, t in enumerate([10.0, 29.9, 30.0, 60.0, 119.0, 120.0, 300.0, 30.02, 30.6, 31.5, 59.98, 90.01, 119.97, 120.02, 121.0][:7 if prop == 'C18' else 15]):
                out.append(d(z + 10 + k, houses=1, rows=0, days=3, house=dict(total=t)))
        if prop == 'C17':
            for k in range(4):
                out.append(d(z + 30 + k, houses=0, floors=2000))
                out.append(d(z + 20 + k, people=PEOPLE + [1.0 + 3 * ((7 * (k + 4 * r) + 3) % 97) / 97.0], days=60))
        if prop == 'C19':
            for k in range(16):
                out.append(d(z + 30 + k, houses=0, breaks=BREAKS[k % 8::8] + BREAKS[(k + 3) % 8::8]))
            if r == 0:
                parts = 8 if tier == 'quick' else 64
                for k in range(parts):
                    j = d(40 + k if tier == 'quick' else 2000 + k, part=k, parts=parts)
                    j['generate'] = dict(spec='Faults', cfg='Faults' if tier == 'quick' else 'FaultsDeep')
                    out.append(j)
            out.append(d(z + 50, people=PEOPLE[:1] + PEOPLE[-1:] + NOBODY, days=0))
            for k in range(4):
                out.append(d(z + 51 + k, calcs=['valid', 'periods', 'method', 'story', 'pressure', 'wall', 'valid', 'periods']))
    return out


CORE = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C11', 'C20'}


def twins(what, seed, house=None, kind='mild', **k):
    return dict(spec='Twin', driver='core_driver:job_twins', params=dict(what=what, seed=seed, house=house or {}, kind=kind, **k))


def labels(tier, seed):
    out = []
    for r in range(4 if tier == 'quick' else 12):
        z = seed * 1000 + 500 + 20 * r
        out += [
            twins('labels', z + 1, dict(n_rooms=3, interzone=True), 'mild'),
            twins('labels', z + 2, dict(n_rooms=3, rad_h=0.6, rear_differs=True), 'cold'),
            twins('labels', z + 3, dict(n_rooms=2, rad_c=0.6, rac=0.6), 'hot'),
            twins('labels', z + 4, dict(n_rooms=4, shuffle=True, beta=True), 'swing'),
            twins('causality', z + 5, dict(n_rooms=2, ground=False, no_ground=True), 'mild'),
            twins('causality', z + 6, dict(n_rooms=2, ground=False, no_ground=True), 'humid'),
            twins('neighbours', z + 7, dict(n_rooms=2, interzone=True), 'cold', house2=dict(n_rooms=1)),
            twins('neighbours', z + 8, dict(n_rooms=1, rac=1.0), 'hot', house2=dict(n_rooms=3, beta=True)),
            twins('memory', z + 10, dict(n_rooms=2), 'hot'),
            twins('memory', z + 11, dict(n_rooms=3, alike=True, free=True), 'richcold'),
            twins('memory', z + 12, dict(n_rooms=2, rad_h=1.0, rad_c=1.0, interzone=True, shuffle=True), 'swing'),
            twins('neighbours', z + 9, dict(n_rooms=2, shuffle=True), 'mild', house2=dict(n_rooms=2, shuffle=True)),
        ]
    return out


def phases(tier, seed):
    out = [twins('default', seed * 1000 + 790, dict(n_rooms=1), 'year', days=365)]
    for r in range(1 if tier == 'quick' else 12):
        z = seed * 1000 + 700 + 20 * r
        out += [
            twins('phases', z + 1, dict(n_rooms=2), 'mild', days=4, g=1, k=1, main=2),
            twins('phases', z + 2, dict(n_rooms=1), 'cold', days=4, g=0, k=2, main=1),
            twins('phases', z + 3, dict(n_rooms=2, interzone=True, shuffle=True), 'hot', days=4, g=2, k=1, main=1),
            twins('phases', z + 4, dict(n_rooms=2), 'humid', days=3, g=2, k=1, main=2),
        ]
    return out


def histories(tier, seed):
    deep = tier == 'thorough'
    houses = [dict(n_rooms=1), dict(n_rooms=1, ground=False, no_ground=True), dict(n_rooms=2, rac=1.0, rad_c=0.0),
              dict(n_rooms=2, ground=False, no_ground=True, interzone=True)]
    out = []
    for h in range(4):
        for part in range(4 if not deep else 8):
            j = twins('histories', seed * 1000 + 760 + h, houses[h], ['cold', 'swing', 'hot', 'mild'][h], days=5 if deep else 3,
                      part=part if deep else (2 * part + h) % 8, parts=8)
            j['generate'] = dict(spec='Phases', cfg='PhasesDeep' if deep else 'Phases')
            out.append(j)
    return out


def reports(tier, seed):
    def r(k, house, kind, **p):
        return dict(spec='Report', driver='core_driver:job_report', params=dict(seed=seed * 1000 + 850 + k, house=house, kind=kind, **p))
    out = []
    for z in range(0, 1 if tier == 'quick' else 60, 6):
        out += [r(z, dict(n_rooms=2, rad_c=0.5), 'humid'),
                r(z + 1, dict(n_rooms=3, shuffle=True), 'wild', days=3, main=1, g=2, build=1),
                r(z + 2, dict(n_rooms=1), 'cold', detail=False),
                r(z + 3, dict(n_rooms=1, rac=1.0, rad_c=0.0), 'hot', simple=False),
                r(z + 4, dict(n_rooms=4, interzone=True, shuffle=True), 'swing', days=2, main=2),
                r(z + 5, dict(n_rooms=1), 'mild', detail=False, simple=False)]
    return out


def jobs(prop, tier, seed):
    out = []
    if prop in CORE:
        out += family(tier, seed, prop)
    if prop == 'C05':
        out.append(dict(spec='ModeMC', workers=4))
    if prop == 'C10':
        for j in family(tier, seed, prop):
            g = [1, 2, 3, 0][j['params']['seed'] % 4]
            j['params'].update(days=max(g, 1), g=g, main=1, build=0)
            j['params'].pop('default', None)
            out.append(j)
        out = phases(tier, seed) + histories(tier, seed) + out
    if prop == 'C13':
        for r in range(32 if tier == 'quick' else 400):
            out.append(dict(spec='WallTrace', driver='wall_driver:job', params=dict(seed=seed * 1000 + r, n=80)))
    if prop == 'C14':
        for r in range(1, 9):
            for i in ('15m', '30m', '1h'):
                out.append(dict(spec='WeatherTrace', driver='weather_driver:job', heap='2500m',
                                params=dict(seed=seed * 100 + r, region=r, interval=i, days=365)))
    if prop in ('C15', 'C16', 'C17', 'C18', 'C19'):
        out += inputs(prop, tier, seed)
    if prop in ('C15', 'C16'):
        out.append(dict(spec='SkyMC', workers=4))
    if prop in ('C21', 'C22', 'C23', 'C24', 'C25'):
        kinds = dict(C21=['rooms'], C22=['index', 'parts', 'calib'], C23=['parts'], C24=['box', 'index'], C25=['chain'])[prop]
        for r in range(8 if tier == 'quick' else 64):
            for k in kinds:
                out.append(dict(spec='EnvelopeTrace', driver='convert_driver:job',
                                params=dict(seed=seed * 1000 + r, kind=k, n=2500 if tier == 'quick' else 10000, forms=True, regions=True)))
    if prop in ('C26', 'C27'):
        kind = dict(C26='comfort', C27='sizes')[prop]
        for r in range(8 if tier == 'quick' else 64):
            out.append(dict(spec='AidsTrace', driver='aids_driver:job', params=dict(seed=seed * 1000 + r, kind=kind, n=2000)))
        out.append(dict(spec='AidsMC', workers=4))
    if prop == 'C20':
        out += reports(tier, seed)
    if prop == 'C12':
        out += labels(tier, seed)
    return out


CLAIMED = {}
_T = 'TLA+ specification of the calculation; TLC validates traces of the real code'
CLAIMED.update({p: (_T, 'Assumes IEEE double arithmetic of the Java overrides; response factors are taken from the code\'s own factory '
                   '(decided by C13).') for p in sorted(CORE | {'C10', 'C12'})})
CLAIMED['C13'] = ('TLA+ specification of conduction in layered walls; TLC judges factors recorded from the factory',
                  'The least-squares law is checked through the normal equations, to 1e-6 of the size of the response.')
CLAIMED['C14'] = ('TLA+ specification of the weather table and the sun; TLC judges tables recorded from make_weather',
                  'Every row of the year, for every region and interval, in both tiers.')
_I = 'TLA+ specification of building descriptions and what they stand for; TLC judges what the initializer wrote'
CLAIMED.update({
    'C15': (_I, 'Known finding: windows without an overhang let no direct sunlight in (pinned by an existing test).'),
    'C16': (_I, 'Chosen instants of each generated year of weather.'),
    'C17': (_I, 'The day schedules themselves are read from schedules.json, which is taken as given. Known finding: cooking heat and '
                'vapour are swapped (pinned by an existing test).'),
    'C18': (_I, 'Descriptions are generated; every room has surfaces other than floors.'),
    'C19': (_I, 'Known finding: overhangs described in detail are documented but refused.')})
_E = 'TLA+ specification of envelopes (parts, indices, model house, rooms); TLC judges what the conversions made of generated ones'
CLAIMED.update({
    'C21': (_E, 'Shares of one, two and three rooms; a house without a main room must be refused.'),
    'C22': (_E, 'Evaluation takes walls, windows, doors and earth floor edges; thermal bridges are not part of it.'),
    'C23': (_E, 'Solar gain of exposed windows whose sunshade is detailed or absent is not defined by the code (NotImplemented) and not judged.'),
    'C25': (_E, 'Indices are compared at the levels of the house, of its rooms and with inner parts; air as the conversion to rooms states it.'),
    'C24': (_E, 'Non-negative areas are claimed for houses of usual size and opening ratio only: windows in proportion to the envelope do '
                'not fit the short side of large attached houses.')})
CLAIMED.update({
    'C26': ('TLA+ specification of the comfort index; TLC judges answers recorded from the code',
            'The specification finds the temperature of the clothing by bisection; the index is compared to 1e-6.'),
    'C27': ('TLA+ specification of unit sizes and airtightness; TLC judges answers recorded from the code',
            'Room areas from 2.5 m2, below which the least output exceeds the rated one.')})
