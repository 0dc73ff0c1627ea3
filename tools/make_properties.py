#!/usr/bin/env python3
"""Writes properties.jsonl; the properties are kept here because one line each is hard to edit."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d['anchors']['observe_at'] = observe or []
    d['anchors']['hook_needed'] = None
    P.append(d)


C = 'heat_load_calc/core/'
I = 'heat_load_calc/initializer/'
V = 'heat_load_calc/convert/'
X = 'heat_load_calc/external/'
W = 'heat_load_calc/weather/'
ONE = 'the suite runs the core only on one six-room test house (test_all_at_once) for a few steps and compares a handful of ' \
      'hand-made numbers; '
REP = ['detailed result table returned by the core calculation']

p('C01', 'Sensible heat of every room is conserved at every step',
  'In every reported step and for every room, the heat stored in the room air over the step equals the sum of what came in '
  'during it: convection from all of the room\'s surfaces, outdoor air (infiltration, mechanical, local and window '
  'ventilation) at the outdoor temperature, air from neighbouring rooms at their temperature, internal gains, people, '
  'furniture, the convective conditioning load and the convective share of the radiant load. '
  'The reported loads are therefore exactly the heat that holds the reported temperatures.',
  ['inputs', 'configurations', 'histories'],
  'all houses (number of rooms, boundaries in any order, equipment), all weather and schedules, all steps',
  ONE + 'a balance that closes for one house at three steps says nothing about another house, mode or step.',
  [C + 'sequence.py', C + 'pre_calc_parameters.py', C + 'next_condition.py', C + 'log.py'],
  [('room balance coefficients BRM, BRC, BRL', C + 'sequence.py: run_tick'),
   ('constant part of the coefficients', C + 'pre_calc_parameters.py: make_pre_calc_parameters')],
  [('room temperature', 'state of the air of a room', C + 'conditions.py: Conditions')], REP)

p('C02', 'Every wall obeys its heat response and its surface heat balance at every step',
  'At every step the surface temperature of every boundary equals its response, through its response factors and the '
  'decaying terms of its whole past, to its own surface heat flow and to the temperature on its rear side; and the surface heat '
  'flow equals convection from the room air plus radiation from the other surfaces plus absorbed sunlight plus the radiant '
  'emitter\'s share. '
  'The rear temperature is the weighted sum, with the weights of the input, of the outdoor-side equivalent temperature and of '
  'the surroundings of the boundary named as rear side.',
  ['inputs', 'configurations', 'histories'],
  'all houses, wall constructions, rear-side links, weather, and all steps of the history',
  ONE + 'the response depends on the whole history of the flow, which no test follows.',
  [C + 'sequence.py', C + 'pre_calc_parameters.py', C + 'conditions.py'],
  [('term-wise response recursion, rear temperature, equivalent temperature', C + 'sequence.py: run_tick'),
   ('AX, FIA, CRX, FLB, IVS matrices', C + 'pre_calc_parameters.py')],
  [('response components', 'decaying memory of every wall', C + 'conditions.py: theta_dsh_srf_a_js_ms_n')], REP)

p('C03', 'Sunlight entering a room and the heat of its furniture are conserved',
  'At every step and for every room, the transmitted sunlight equals the sum of what the furniture and the room surfaces are '
  'reported to absorb: half by the furniture and half by the absorbing surfaces in proportion to their area, and nothing by '
  'surfaces that do not absorb; in a room where no surface absorbs, the furniture takes all of it. '
  'The heat stored in the furniture over the step equals the sunlight it absorbed plus the heat exchanged with the room air, '
  'and that same exchange is the one reported.',
  ['inputs', 'configurations', 'histories'],
  'all houses, all sets of absorbing surfaces, all weather and steps',
  ONE + 'the division over surfaces depends on which surfaces absorb and in which order they are listed.',
  [C + 'pre_calc_parameters.py', C + 'sequence.py', C + 'log.py'],
  [('distribution of transmitted solar radiation', C + 'pre_calc_parameters.py'),
   ('furniture temperature', C + 'sequence.py: run_tick')], None, REP)

p('C04', 'Moisture of every room and its furniture is conserved at every step',
  'In every reported step and for every room, the moisture stored in the room air equals what came in: with outdoor air, with '
  'air from neighbouring rooms, from people and other sources, from the furniture, less what the cooling coil took out as '
  'reported in the latent load. '
  'The furniture\'s moisture changes by exactly what it exchanged with the air, and humidity ratios remain positive.',
  ['inputs', 'configurations', 'histories'], 'all houses, weather, schedules and steps',
  ONE + 'moisture is never balanced in any test.',
  [C + 'sequence.py', C + 'log.py'],
  [('moisture balance coefficients and solution', C + 'sequence.py: run_tick')],
  [('humidity ratio', 'moisture of the air of a room', C + 'conditions.py: x_r_is_n')], REP)

p('C05', 'The operation mode follows the comfort automaton',
  'The mode of a room at each step is the one the mode automaton yields from its previous mode, the demand and the comfort votes '
  '(PMV for heavy, medium and light clothing) of its previous state: without demand it is off with windows closed; heating goes '
  'on until the vote for heavy clothing exceeds 0.7; cooling goes on until the vote for light clothing falls below -0.7; from '
  'off, cooling starts at a light vote of 0.7, heating at a heavy vote of -0.7, and otherwise the windows open or close by the '
  'sign of the medium vote. '
  'In particular a room with demand never changes between heating and cooling while the votes lie between the limits.',
  ['inputs', 'histories'], 'all sequences of demand, temperature, radiant temperature and humidity, per room independently',
  'the tests check single decisions at picked votes; the automaton has memory, and its input comes from the simulated state.',
  [C + 'ot_target_pmv.py', C + 'ot_target.py', C + 'operation_mode.py', C + 'sequence.py'],
  [('mode decision', C + 'ot_target_pmv.py: get_operation_mode_is_n'), ('PMV', C + 'ot_target_pmv.py'),
   ('state handed to it', C + 'sequence.py: run_tick')],
  [('operation mode', 'mode of each room', C + 'conditions.py: operation_mode_is_n')], REP)

p('C06', 'Conditioning delivers exactly the comfort target, within equipment limits',
  'When a room heats (cools) and would drift below (above) the target operative temperature, which is that of PMV -0.5 in heavy '
  '(+0.5 in light) clothing, the load is the one that brings its operative temperature to the target weighted by the demand with '
  'the drifting temperature; otherwise its load is zero. '
  'Heating loads only appear in rooms that heat and cooling loads in rooms that cool; the radiant emitter works alone up to its '
  'capacity, never beyond it, and the convective one supplies just the rest.',
  ['inputs', 'configurations', 'histories'],
  'all houses, equipment (convective, radiant, capacities, convective share), demand levels, weather and steps',
  ONE + 'no test combines demand levels, capacity limits and several rooms.',
  [C + 'next_condition.py', C + 'ot_target_pmv.py', C + 'ot_target.py', C + 'sequence.py'],
  [('load and limit decision', C + 'next_condition.py'), ('target operative temperature', C + 'ot_target_pmv.py')], None, REP)

p('C07', 'The cooling coil removes moisture exactly as its physics allows',
  'A room has a latent load only while its convective unit cools; it equals the water condensed from the air passing the coil, at '
  'the flow interpolated from the unit\'s data for its sensible output (none where that is not positive) and with the bypass share '
  'passing untreated, down to saturation at the coil surface temperature (not below -100 degrees). '
  'When the room air is drier than saturation at the coil, nothing is removed, and moisture is never added to the room; rooms '
  'without such a unit never have a latent load.',
  ['inputs', 'configurations', 'histories'], 'all houses, unit data, weather, humidity and steps',
  'the tests exercise the coil formulas at single points, not their place in the moisture balance.',
  [C + 'sequence.py', C + 'pre_calc_parameters.py', C + 'heat_exchanger.py', 'heat_load_calc/external/rac.py'],
  [('dehumidification coefficients', C + 'sequence.py: run_tick'), ('unit data', C + 'pre_calc_parameters.py')], None, REP)

p('C08', 'Every person always gives off 119 W, split by room temperature',
  'At every step the sensible heat and the evaporated moisture of the people in a room together make 119 W per person present. '
  'The sensible part depends only on the room temperature before the step: 63 W at 24 degrees, 4 W less per degree above and more '
  'per degree below, never more than 119 W, so that moisture is never negative.',
  ['inputs', 'histories'], 'all room temperatures and numbers of people, fractional ones included, and all steps',
  'the tests look at a few temperatures of the function, not at its use for every room at every step.',
  [C + 'occupants.py', C + 'sequence.py', C + 'log.py'],
  [('heat and moisture of a person', C + 'occupants.py'), ('use', C + 'sequence.py: run_tick')], None, REP)

p('C09', 'Outdoor air of a room is infiltration, mechanical, local and window air',
  'At every step infiltration is shared by volume and follows from the house\'s airtightness, number of storeys, pressure balance '
  'and the difference between the volume-weighted mean room temperature and the outdoor temperature before the step, and is never '
  'negative. '
  'Window ventilation flows exactly in steps whose mode has windows open. '
  'The sum of the reported flows with the mechanical and local flows of the input is what acts in both the heat and the moisture '
  'balance of the step.',
  ['inputs', 'configurations', 'histories'], 'all houses, airtightness, pressures, weather, schedules and steps',
  ONE + 'infiltration is tested as a function only for one house.',
  [C + 'infiltration.py', C + 'sequence.py', C + 'pre_calc_parameters.py'],
  [('infiltration', C + 'infiltration.py'), ('sum of outdoor air', C + 'sequence.py: run_tick')], None, REP)

p('C10', 'Run-up phases and the main period are one continuous history',
  'The first reported step continues from the state the run-up left: ground temperatures from the ground-only run-up, everything '
  'else from the whole-house run-up, which starts at 15 degrees, conditioning off, 40 % humidity at 20 degrees. '
  'A run-up step changes the state exactly as a main step with the same inputs would, and a longer main period only appends steps '
  'to a shorter one.',
  ['histories', 'configurations', 'inputs'], 'all lengths of the run-up phases and of the main period, all houses and weather',
  'tests start from a fixed state and never compare runs with different phases.',
  [C + 'core.py', C + 'period.py', C + 'conditions.py', C + 'sequence_ground.py', C + 'sequence.py'],
  [('phases and hand-over', C + 'core.py: calc'), ('ground step', C + 'sequence_ground.py: run_tick'),
   ('step counts', C + 'period.py')],
  [('ground response components', 'memory of the ground', C + 'conditions.py: GroundConditions')], REP)

p('C11', 'Radiation between the surfaces of a room is closed and self-consistent',
  'In every room the radiative coefficients follow from view factors that are positive, sum to one and share one mean view '
  'parameter; at every step the radiant exchange of the room\'s surfaces sums to zero, each surface exchanging with the mean '
  'radiant temperature weighted by area and radiative coefficient. '
  'The radiant temperature around the person is the weighted mean of the surface temperatures with the weights of the input. '
  'All of this holds for every boundary by its own room, in whatever order boundaries are listed.',
  ['inputs', 'configurations', 'histories'], 'all houses, sets of areas, orders of boundaries, and all steps',
  'the tests check the coefficients of one room arrangement; closure over all rooms and steps is not checked.',
  [C + 'shape_factor.py', C + 'pre_calc_parameters.py', C + 'sequence.py', I + 'a12_indoor_radiative_heat_transfer.py'],
  [('view factors and coefficients', C + 'shape_factor.py'), ('weights of surfaces', C + 'shape_factor.py: get_f_mrt_is_js')],
  None, REP)

p('C12', 'Results do not depend on labels, unrelated rooms, later inputs or repetition',
  'Running the same input twice gives identical results; renumbering rooms or boundaries only renumbers the results; and results '
  'of a step do not depend on inputs of later steps in a house without ground. '
  'Two houses without infiltration computed together as one, sharing no wall and no air, give each the results it has alone.',
  ['configurations', 'inputs', 'histories'], 'all houses, permutations of rooms and boundaries, pairs of houses, points in time',
  'a hyperproperty: it compares runs, and tests look at single runs of one house with rooms and boundaries in one order.',
  [C + 'pre_calc_parameters.py', C + 'sequence.py', C + 'shape_factor.py', C + 'next_condition.py', C + 'log.py'],
  [('room-boundary incidence', C + 'pre_calc_parameters.py: p_is_js'), ('labels of columns', C + 'log.py')], None, REP)

p('C13', 'Response factors represent the given wall: steady state, recursion, fit',
  'For every layered construction the response factors have the exact steady state of the wall: the summed absorption response is '
  'its resistance from the inner surface outward and the summed transmission response is one; decay ratios lie in [0,1). '
  'Their term-by-term values are those of the least-squares fit, with the fixed decay rates, to the exact frequency response of '
  'the layers, so they depend on nothing else, in particular not on earlier calls; steady parts have pure resistance.',
  ['inputs', 'configurations'], 'all sequences of layers, resistances, capacities, outdoor resistances, boundary kinds, and calls',
  'the tests compare a few constructions with stored numbers.',
  [I + 'response_factor.py'],
  [('transfer functions and fit', I + 'response_factor.py'), ('factory', I + 'response_factor.py: ResponseFactorFactory')], None,
  ['response factors returned by the factory'])

p('C14', 'Weather of a region is interpolated cyclically, and the sun is where it is',
  'For every region and interval the weather table repeats the hourly source at the full hours and is linear in between, the '
  'last hour leading to the first; temperature, humidity, radiation and night radiation have the source\'s units converted once. '
  'The sun\'s altitude and azimuth satisfy the spherical relations for the region\'s latitude, longitude and standard time at each '
  'instant, azimuth being zero at south and positive to the west.',
  ['inputs', 'configurations'], 'all eight regions, intervals, and all instants of the year',
  'the tests look at single values; the relation must hold at every instant of the year.',
  [W + 'weather.py', W + 'solar_position.py', W + 'weather_data.py', W + 'region_location.py', W + 'calc_interval.py'],
  [('interpolation', W + 'weather.py'), ('solar position', W + 'solar_position.py')], None, ['weather table'])

p('C15', 'Sunlight on and through surfaces: geometry, shading and glass',
  'Sunlight on an inclined surface is the sum of direct, sky-diffuse and ground-reflected parts by the surface\'s orientation, none '
  'negative and the direct one only with the sun before the surface. '
  'A shading overhang reduces direct and sky light by the shaded share of its geometry, within 0 and 1; transmission of glass '
  'follows the angle of incidence by its characteristic; what enters a room is the sum over its transparent parts exposed to '
  'the sun.',
  ['inputs', 'configurations'], 'all orientations, overhang geometries, glazings, sun positions and radiation',
  'the tests use one orientation and a few instants.',
  [I + 'inclined_surface_solar_radiation.py', I + 'solar_shading.py', I + 'oblique_incidence_charac.py',
   I + 'transmission_solar_radiation.py', I + 'external_boundaries_direction.py'],
  [('inclined radiation', I + 'inclined_surface_solar_radiation.py'), ('shading', I + 'solar_shading.py'),
   ('glass', I + 'oblique_incidence_charac.py')], None, ['tables written by the initializer'])

p('C16', 'Outdoor-side equivalent temperature follows the surface\'s exposure',
  'For an opaque surface struck by the sun it is the outdoor temperature plus absorbed sunlight less night radiation by the sky '
  'share it sees, times its outdoor resistance; transparent surfaces absorb nothing; surfaces not struck by the sun have the '
  'outdoor temperature; ground has its yearly mean; inner walls have none. '
  'More sunlight never lowers it and more night radiation never raises it.',
  ['inputs', 'configurations'], 'all boundary kinds, orientations, resistances, absorptions, shadings, weather and instants',
  'the tests compare single surfaces at single instants.',
  [I + 'outside_eqv_temp.py', I + 'boundary_simple.py'],
  [('equivalent temperature', I + 'outside_eqv_temp.py')], None, ['tables written by the initializer'])

p('C17', 'Schedules reproduce the published day schedules for every number of residents',
  'For every quarter of an hour of the year, the number of people, heat and moisture gains, local ventilation and conditioning '
  'demand of a room are those of the schedule of its name for the day\'s type in the calendar, interpolated linearly between the '
  'whole numbers of residents that enclose the number given. '
  'Lighting is proportional to floor area, and residents follow from the total floor area of the house.',
  ['inputs', 'configurations', 'histories'], 'all numbers of residents in 1 to 4, rooms, floor areas and all steps of the year',
  'the tests check a few hours of one resident number.',
  [I + 'schedule_loader.py', I + 'residents_number.py', I + 'initializer.py', I + 'schedules.json'],
  [('schedules', I + 'schedule_loader.py'), ('residents', I + 'residents_number.py')], None, ['tables written by the initializer'])

p('C18', 'The initializer maps the building description faithfully to calculation input',
  'Every room and boundary of the description appears in the calculation input with its area, coefficients, construction, rear '
  'side and equipment: every boundary appears individually and in order, weights for the person sum to one per room, '
  'radiant emitters (heating or cooling) are spread over the floors of their room by area, air flows are converted from cubic metres per hour, furniture follows from volume, capacities from area. '
  'The rear-side weights of every boundary sum to one.',
  ['inputs', 'configurations'], 'all valid building descriptions',
  'the tests compare the output for one or two descriptions.',
  [I + 'initializer.py', I + 'boundary_simple.py', I + 'furniture.py',
   I + 'occupants_form_factor.py', I + 'a22_radiative_heating_spec.py'],
  [('house', I + 'initializer.py: make_house'), ('boundaries', I + 'boundary_simple.py'),
   ('furniture', I + 'furniture.py')], None, ['mid_data_house.json and tables written by the initializer'])

p('C19', 'Invalid building descriptions are rejected, valid ones are not',
  'A description with no main room, or more than one room of a type that must be single, with a boundary of unknown kind, or with '
  'a value outside its set of allowed values, with a required entry or schedule missing, with radiant equipment in a room without floor, or a number of residents outside 1 to 4, is refused with an error, and nothing is '
  'silently computed from it. '
  'Every description within the documented format is accepted.',
  ['inputs'], 'all valid descriptions and all single corruptions of them',
  'the tests only use valid descriptions.',
  [I + 'initializer.py', I + 'boundary_simple.py', I + 'boundary_type.py', I + 'response_factor.py', C + 'period.py'],
  [('validation', I + 'initializer.py')], None, ['error raised by the initializer'])

p('C20', 'Reports are complete, finite and consistent with themselves',
  'Every reported value is a finite number; inputs are repeated unchanged for each room; relative humidity, operative temperature, '
  'furniture and surface flows satisfy their defining relations with the other reported values. '
  'The hourly digest holds, for every hour, the means of temperatures (to 0.01 degree) and humidity ratios (to 0.0001 kg/kg), the '
  'sums of the loads (to 1 W) and the mode at the full hour of the detailed table; exactly the files asked for are written, and '
  'they hold the tables returned.',
  ['inputs', 'configurations', 'histories'], 'all houses, weather, steps and reporting options',
  'the tests read a few cells of the table.',
  [C + 'log.py', 'heat_load_calc/external/psychrometrics.py'],
  [('table', C + 'log.py: record'), ('derived values', C + 'log.py: post_logging')], None,
  REP + ['digest table', 'result_detail.csv', 'result_digest.csv'])

p('C21', 'Splitting a house into rooms conserves areas, and every inner part has two sides',
  'Dividing an envelope over main, other and non-occupied rooms and the crawl space keeps, for each part, its total area (length for '
  'linear parts), its kind, direction and heat properties, in proportion to floor areas. '
  'Adding inner floors and walls creates each of them between two different spaces, with positive area, and each room\'s '
  'horizontal surfaces add up to its floor area.',
  ['inputs', 'configurations'], 'all floor area shares, envelopes and insulation types',
  'the tests use a few shares of one model house.',
  [V + 'convert_lv2_to_lv3.py', V + 'convert_lv3_to_lv4.py'],
  [('division', V + 'convert_lv2_to_lv3.py'), ('inner parts', V + 'convert_lv3_to_lv4.py')], None, ['returned description'])

p('C22', 'A house generated from indices has those indices',
  'The envelope generated from a mean heat transmission coefficient and solar gain coefficients has, evaluated by the evaluation '
  'functions, those same coefficients, for every region and model house form where they can be met. '
  'Evaluation itself sums area (length) times coefficient times adjacency factor over walls, windows, doors and earth floor edges, and '
  'solar gain likewise, divided by the area of the envelope; thermal bridges do not enter it.',
  ['inputs', 'configurations'], 'all regions, index values in the feasible range, and model house forms',
  'the tests check a few index values.',
  [V + 'convert_indices_to_lv2_info.py', V + 'check_ua_a_eta_a.py', V + 'get_u_psi_eta_from_u_a_and_eta_a.py',
   V + 'model_house.py', V + 'ees_house.py', V + 'factor_f.py'],
  [('generation', V + 'convert_indices_to_lv2_info.py'), ('evaluation', V + 'check_ua_a_eta_a.py')], None,
  ['returned envelope and indices'])

p('C23', 'Envelope parts keep their heat transmission when handed to the calculation',
  'For every part (wall, window, door, earth floor edge, heat bridge) the description handed to the calculation has the same area, '
  'direction and total thermal resistance, from indoor air to outdoor air, as the coefficient of the part itself, including parts '
  'made of several sections or layers. '
  'Heat loss and solar gain per part are area times coefficient times the factor of its adjacency.',
  ['inputs', 'configurations'], 'all parts: kinds, structures, layers, sections, adjacencies',
  'the tests check a handful of parts.',
  [V + 'ees_house.py', V + 'convert_lv4_to_h_hlc.py', V + 'a_06_common_items.py', V + 'factor_f.py',
   'heat_load_calc/external/factor_h.py', 'heat_load_calc/external/factor_nu.py'],
  [('parts', V + 'ees_house.py')], None, ['returned dictionaries and values'])

p('C24', 'Model house geometry is that of a box with the given areas',
  'For every total floor area, ratio and form the generated model house has the floor areas and opening ratio asked for; its faces '
  'close (opposite walls together with openings equal), its envelope area is the sum of its faces, and earth floor perimeters match '
  'the plan. '
  'No area or length is negative for admissible input.',
  ['inputs', 'configurations'], 'all admissible areas, ratios, numbers of storeys and forms',
  'the tests check single houses.',
  [V + 'model_house.py'], [('geometry', V + 'model_house.py')], None, ['returned geometry'])

p('C25', 'A house keeps its indices down to its rooms, which balance their air',
  'Whatever the house, the mean transmission coefficient and the solar coefficients evaluated after dividing it over rooms, and after '
  'adding inner floors and walls, are those of the undivided house. '
  'The rooms made from it are exactly those with a floor area (a house without a main occupant room is refused), with volume area times '
  'height (2.4 m, crawl space 0.4 m); outdoor air (1.1 times the air change rate times the volume of the whole house) enters the main and other '
  'occupant rooms in proportion to floor area, and each passes exactly that air on to the non-occupant room. '
  'Surface resistances follow the kind of part and what is behind it, and combinations that cannot exist are refused.',
  ['inputs', 'configurations'], 'all houses, room shares, air change rates, regions',
  'the tests stop at one level and do not reach the rooms.',
  [V + 'convert_lv2_to_lv3.py', V + 'convert_lv3_to_lv4.py', V + 'convert_lv4_to_h_hlc.py', V + 'check_ua_a_eta_a.py', V + 'a_06_common_items.py'],
  [('rooms', V + 'convert_lv4_to_h_hlc.py')], None, ['returned dictionaries and values'])

p('C26', 'The stand-alone comfort index is the heat balance of a clothed person',
  'For every metabolic rate, external work, air and radiant temperature, clothing, air speed and humidity the predicted mean vote is that of '
  'the heat balance of ISO 7730, taken at the clothing temperature at which the heat passing the clothing (stronger of natural and forced '
  'convection, and radiation) is the heat leaving it. '
  'The percentage of dissatisfied follows from the vote and lies between 5 and 100.',
  ['inputs'], 'all combinations of the six quantities a person can be in',
  'no test covers it; the equation is solved by iteration whose convergence depends on the input.',
  [X + 'iso7730.py'], [('index', X + 'iso7730.py')], None, ['returned values'])

p('C27', 'Unit sizes and airtightness follow from floor area and insulation, in order',
  'The size of a room air conditioner for a floor area: rated cooling 190.5 W/m2 plus 45.6 W, at most 5600 W; rated heating, greatest '
  'output and air flow (least is 0.55 of greatest) follow from it as documented; least (500 W), rated and greatest output are in that order and never fall as the '
  'room grows (from 2.5 m2). '
  'The estimated airtightness of a house is its mean transmission coefficient times the factor of its structure (4.16 concrete, 8.28 '
  'wood or steel).',
  ['inputs'], 'all floor areas, coefficients and structures',
  'no test covers it.',
  [X + 'rac.py', 'heat_load_calc/initializer/estimate_c_value.py'], [('sizes', X + 'rac.py')], None, ['returned values'])

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for d in P:
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
