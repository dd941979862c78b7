STATE = 'explicit-state exploration of the real time step over all words of an input alphabet, reference-model oracle, de Bruijn replay'
NOTE = ('Every state reached by all words of six weather/occupancy/demand letters up to length 3 (quick) or 5 (thorough) from four seed histories, '
        '16 small houses and 2-3 calculation intervals, and by all words of fourteen letters with extreme ones up to length 2 (3) in four wider houses, is a state on which the '
        'real step function is run and judged by an independent reference; every letter sequence of a de Bruijn word is replayed through the public calculation. Values outside the alphabet are not covered.')
S = 'core/sequence.py run_tick'
PP = 'core/pre_calc_parameters.py make_pre_calc_parameters'


def define(prop):
    prop('C01', 'Sensible heat balance of room air and furniture closes at every step',
         'At every calculation step the heat stored in the air of every room equals convection from its surfaces, outdoor air (mechanical, local, '
         'infiltration, natural), air from neighbouring rooms, exchange with furniture, internal gains, occupants and the convective part of the '
         'supplied load. The heat stored in furniture equals its exchange with the air plus its half of the transmitted sun. The temperatures '
         'handed to the next step are the reported ones.',
         ['histories', 'inputs', 'configurations'], 'all histories of weather, occupancy and demand; all houses, equipment and calculation intervals',
         'The tests check single terms for one set of numbers and one annual run; none closes the balance over the states a history can reach.',
         ['core/sequence.py', 'core/next_condition.py', 'core/pre_calc_parameters.py'],
         [('step', S), ('coefficients of the step', PP), ('next temperatures', 'core/next_condition.py get_next_temp_and_load')], STATE, NOTE,
         state=[('conditions', 'temperatures, humidities, heat flows, modes handed between steps', 'core/conditions.py Conditions')])
    prop('C02', 'Every surface obeys its heat balance and its conduction history',
         'At every step the heat flow into each surface is the convection with the air of its room plus radiation with the other surfaces plus absorbed '
         'sun and absorbed radiant load. The surface temperature follows from the present and all past heat flows and rear temperatures through the '
         'response factors, with the rear side seeing outdoors, ground or the facing room weighted by the temperature difference coefficient. '
         'Reported surface, rear, mean radiant temperatures and heat flows are the ones handed to the next step.',
         ['histories', 'inputs', 'configurations'], 'all histories; all kinds of boundaries, rear sides and calculation intervals',
         'Conduction is a recurrence over the whole history; tests evaluate one step or one annual number.',
         ['core/sequence.py', 'core/pre_calc_parameters.py', 'core/sequence_ground.py'],
         [('step', S), ('coefficients of the step', PP), ('occupant weights and exchange', 'core/shape_factor.py')], STATE, NOTE)
    prop('C03', 'Moisture balance closes and the cooling coil removes what it condenses',
         'At every step the moisture stored in the air of every room equals what comes with outdoor and neighbouring air, exchange with furniture, '
         'internal generation and occupants, minus the water condensed by the cooling coil; furniture moisture equals its exchange. Water is condensed '
         'only while the room is cooled by convection and the coil is below the dew point of the room, in the amount given by the coil surface humidity, '
         'its air flow and bypass, and never negative.',
         ['histories', 'inputs', 'configurations'], 'all histories, equipment combinations and calculation intervals',
         'Dehumidification depends on the load, the coil and the humidity reached by the history; tests pin one case.',
         ['core/sequence.py', 'core/next_condition.py', 'core/heat_exchanger.py'],
         [('humidity step', S), ('coil', 'core/heat_exchanger.py')], STATE, NOTE)
    prop('C04', 'Operation mode follows the comfort automaton for every history',
         'The mode of each room (heating, cooling, stopped with windows open or closed) is a function of its previous mode, its demand and the comfort index '
         'of its own present air: without demand it is closed, heating and cooling persist or reverse at the opposite threshold with the clothing of that '
         'mode, and windows open and close by the index in medium clothing. The mode of one room never depends on another room.',
         ['histories', 'inputs'], 'all sequences of demand and weather, all previous modes and temperatures on both sides of each threshold',
         'The automaton has memory; the tests sample individual edges with one comfort value.',
         ['core/ot_target.py', 'core/ot_target_pmv.py', 'core/sequence.py'],
         [('mode decision', 'core/ot_target_pmv.py'), ('demand', 'core/ot_target.py')],
         'exhaustive product of automaton states and threshold neighbourhoods plus all input words, real step function',
         'All four modes x demand x both sides of every threshold x humidity in every room position, and all words as in C01; points nearer than 1e-9 PMV to a threshold are not judged.')
    prop('C05', 'Heated and cooled rooms reach the comfort target with the right equipment',
         'A room in heating or cooling mode is conditioned only if it would otherwise miss the target, and then reaches exactly the operative temperature of '
         'the target comfort index, interpolated towards the free-running temperature for partial demand. The load is carried by the installed radiant system '
         'up to its capacity with convection supplying the rest, or by convection alone; it is zero while stopped. All rooms are solved together so that '
         'no room disturbs the target of another.',
         ['histories', 'inputs', 'configurations'], 'all histories, demand fractions, equipment combinations and capacities',
         'Saturation of radiant capacity and simultaneous rooms appear only along particular histories; tests use unlimited or absent equipment.',
         ['core/next_condition.py', 'core/ot_target.py', 'core/ot_target_pmv.py', 'core/pre_calc_parameters.py'],
         [('load rule', 'core/next_condition.py'), ('target', 'core/ot_target_pmv.py')], STATE, NOTE)
    prop('C10', 'Infiltration and natural ventilation follow building, wind-free stack and mode',
         'Infiltration of every room is its volume share of the stack-driven leakage of the building: proportional to the equivalent leakage area and the square '
         'root of the difference between the volume-weighted room temperature and outdoors, less the offset for storeys and inside pressure, never negative. '
         'Natural ventilation flows exactly in the rooms whose windows are open in that step. Both flows enter the balances of that step.',
         ['inputs', 'configurations', 'histories'], 'all storeys, pressures, leakage areas, temperatures, modes and histories',
         'Tests sample a few numbers of the formula; combinations with several rooms and modes are not reached.',
         ['core/infiltration.py', 'core/sequence.py'], [('leakage', 'core/infiltration.py'), ('natural ventilation', S)],
         'exhaustive product of building types, temperatures and modes plus all input words, real step function', NOTE)
    prop('C11', 'Occupants: comfort conditions, metabolic heat, operative temperature',
         'Each occupant releases a fixed total of heat, of which the sensible part falls linearly with the room temperature up to its ceiling and the rest is '
         'moisture; a room receives this times its number of occupants. Clothing, air speed and target comfort index follow from the mode and the kind of '
         'equipment in use, and the operative temperature reported is the one of the heat transfer coefficients around the occupants. A room conditioned at '
         'full demand reaches exactly the target comfort index.',
         ['inputs', 'histories'], 'all temperatures, humidities, modes, equipment, numbers of occupants',
         'Tests fix single values; kinks and mode-dependent branches are not reached together.',
         ['core/occupants.py', 'core/ot_target_pmv.py', 'core/next_condition.py'],
         [('metabolism', 'core/occupants.py'), ('clothing, speed, target', 'core/ot_target_pmv.py')],
         'exhaustive product of temperatures, humidities, modes and occupants plus all input words, real step function', NOTE)
    prop('C06', 'Constant conditions lead every history to the equilibrium of the building',
         'A building at one uniform temperature and humidity equal to outdoors, without gains, stays there and no heat flows. Under constant weather and gains '
         'every history ends in the same temperatures and loads, namely those of the steady conductance network of the building with outdoors and deep ground: '
         'free-running, and heated or cooled to the target with the load that network needs. Steady humidity is outdoor humidity plus generation over ventilation.',
         ['histories', 'configurations', 'inputs'], 'all histories before the constant period, all houses, intervals and constant conditions',
         'Equilibrium is a statement about the limit of histories; tests run fixed lengths and compare numbers.',
         ['core/sequence.py', 'core/pre_calc_parameters.py', 'core/next_condition.py', 'core/conditions.py'],
         [('step', S), ('coefficients of the step', PP)],
         'exhaustive runs of the real step from enumerated histories to the fixed point, compared with an independent steady network',
         'Every house of the family, 2-3 intervals, enumerated histories and constant letters; quickly responding elements so that the bound suffices.')
    prop('C07', 'Numbering does not matter; uncoupled rooms are independent',
         'Renumbering the rooms or the boundaries of a house renumbers the results and changes nothing else, for every equipment, inner wall and air path. '
         'In an air-tight building a group of rooms without walls or air paths to the others gives the same results as if it were the whole building.',
         ['configurations', 'histories'], 'all permutations of rooms, boundary orders and histories',
         'Each test uses one numbering, in which boundaries happen to be sorted by room.',
         ['core/pre_calc_parameters.py', 'core/sequence.py', 'core/shape_factor.py', 'core/next_condition.py'],
         [('assembly of the matrices', PP), ('radiant exchange by room', 'core/shape_factor.py get_h_r_js')],
         'exhaustive enumeration of numberings, each driven through a de Bruijn word with the real step and compared with the original numbering',
         'All room permutations and all boundary transpositions, rotations and reversal of 2- and 3-room houses, including their run-up.')
    prop('C08', 'Run-up and main periods are walked as asked, repeatably and without side effects',
         'A calculation walks the ground alone (towards the mean outdoor temperature of the record), then the whole building, then the main period, for exactly the days asked for and in the interval asked for, the '
         'run-up using the last days of the record, and starts each part from the end of the one before, the first from 15 degrees, the humidity of 20 degrees and 40 %, closed windows and no flow in any wall. A run-up shorter than its building part is refused. '
         'The same input gives the same result whatever was calculated before, a longer main period extends a shorter one, inputs are left alone and files are written only on request.',
         ['configurations', 'histories', 'inputs'], 'all combinations of period lengths and intervals',
         'Tests use one combination of lengths in one interval.',
         ['core/core.py', 'core/period.py', 'core/sequence_ground.py', 'core/conditions.py'],
         [('driver', 'core/core.py calc'), ('periods', 'core/period.py'), ('ground run-up', 'core/sequence_ground.py')],
         'exhaustive product of period lengths and intervals through the public entry point, replayed step by step',
         'Main 1-2, run-up 0-3, building run-up 0-4 days; 1, 2, 4 steps per hour (thorough: up to 6), records of 3-5 days, year-long records with seasons for the ground.')
    prop('C09', 'Result tables report the calculated quantities with right time and summary',
         'Every cell of the detailed table is the quantity its heading names for that room, boundary and step: states and loads of the step, inputs of the step, '
         'relative humidity, furniture exchange, surface coefficients and heat flows by kind, with boundaries counted within their room and time stamps advancing by the calculation interval. The hourly digest holds means, '
         'hour-start modes and hourly sums of loads of that table, rounded to its digits. Written files equal the returned tables.',
         ['configurations', 'inputs', 'histories'], 'all houses, intervals, lengths and courses',
         'Tests read one temperature and one humidity of the table.',
         ['core/log.py', 'core/core.py', 'core/sequence.py'],
         [('collection', 'core/log.py Logger'), ('tables', 'core/log.py record')],
         'exhaustive recomputation of every cell from explored transitions for every house, interval and length', NOTE)
    prop('C21', 'Response factors represent the layered element in every calculation interval',
         'For every sequence of layers the response factors have the steady resistance and transmission of the element (with the outside film, or the deep soil for ground), '
         'the decay ratios of the fixed roots, and fit the exact thermal transfer of the layers at the fitting points. Excitations that are linear over the coarser '
         'interval give the same response in every interval. Asking again, or for other elements, changes nothing; massless elements have their resistance and no memory; given factors are used as given.',
         ['inputs', 'configurations', 'histories'], 'all sequences of layers, element kinds and intervals',
         'Tests pin a few walls in one interval.',
         ['initializer/response_factor.py', 'core/pre_calc_parameters.py'],
         [('fit', 'initializer/response_factor.py calc_response_factor'), ('use', 'core/pre_calc_parameters.py _get_responsfactors')],
         'exhaustive enumeration of layer words and intervals against an independent derivation; layered house driven through de Bruijn words',
         'All layer sequences of length 1-3 (thorough 1-5) over five layers, five element kinds, five intervals.')
    prop('C22', 'Radiant exchange, radiant systems and transmitted sun are shared out completely',
         'Radiant coefficients follow from the view factor of each surface from a small sphere in its own room, which sum to one, and exchange within a room conserves energy. '
         'Occupants see floors with 0.45 and the rest with 0.55 by area (all surfaces by area where only one kind exists), and radiant systems act on the floor by area, or on all surfaces without one. '
         'The radiant part of the load and half of the transmitted sun arrive completely at the emitting and at the absorbing surfaces (all surfaces of a room without any).',
         ['configurations', 'inputs'], 'all areas, room assignments, floor and absorption patterns',
         'Tests use rooms with sorted boundaries and one floor.',
         ['core/shape_factor.py', 'core/pre_calc_parameters.py', 'initializer/occupants_form_factor.py', 'initializer/a12_indoor_radiative_heat_transfer.py'],
         [('view factors', 'core/shape_factor.py get_h_r_js'), ('shares', 'initializer/a12_indoor_radiative_heat_transfer.py get_flr_i_js')],
         'exhaustive enumeration of room configurations against an independent solution, and of absorption patterns in the running building',
         'All assignments of four areas to up to 5 (thorough 7) boundaries in 1-3 rooms; all floor patterns; all absorption patterns of a 4-surface room.')
    prop('C33', 'Comfort with the clothing temperature of the occupant, its default method',
         'Asked without a method, or for convergence, the comfort function uses the convective and radiant coefficients that belong to the clothing temperature which balances '
         'the clothed body at the air speed of the mode, instead of the fixed ones of the building calculation. The next mode follows the automaton by the indices so obtained, the '
         'target temperature gives the target index with the coefficients returned, clothing, air speed and target are those of the next mode, every room depends on its own air, equipment, demand and '
         'previous mode alone, and methods it does not know are refused.',
         ['inputs', 'configurations'], 'all modes, equipment, air and radiant temperatures, humidities, demands and groups of rooms',
         'The building calculation always uses the fixed coefficients, so that no annual run reaches the iteration; tests take a single point.',
         ['core/ot_target_pmv.py'], [('comfort', 'core/ot_target_pmv.py get_ot_target_and_h_hum_with_pmv'), ('coefficients', 'core/ot_target_pmv.py get_h_hum_c_is_n')],
         'exhaustive enumeration of previous mode x equipment x air x demand and of all words of rooms on the real function, independent bisection of the clothing balance as oracle',
         '4 modes x 4 equipments x 25 (thorough 100) air temperatures x 7 radiant differences x 4 humidities x 3 demands, alone and forty rooms together; all words of six rooms up to length 4 (5).')
