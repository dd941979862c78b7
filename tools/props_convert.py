GRID = 'exhaustive enumeration of a finite input space of the real functions (explicit-state, every point judged by an independent reference)'
C = 'convert/'


def define(prop):
    prop('C23', 'Part specifications made from UA and solar indices give back these indices',
         'From the mean heat loss (UA) and mean solar gain indices of a house, every kind of part gets the standard U value of its region times one common factor, '
         'limited to the U of the bare part, so that the whole house loses exactly UA; where the limits of all parts are reached it loses as much as possible. '
         'Windows get the solar coefficients that complete the gain of the opaque parts, within 0 and 0.88. This holds for every region, also region 8 without heating season, '
         'detached and attached houses and any set of parts.',
         ['inputs', 'configurations'], 'all sets of kinds of parts, regions, house types, floor and envelope areas, targets',
         'The factor is piecewise linear with breaks at each limit; tests use a few houses of one kind.',
         [C + 'get_u_psi_eta_from_u_a_and_eta_a.py', C + 'convert_indices_to_lv2_info.py'],
         [('common factor', C + 'get_u_psi_eta_from_u_a_and_eta_a.py get_f_u_psi'), ('whole house', C + 'convert_indices_to_lv2_info.py convert_spec')], GRID,
         'All 32768 subsets of fifteen parts with every 16th (thorough: every) pair of region and target; model houses of two kinds over floor areas, envelopes, targets and all regions.')
    prop('C24', 'Dividing a house among its rooms conserves every part and both indices',
         'A house described without rooms is divided into main, other and non occupant rooms: every part, opening and heat bridge becomes one piece per room in proportion to its '
         'floor area with everything else unchanged, earth floors go to the space under the floor. Pieces sum to the whole, and heat loss and solar gain indices stay the same.',
         ['inputs', 'configurations'], 'all lists of parts and all divisions of the floor, also without other or non occupant rooms',
         'Tests divide one house with three rooms.',
         [C + 'convert_lv2_to_lv3.py', C + 'ees_house.py'], [('division', C + 'convert_lv2_to_lv3.py convert_spec')], GRID,
         'All multisets of up to three (four) of fifteen parts times 27 divisions of the floor.')
    prop('C25', 'Inner floors and walls complete the rooms of a house',
         'A room floor not lying on the outside or on earth lies over the space under the floor, in proportion, and otherwise over the other rooms in equal parts. '
         'The wall around each room not being outer wall is shared with the other rooms so that the sums fit, never negative. Rooms that do not exist get no inner parts, a house '
         'without main room is refused, outer parts stay as they are.',
         ['inputs', 'configurations'], 'all lists of parts of the rooms and all divisions of the floor, including rounded areas',
         'Tests use one house; absent rooms, areas that add up only up to rounding and outer parts larger than the room are not sampled.',
         [C + 'convert_lv3_to_lv4.py'], [('inner floors', C + 'convert_lv3_to_lv4.py make_inner_floors'), ('inner walls', C + 'convert_lv3_to_lv4.py make_inner_walls')], GRID,
         'All sets of up to three (five) of twenty parts, and nearly complete sets, times 36 divisions of the floor.')
    prop('C26', 'Parts of a house keep their values: reading, writing, heat loss, solar gain',
         'Every part, opening, earth floor and heat bridge is written as it was read. Its U is the area mean over its strips plus the steel addition, its heat loss is U times area (psi times '
         'length) times the coefficient of the space behind it, its solar gain follows orientation, season and shade; what is not defined is refused. The layers handed to the calculation have '
         'that U, the capacities of the description and the right room, direction and coefficient.',
         ['inputs', 'configurations'], 'all structures and words of layers, kinds of parts, neighbouring spaces, directions, shades, regions and seasons',
         'Tests check a few parts; structures, spaces and shades combine to millions.',
         [C + 'ees_house.py', C + 'a_06_common_items.py'], [('parts', C + 'ees_house.py GeneralPart'), ('openings', C + 'ees_house.py Window'), ('bridges', C + 'ees_house.py Heatbridge')], GRID,
         'All words of up to three (four) layers in four structures times kinds, spaces, directions, shades, regions, seasons.')
    prop('C27', 'The model house closes: rectangles, facades, base and openings fit',
         'For every kind of house, floor area, share of openings and envelope area the model house has storeys that are rectangles of the given floor area, facades, earth floor, base and roof that fit together, '
         'windows and doors with the given share of the envelope, and, when an envelope area is asked for that can be reached, exactly that. The list of parts adds up to the envelope '
         'and every part has its kind, direction, shade and neighbouring space; parts that a kind of house cannot have are refused.',
         ['inputs', 'configurations'], 'all kinds of houses and insulation of floor and bath, floor areas, shares of openings, envelope areas',
         'Tests use a handful of floor areas.',
         [C + 'model_house.py'], [('geometry', C + 'model_house.py calc_area'), ('parts', C + 'model_house.py get_model_house_no_spec')], GRID,
         'Five kinds of houses times 22 (88) floor areas, 5 (30) shares of openings and 18 envelope areas.')
    prop('C28', 'Coefficients of the energy standard: orientation, neighbouring space, shade',
         'Temperature difference, orientation and shade coefficients are those of the standard for every region, season, direction and space: overhangs shade by their geometry up to the cap, '
         'and quantities that are not defined are refused. Shades are written as read and handed to the calculation in its own form.',
         ['inputs'], 'all spaces, directions, regions, seasons, overhang geometries and kinds of shades',
         'Tests sample table entries; the formulas change with season, region and direction.',
         ['external/factor_h.py', 'external/factor_nu.py', C + 'factor_f.py'], [('orientation', 'external/factor_nu.py Direction.get_nu'), ('shade', C + 'factor_f.py')], GRID,
         'All table entries; overhangs on a grid of 8 x 7 x 7 (16 x 25 x 25) sizes times all directions, regions and seasons.')
    prop('C29', 'Heat loss and solar gain indices of an envelope; rounding and resistances',
         'The heat loss index of an envelope is the sum of the losses of all parts, openings and perimeters over the sum of the areas; the solar indices the sum of the gains in percent, '
         'without heating index in region 8. Numbers are rounded half up at the given digit, and surface resistances are those of the kind of part, impossible pairs being refused.',
         ['inputs'], 'all multisets of parts, regions, numbers and digits',
         'Tests check one envelope; a part forgotten or counted twice shows only in some combinations.',
         [C + 'check_ua_a_eta_a.py', C + 'general_functions.py', C + 'a_06_common_items.py'],
         [('indices', C + 'check_ua_a_eta_a.py check_u_a_and_eta_a'), ('rounding', C + 'general_functions.py round_num'), ('resistances', C + 'a_06_common_items.py get_r_surf')], GRID,
         'All multisets of up to three (five) of thirteen parts times regions; 48000 (240000) numbers at four digits; all pairs of part and space.')
    prop('C30', 'Thermal comfort index is the heat balance of the clothed body of ISO 7730',
         'For every air and radiant temperature, air speed, humidity, activity and clothing the predicted mean vote is that of the heat balance whose clothing temperature solves the balance exactly, '
         'it rises with temperature, the dissatisfied share follows from it and lies within 5 and 100 %, and the examples of the standard come out. Saturation pressure and its '
         'slope are those of Sonntag over water and over ice.',
         ['inputs'], 'all climates within the range of the standard',
         'The clothing temperature is solved iteratively with a switch between free and forced convection; tests check three states.',
         ['external/iso7730.py'], [('balance', 'external/iso7730.py get_pmv'), ('pressure', 'external/iso7730.py get_p_vs')], GRID,
         'Twelve climates of the standard and a grid of temperatures, radiant differences, air speeds, humidities, activities and clothings (see evidence).')
    prop('C31', 'Rooms, ventilation, air conditioners and glazing sized from the floor areas',
         'From the floor areas of a home each room gets its volume, fresh air, opening and the air coming from the other rooms, so that fresh air of the home is conserved; homes without main room are refused and '
         'absent rooms absent. Air conditioners get the rated, greatest and least capacities and flows of the regression, the leakage area follows the structure, and single and double '
         'windows get the solar coefficient of their glass, frame and shade.',
         ['inputs', 'configurations'], 'all divisions of the floor, capacities, structures, frames, glasses and shades',
         'Limits and absent rooms change the formulas piecewise; tests read one or two points.',
         ['external/rac.py', 'initializer/estimate_c_value.py', C + 'convert_lv4_to_h_hlc.py'],
         [('conditioner', 'external/rac.py get_q_rtd'), ('rooms', C + 'convert_lv4_to_h_hlc.py make_initial_rooms'), ('glass', C + 'convert_lv4_to_h_hlc.py get_eta')], GRID,
         'Every pair of frame, glass and shade of both windows, divisions of the floor, floor areas from 0 to 120 m2.')
    prop('C32', 'Weather and description to result: every step of real years keeps the balances',
         'For whole houses made from a description by the public functions and driven by the real weather and schedules of a region, every step of the year keeps the guarantees of the '
         'step (heat and moisture balances, temperature limits, conduction history, conditioning, leakage), and the public calculation returns the same values as these steps in order, with the run-up '
         'taken from the end of the year and the ground in balance at its start.',
         ['configurations', 'histories'], 'all regions, days and kinds of houses in the bounds',
         'The only test of the whole chain fixes a few numbers of one house in one region.',
         ['initializer/initializer.py', 'weather/weather.py', 'core/core.py', 'core/sequence.py'],
         [('house', 'initializer/initializer.py make_house'), ('year', 'core/core.py calc'), ('step', 'core/sequence.py run_tick')],
         'exhaustive walk through the states of a bounded family of runs (explicit-state), every transition judged, runs of the public calculation replayed',
         'Four houses, two regions each on every 24th day with a replay of 3 days (thorough: eight regions, all days, replay of 20 days).')
    prop('C34', 'From indices to rooms: the chain of conversions keeps the house',
         'A house given by its floor area, envelope and indices is turned into parts, divided among its rooms and completed by inner floors and walls. At every level of this chain the heat loss and solar gain '
         'indices are those of the first and, where they can be reached, those asked for; every part of the model house is there once per room with the share of its floor, the floor of every room lies on something, '
         'inner parts fit the outer ones, and every part belongs to a room of the house. The elements handed on by the parts lose, with the edges of the earth floor, exactly UA times the envelope, each room its share. '
         'No level changes the one before, and a house gives the same whatever was converted before.',
         ['inputs', 'configurations', 'histories'], 'all kinds of houses, floor areas, envelopes, divisions of the floor, regions and targets',
         'Tests check each conversion alone on one house; what one level writes and the next reads is not tested.',
         [C + 'convert_indices_to_lv2_info.py', C + 'convert_lv2_to_lv3.py', C + 'convert_lv3_to_lv4.py', C + 'check_ua_a_eta_a.py', C + 'ees_house.py', C + 'convert_lv4_to_h_hlc.py'],
         [('indices to parts', C + 'convert_indices_to_lv2_info.py convert_spec'), ('parts to rooms', C + 'convert_lv2_to_lv3.py convert_spec'), ('inner parts', C + 'convert_lv3_to_lv4.py convert_spec')], GRID,
         'Two kinds of houses times 4 (12) floor areas, 2 (4) envelopes, 5 (8) targets, eight regions and nine divisions of the floor; every fifth house converted again at the end.')
    prop('C35', 'Glazing of several panes: sunlight and heat are in balance at every pane',
         'For any glazing of one or more panes, coated or bare and facing either way, sunlight from the front is passed, turned back or taken up by a pane without loss, as the light going to and fro between the '
         'panes demands; part of the panes, and the glass turned round, give the same. Gases mix by their shares, any mixture of one hundred parts is taken and no other. With the temperatures on both sides and the '
         'sun taken up, every surface of every pane passes on the heat it gets, the resistances are those of its temperatures (radiation by the emissivities of the surfaces that face each other or the room, '
         'convection by gas, width and direction of the gap), what the sun gives to the room is what reaches it beyond U times the difference of temperature, and U by the standard follows from the fixed conditions.',
         ['inputs', 'configurations'], 'all glazings of the bounds, mixtures of gases, temperatures and suns',
         'The module has no test; panes that differ from their mirror image, coatings on the room side and mixtures of three gases appear in no example.',
         ['../notebook/initializer/shgc_window/multiple_reflection.py', '../notebook/initializer/shgc_window/glass_thermal_balance.py'],
         [('light between panes', '../notebook/initializer/shgc_window/multiple_reflection.py Glass'), ('heat of panes', '../notebook/initializer/shgc_window/glass_thermal_balance.py Glass.get_temp_and_r'),
          ('gas', '../notebook/initializer/shgc_window/glass_thermal_balance.py MixedAirProperty'), ('gap', '../notebook/initializer/shgc_window/glass_thermal_balance.py AirLayer')], GRID,
         'All words of up to four (five) of six panes; mixtures of four gases in steps of 3.7 (1.3) percent; all glazings of one and two and every 40th of three panes (thorough: all of three) of five coated or laminated panes '
         'and five gaps, times five climates, four suns and three methods.')
