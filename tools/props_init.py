GRID = 'exhaustive enumeration of a finite input space of the real functions (explicit-state, every point judged by an independent reference)'
YEAR = 'exhaustive walk over every step of the year for every region and interval, independent reference and relations between runs'


def define(prop):
    prop('C12', 'Moist air: saturation pressure, humidity ratio and relative humidity agree',
         'The saturation vapour pressure is the standard one over water from 0 degree C and over ice below, rises with temperature and is the same for single '
         'values and for arrays of any length, order and shape. Converting a vapour pressure to a humidity ratio and back returns it; relative humidity is the '
         'ratio of the pressures in percent.',
         ['inputs'], 'all temperatures from -60 to 100 degree C, all degrees of saturation, all arrangements of arrays',
         'The repository has no tests of these relations; one annual run touches a narrow range in one arrangement.',
         ['external/psychrometrics.py'], [('saturation pressure', 'external/psychrometrics.py get_p_vs'), ('conversions', 'external/psychrometrics.py get_x')], GRID,
         'Every hundredth (thorough: thousandth) of a degree and nine degrees of saturation; all words up to length 5 (7) over five temperatures around 0.')
    prop('C13', 'Weather of every region and interval represents the hourly record of the year',
         'For every climate region the outdoor temperature, direct, sky and night radiation and humidity at the full hours are those of the shipped hourly record, the record '
         'starting with 1 January 1:00 and the year closing on itself; steps within the hour lie on the straight line between the hours. The table has one row per step of '
         'a 365-day year with the right time stamps, also when written to a file, and does not depend on earlier requests.',
         ['inputs', 'configurations', 'histories'], 'all regions, intervals, steps of the year and orders of requests',
         'Tests look at a few hours of one region; the year has 35040 steps in eight regions and three intervals.',
         ['weather/weather.py', 'weather/weather_data.py', 'weather/calc_interval.py'],
         [('table', 'weather/weather.py make_weather'), ('interpolation', 'weather/weather_data.py')], YEAR,
         'The whole domain: 8 regions x 3 intervals x every step; ordered pairs of requests (all in the thorough tier).')
    prop('C14', 'The sun is where it should be at every step of the year in every region',
         'Sun altitude and azimuth at every step follow from latitude, longitude, day of the year and standard time of the Japanese meridian with the equation of time, '
         'azimuth measured from south, positive to the west. The sun stands in the east in the morning and in the west in the afternoon, noon altitude follows the seasons, '
         'and all intervals agree at common times.',
         ['inputs', 'configurations'], 'all regions and other sites, intervals and steps of the year',
         'Tests compare three instants of one site.',
         ['weather/solar_position.py', 'weather/region_location.py'], [('position', 'weather/solar_position.py calc_solar_position'), ('sites', 'weather/region_location.py')], YEAR,
         'The whole domain of the regions, plus a grid of other sites between 20 and 46 (60) degree north.')
    prop('C15', 'Radiation on a tilted surface: beam, sky, ground and night radiation',
         'A surface receives the beam in proportion to the cosine of incidence and nothing from behind, the sky and night radiation by the share of sky it sees, and the global '
         'horizontal radiation reflected by the ground by the remaining share. All parts are finite and never negative, a horizontal surface receives the global radiation, '
         'opposite walls never share the beam, and named directions point where they say.',
         ['inputs'], 'all sun positions, radiation states, azimuths and tilts',
         'No tests exist; faults show only for particular combinations of sun and orientation.',
         ['initializer/inclined_surface_solar_radiation.py', 'initializer/external_boundaries_direction.py'],
         [('radiation', 'initializer/inclined_surface_solar_radiation.py get_i_is_j_ns'), ('directions', 'initializer/external_boundaries_direction.py')], GRID,
         '24 altitudes x 73 azimuths x 20 radiation states for 10 directions and a grid of tilts, and the real years of all regions.')
    prop('C16', 'Windows transmit sun by glazing, incidence, area and overhang',
         'The sun entering through a window is its area times its solar gain coefficient times the beam reduced by the angle characteristic of its glazing and by the shadow of '
         'its overhang, plus sky radiation reduced by the overhang and ground reflection, both with the diffuse characteristic. Windows without overhang lose nothing to shading, '
         'windows not struck by the sun and elements that are not windows transmit nothing. The shadow is the geometric one and stays between none and all.',
         ['inputs', 'configurations'], 'all sun positions, radiation, directions, glazings, overhangs and regions',
         'No tests exist; the annual example has windows of one kind without overhangs.',
         ['initializer/transmission_solar_radiation.py', 'initializer/solar_shading.py', 'initializer/oblique_incidence_charac.py', 'initializer/boundary_simple.py'],
         [('transmission', 'initializer/transmission_solar_radiation.py'), ('overhang', 'initializer/solar_shading.py'), ('glazing', 'initializer/oblique_incidence_charac.py')], GRID,
         'As C15 for every direction, glazing and six overhangs; unshaded windows fail by a recorded finding and are held to its exact formula.')
    prop('C17', 'Outer side of every element sees the right temperature',
         'An opaque element struck by the sun sees outdoor air raised by absorbed radiation and lowered by night radiation over its outer resistance, a window only the night '
         'radiation. Elements not struck by the sun see outdoor air, elements to the ground the annual mean and inner elements nothing. Nothing else of the '
         'description has any influence.',
         ['inputs', 'configurations'], 'all sun positions, radiation states, directions, kinds of elements and surface properties',
         'No tests exist; one annual run samples a few elements.',
         ['initializer/outside_eqv_temp.py', 'initializer/boundary_simple.py'], [('temperature', 'initializer/outside_eqv_temp.py')], GRID,
         'As C15 for every kind of element, sun-struck or not, and four sets of surface properties.')
    prop('C18', 'Schedules of every room follow calendar, residents and floor area',
         'At every quarter hour of the year the internal heat, moisture, local ventilation, persons and conditioning demand of a room are those of the table for its kind of room and of '
         'day, linear between whole numbers of residents, with lighting per floor area and units of watt, kg/s and m3/s. The number of residents grows '
         'with the total floor area from one to four, and numbers outside the table are refused.',
         ['inputs', 'configurations'], 'all numbers of residents, lists of rooms, floor areas and steps of the year',
         'No tests exist; the annual example uses one number of residents.',
         ['initializer/schedule_loader.py', 'initializer/residents_number.py'],
         [('schedules', 'initializer/schedule_loader.py get_compiled_schedules'), ('residents', 'initializer/residents_number.py')], GRID,
         'Every step of the year for 37 (181) numbers of residents and all lists of rooms; cooking fails by a recorded finding and is held to its exact formula.')
    prop('C19', 'The house file and its tables say what the description of the house says',
         'Every room and element appears in the generated files with its own values: volume flows in m3/s from any set of air paths, furniture by volume, equipment with '
         'capacities, weights of radiant heat and of occupants that sum to one per room, temperature difference coefficients, facing elements and layer data, in any order. '
         'The tables hold one row per step and one column per room or element. The description itself is not changed and a second run writes the same.',
         ['inputs', 'configurations'], 'all descriptions of houses: rooms, elements, equipment, air paths, orders, regions',
         'Tests check the numbers of one annual example; few combinations of elements and equipment occur there.',
         ['initializer/initializer.py', 'initializer/boundary_simple.py', 'initializer/furniture.py', 'initializer/occupants_form_factor.py',
          'initializer/a12_indoor_radiative_heat_transfer.py', 'initializer/a22_radiative_heating_spec.py'],
         [('generation', 'initializer/initializer.py make_house')], GRID,
         'All words of up to two (three) of ten element kinds over two rooms, all equipment of two (three) rooms, all sets of air paths, all orders of five elements; '
         'whole-year tables of six houses in two (eight) regions.')
    prop('C20', 'Impossible descriptions of houses are refused and nothing is written',
         'A description whose room numbers do not count up from zero, that lacks the main occupant room or gives a kind of room twice, or that names an unknown storey, pressure, kind of room, '
         'equipment, element, direction, glazing or shading method, or lacks an entry it needs, is refused before any house file is written. Every description free of such faults is accepted.',
         ['inputs'], 'all words of room numbers and kinds, all single faults and pairs of faults',
         'No tests exist for refusals.',
         ['initializer/initializer.py', 'initializer/boundary_simple.py', 'initializer/solar_shading.py'],
         [('checks', 'initializer/initializer.py _make_spaces_dict'), ('kinds', 'initializer/boundary_type.py')], GRID,
         'All words up to length four; every fault with harmless settings (thorough: all pairs of faults).')
