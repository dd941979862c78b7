"""The family of small houses and input alphabets that every check of the calculation core explores.

Each house is a point of: number of rooms x heating type x cooling type x furniture x inter-room air paths x inner walls
(symmetric / asymmetric rear surfaces) x ground x temperature-difference coefficients x storey x inside pressure x
convective share of radiant systems x boundary order.
"""
from mc.house import House, boundary, letter, space, spec_ground, spec_layers, spec_mass, spec_steady, spec_u

WALL = dict(rtot=0.9, a0=0.10, t0=0.01, r=(0.985, 0.8, 0.35))
LIGHT = dict(rtot=0.5, a0=0.15, t0=0.2, r=(0.6, 0.2, 0.05))
SLAB = dict(rtot=1.6, a0=0.03, t0=0.0005, r=(0.998, 0.9, 0.5))


def alphabet(nr, nj):
    """six letters of weather, internal gains, occupancy, demand, transmitted sun and outside surface temperature"""
    def v(*a):
        return [a[i % len(a)] for i in range(nr)]

    def w(base, *d):
        return [base + d[j % len(d)] for j in range(nj)]
    return [
        letter(nr, -6.0, 0.002, v(1.0, 0.7), v(1, 0.25), v(60., 25.), v(2e-5, 0.), v(0.02, 0.), v(0., 0.), w(-8., 0., 1., 2.5)),
        letter(nr, 33.0, 0.021, v(1.0, 1.0), v(2, 1), v(180., 60.), v(5e-5, 1e-5), v(0., 0.01), v(500., 100.), w(40., 0., 12., -4.)),
        letter(nr, 18.0, 0.009, v(1.0, 0.0), v(1, 0), v(90., 10.), v(1e-5, 0.), v(0., 0.), v(900., 250.), w(22., 0., 5.)),
        letter(nr, 9.0, 0.005, v(0.4, 1.0), v(3, 0), v(40., 300.), v(8e-5, 0.), v(0.03, 0.005), v(150., 900.), w(11., 3., 0.)),
        letter(nr, 27.0, 0.017, v(0.6, 0.3), v(0, 4), v(500., 700.), v(0., 9e-5), v(0., 0.), v(60., 20.), w(29., 0., 1., 9.)),
        letter(nr, 24.0, 0.012, v(0.0, 1.0), v(0, 1), v(0., 0.), v(0., 3e-5), v(0., 0.), v(0., 0.), w(24., 0.)),
    ]


def _room(k, i, scale=1.0, ground=False, td=None, furn=True):
    """boundaries of one room: outer wall, floor, window, roof"""
    bs = [
        boundary(k, i, 22.0 * scale, 2.5, spec_mass(**WALL)),
        boundary(k + 1, i, 14.0 * scale, 0.7, spec_mass(**SLAB), floor=True, flr=1.0, ground=ground,
                 k_out=1.0 if td is None or ground else td,
                 k_in=None if td is None or ground else {'id': k + 1, 'coef': 1.0 - td}),
        boundary(k + 2, i, 3.5 * scale, 2.5, spec_steady(0.22), sol=False),
        boundary(k + 3, i, 14.0 * scale, 5.0, spec_mass(**LIGHT)),
    ]
    return bs


def _mk(name, rooms, bs, **kw):
    h = House(rooms, bs, alphabet(len(rooms), len(bs)), **kw)
    h.name = name
    return h


def houses():
    out = []
    # single rooms, all equipment pairs
    for heat in ('convective', 'radiative', 'none'):
        for cool in ('convective', 'radiative', 'none'):
            out.append(_mk('1room-%s-%s' % (heat, cool),
                           [space(0, 38.0, mech=0.006, natural=0.05, heat=heat, cool=cool, heat_cap=900., cool_cap=450.,
                                  beta=0.35 if heat == 'radiative' and cool == 'radiative' else 0.0)],
                           _room(0, 0, td=0.85),
                           story=1 if heat == 'convective' else 2, c_value=4.0,
                           pressure={'convective': 'balanced', 'radiative': 'positive', 'none': 'negative'}[cool]))
    # ground floor, almost no furniture
    out.append(_mk('1room-ground', [space(0, 30.0, mech=0.004, natural=0.02, furn=False)], _room(0, 0, ground=True),
                   story=1, pressure='negative', c_value=5.0))
    # two rooms with a pair of inner walls, symmetric in every respect that enters the surface coefficients
    bs = _room(0, 0) + _room(4, 1)
    bs += [boundary(8, 0, 9.0, 2.5, spec_mass(**LIGHT), k_out=0.0, k_in={'id': 9, 'coef': 1.0}),
           boundary(9, 1, 9.0, 2.5, spec_mass(**LIGHT), k_out=0.0, k_in={'id': 8, 'coef': 1.0})]
    out.append(_mk('2room-inner', [space(0, 35.0, mech=0.005, natural=0.04, n_rooms=2, heat='radiative', heat_cap=700.),
                                   space(1, 28.0, mech=0.0, natural=0.0, n_rooms=2)], bs, c_value=3.0))
    # floor/ceiling pair with different surface coefficients and different room sizes (F7)
    bs = _room(0, 0) + _room(4, 1, 0.6)
    bs += [boundary(8, 0, 9.0, 0.7, spec_mass(**LIGHT), k_out=0.0, k_in={'id': 9, 'coef': 1.0}, floor=True, flr=0.4),
           boundary(9, 1, 9.0, 5.0, spec_mass(**LIGHT), k_out=0.0, k_in={'id': 8, 'coef': 1.0})]
    bs[1]['flr'] = 0.6
    out.append(_mk('2room-inner-asym', [space(0, 35.0, mech=0.005, natural=0.04, n_rooms=2, heat='radiative', heat_cap=700.),
                                        space(1, 20.0, mech=0.002, natural=0.02, n_rooms=2)], bs, c_value=3.0))
    # two rooms with air paths
    bs = _room(0, 0) + _room(4, 1, 0.8)
    out.append(_mk('2room-vent', [space(0, 35.0, mech=0.010, natural=0.04, nxt=[0.0, 0.0], n_rooms=2),
                                  space(1, 25.0, mech=0.001, natural=0.02, nxt=[0.012, 0.0], n_rooms=2)], bs, c_value=3.0))
    # three rooms, interleaved boundaries, mixed equipment, no air paths, symmetric coefficients not needed (no inner walls)
    r0, r1, r2 = _room(0, 0), _room(4, 1, 0.7, td=0.7), _room(8, 2, 1.3, ground=True)
    order = [r2[1], r0[0], r1[3], r0[2], r1[0], r2[3], r0[1], r1[1], r2[0], r1[2], r2[2], r0[3]]
    remap = {b['id']: n for n, b in enumerate(order)}
    for n, b in enumerate(order):
        b['id'] = n
        if b['k_inside'] is not None:
            b['k_inside'] = {'id': remap[b['k_inside']['id']], 'coef': b['k_inside']['coef']}
    out.append(_mk('3room-interleaved', [space(0, 40.0, mech=0.008, natural=0.05, n_rooms=3, cool='radiative', cool_cap=300.),
                                         space(1, 22.0, mech=0.0, natural=0.0, n_rooms=3, heat='radiative', heat_cap=500., beta=0.2),
                                         space(2, 60.0, mech=0.01, natural=0.03, n_rooms=3, heat='none', cool='none')], order,
                   story=1, pressure='balanced'))
    return out


def grounds():
    """two rooms with three ground elements of different kind, none of them the first element of the house"""
    r0, r1 = _room(0, 0, ground=True), _room(4, 1, 0.7, ground=True)
    wall = boundary(8, 0, 6.0, 2.5, spec_mass(**dict(WALL, a0=0.14, rtot=1.2)), ground=True)
    order = [r0[0], r1[1], r1[2], wall, r0[3], r0[2], r1[0], r0[1], r1[3]]
    for n, b in enumerate(order):
        b['id'] = n
    return _mk('2room-grounds', [space(0, 35.0, mech=0.006, natural=0.03, n_rooms=2),
                                 space(1, 24.0, mech=0.0, natural=0.02, n_rooms=2, heat='radiative', heat_cap=400.)], order,
               story=1, pressure='negative')


TWELVE = (0.9985, 0.996, 0.985, 0.95, 0.9, 0.8, 0.7, 0.5, 0.35, 0.2, 0.08, 0.01)


def spec_twelve(rtot, a0, t0):
    """all twelve roots in use, the share of the gain falling with the speed of the root"""
    w = [(1 - r) ** -0.75 for r in TWELVE]
    w = [x / sum(w) for x in w]
    return {'method': 'response_factor', 'phi_a0': a0, 'phi_a1': [(rtot - a0) * w[k] * (1 - TWELVE[k]) for k in range(12)], 'phi_t0': t0,
            'phi_t1': [(1 - t0) * w[k] * (1 - TWELVE[k]) for k in range(12)], 'r': list(TWELVE)}


def extremes(nr, nj, f=1.0):
    """letters at the edges of what weather and use bring; f: how much larger the gains of the first room are"""
    def v(*a):
        return [a[i % len(a)] for i in range(nr)]

    def w(base, *d):
        return [base + d[j % len(d)] for j in range(nj)]
    out = [
        letter(nr, -26.0, 0.0003, v(1.0, 1.0, 1.0), v(0, 6, 1, 0.5), v(0., 900., 10.), v(0., 2e-4, 0.), v(0.), v(0.), w(-34., 0., 2., 5.)),
        letter(nr, 41.0, 0.029, v(1.0, 1.0, 1.0), v(12, 0, 3), v(2500., 0., 700.), v(6e-4, 0., 1e-5), v(0., 0.08), v(0., 0., 40.), w(45., 0., 3.)),
        letter(nr, 35.0, 0.010, v(1.0, 0.05, 0.9), v(0, 2), v(0.), v(0.), v(0.), v(5200., 0., 1700.), w(62., 18., -20., 3., 0.)),
        letter(nr, 2.0, 0.004, v(0.05, 1.0, 0.0, 0.97), v(0.3, 0, 9), v(0., 3000., 50.), v(0., 0., 5e-4), v(0.25, 0., 0.1), v(4000., 0.), w(-9., 0., 40.)),
        letter(nr, 20.0, 0.0, v(1.0), v(0), v(0.), v(0.), v(0.), v(0.), w(20., 0.)),
        letter(nr, 30.0, 0.0268, v(0.0, 1.0, 0.5), v(4, 1, 0), v(100., 20., 0.), v(3e-4, 1e-4), v(0., 0.02), v(0., 300.), w(30., 1.)),
        letter(nr, 12.0, 0.0085, v(0.999, 0.5, 1.0, 0.25), v(2, 0, 1), v(5., 100.), v(0., 2e-5), v(4e-5, 0.01), v(80., 0., 0.), w(8., 0., -3.)),
        letter(nr, 16.0, 0.011, v(0.001, 0.0, 0.6), v(1, 2, 3), v(1500., 0.), v(1e-4), v(0., 0., 0.3), v(0., 2600.), w(19., 0., 25.)),
    ]
    for l in out:
        for q in ('n_hum', 'q_gen', 'x_gen', 'v_loc', 'q_trs'):
            l[q] = [f * l[q][0]] + l[q][1:]
    return out


def wide():
    """houses beyond the small family, with the extreme letters added to the alphabet"""
    out = []

    def mk(name, rooms, bs, **kw):
        h = House(rooms, bs, alphabet(len(rooms), len(bs)) + extremes(len(rooms), len(bs)), **kw)
        h.name = name
        out.append(h)
    rac = {'installed': True, 'q_min': 700.0, 'q_max': 5800.0, 'v_min': 9.0, 'v_max': 21.0}
    # four rooms of the same shape in a ring, every room with other equipment; several saturate at once
    bs = []
    for i in range(4):
        bs += _room(6 * i, i)
        bs += [boundary(6 * i + 4, i, 8.0, 2.5, spec_mass(**LIGHT), k_out=0.0, k_in={'id': (6 * i + 6 + 5) % 24, 'coef': 1.0}),
               boundary(6 * i + 5, i, 8.0, 2.5, spec_mass(**LIGHT), k_out=0.0, k_in={'id': (6 * i - 6 + 4) % 24, 'coef': 1.0})]
    mk('4room-ring', [space(0, 35.0, mech=0.005, natural=0.04, n_rooms=4, heat='radiative', heat_cap=300., cool='radiative', cool_cap=150., beta=0.3),
                      space(1, 90.0, mech=0.0, natural=0.3, n_rooms=4, cool='radiative', cool_cap=80., rac=rac),
                      space(2, 12.0, mech=0.02, natural=0.0, n_rooms=4, heat='radiative', heat_cap=450., beta=0.6, rac=rac),
                      space(3, 50.0, mech=0.002, natural=0.1, n_rooms=4, heat='none')], bs, c_value=6.0, story=2, pressure='positive')
    # one large leaky room, all twelve roots in use, part of the floor to a fixed temperature
    bs = [boundary(0, 0, 95.0, 2.5, spec_twelve(1.4, 0.11, 0.02)), boundary(1, 0, 80.0, 0.7, spec_twelve(2.6, 0.05, 0.003), floor=True, flr=0.3, ground=True),
          boundary(2, 0, 26.0, 2.5, spec_steady(0.3), sol=False), boundary(3, 0, 80.0, 5.0, spec_twelve(3.5, 0.3, 0.1)),
          boundary(4, 0, 2.0, 2.5, spec_steady(0.24), k_out=0.7, k_in={'id': 4, 'coef': 0.3}),
          boundary(5, 0, 20.0, 0.7, spec_twelve(0.8, 0.2, 0.15), floor=True, flr=0.7, k_out=0.0, k_in={'id': 5, 'coef': 1.0})]
    mk('1room-large', [space(0, 240.0, mech=0.05, natural=0.8, heat='radiative', heat_cap=4000., beta=0.15, rac=rac)], bs, c_value=9.8, story=1, pressure='balanced')
    # a tiny and a large room without common walls, nearly no furniture in one
    bs = _room(0, 0, 0.15) + _room(4, 1, 2.5)
    mk('2room-uneven', [space(0, 5.0, mech=0.03, natural=0.002, n_rooms=2, furn=False, cool='radiative', cool_cap=180.),
                        space(1, 110.0, mech=0.0, natural=0.5, n_rooms=2, heat='none', cool='convective', rac=rac)], bs, c_value=0.9, story=2, pressure='balanced')
    # five rooms, hardly insulated
    bs = []
    for i in range(5):
        bs += [boundary(3 * i, i, 10.0 + 4 * i, 2.5, spec_steady(0.08 + 0.02 * i), sol=i % 2 == 0), boundary(3 * i + 1, i, 9.0, 0.7, spec_mass(**SLAB), floor=True, flr=1.0),
               boundary(3 * i + 2, i, 9.0, 5.0, spec_twelve(0.7, 0.1, 0.05))]
    mk('5room-thin', [space(i, 16.0 + 9 * i, mech=0.004 * i, natural=0.02 * (i % 3), n_rooms=5, heat=('convective', 'radiative', 'none')[i % 3],
                            cool=('radiative', 'convective', 'convective', 'none', 'radiative')[i], heat_cap=600. + 100 * i, cool_cap=250. * (i + 1),
                            beta=(0.0, 0.5, 0.0, 0.0, 1.0)[i]) for i in range(5)], bs, c_value=3.3, story=1, pressure='positive')
    # elements given by layers or U value; elements of one name, elements of the same layers in other surroundings; tiny pieces,
    # tiny rooms, hardly any surface that absorbs sun, and radiant systems without capacity
    thick, thin = [(0.075, 8.9), (2.2, 1.3)], [(0.1, 240.0)]
    bs = []
    for i in range(3):
        k = 8 * i
        s = (1.0, 0.6, 0.5)[i]
        bs += [boundary(k, i, 20.0 * s, 2.5, spec_layers(thick, 0.04), name='wall', sol=False),
               boundary(k + 1, i, 9.0 * s, 2.5, spec_layers(thin, 0.04), name='wall', sol=False),
               boundary(k + 2, i, 0.4 * s, 2.5, spec_u(2.33), name='door', sol=i != 1),
               boundary(k + 3, i, 6.0 * s, 2.5, spec_u(4.65), name='door', sol=False),
               boundary(k + 4, i, 0.3, 0.7, spec_ground(thin) if i else spec_layers(thin, 0.15), name='floor', floor=True, flr=0.03 if i != 1 else 0.3, ground=bool(i)),
               boundary(k + 5, i, 9.7 * s, 0.7, spec_ground(thick), name='floor', floor=True, flr=0.97 if i != 1 else 0.7, ground=True, sol=False),
               boundary(k + 6, i, 10.0 * s, 5.0, spec_layers(thick, 0.09), name='wall', sol=False, k_out=0.7, k_in={'id': k + 6, 'coef': 0.3}),
               boundary(k + 7, i, 5.0 * s, 2.5, spec_layers(thin, 0.11, 'internal'), name='wall', sol=False, k_out=0.0, k_in={'id': k + 7, 'coef': 1.0})]
    mk('3room-layers', [space(0, 42.0, mech=0.004, natural=0.05, n_rooms=3, heat='radiative', heat_cap=0.0, cool='radiative', cool_cap=0.0, beta=0.1),
                        space(1, 0.9, mech=0.003, natural=0.01, n_rooms=3, heat='radiative', heat_cap=25.0),
                        space(2, 25.0, mech=0.0, natural=0.02, n_rooms=3, cool='radiative', cool_cap=20.0)], bs, c_value=25.0, story=1, pressure='negative')
    # air paths of all sizes in all directions
    bs = _room(0, 0) + _room(4, 1, 0.6) + _room(8, 2, 1.4)
    mk('3room-vents', [space(0, 35.0, mech=0.010, natural=0.04, nxt=[0.0, 4e-5, 0.0], n_rooms=3), space(1, 22.0, mech=0.0, natural=0.02, nxt=[0.012, 0.0, 0.16], n_rooms=3, cool='radiative', cool_cap=200.),
                       space(2, 55.0, mech=0.001, natural=0.05, nxt=[2e-5, 0.004, 0.0], n_rooms=3, heat='radiative', heat_cap=350.)], bs, c_value=1.0)
    # six rooms, all cooled by air, every air conditioner another one; walls that hardly see their room again
    def ac(*v):
        return {'rac': dict(zip(('installed', 'q_min', 'q_max', 'v_min', 'v_max'), (True,) + v))}
    bs = []
    for i in range(6):
        k = 4 * i
        bs += [boundary(k, i, 7.0 + i, 2.5, spec_mass(**LIGHT), k_out=0.95, k_in={'id': k, 'coef': 0.05}), boundary(k + 1, i, 2.0, 2.5, spec_steady(0.22), sol=False),
               boundary(k + 2, i, 9.0, 0.7, spec_mass(**SLAB), floor=True, flr=1.0), boundary(k + 3, i, 5.0, 2.5, spec_steady(0.4), k_out=0.0, k_in={'id': k + 3, 'coef': 1.0})]
    mk('6room-cooled', [space(i, 20.0 + 4 * i, mech=(0.0, 0.07, 0.004)[i % 3], natural=0.03 * i, n_rooms=6, heat=('convective', 'none', 'radiative')[i % 3], heat_cap=500.,
                              **(ac(500., 2200. + 300. * i, 7. + i, 12.5 + i) if i % 2 else ac(1050. + 10. * i, 2600., 5., 11. + 0.1 * i))) for i in range(6)], bs, c_value=2.0)
    # a hall and a cupboard next to it, with flows, surfaces and systems of that size
    bs = [boundary(0, 0, 460.0, 9.5, spec_mass(**WALL)), boundary(1, 0, 520.0, 0.3, spec_mass(**SLAB), floor=True, flr=0.995), boundary(2, 0, 140.0, 2.5, spec_steady(0.2), sol=False),
          boundary(3, 0, 520.0, 5.0, spec_twelve(0.9, 0.1, 0.05)), boundary(4, 0, 0.02, 2.5, spec_mass(**LIGHT), k_out=0.98, k_in={'id': 4, 'coef': 0.02}),
          boundary(5, 0, 2.5, 0.7, spec_mass(**SLAB), floor=True, flr=0.005, k_out=0.99, k_in={'id': 5, 'coef': 0.01}),
          boundary(6, 1, 0.02, 2.5, spec_mass(**LIGHT), k_out=0.0, k_in={'id': 6, 'coef': 1.0}), boundary(7, 1, 3.0, 2.5, spec_mass(**WALL)),
          boundary(8, 1, 0.8, 0.7, spec_mass(**SLAB), floor=True, flr=1.0)]
    h = House([space(0, 4200.0, mech=1.8, natural=9.0, n_rooms=2, heat='radiative', heat_cap=25000., cool='radiative', cool_cap=18000., beta=0.4),
               space(1, 1.9, mech=0.65, natural=0.07, n_rooms=2, **ac(4000., 28000., 30., 95.))], bs, alphabet(2, 9) + extremes(2, 9, 15.0), c_value=1.2, story=2, pressure='negative')
    h.name = '2room-hall'
    out.append(h)
    # two rooms heated and cooled by small radiant systems, one in the sun while the other is cold and the other way round
    h = House([space(i, 18.0 + 7 * i, mech=0.004 + 0.003 * i, natural=0.02, n_rooms=2, heat='radiative', heat_cap=140. + 40 * i, cool='radiative', cool_cap=120. - 30 * i, beta=0.2 * i) for i in range(2)],
              _room(0, 0, 0.8) + _room(4, 1), alphabet(2, 8) + extremes(2, 8)
              + [letter(2, -3.0, 0.004, [1.0, 1.0], q_gen=[9000. * (1 - k), 9000. * k], theta_o_sol=[-3.0] * 8) for k in range(2)]
              + [letter(2, -3.0, 0.004, [1.0, 1.0], q_gen=[4500. * (1 - k), 5500. * k], theta_o_sol=[-3.0] * 8) for k in range(2)], c_value=1.0)
    h.name = '2room-opposite'
    out.append(h)
    # twelve rooms in a row, more than ten of everything: rooms, surfaces of one room, boundaries of one name; very light roofs in a very hot sun
    tin = {'method': 'response_factor', 'phi_a0': 0.1, 'phi_a1': [0.06, 0.12] + [0.0] * 10, 'phi_t0': 0.2, 'phi_t1': [0.47, 0.2475] + [0.0] * 10, 'r': [0.06, 0.505] + [0.0] * 10}
    bs = []
    for i in range(12):
        k = len(bs)
        g = i // 2          # neighbours of one size, so that a wall between them has the same coefficients on both sides
        bs += [boundary(k, i, 9.0 + 4 * (g % 3), 2.5, spec_mass(**WALL), name='wall'), boundary(k + 1, i, 8.0 + 2 * g, 0.7, spec_mass(**SLAB), name='floor', floor=True, flr=1.0, ground=i % 4 == 2),
               boundary(k + 2, i, 1.5 + 0.6 * g, 2.5, spec_steady(0.2 + 0.01 * i), name='window', sol=False), boundary(k + 3, i, 8.0 + 2 * g, 5.0, tin, name='roof')]
        for q in range((0, 9, 0, 0, 0, 21)[g]):
            bs.append(boundary(len(bs), i, 0.3 + 0.4 * (q % 7), 2.5, spec_steady(0.25) if q % 3 else spec_mass(**LIGHT), name='piece', sol=q % 2 == 0,
                               k_out=1.0 if q % 4 else 0.6, k_in=None if q % 4 else {'id': len(bs), 'coef': 0.4}))
    for i in range(0, 12, 2):
        k = len(bs)
        bs += [boundary(k, i, 7.0, 2.5, spec_mass(**LIGHT), name='inner', k_out=0.0, k_in={'id': k + 1, 'coef': 1.0}),
               boundary(k + 1, i + 1, 7.0, 2.5, spec_mass(**LIGHT), name='inner', k_out=0.0, k_in={'id': k, 'coef': 1.0})]
    sp = [space(i, 20.0 + 3 * ((5 * i) % 12), mech=0.001 * (i % 5), natural=0.015 * (i % 4), n_rooms=12, heat=('convective', 'radiative', 'none', 'radiative')[i % 4],
                cool=('convective', 'convective', 'radiative', 'none', 'radiative')[i % 5], heat_cap=300. + 60. * i, cool_cap=120. + 40. * i, beta=0.05 * (i % 3),
                rac={'installed': True, 'q_min': 500. + 20. * i, 'q_max': 2200. + 250. * i, 'v_min': 7.0 + 0.5 * i, 'v_max': 13.0 + i}) for i in range(12)]
    h = House(sp, bs, alphabet(12, len(bs)) + extremes(12, len(bs)) + [letter(12, 36.0, 0.018, 0.0, 1, 80., 3e-5, 0.0, [1500., 200., 0.] * 4, [94., 70., 44.] * (len(bs) // 3) + [60.] * (len(bs) % 3))],
              c_value=2.5, story=1, pressure='balanced')
    h.name = '12room-row'
    out.append(h)
    return out


def by_name(n):
    return [h for h in houses() + [grounds()] + wide() if h.name == n][0]


VENT_HOUSES = ('2room-vent', '3room-vents')
ASYM_HOUSES = ('2room-inner-asym',)
