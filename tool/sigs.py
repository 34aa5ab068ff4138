"""Documented signatures of the public functions: parameter names in order; 'required', 'optional' or the default value ('pi' is the number)."""
from fractions import Fraction

SIGS = {'astrodynx': {'kepler_equ_elps': [('E', 'required'), ('e', 'required'), ('M', 0)],
               'kepler_equ_hypb': [('H', 'required'), ('e', 'required'), ('N', 0)],
               'kepler_equ_uni': [('chi', 'required'), ('alpha', 1), ('r0', 1), ('sigma0', 0), ('deltat', 0), ('mu', 1)],
               'generalized_anomaly': [('alpha', 'required'), ('sigma', 'required'), ('sigma0', 'required'), ('deltat', 0), ('mu', 1)],
               'mean_anomaly_elps': [('a', 'required'), ('deltat', 'required'), ('mu', 1)],
               'mean_anomaly_hypb': [('a', 'required'), ('deltat', 'required'), ('mu', 1)],
               'solve_kepler_elps': [('M', 'required'), ('e', 'required'), ('tol', Fraction(1, 1000000)), ('max_iter', 20)],
               'solve_kepler_hypb': [('N', 'required'), ('e', 'required'), ('tol', Fraction(1, 1000000)), ('max_iter', 50)],
               'solve_kepler_uni': [('deltat', 'required'),
                                    ('alpha', 'required'),
                                    ('r0', 'required'),
                                    ('sigma0', 'required'),
                                    ('mu', 1),
                                    ('tol', Fraction(1, 1000000)),
                                    ('max_iter', 50)],
               'dE': [('E', 'required'), ('e', 'required')],
               'dH': [('H', 'required'), ('e', 'required')],
               'orb_period': [('a', 'required'), ('mu', 1)],
               'a_from_period': [('orbperiod', 'required'), ('mu', 1)],
               'angular_momentum': [('pos_vec', 'required'), ('vel_vec', 'required')],
               'semimajor_axis': [('r_mag', 'required'), ('v_mag', 'required'), ('mu', 1)],
               'eccentricity_vector': [('pos_vec', 'required'), ('vel_vec', 'required'), ('mu', 1)],
               'semiparameter': [('h_mag', 'required'), ('mu', 1)],
               'mean_motion': [('P', 'required')],
               'equ_of_orbit': [('p', 'required'), ('e', 'required'), ('f', 'required')],
               'equ_of_orb_uvi': [('U0', 'required'), ('U1', 'required'), ('U2', 'required'), ('r0', 'required'), ('sigma0', 'required')],
               'radius_periapsis': [('p', 'required'), ('e', 'required')],
               'radius_apoapsis': [('p', 'required'), ('e', 'required')],
               'semipara_from_ae': [('a', 'required'), ('e', 'required')],
               'a_from_pe': [('p', 'required'), ('e', 'required')],
               'rv2coe': [('pos_vec', 'required'), ('vel_vec', 'required'), ('mu', 1)],
               'coe2rv': [('p', 'required'), ('e', 'required'), ('incl', 'required'), ('raan', 'required'), ('argp', 'required'), ('true_anom', 'required'), ('mu', 1)],
               'inclination': [('h_vec', 'required')],
               'true_anomaly': [('pos_vec', 'required'), ('e_vec', 'required')],
               'right_ascension': [('node_vec', 'required')],
               'argument_of_periapsis': [('node_vec', 'required'), ('e_vec', 'required')]},
 'astrodynx.twobody': {'lagrange_F': [('U2', 'required'), ('r0_mag', 1)],
                       'lagrange_G': [('U1', 'required'), ('U2', 'required'), ('sigma0', 0), ('r0_mag', 1), ('mu', 1)],
                       'lagrange_Ft': [('U1', 'required'), ('r_mag', 'required'), ('r0_mag', 1), ('mu', 1)],
                       'lagrange_Gt': [('U2', 'required'), ('r_mag', 'required')],
                       'prpr0': [('r_vec', 'required'), ('v_vec', 'required'), ('r0_vec', 'required'), ('v0_vec', 'required'), ('F', 'required'), ('C', 'required'), ('mu', 1)],
                       'prpv0': [('r_vec', 'required'),
                                 ('v_vec', 'required'),
                                 ('r0_vec', 'required'),
                                 ('v0_vec', 'required'),
                                 ('F', 'required'),
                                 ('G', 'required'),
                                 ('C', 'required'),
                                 ('mu', 1)],
                       'pvpr0': [('r_vec', 'required'), ('v_vec', 'required'), ('r0_vec', 'required'), ('v0_vec', 'required'), ('Ft', 'required'), ('C', 'required'), ('mu', 1)],
                       'pvpv0': [('r_vec', 'required'),
                                 ('v_vec', 'required'),
                                 ('r0_vec', 'required'),
                                 ('v0_vec', 'required'),
                                 ('F', 'required'),
                                 ('Gt', 'required'),
                                 ('C', 'required'),
                                 ('mu', 1)],
                       'dxdx0': [('r_vec', 'required'), ('v_vec', 'required'), ('r0_vec', 'required'), ('v0_vec', 'required'), ('deltat', Fraction(157, 50)), ('mu', 1)],
                       'C_func': [('chi', 'required'), ('U2', 'required'), ('U4', 'required'), ('U5', 'required'), ('deltat', Fraction(157, 50)), ('mu', 1)],
                       'sigma_fn': [('pos_vec', 'required'), ('vel_vec', 'required'), ('mu', 1)],
                       'ufunc0': [('chi', 'required'), ('alpha', 'required')],
                       'ufunc1': [('chi', 'required'), ('alpha', 'required')],
                       'ufunc2': [('chi', 'required'), ('alpha', 'required')],
                       'ufunc3': [('chi', 'required'), ('alpha', 'required')],
                       'ufunc4': [('chi', 'required'), ('alpha', 'required')],
                       'ufunc5': [('chi', 'required'), ('alpha', 'required')],
                       'nmax_by_periapsis': [('rp_min', Fraction(97, 100)), ('r1', 1), ('r2', 1), ('tof', 'pi'), ('mu', 1)],
                       'is_short_way': [('r1', 'required'), ('v1', 'required'), ('r2', 'required')],
                       'pass_perigee': [('r1', 'required'), ('v1', 'required'), ('r2', 'required'), ('mu', 1)],
                       'rp_islower_rmin': [('rmin', 'required'), ('r', 'required'), ('v', 'required'), ('mu', 1)]},
 'astrodynx.gravity': {'point_mass_grav': [('t', 'required'), ('x', 'required'), ('args', {'mu': 1})],
                       'j2_acc': [('t', 'required'), ('x', 'required'), ('args', {'mu': 1, 'J2': 0, 'R_eq': 1})],
                       'j3_acc': [('t', 'required'), ('x', 'required'), ('args', {'mu': 1, 'J3': 0, 'R_eq': 1})],
                       'j4_acc': [('t', 'required'), ('x', 'required'), ('args', {'mu': 1, 'J4': 0, 'R_eq': 1})]},
 'astrodynx.events': {'radius_islow': [('t', 'required'), ('x', 'required'), ('args', {'rmin': 0})]},
 'astrodynx.utils': {'rotmat3dx': [('angle', 'required')], 'rotmat3dy': [('angle', 'required')], 'rotmat3dz': [('angle', 'required')]},
 'astrodynx.prop': {'kepler': [('ts', 'required'), ('r0_vec', 'required'), ('v0_vec', 'required'), ('mu', 1)],
                    'OrbDynx': [('terms', 'required'), ('args', 'optional'), ('event', 'optional')],
                    'cowell_method': [('orbdyn', 'required'),
                                      ('x0', 'required'),
                                      ('t1', 'required'),
                                      ('saveat', 'required'),
                                      ('dt0', 'optional'),
                                      ('max_steps', 'optional'),
                                      ('solver', 'optional'),
                                      ('stepsize_controller', 'optional')],
                    'custom_steps': [('orbdyn', 'required'),
                                     ('x0', 'required'),
                                     ('t1', 'required'),
                                     ('ts', 'required'),
                                     ('solver', 'optional'),
                                     ('stepsize_controller', 'optional')],
                    'fixed_steps': [('orbdyn', 'required'), ('x0', 'required'), ('t1', 'required'), ('dt', 'required'), ('max_steps', 'optional'), ('solver', 'optional')],
                    'adaptive_steps': [('orbdyn', 'required'),
                                       ('x0', 'required'),
                                       ('t1', 'required'),
                                       ('max_steps', 'optional'),
                                       ('solver', 'optional'),
                                       ('stepsize_controller', 'optional')],
                    'to_final': [('orbdyn', 'required'), ('x0', 'required'), ('t1', 'required'), ('solver', 'optional'), ('stepsize_controller', 'optional')]}}
