"""The implementation under test, driven one step at a time (explicit-state) or through core.calc (conformance)."""
import contextlib
import copy
import io
import os

import numpy as np

from mc import runner          # noqa  (puts /repo on sys.path)
from mc.house import TempDir


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


class Impl:
    """real transition function of the repository over the alphabet of a House"""

    def __init__(self, house, delta_t=900.0):
        from heat_load_calc.core import pre_calc_parameters, log, conditions, sequence
        self.house = house
        self.dt = delta_t
        with TempDir() as d:
            house.write(d)
            with quiet():
                self.pp, self.ppg = pre_calc_parameters.make_pre_calc_parameters(delta_t=delta_t, data_directory=d)
        self._logger = log.Logger(n_spaces=house.ni, n_boundaries=house.nj, n_step_main=len(house.letters))
        self._tick = sequence.run_tick
        self._init = conditions.initialize_conditions

    def initial(self):
        return self._init(n_spaces=self.house.ni, n_bdries=self.house.nj)

    def step(self, c, k):
        lg = self._logger
        c = copy.copy(c)                       # the explored state stays as it is, whatever a step does with its own
        for a, v in vars(c).items():
            if isinstance(v, np.ndarray):
                setattr(c, a, v.copy())
        c2 = self._tick(n=k, delta_t=self.dt, ss=self.pp, c_n=c, logger=lg, run_up=False)
        out = {'mode': np.array([int(m) for m in lg.operation_mode[:, k]]),
               'ot': lg.theta_ot[:, k].copy(), 'tr': lg.theta_r[:, k].copy(), 'x': lg.x_r[:, k].copy(),
               'mrt': lg.theta_mrt_hum[:, k].copy(), 'tf': lg.theta_frt[:, k].copy(), 'xf': lg.x_frt[:, k].copy(),
               'ei': lg.theta_ei[:, k].copy(), 'q_hum': lg.q_hum[:, k].copy(), 'x_hum': lg.x_hum[:, k].copy(),
               'lc': lg.l_cs[:, k].copy(), 'lr': lg.l_rs[:, k].copy(), 'lcl': lg.l_cl[:, k].copy(),
               'v_leak': lg.v_reak_is_ns[:, k].copy(), 'v_ntrl': lg.v_ntrl_is_ns[:, k].copy(),
               'hhc': lg.h_hum_c_is_n[:, k].copy(), 'hhr': lg.h_hum_r_is_n[:, k].copy(),
               'remarks': [str(s) for s in lg.space_remarks[:, k]],
               'ts': lg.theta_s[:, k].copy(), 'rear': lg.theta_rear[:, k].copy(), 'q': lg.qiall_s[:, k].copy()}
        return c2, out


def craft(c, **kw):
    """copy of conditions c with mode / tr / mrt / x / tf / xf replaced (lists per room)"""
    from heat_load_calc.core.operation_mode import OperationMode
    d = copy.copy(c)
    names = {'tr': 'theta_r_is_n', 'mrt': 'theta_mrt_hum_is_n', 'x': 'x_r_is_n', 'tf': 'theta_frt_is_n',
             'xf': 'x_frt_is_n', 'ei': 'theta_ei_js_n', 'q': 'q_srf_js_n'}
    for k, v in kw.items():
        if k == 'mode':
            a = np.empty((len(v), 1), dtype=object)
            a[:, 0] = [OperationMode(int(q)) for q in v]
            d.operation_mode_is_n = a
        else:
            setattr(d, names[k], np.array(v, dtype=float).reshape(-1, 1))
    return d


def state_of(c):
    """observable state handed to the next step"""
    f = lambda a: np.asarray(a, dtype=float).reshape(-1).copy()
    return {'mode': np.array([int(m) for m in np.asarray(c.operation_mode_is_n).reshape(-1)]),
            'tr': f(c.theta_r_is_n), 'mrt': f(c.theta_mrt_hum_is_n), 'x': f(c.x_r_is_n), 'tf': f(c.theta_frt_is_n),
            'xf': f(c.x_frt_is_n), 'ei': f(c.theta_ei_js_n), 'q': f(c.q_srf_js_n),
            'ta': np.array(c.theta_dsh_srf_a_js_ms_n, float), 'tt': np.array(c.theta_dsh_srf_t_js_ms_n, float)}


def state_key(st):
    return b''.join(np.asarray(st[k]).tobytes() for k in ('mode', 'tr', 'x', 'mrt', 'tf', 'xf', 'ei', 'q', 'ta', 'tt'))


def calc(house, rows, delta_t=900.0, n_d_run_up=0, n_d_run_up_build=0, n_d_main=None, outdir=None, **kw):
    """core.calc on the word `rows` (letter indices)"""
    from heat_load_calc.core import core
    nsh = int(round(3600.0 / delta_t))
    if n_d_main is None:
        n_d_main = len(rows) // (24 * nsh)
    with TempDir() as d:
        house.write(d, rows)
        with quiet():
            ds, dd = core.calc(input_data_dir=d, output_data_dir=outdir or d, n_step_hourly=nsh, n_d_main=n_d_main,
                               n_d_run_up=n_d_run_up, n_d_run_up_build=n_d_run_up_build, **kw)
    return ds, dd
