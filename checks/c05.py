"""C05 who gets heated or cooled, to which operative temperature, by which equipment and with which load."""
import numpy as np
from mc import coreexp, family, ref, runner


def monitor(t, x):
    m, o, L = x.m, x.out, x.L
    kw = {}
    sig = None
    if x.h.name in family.VENT_HOUSES:
        kw, sig = {'vnext_defect': True}, 'KF-INTERVENT'
    if x.h.name in family.ASYM_HOUSES:
        kw, sig = {'rear_defect': True}, 'KF-REAR'
    args = (x.st, L, o['mode'], x.v_out, o['q_hum'], x.st['x'])
    s = m.loads(*args)
    if s['gap'] < 1e-7:
        t.count(skipped_on_threshold=1)
        return
    a = m.loads(*args, **kw) if kw else None
    for nm, key, tol in (('operative temperature', 'ot', 1e-7), ('convective load', 'lc', 1e-3), ('radiant load', 'lr', 1e-3)):
        t.close(nm, o[key], s[key], tol, x.case, rtol=1e-8, sig_if=[(sig, a[key])] if a else None)
    # direct observations that need no prediction
    d = np.asarray(L['ac'], float)
    for i in range(m.ni):
        on = abs(o['lc'][i]) > 1e-6 or abs(o['lr'][i]) > 1e-6
        if o['mode'][i] in (ref.STOP_OPEN, ref.STOP_CLOSE):
            t.check('no load while stopped', o['lc'][i] == 0 and o['lr'][i] == 0, x.case, 'load %r %r in mode %s' % (o['lc'][i], o['lr'][i], o['mode'][i]))
        if o['mode'][i] == ref.HEATING and d[i] == 1.0 and on:
            t.close('heated to the target', o['ot'][i], ref.ot_for_pmv(1.1, x.st['x'][i], -0.5), 1e-7, x.case)
        if o['mode'][i] == ref.COOLING and d[i] == 1.0 and on:
            t.close('cooled to the target', o['ot'][i], ref.ot_for_pmv(0.3, x.st['x'][i], 0.5), 1e-7, x.case)
        t.check('radiant capacity', -m.cap_c[i] - 1e-6 <= o['lr'][i] <= m.cap_h[i] + 1e-6, x.case,
                'radiant load %r outside -%r..%r' % (o['lr'][i], m.cap_c[i], m.cap_h[i]))
        t.outcome((x.h.name, i, int(o['mode'][i]), on, bool(o['lc'][i] > 1e-6), bool(o['lc'][i] < -1e-6), bool(o['lr'][i] > 1e-6),
                   bool(o['lr'][i] < -1e-6), bool(abs(o['lr'][i] - m.cap_h[i]) < 1e-6), bool(abs(o['lr'][i] + m.cap_c[i]) < 1e-6), float(d[i])))


def explore(run):
    run.assumptions = ['the target operative temperature is the one of PMV -0.5 (1.1 clo, heating) or +0.5 (0.3 clo, cooling) '
                       'at the humidity of the start of the step', 'partial demand interpolates between natural and target temperature']
    coreexp.standard(run, 'c05')


if __name__ == '__main__':
    runner.main('C05', 'model_checking',
                'every transition of the real time step from every state reached by all words up to the bound: loads and operative '
                'temperature against an independent solution of the step; distinct = mode x load kinds x saturation x demand', explore)
