"""Setup files (the documented input of the command-line workflow) generated from the specs of vlib/models.py."""
import os
import numpy as np
from . import models as M


def tel(ins):
    return ins['suffix']


def all_data(spec, layout='blocks', extra=None):
    """rows (time, velocity, error, instrument, {decorrelation columns}, index within the instrument)"""
    per = []
    for i, ins in enumerate(spec['insts']):
        t, v, e = M.data(i, ins['n'], ins['sort'])
        d = {x: M.decorr_vec(ins, x, i) for x in sorted({y for z in spec['insts'] for y in z['decorr']})}
        per.append([(t[j], v[j], e[j], ins['suffix'], {x: d[x][j] for x in d}) for j in range(ins['n'])])
    if extra:
        per.append([(M.T0 + 5.5 * j, 500.0 + j, 2.0, extra, {x: 0.0 for x in (per[0][0][4])}) for j in range(4)])
    if layout == 'blocks':
        rows = [r for b in per for r in b]
    elif layout == 'reversed-blocks':
        rows = [r for b in per[::-1] for r in b]
    elif layout == 'interleaved':
        rows = []
        for j in range(max(map(len, per))):
            rows += [b[j] for b in per if j < len(b)]
    elif layout == 'by-time':
        rows = sorted((r for b in per for r in b), key=lambda r: r[0])
    else:
        raise ValueError(layout)
    return rows


def setup_text(spec, values=None, vary=None, layout='blocks', extra=None, index='plain', priors=(), stellar=None, planet=None,
               starname='star_x', more='', via=None, bjd0=None, logjit=False, default_kernel=False):
    vals = M.start_values(spec)
    vals.update(values or {})
    vary = dict(vary or {})
    linear = {'gamma' + ('_' + x['suffix'] if x['suffix'] else '') for x in spec['insts'] if x['linear']}
    rows = all_data(spec, layout, extra)
    cols = sorted(rows[0][4])
    out = ["import numpy as np", "import pandas as pd", "import radvel", "",
           "starname = %r" % starname, "nplanets = %d" % spec['npl'],
           "instnames = %r" % [x['suffix'] for x in spec['insts']], "ntels = len(instnames)",
           "fitting_basis = %r" % spec['basis'],
           "bjd0 = %r" % (0. if bjd0 is None else bjd0),
           "time_base = %r" % float(spec.get('time_base', M.T0 + 20.0))]
    lett = {int(k): v for k, v in spec['letters'].items()} if spec.get('letters') else None
    if lett:
        out.append("planet_letters = %r" % lett)
    basis = spec['basis'].split()
    orb = [b + str(n) for n in range(1, spec['npl'] + 1) for b in basis]
    if via:
        # described in another basis and converted by the setup file itself, as the documentation shows
        from . import oracle as O
        out.append("anybasis_params = radvel.Parameters(nplanets, basis=%r, planet_letters=%r)" % (via, lett))
        for n in range(1, spec['npl'] + 1):
            o = O.to_synth(spec['basis'], {k: vals[k + str(n)] for k in basis})
            for k, v in O.from_synth(via, *o).items():
                out.append("anybasis_params['%s%d'] = radvel.Parameter(value=%r)" % (k, n, float(v)))
        tgt = 'anybasis_params'
    else:
        out.append("params = radvel.Parameters(nplanets, basis=fitting_basis, planet_letters=%r)" % (lett,))
        for k in orb:
            out.append("params[%r] = radvel.Parameter(value=%r, vary=%r)" % (k, float(vals[k]), bool(vary.get(k, True))))
        tgt = 'params'
    rest = [k for k in vals if k not in orb]
    late = [k for k in rest if k.startswith(('gamma', 'jit', 'c1_'))]
    for k in [x for x in rest if x not in late]:
        out.append("%s[%r] = radvel.Parameter(value=%r, vary=%r)" % (tgt, k, float(vals[k]), bool(vary.get(k, True))))
    if via:
        out.append("params = anybasis_params.basis.to_any_basis(anybasis_params, fitting_basis)")
        for k in orb:
            out.append("params[%r].vary = %r" % (k, bool(vary.get(k, True))))
    out.append("data = pd.DataFrame(dict(time=%r, mnvel=%r, errvel=%r, tel=%r%s))" % (
        [float(r[0]) for r in rows], [float(r[1]) for r in rows], [float(r[2]) for r in rows], [r[3] for r in rows],
        ''.join(", %s=%r" % (c, [float(r[4][c]) for r in rows]) for c in cols)))
    if index == 'gaps':
        out.append("data.index = 3 * np.arange(len(data)) + 2")
    elif index == 'duplicate':
        out.append("data.index = np.arange(len(data)) // 2")
    elif index == 'reversed':
        out.append("data.index = np.arange(len(data))[::-1]")
    for k in late:
        if logjit and k.startswith('jit'):
            out.append("params[%r] = radvel.Parameter(value=%r, vary=%r)" % (k.replace('jit', 'logjit'), float(np.log(vals[k])), bool(vary.get(k, True))))
        else:
            out.append("params[%r] = radvel.Parameter(value=%r, vary=%r, linear=%r)" % (k, float(vals[k]), bool(vary.get(k, k not in linear)), k in linear))
    gp = {x['suffix']: M.hnames(x) for x in spec['insts'] if ':' in x['kind']}
    if gp:
        out.append("hnames = %r" % gp)
        # default_kernel: True leaves the kernel names out altogether, 'some' leaves out only the entries that ask for the default one
        if default_kernel is not True:
            out.append("kernel_name = %r" % {x['suffix']: x['kind'].split(':')[1] for x in spec['insts'] if ':' in x['kind'] and not (default_kernel and x['kind'] == 'gp:QuasiPer')})
    dec = sorted({d for x in spec['insts'] for d in x['decorr']})
    if dec:
        out.append("decorr_vars = %r" % dec)
    out.append("priors = [%s]" % ", ".join(priors))
    if stellar is not None:
        out.append("stellar = %r" % stellar)
    if planet is not None:
        out.append("planet = %r" % planet)
    out.append(more)
    return "\n".join(out) + "\n"


def write_setup(directory, name, *a, **kw):
    p = os.path.join(directory, name + '.py')
    with open(p, 'w') as f:
        f.write(setup_text(*a, **kw))
    return p
