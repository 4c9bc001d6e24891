"""Independent writer of RAW files for the bounded harnesses: it follows the published format, not the package."""
import os
import struct

import numpy as np

PLOTS = {
    'tran': 'Transient Analysis', 'ac': 'AC Analysis', 'dc': 'DC transfer characteristic', 'op': 'Operating Point',
    'noise': 'Noise Spectral Density - (V/Hz\u00bd or A/Hz\u00bd)', 'tf': 'Transfer Function',
}


def header(enc, plot, flags, names, types, npts, command='Linear Technology Corporation LTspice XVII', title='* test',
           extra=()):
    h = [f'Title: {title}', 'Date: Mon Jan  1 00:00:00 2024', f'Plotname: {plot}', f'Flags: {flags}',
         f'No. Variables: {len(names)}', f'No. Points: {npts:12}', 'Offset:   0.0000000000000000e+000',
         f'Command: {command}', *extra, 'Variables:']
    h += [f'\t{i}\t{n}\t{t}' for i, (n, t) in enumerate(zip(names, types))]
    return h


def write(path, plot, names, types, cols, layout='binary', enc='utf_16_le', flags=(), cplx=False, double=False,
          always_double=False, axis_double=False, command='Linear Technology Corporation LTspice XVII', title='* test', extra=()):
    """cols: list of arrays.  returns the arrays as they are stored"""
    n = len(cols[0])
    fl = ['complex' if cplx else 'real'] + (['double'] if double else []) + list(flags)
    if layout == 'fast':
        fl.append('fastaccess')
    dts = []
    for i in range(len(cols)):
        if cplx:
            dts.append(np.float64 if (i == 0 and axis_double) else np.complex128)
        elif i == 0 or double or always_double:
            dts.append(np.float64)
        else:
            dts.append(np.float32)
    st = [np.asarray(np.real(c) if not np.issubdtype(d, np.complexfloating) else c).astype(d) for c, d in zip(cols, dts)]
    h = header(enc, plot, ' '.join(fl), names, types, n, command, title, extra)
    with open(path, 'wb') as f:
        for l in h:
            f.write((l + '\n').encode(enc))
        if layout == 'ascii':
            f.write('Values:\n'.encode(enc))
            for p in range(n):
                for i, c in enumerate(st):
                    v = c[p]
                    s = f'{v.real:.17g},{v.imag:.17g}' if np.iscomplexobj(c) else f'{float(v):.17g}'
                    f.write(((f'{p}\t' if i == 0 else '\t') + s + '\n').encode(enc))
        else:
            f.write('Binary:\n'.encode(enc))
            if layout == 'fast':
                for c in st:
                    f.write(c.tobytes())
            else:
                for p in range(n):
                    for c in st:
                        f.write(c[p].tobytes())
    return st


def names_for(r, k, kind, odd=True):
    ax = {'tran': ('time', 'time'), 'ac': ('frequency', 'frequency'), 'noise': ('frequency', 'frequency'),
          'dc': ('v1', 'voltage'), 'op': ('V(in)', 'voltage'), 'tf': ('Transfer_function', 'transfer')}[kind]
    names, types = [ax[0]], [ax[1]]
    pool = ['V(out)', 'V(n001)', 'V(n002)', 'I(R1)', 'I(C1)', 'Ix(u1:VCC)', 'V(a,b)', 'I(L1)', 'V(x1:5)', 'Id(M1)', 'V(n_003)', 'V(+5v)', 'i(v2)', 'v(lo)']
    if odd:
        pool += [f'{ax[0]}2', 'V(n0)', 'I(R1', 'V(out)*', '*x', 'I(R10)', 'v(OUT2)', 'V(a b)', 'n001', 'V:R1', 'V(ü)', 'frequency_x']
    r.shuffle(pool)
    for i in range(k - 1):
        names.append(pool[i] if i < len(pool) else f'V(z{i})')
        types.append(r.choice(['voltage', 'device_current', 'subckt_current', 'Voltage', 'dB', 'param', 'time'])
                     if r.random() < .3 else 'voltage' if names[-1].startswith('V') else 'device_current')
    return names, types


def samples(r, n, cplx=False):
    def one():
        k = r.random()
        if k < .1:
            return 0.0
        if k < .5:
            return r.randint(-1000, 1000) / 8
        return r.uniform(-1, 1) * 10 ** r.randint(-12, 9)
    if cplx:
        return np.array([complex(one(), one()) for _ in range(n)])
    return np.array([one() for _ in range(n)])


def axis(r, n):
    x = [r.choice([0.0, 1e-9, 1.0, 0.001])]
    for _ in range(n - 1):
        x.append(x[-1] + r.choice([1e-9, 1e-3, .5, 1, 2]) * r.choice([1, 2, 3]))
    return np.array(x)
