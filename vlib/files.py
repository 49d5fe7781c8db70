"""Independent writers of the input formats dynaphopy reads."""
import numpy as np


def poscar(cell, elements, coords, direct=True, scale=1.0, style='new', title='generated', extra=False, kind=None,
           trailer=False, fmt='%20.12f'):
    """`cell` and cartesian `coords` are the true ones; the text holds them divided by `scale`."""
    runs = []
    for e in elements:
        if runs and runs[-1][0] == e:
            runs[-1][1] += 1
        else:
            runs.append([e, 1])
    L = []
    syms = ' '.join(r[0] for r in runs)
    L.append(syms if style == 'old' else title)
    L.append('  %r' % float(scale))
    for row in np.asarray(cell) / scale:
        L.append(' '.join(fmt % x for x in row))
    if style != 'old':
        L.append('   ' + syms)
    L.append('   ' + '  '.join(str(r[1]) for r in runs))
    L.append(kind or ('Direct' if direct else 'Cartesian'))
    for i, row in enumerate(np.asarray(coords) if direct else np.asarray(coords) / scale):
        L.append(' '.join(fmt % x for x in row) + ('  ' + elements[i] if extra else ''))
    if trailer:
        L.append('')
        for row in coords:
            L.append('  0.00000000E+00  0.00000000E+00  0.00000000E+00')
    return '\n'.join(L) + '\n'


def xdatcar(cell, elements, frac, scale=1.0, steps=None, fmt='%16.10f'):
    runs = []
    for e in elements:
        if runs and runs[-1][0] == e:
            runs[-1][1] += 1
        else:
            runs.append([e, 1])
    L = ['generated', '  %r' % float(scale)]
    for row in np.asarray(cell) / scale:
        L.append(' '.join('%18.10f' % x for x in row))
    L.append('   ' + ' '.join(r[0] for r in runs))
    L.append('   ' + ' '.join(str(r[1]) for r in runs))
    for t, frame in enumerate(frac):
        L.append('Direct configuration=%6d' % (steps[t] if steps is not None else t + 1))
        for row in frame:
            L.append(' '.join(fmt % x for x in row))
    return '\n'.join(L) + '\n'


def lammps_cell(cell):
    """Right-handed lower triangular form of `cell` (rows) and the rotation R with cell.R = lammps cell."""
    a, b, c = np.asarray(cell)
    ax = np.linalg.norm(a)
    bx = b.dot(a) / ax
    by = np.sqrt(b.dot(b) - bx ** 2)
    cx = c.dot(a) / ax
    cy = (b.dot(c) - bx * cx) / by
    cz = np.sqrt(c.dot(c) - cx ** 2 - cy ** 2)
    low = np.array([[ax, 0, 0], [bx, by, 0], [cx, cy, cz]])
    return low, np.linalg.inv(cell).dot(low)


def lammpstrj(low, frames, steps, origin=(0, 0, 0), labels='x y z', tilt=True, fmt='%18.10f'):
    """`low` lower triangular box (rows), `frames` in that orientation."""
    xy, xz, yz = low[1, 0], low[2, 0], low[2, 1]
    xlo, ylo, zlo = origin
    xhi, yhi, zhi = xlo + low[0, 0], ylo + low[1, 1], zlo + low[2, 2]
    xb = (xlo + min(0, xy, xz, xy + xz), xhi + max(0, xy, xz, xy + xz))
    yb = (ylo + min(0, yz), yhi + max(0, yz))
    L = []
    for t, frame in enumerate(frames):
        L += ['ITEM: TIMESTEP', '%d' % steps[t], 'ITEM: NUMBER OF ATOMS', '%d' % len(frame)]
        if tilt:
            L += ['ITEM: BOX BOUNDS xy xz yz pp pp pp', '%.12f %.12f %.12f' % (xb[0], xb[1], xy),
                  '%.12f %.12f %.12f' % (yb[0], yb[1], xz), '%.12f %.12f %.12f' % (zlo, zhi, yz)]
        else:
            L += ['ITEM: BOX BOUNDS pp pp pp', '%.12f %.12f' % (xlo, xhi), '%.12f %.12f' % (ylo, yhi),
                  '%.12f %.12f' % (zlo, zhi)]
        L.append('ITEM: ATOMS %s ' % labels)
        for row in frame:
            L.append(' '.join(fmt % x for x in row) + ' ')
    return '\n'.join(L) + '\n'


def outcar(cell, elements, masses, frac, cart, frames=(), energies=(), potim=0.5):
    """A skeleton with the records of a VASP OUTCAR in their usual order and format."""
    runs, rm = [], []
    for e, m in zip(elements, masses):
        if runs and runs[-1][0] == e:
            runs[-1][1] += 1
        else:
            runs.append([e, 1])
            rm.append(m)
    rec = np.linalg.inv(cell).T
    L = [' vasp.5.3.3 18Dez12 (build) complex', '', ' INCAR:']
    for (e, k), m in zip(runs, rm):
        L += [' POTCAR:    PAW_PBE %s 05Jan2001' % e, '   VRHFIN =%s: s2p2' % e,
              '   POMASS =%9.3f; ZVAL   =    4.000    mass and valenz' % m]
    L += ['', ' POSCAR:  ' + ' '.join(r[0] for r in runs), '  positions in direct lattice', '',
          ' Dimension of arrays:',
          '   k-points           NKPTS =      1   k-points in BZ     NKDIM =      1   number of bands    NBANDS=     21',
          '   number of dos      NEDOS =    301   number of ions     NIONS = %6d' % len(elements),
          '   ions per type =            ' + ''.join('%4d' % r[1] for r in runs), '',
          ' SYSTEM =  unknown system', '',
          '   NSW    =    100    number of steps for IOM',
          '   POTIM  =%7.4f    time-step for ionic-motion' % potim, '',
          '  Mass of Ions in am', '   POMASS = ' + ''.join('%6.2f' % m for m in rm), '  Ionic Valenz',
          '   ZVAL   = ' + ''.join('%6.2f' % 4 for m in rm), '']

    def lattice():
        out = ['  energy-cutoff  :      300.00', '  volume of cell : %11.2f' % abs(np.linalg.det(cell)),
               '      direct lattice vectors                 reciprocal lattice vectors']
        for a, b in zip(cell, rec):
            out.append('  ' + ' '.join('%14.9f' % x for x in a) + '  ' + ' '.join('%14.9f' % x for x in b))
        return out + ['']
    L += lattice()
    L += [' position of ions in fractional coordinates (direct lattice) ']
    L += [' ' + ' '.join('%13.8f' % x for x in r) for r in frac]
    L += ['', ' position of ions in cartesian coordinates  (Angst):']
    L += [' ' + ' '.join('%13.8f' % x for x in r) for r in cart]
    L += ['']
    for f, e in zip(frames, energies):
        L += ['  energy without entropy =      %14.8f  energy(sigma->0) =     %14.8f' % (e + 3, e + 3),
              ' VOLUME and BASIS-vectors are now :', ' ' + '-' * 77]
        L += lattice()
        L += [' POSITION                                       TOTAL-FORCE (eV/Angst)', ' ' + '-' * 83]
        L += ['  ' + ' '.join('%14.8f' % x for x in r) + '         0.100000      0.200000      0.300000' for r in f]
        L += [' ' + '-' * 83, '    total drift:                                0.000000      0.000000      0.000000', '',
              '  FREE ENERGIE OF THE ION-ELECTRON SYSTEM (eV)', '  ---------------------------------------------------',
              '  free  energy   TOTEN  = %18.8f eV' % (e + 1), '',
              '  energy  without entropy=%17.8f  energy(sigma->0) =%17.8f' % (e + 2, e), '']
    return '\n'.join(L) + '\n'
