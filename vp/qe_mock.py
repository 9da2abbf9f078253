"""Stand-ins for q2qstar.x and q2r.x of Quantum ESPRESSO.

They support what interpolate_dynamical_matrices needs: q2qstar.x appends the
matrix at -q (the other points of the star are not considered), q2r.x reads
fildyn0 and all dynamical matrices and writes the force constants.
"""

import cmath
import re
import sys


def parse(name):
    """Read file with dynamical matrices."""

    with open(name) as f:
        lines = f.read().split('\n')

    ntyp, nat, ibrav = map(int, lines[2].split()[:3])
    celldm = list(map(float, lines[2].split()[3:]))

    if ibrav:
        raise SystemExit('unexpected lattice')

    at = [list(map(float, x.split())) for x in lines[4:7]]

    species = []
    for x in lines[7:7 + ntyp]:
        i, rest = x.split(None, 1)
        label, mass = re.match(r"'([^']*)'\s+(\S+)", rest).groups()
        species.append((label.strip(), float(mass)))

    atoms = []
    for x in lines[7 + ntyp:7 + ntyp + nat]:
        cols = x.split()
        atoms.append((int(cols[1]) - 1, list(map(float, cols[2:5]))))

    header = lines[2:7 + ntyp + nat]

    rest = '\n'.join(lines[7 + ntyp + nat:])

    polar = re.search('dielectric tensor', rest, re.IGNORECASE)
    eps = Z = None

    if polar:
        numbers = re.sub(r'effective charges.*|atom +# +\d+', '',
            rest[polar.end():].split('Diagonalizing')[0], flags=re.IGNORECASE)
        numbers = list(map(float, numbers.split()))
        eps = [numbers[3 * i:3 * i + 3] for i in range(3)]
        Z = [[numbers[9 + 9 * n + 3 * i:12 + 9 * n + 3 * i] for i in range(3)]
            for n in range(nat)]
        rest = rest[:polar.start()]

    blocks = []

    for block in re.split(r'dynamical +matrix in cartesian axes', rest,
            flags=re.IGNORECASE)[1:]:
        q = list(map(float, re.search(r'q = \((.*)\)', block).group(1).split()))
        cols = list(map(float, re.sub(r'.*q = \(.*\)', '', block).split()))
        D = {}
        step = 2 + 18
        for n in range(nat * nat):
            one = cols[step * n:step * (n + 1)]
            na, nb = int(one[0]) - 1, int(one[1]) - 1
            for i in range(3):
                for j in range(3):
                    D[na, nb, i, j] = complex(*one[2 + 6 * i + 2 * j:4 + 6 * i
                        + 2 * j])
        if len(D) != 9 * nat * nat or len(cols) != step * nat * nat:
            raise SystemExit('incomplete matrix')
        blocks.append((q, D))

    return dict(nat=nat, celldm=celldm, at=at, species=species, atoms=atoms,
        header=header, eps=eps, Z=Z, blocks=blocks)


def q2qstar(source, target):
    with open(source) as f:
        text = f.read()

    x = parse(source)

    polar = re.search(r'\n *dielectric tensor', text, re.IGNORECASE)
    tail = ''

    if polar:
        text, tail = text[:polar.start()], text[polar.start():]

    for q, D in list(x['blocks']):
        text += '\n     Dynamical  Matrix in cartesian axes\n\n'
        text += '     q = ( %14.9f%14.9f%14.9f ) \n\n' % tuple(-y for y in q)

        for na in range(x['nat']):
            for nb in range(x['nat']):
                text += '%5d%5d\n' % (na + 1, nb + 1)
                for i in range(3):
                    text += '  '.join('%12.8f%12.8f' % (D[na, nb, i, j].real,
                        -D[na, nb, i, j].imag) for j in range(3)) + '\n'

    with open(target, 'w') as f:
        f.write(text + tail)


def q2r(namelist):
    fildyn = re.search(r"fildyn *= *'([^']*)'", namelist).group(1)
    flfrc = re.search(r"flfrc *= *'([^']*)'", namelist).group(1)

    with open(fildyn + '0') as f:
        nq = list(map(int, f.readline().split()))
        count = int(f.readline())

    mesh = {}
    first = None

    for n in range(count):
        x = parse(fildyn + str(n + 1))
        first = first or x

        if x['header'] != first['header']:
            raise SystemExit('different headers')

        if x['eps'] is not None:
            first['eps'], first['Z'] = x['eps'], x['Z']

        for q, D in x['blocks']:
            m = []
            for i in range(3):
                y = sum(a * b for a, b in zip(q, x['at'][i])) * nq[i]
                if abs(y - round(y)) > 1e-4:
                    raise SystemExit('q point not on mesh')
                m.append(int(round(y)) % nq[i])
            mesh[tuple(m)] = D

    if len(mesh) != nq[0] * nq[1] * nq[2]:
        raise SystemExit('missing q points')

    nat = first['nat']

    with open(flfrc, 'w') as f:
        head = list(first['header'])
        del head[1] # 'Basis vectors'
        f.write('\n'.join(head) + '\n')

        if first['eps'] is None:
            f.write(' F\n')
        else:
            f.write(' T\n')
            for row in first['eps']:
                f.write('%24.12f%24.12f%24.12f\n' % tuple(row))
            for na in range(nat):
                f.write('%5d\n' % (na + 1))
                for row in first['Z'][na]:
                    f.write('%15.7f%15.7f%15.7f\n' % tuple(row))

        f.write('%4d%4d%4d\n' % tuple(nq))

        for i in range(3):
            for j in range(3):
                for na in range(nat):
                    for nb in range(nat):
                        f.write('%4d%4d%4d%4d\n' % (i + 1, j + 1, na + 1,
                            nb + 1))
                        for m3 in range(nq[2]):
                            for m2 in range(nq[1]):
                                for m1 in range(nq[0]):
                                    phi = 0
                                    for m, D in mesh.items():
                                        phi += D[na, nb, i, j] * cmath.exp(
                                            2j * cmath.pi * (m[0] * m1 / nq[0]
                                            + m[1] * m2 / nq[1]
                                            + m[2] * m3 / nq[2]))
                                    phi /= len(mesh)
                                    if abs(phi.imag) > 1e-6:
                                        raise SystemExit('complex')
                                    f.write('%4d%4d%4d  %18.11E\n' % (m1 + 1,
                                        m2 + 1, m3 + 1, phi.real))


if __name__ == '__main__':
    if sys.argv[1] == 'q2qstar':
        q2qstar(*sys.argv[2:4])
    else:
        q2r(sys.stdin.read())
