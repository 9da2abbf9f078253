"""S22: Results do not depend on the number of processes.

The sub-checks of the other properties, whose oracles are independent of MPI,
are executed by real MPI processes: on each of them, the result must be the
right one.
"""

import importlib

from vp import mpi_pool
from vp.harness import Property, st

P = Property('S22',
    'Random cases of the sub-checks of the other properties and of scenarios '
    'for work distribution, shared memory, and groups of processes (see '
    'vp/mpi_scenarios.py), executed by 2-5 MPI processes on simulated nodes of '
    '1-5 processes, some of which are late by 0-2 ms before and after each '
    'communication. Non-trivial: so is the case of the sub-check.',
    ['Nodes are simulated by restricting which processes share memory.',
        'Files are written by the first process only.',
        'Functions that are documented to return results on the first process '
        'only may return anything on the others.'])

ONCE = {
    'S01': 'el el_sparse el_unit_cell ph ph_sparse elel',
    'S03': 'el el_short elel ph_irr',
    'S04': 'el elel ph elph',
    'S05': 'to_Voronoi wigner_2d',
    'S06': 'terms symmetry update',
    'S07': 'correction simple coupling supercell file',
    'S08': 'mesh3d',
    'S09': 'resize Fourier',
    'S10': 'path GMKG mesh',
    'S12': 'level',
    'S14': 'potential',
    'S16': 'jumps',
    'S17': 'models photoexcited insulator files',
    'S18': 'foreign ipi',
    'S19': 'hrdat wannier90 coulomb fildyn write_q quadrupoles',
    'S20': 'read_pwi pwi cell read_win win matdyn inputs poscar split',
    'S21': 'cube xsf bands eig decay orbitals pwo pp_density data load freq '
        'prtgkk projections',
    'S23': 'tetra symmetric',
    'S24': 'created files',
    'M': 'exit displacements',
    }

OFTEN = {
    'S01': 'ph_unit_cell elph elph_sparse',
    'S02': 'el ph elph elph_clear sample transform sample_matrix sample_orig',
    'S03': 'ph elph elph_update',
    'S05': 'wigner short_range_model',
    'S08': 'orbits symmetries complete complete_k dispersion',
    'S13': 'DOS double_delta isoline spectral',
    'S14': 'expansion finite_q triangle self_energy matsubara',
    'S15': 'susceptibility susceptibility2 polarization renormalize average '
        'Fan_Migdal Green_Kubo',
    'S16': 'eigen rotate sample connectivity wedge mapping unfolding '
        'polarization',
    'S17': 'derivatives history equivalent',
    'S18': 'xyz pwi save',
    'S19': 'band_coulomb flfrc epmatwp elph_roundtrip',
    'S21': 'wannier_functions binary xml patterns coupling epw',
    'S23': 'smeared',
    'S25': 'plot double_plot toBZ color rectify adjust_pixels',
    'S26': 'orbital2band interpolate',
    'S27': 'lattices diagrams superconductivity dispersions models figures',
    'M': 'maps distribute matrix shm_split shared_array SharedArray load Buffer '
        'coupling grid',
    }

FIXED = { # written and read in such a way that no process can be too early
    ('S21', 'xml'): dict(foreign=True),
    ('S24', 'files'): dict(name='tas2'),
    }


def subs(id):
    module = 'vp.mpi_scenarios' if id == 'M' else 'vp.checks.%s' % id.lower()
    return importlib.import_module(module).P.subs


SLOW = { # cases that take more than about 0.1 s
    'S01': 'ph_unit_cell elph_sparse',
    'S02': 'ph sample sample_orig elph',
    'S04': 'ph',
    'S06': 'update terms symmetry',
    'S07': 'file',
    'S17': 'models equivalent derivatives history',
    'S18': 'save xyz ipi foreign',
    'S23': 'tetra',
    'S24': 'files',
    'S26': 'interpolate',
    }


def build():
    pairs = []

    for weight, table in (1, ONCE), (2, OFTEN):
        for id, names in table.items():
            for name in names.split():
                slow = name in SLOW.get(id, '').split()
                pairs.extend([(id, name)] * weight * (1 if slow else 2))

    domains = {(id, name): st.fixed_dictionaries(dict(
        subs(id)[name].domain, **{key: st.just(value)
            for key, value in FIXED.get((id, name), dict()).items()}))
        for id, name in pairs}

    return st.sampled_from(pairs).flatmap(lambda pair: st.fixed_dictionaries(
        dict(property=st.just(pair[0]), sub=st.just(pair[1]),
            case=domains[pair])))


tasks = build()


def register(ranks, ranks_per_node, quick):
    lags = st.one_of(st.just([0] * ranks), st.just([2] + [0] * (ranks - 1)),
        st.lists(st.sampled_from([0, 0, 0, 0.1, 0.5, 2]), min_size=ranks,
        max_size=ranks))

    @P.sub('ranks_%d_node_%d' % (ranks, ranks_per_node), quick=quick,
        thorough=20 * quick, budget=240, limit=200, task=tasks, lag=lags)
    def test(c):
        return mpi_pool.run(ranks, ranks_per_node, c.lag,
            c.task['property'], c.task['sub'], c.task['case'])


register(2, 2, 500)
register(3, 3, 500)
register(4, 4, 450)
register(5, 5, 350)
register(2, 1, 300)
register(3, 2, 400)
register(4, 2, 400)
register(5, 3, 300)
