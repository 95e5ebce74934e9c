"""Multi-source models: geometry and routing of the parameters."""
from symx.runner import Harness
from props.P23 import CASES, M, TWO, naming, routing

F = [M + k for k in (
    'independent.IndependentMultiSource.get_source_parameters',
    'muon.default.DefaultMultiCascadeModel.get_source_parameters',
    'track.stochastic_track.StochasticTrackModel.get_source_parameters')]
N = [M.replace('multi_source.', 'source.base.Source.') + k for k in (
    'get_index', 'get_name', 'add_parameter_indexing')] + [
    M + 'base.MultiSource.get_parameters_and_mapping']
MORE = [
    dict(kind='muon', n=2), dict(kind='track', n=5, snow=TWO),
    dict(kind='independent', sources={'k2': 'other', 'k1': 'track',
                                      'k0': 'cascade'}, snow=TWO),
]
HARNESSES = [
    Harness('routing', routing, CASES + MORE, F,
            '2 events, 1 to 6 sources, arbitrary parameters'),
    Harness('naming', naming, CASES + MORE, N, 'every index of 2 to 17 parameters'),
]
