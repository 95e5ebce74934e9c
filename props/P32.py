"""SelectBestReconstruction returns the fit with the smallest loss."""
import numpy as np
from symx.runner import Harness
from egenerator.manager.reconstruction.modules import reconstruction as rec

M = 'egenerator.manager.reconstruction.modules.reconstruction.'


def best(env, case):
    env.patch_np(rec)
    n = case['n']
    names = ['reco_%d' % i for i in range(n)]
    nan = [i in case.get('nan', ()) for i in range(n)]
    results, losses = {}, []
    for i, name in enumerate(names):
        l = float('nan') if nan[i] else env.real('loss%d' % i,
                                                 smp=(-50, 50))
        losses.append(l)
        results[name] = {'result': 'res%d' % i, 'result_trafo': 'rt%d' % i,
                         'result_object': 'obj%d' % i, 'loss_reco': l,
                         'loss_seed': 's%d' % i, 'seed_tensor_name': name,
                         'seed_from_previous_module': False,
                         'runtime': 'time%d' % i}
    # a reconstruction that is not among the candidates
    results['other'] = dict(results[names[0]], loss_reco=-1e9, result='no')
    before = {k: dict(v) for k, v in results.items()}
    order = case.get('order', list(range(n)))
    mod = rec.SelectBestReconstruction(None, None, None,
                                       [names[i] for i in order])
    out = mod.execute(None, results)
    idx = [i for i in range(n) if out['result'] == 'res%d' % i]
    env.check(len(idx) == 1, 'the result is one of the candidates')
    k = idx[0]
    if not all(nan):
        env.check(not nan[k], 'an invalid loss is not selected')
        for i in range(n):
            if not nan[i] and not nan[k]:
                env.check(losses[k] <= losses[i],
                          'no candidate has a smaller loss')
    for key, v in before[names[k]].items():
        if key == 'runtime':
            env.check(out.get('reco_runtime') == v and 'runtime' not in out,
                      'runtime of the winner is kept as reco_runtime')
        elif key == 'loss_reco':
            if not nan[k]:
                env.eq(out[key], v, 'loss of the winner')
        else:
            env.check(out[key] == v, 'every field belongs to the winner')
    same = all(set(results[m]) == set(before[m]) and all(
        results[m][q] is before[m][q] for q in before[m]) for m in before)
    env.check(same, 'the candidates are left alone')


CASES = [{'n': n} for n in (1, 2, 3, 4)] + [
    {'n': 3, 'nan': [0]}, {'n': 3, 'nan': [2]}, {'n': 3, 'nan': [0, 2]},
    {'n': 2, 'nan': [0, 1]}, {'n': 3, 'order': [2, 0, 1]},
    {'n': 4, 'order': [3, 1]} if False else {'n': 4, 'nan': [1],
                                             'order': [3, 1, 0, 2]}]
HARNESSES = [Harness(
    'select', best, CASES, [M + 'SelectBestReconstruction.execute'],
    'up to 4 (thorough 6) candidates, every real loss, NaN losses in the '
    'listed positions', thorough_cases=[{'n': 6}, {'n': 5, 'nan': [4]}])]
