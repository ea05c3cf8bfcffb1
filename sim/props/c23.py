""" C23: the cache of compiled models survives crashes and disk errors """
import random
import sys
import types

import numpy as np

from ..disk import Crash, Disk, Process
from ..kernel import FAULTS, LINES, is_injected

ID = 'C23'
RUNS = {'quick': 5400, 'thorough': 100000}
BUDGET = 500_000
MIN_EVENTS = 2
LEVEL = 'exploration'
RULE = ('Sequences of simulated processes construct version spaces over compiled models on a simulated disk. Any operation on the disk may kill the process, lose the power (data and names which were not synchronised are lost), tear a write, '
        'fill the disk, fail, be interrupted or be preceded by another process. Once the faults stop, every construction must work with a complete model for its prior, and the second one must not compile.')
STATE_MEASURE = 'kind of failure and the operation hit, size of the model, what the process found in the cache'
REAL = ['StanLogisticRegressionSampler', 'StanBayesianLogisticRegression', 'BayesianLinearVersionSpace', 'pickle', 'Python file objects over real files of a scratch directory']
STUBS = ['pystan (a model which knows its code and whether it is complete)', 'durability of the disk', 'process ids']
ASSUMPTIONS = ['synchronising a file makes earlier name changes durable, as journaling file systems do', 'running processes have distinct ids']
NEEDS_EXT = False
LISTS = ['events']
NUMBERS = {'size': 1}
SIMPLE = {}
MUST_REACH = ['kill-at-write', 'power-at-write', 'enospc-at-write', 'kill-at-open', 'other-process', 'interrupted', 'compile-failed', 'cached', 'compiled', 'torn', 'line', 'pid-reused', 'after-power']
PRIORS = ['gaussian', 'cauchy', 'improper']


def generate(rng, tier):
    events = []
    priors = rng.choice([PRIORS, ['gaussian'], ['cauchy', 'improper']])
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        faults = []
        if rng.random() < .75:
            for _ in range(rng.choice([1, 1, 1, 2])):
                faults.append({'at': rng.choice([1, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 12, 30]), 'kind': rng.choice(['kill', 'kill', 'power', 'power', 'power', 'enospc', 'enospc', 'eio', 'interrupt']), 'cut': rng.choice([0, .01, .5, .9, .999, 1])})
        other = {'at': rng.randint(1, 8), 'prior': rng.choice(priors)} if rng.random() < .2 else None
        events.append({'prior': rng.choice(priors), 'pid': rng.choice([100, 100, 101, 102]), 'faults': faults, 'other': other, 'compile': rng.choice([None] * 8 + ['error', 'interrupt', 'memory']),
                       'line': int(10 ** rng.uniform(0, 1.8)) if rng.random() < .12 else None})
    return {'events': events, 'size': rng.choice([1, 100, 5000, 20000, 100000]), 'disk_seed': rng.getrandbits(31)}


class Compiler:
    compiled, used, fail, size = 0, None, None, 1


class StanModel:
    def __init__(self, file=None, model_name='anon_model', model_code=None, **kw):
        fail, Compiler.fail = Compiler.fail, None
        if fail is not None:
            raise FAULTS[fail]()
        Compiler.compiled += 1
        self.code = model_code
        self.module = random.Random(len(model_code)).randbytes(Compiler.size)
        self.end = len(self.module)

    @property
    def model_code(self):
        return self.code

    def sampling(self, data=None, iter=2000, warmup=None, thin=1, chains=4, **kw):
        Compiler.used = self
        n = (iter - (warmup or 0)) // thin

        class Fit:
            def extract(self, *a, **k):
                return {'beta': np.zeros((n, data['D'])) + .1}
        return Fit()


def install_pystan():
    m = types.ModuleType('pystan')
    StanModel.__module__ = 'pystan'
    m.StanModel = StanModel
    sys.modules['pystan'] = m


def use(prior):
    """ one construction, and one use of what was constructed """
    from aideme.active_learning.version_space.bayesian import BayesianLinearVersionSpace
    Compiler.used = None
    learner = BayesianLinearVersionSpace(n_samples=2, warmup=3, thin=1, sampler='stan', prior=prior)
    learner.fit(np.array([[0., 1.], [1., 0.]]), np.array([0., 1.]))
    return Compiler.used


MARK = {'gaussian': 'normal(', 'cauchy': 'cauchy(', 'improper': None}


def verify(ctx, model, prior, size, what):
    ctx.check(isinstance(model, StanModel), 'not-a-model', lambda: '{}: {!r}'.format(what, model))
    code = model.__dict__.get('code') or ''
    right = (MARK[prior] in code) if MARK[prior] else not any(m in code for m in MARK.values() if m)
    ctx.check(right and 'bernoulli_logit' in code, 'model-of-another-prior', lambda: '{}: {} for prior {}'.format(what, code[:300], prior))
    ctx.check(model.__dict__.get('end') == len(model.__dict__.get('module', b'')) == size, 'damaged-model', lambda: '{}: {} bytes of {}'.format(what, len(model.__dict__.get('module', b'')), size))


def execute(plan, ctx):
    Compiler.size, Compiler.compiled, Compiler.fail = plan['size'], 0, None
    install_pystan()
    import aideme.active_learning.version_space.bayesian  # noqa
    with Disk(ctx, plan['disk_seed']) as disk:
        complete, pids = set(), set()
        for k, e in enumerate(plan['events']):
            p = Process(e['pid'], e['faults'])
            if e['pid'] in pids:
                ctx.probe('pid-reused')
            pids.add(e['pid'])
            if e['other'] is not None:
                p.other[e['other']['at']] = lambda o=e['other']: other_process(plan, ctx, disk, o, complete)
            Compiler.fail = e['compile']
            before, was_complete = Compiler.compiled, set(complete)
            if e['line']:
                LINES.arm(e['line'], FAULTS['interrupt']())
            model, error = disk.run(p, lambda: use(e['prior']))
            LINES.disarm()
            Compiler.fail = None
            what = 'event {}'.format(k)
            if error is None:
                verify(ctx, model, e['prior'], plan['size'], what)
                reused(ctx, was_complete, e['prior'], Compiler.compiled - before, what)
                if not e['faults'] and not e['line']:
                    complete.add(e['prior'])
            else:
                if not (isinstance(error, Crash) or is_injected(error)):
                    raise error
                if isinstance(error, Crash):
                    ctx.probe('torn')
                elif LINES.fired_at is not None:
                    ctx.probe('line')
                    ctx.fault('line-interrupt')
                    LINES.fired_at = None
                elif isinstance(error, KeyboardInterrupt):
                    ctx.probe('interrupted')
                if e['compile'] and Compiler.compiled == before:
                    ctx.probe('compile-failed')
                    ctx.fault('compile-failed')
            if any(f['kind'] == 'power' for f in e['faults']) and p.dead:
                ctx.probe('after-power')
                complete.clear()
            ctx.log('event', k, e['prior'], type(error).__name__, Compiler.compiled)
            ctx.state([(f['kind'], f['at']) for f in e['faults']], p.ops, plan['size'], type(error).__name__, e['prior'] in complete)
        # the faults are over
        for prior in sorted({e['prior'] for e in plan['events']}) * 2:
            before = Compiler.compiled
            model, error = disk.run(Process(100), lambda: use(prior))
            ctx.check(error is None, 'construction-fails', lambda: 'prior {}: {}: {}'.format(prior, type(error).__name__, error))
            verify(ctx, model, prior, plan['size'], 'afterwards')
            reused(ctx, complete, prior, Compiler.compiled - before, 'afterwards')
            complete.add(prior)
            ctx.log('after', prior, Compiler.compiled - before)


def reused(ctx, complete, prior, compiled, what):
    ctx.probe('compiled' if compiled else 'cached')
    ctx.check(not (prior in complete and compiled), 'compiled-again', lambda: '{}: the model for prior {} was cached completely'.format(what, prior))


def other_process(plan, ctx, disk, o, complete):
    ctx.probe('other-process')
    ctx.fault('other-process')
    fail, Compiler.fail = Compiler.fail, None
    used = Compiler.used
    before = Compiler.compiled
    at, LINES.at = LINES.at, None
    model, error = disk.run(Process(500), lambda: use(o['prior']))
    LINES.at = at
    ctx.check(error is None, 'construction-fails', lambda: 'in another process, prior {}: {}: {}'.format(o['prior'], type(error).__name__, error))
    verify(ctx, model, o['prior'], plan['size'], 'in another process')
    reused(ctx, complete, o['prior'], Compiler.compiled - before, 'in another process')
    complete.add(o['prior'])
    Compiler.fail, Compiler.used, Compiler.compiled = fail, used, before
