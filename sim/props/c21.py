""" C21: command line exploration survives any keyboard input """
import ast
import random
import sys

import numpy as np

from .. import session, world
from ..kernel import FAULTS, LINES, is_injected
from ..world import Judging, LEARNERS

ID = 'C21'
RUNS = {'quick': 4500, 'thorough': 100000}
BUDGET = 3_000_000
MIN_EVENTS = 2
LEVEL = 'exploration'
RULE = ('A simulated terminal (standard input and output of the process) answers the prompts of whole command line explorations, with every learner usable there: proper answers mixed with seeded junk, end of input, failing reads and '
        'writes, Ctrl-C at a prompt or at any line, and failures of the learner; then the same exploration runs again. A ledger of the answers is compared with the dataset at every prompt and after the end.')
STATE_MEASURE = 'learner, kind of prompt, kind of answer, number of labeled points, faults'
REAL = ['CommandLineExploration', 'ExplorationManager', 'PartitionedDataset', 'initial samplers', 'active learners of the library without partial labels']
STUBS = ['terminal (sys.stdin and sys.stdout)', 'one-nearest-neighbour learner (part of the runs)', 'the user']
ASSUMPTIONS = ['distinct rows, so that the points shown can be recognised', 'an end of input or a failure leaves the call as that exception', 'answers agree with the initial samplers which rely on true labels (stratified and fixed)']
NEEDS_EXT = True
LISTS = ['typed', 'faults']
NUMBERS = {'session.problem.data.n': 4}
SIMPLE = {'session.subsampling': None}
MUST_REACH = ['invalid-label', 'asked-again', 'lenient', 'stopped-by-user', 'exhausted', 'converged', 'eof', 'ctrl-c', 'read-error', 'write-error', 'line', 'learner-failed', 'second-run', 'junk-at-continue', 'batch', 'wrong-labels', 'stop-after-failure']
NAMES = [n for n in sorted(LEARNERS) if not LEARNERS[n].get('parts') and not LEARNERS[n].get('slow')] + ['stub', 'stub_batch', 'stub', 'stub_batch', 'random', 'simple', 'dsm_stub', 'random']
MASK = ('explore/partitioned.py', 'explore/index.py', 'explore/labeledset.py')
JUNK = ['', ' ', '   ', '2', '-1', '+1', '0.0', '1.0', '1e0', 'y', 'n', 'yes', 'no', 'quit', 'exit', 'None', 'nan', 'True', 'False', '01', '10', '00', '11', '0b1', '0x1', '1_0', '１', '٠', '०', '²', '1,0', '1;0', '[1]', "'1'", '0\x001', '1\x1a',
        'a' * 5000, '1 ' * 3000, '0 1 0 1 0 1 0 1', '1 1', '0 0 0', '\\1', '%d', '{}', '1 # yes', '1-0', '--', '\x1b[A', 'é', '☃', '\ud800', 'COUNT+', 'COUNT-', 'COMMA', 'GLUED', 'FLOAT', 'UNICODE', 'LETTER', 'TWO', 'NEGATIVE', 'LEADING', 'REPEAT']
CONTINUE = ['Y', 'N', ' y', 'y ', 'n ', 'Yes', 'NO', 'yn', 'ny', 'yes', 'no', '1', '0', 'j', 'q', 'y\tn', '']
LENIENT = ['SPACES', 'TABS', 'NBSP', 'CR']


def generate(rng, tier):
    s = session.gen_session(rng, NAMES, n=(3, 14), d=(1, 3), styles=('range',))
    name = s['learner']['name']
    wrong = rng.random() < .3 and name in ('stub', 'stub_batch', 'random')
    if wrong and s['sampler'] is not None and s['sampler']['kind'] != 'random':
        s['sampler'] = {'kind': 'random', 'size': rng.choice([1, 2])}
    p = rng.choice([0, .1, .3, .6])
    length = 60
    typed = [{'at': k, 'text': rng.choice(LENIENT) if rng.random() < .12 else rng.choice(JUNK), 'cont': rng.choice(CONTINUE)} for k in range(1, length) if rng.random() < p]
    faults = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        faults.append({'at': rng.randint(1, 20), 'where': rng.choice(['eof', 'ctrl-c', 'read-error', 'write-error', 'line', 'line', 'fit', 'next']), 'kind': rng.choice(['error', 'interrupt', 'memory', 'os']), 'line': int(10 ** rng.uniform(0, 2.7))})
    costly = bool(LEARNERS[name])
    return {'session': s, 'typed': typed, 'faults': faults, 'wrong': wrong, 'stop_at': rng.choice([None, 1, 2, 3, 8]) if not costly else rng.choice([1, 2, 4]), 'runs': rng.choice([1, 2]) if not costly else 1,
            'limit': rng.choice([None, None, s['max_iter']]), 'int': rng.random() < .3, 'answer_seed': rng.getrandbits(31)}


class Terminal:
    def __init__(self, plan, ctx, rows, truth):
        self.plan, self.ctx, self.truth = plan, ctx, truth
        self.rows = rows
        self.typed = {t['at']: t['text'] for t in plan['typed']}
        self.conts = {t['at']: t['cont'] for t in plan['typed']}
        self.faults = {}
        for f in plan['faults']:
            self.faults.setdefault(f['at'], f)
        self.reads, self.continues, self.screen, self.fired = 0, 0, '', None
        self.rng = random.Random(plan['answer_seed'])
        self.learner_fault = None
        self.write_fault = False
        self.start()

    def start(self):
        """ a new exploration """
        self.given, self.pending, self.manager, self.must_end, self.failed, self.continues = {}, None, None, None, False, 0
        self.eof = self.asks_again = self.may_end = False
        self.stale = True  # the learner may know about an earlier exploration

    # -- standard output
    def write(self, s):
        if self.write_fault:
            self.write_fault = False
            self.injected('write-error')
            raise FAULTS['os']()
        self.screen += s
        return len(s)

    def flush(self):
        pass

    def injected(self, kind):
        self.ctx.fault(kind)
        self.ctx.probe(kind)
        self.failed = True

    # -- standard input
    def readline(self, size=-1):
        LINES.disarm()
        self.reads += 1
        ctx = self.ctx
        shown, self.screen = self.screen, ''
        ctx.check(self.must_end is None, 'prompt-after-end', lambda: '{}: {!r}'.format(self.must_end, shown[-300:]))
        points = self.points(shown)
        kind = 'label' if points is not None else 'continue'
        ctx.check(not self.asks_again or kind == 'continue', 'junk-taken-as-yes', lambda: repr(shown[-300:]))
        self.asks_again = self.may_end = False
        with Judging('dataset'):
            self.settle(points)
        fault = self.faults.pop(self.reads, None)
        if fault is not None:
            self.strike(fault)
        text = self.typed.get(self.reads)
        ctx.state(self.plan['session']['learner']['name'], kind, text if text is None or text.isupper() else 'junk', len(self.given), fault and fault['where'])
        line = self.answer_label(points, text) if kind == 'label' else self.answer_continue(text)
        ctx.log(self.reads, kind, points, line[:60], len(self.given))
        return line + '\n'

    def strike(self, fault):
        where = fault['where']
        if where == 'eof':
            self.injected('eof')
            self.eof = True
            raise EOFError()
        if where in ('ctrl-c', 'read-error'):
            self.injected(where)
            raise FAULTS['interrupt' if where == 'ctrl-c' else 'os']()
        if where == 'write-error':
            self.write_fault = True
        elif where == 'line':
            LINES.arm(fault['line'], FAULTS[fault['kind']](), MASK)
        else:
            self.learner_fault = fault

    def points(self, shown):
        """ the points of the last prompt, if it asks for labels """
        end = shown.rfind(']]')
        if end < 0:
            return None
        start = shown.rfind('[[', 0, end)
        try:
            pts = [tuple(float(v) for v in p) for p in ast.literal_eval(shown[start:end + 2])]
        except (ValueError, SyntaxError, TypeError):
            return None
        for p in pts:
            self.ctx.check(p in self.rows, 'alien-point-shown', lambda: str(p))
        self.ctx.check(len(set(pts)) == len(pts) > 0, 'point-shown-twice', lambda: str(pts))
        return pts

    def answer_continue(self, text):
        if self.continues_left():
            if text is not None:
                text = text if text in JUNK and text not in ('y', 'n') and not text.isupper() and self.reads % 2 else self.conts[self.reads]
                self.ctx.probe('junk-at-continue')
                plain = text.strip().lower()
                if plain in ('n', 'no'):
                    self.may_end = True
                if plain not in ('y', 'yes'):
                    self.asks_again = True
                return text
            self.continues += 1
            return 'y'
        self.ctx.probe('stopped-by-user')
        if self.plan['faults'] and not self.faults and self.reads > 1:
            self.ctx.probe('stop-after-failure')
        self.must_end = 'the user stopped'
        return 'n'

    def continues_left(self):
        return self.plan['stop_at'] is None or self.continues < self.plan['stop_at']

    def answer_label(self, points, text):
        ctx = self.ctx
        if len(points) > 1:
            ctx.probe('batch')
        for p in points:
            ctx.check(p not in self.given, 'asked-twice', lambda: '{} was labeled already'.format(p))
        labels = [self.rng.randint(0, 1) if self.plan['wrong'] else self.truth[p] for p in points]
        if self.plan['wrong']:
            ctx.probe('wrong-labels')
        good = ' '.join(map(str, labels))
        line, kind = good, 'good'
        if text is not None:
            line, kind = self.render(text, good, labels), 'invalid'
            tokens = line.split()
            if line == good:
                kind = 'good'
            elif len(tokens) == len(labels) and set(tokens) <= {'0', '1'}:
                if [int(t) for t in tokens] != labels and not self.plan['wrong']:
                    line, kind = good, 'good'  # this learner or initial sampler relies on proper answers
                else:
                    kind = 'good' if line == ' '.join(tokens) else 'lenient'  # unusual white space: may be understood or refused
                    labels = [int(t) for t in tokens]
        ctx.probe({'good': 'answered', 'lenient': 'lenient', 'invalid': 'invalid-label'}[kind])
        self.pending = (kind, points, labels, line)
        return line

    def render(self, text, good, labels):
        first = good[0]
        return {'COUNT+': good + ' 1', 'COUNT-': ' '.join(good.split()[1:]), 'COMMA': good.replace(' ', ',') + ',', 'GLUED': good.replace(' ', '') + '0', 'FLOAT': good + '.0', 'UNICODE': good.replace('1', '１').replace('0', '０'),
                'LETTER': good + 'x', 'TWO': good[:-1] + '2', 'NEGATIVE': '-' + good, 'LEADING': '0' + good, 'REPEAT': first * 2, 'SPACES': '  ' + good.replace(' ', '   ') + ' ', 'TABS': good.replace(' ', '\t') + '\t',
                'NBSP': '\xa0' + good, 'CR': good + '\r'}.get(text, text)

    # -- judging
    def recorded(self):
        if self.manager is None:
            return {}
        X, y = self.manager.data.training_set()
        out = {}
        for row, label in zip(np.asarray(X).tolist(), np.asarray(y).tolist()):
            key = tuple(float(v) for v in row)
            self.ctx.check(key in self.rows and key not in out, 'dataset-corrupted', lambda: str(key))
            out[key] = label
        return out

    def settle(self, points, final=False):
        """ what became of the last answer """
        ctx = self.ctx
        there = self.recorded()
        if self.pending is not None:
            kind, shown, labels, line = self.pending
            self.pending = None
            new = {**self.given, **dict(zip(shown, labels))}
            if kind == 'invalid':
                ctx.check(there == self.given, 'invalid-answer-recorded', lambda: '{!r} for {}: {}'.format(line[:80], shown, {k: v for k, v in there.items() if k not in self.given}))
                ctx.check(final or points == shown, 'not-asked-again', lambda: 'after {!r} for {}: {}'.format(line[:80], shown, points))
                ctx.probe('asked-again')
            elif kind == 'good' and not final:
                ctx.check(there == new, 'answer-not-recorded', lambda: '{!r} for {}: {}'.format(line[:80], shown, {k: v for k, v in there.items() if k not in self.given}))
                self.given = new
            else:  # may have been refused, or a failure may have prevented it
                ctx.check(there in (self.given, new), 'answer-partly-recorded', lambda: '{!r} for {}: {}'.format(line[:80], shown, {k: v for k, v in there.items() if k not in self.given}))
                if there == self.given and not final:
                    ctx.check(points == shown, 'not-asked-again', lambda: 'after {!r} for {}: {}'.format(line[:80], shown, points))
                self.given = there
        ctx.check(there == self.given, 'labels-lost', lambda: 'dataset {} given {}'.format(there, self.given))
        ctx.check(len(self.given) < len(self.rows) or final, 'prompt-after-all-labeled', '')


def execute(plan, ctx):
    from aideme.explore.command_line_explore import CommandLineExploration
    from aideme.utils import metric_logger
    s = plan['session']
    b = session.build(s, ctx)
    X = b.problem.X
    if plan['int'] and not {'ext', 'data'} & set(LEARNERS[s['learner']['name']]):
        whole = np.round(X * 1000)
        if len(np.unique(whole, axis=0)) == len(whole):
            X = whole.astype(int)
    keys = [tuple(float(v) for v in row) for row in X.tolist()]
    if len(set(keys)) < len(keys):
        return
    term = Terminal(plan, ctx, set(keys), {k: int(v) for k, v in zip(keys, b.problem.y)})
    tap(b.learner, term)

    def criterion(manager, metrics):
        term.manager = manager
        ctx.check('earlier' not in metrics, 'stale-metrics', 'the criteria see metrics of an earlier exploration')
        done = plan['limit'] is not None and manager.iters >= plan['limit']
        if done:
            ctx.probe('converged')
            term.must_end = 'a convergence criterion was met'
        return done

    expl = CommandLineExploration(b.sampler, s['subsampling'], convergence_criteria=criterion)
    stdin, stdout = sys.stdin, sys.stdout
    for k in range(plan['runs']):
        if k:
            ctx.probe('second-run')
        term.start()
        X_run = np.array(b.problem.X if not X.dtype.kind == 'i' else X)
        sys.stdin = sys.stdout = term
        error = None
        metric_logger.log_metric('earlier', k)
        try:
            expl.run(X_run, b.learner)
        except BaseException as e:
            error = e
        finally:
            LINES.disarm()
            sys.stdin, sys.stdout = stdin, stdout
        if error is not None:
            if not (is_injected(error) or isinstance(error, EOFError) and term.eof):
                raise error
            if not isinstance(error, EOFError):
                term.failed = True
                if LINES.fired_at is not None:
                    ctx.probe('line')
                    ctx.fault('line')
            ctx.log('left by', type(error).__name__)
        with Judging('dataset'):
            answered, before = term.pending, len(term.given)
            term.settle(None, final=True)
            if error is None:
                ctx.check(answered is None or answered[0] != 'good' or len(term.given) == before + len(answered[1]), 'answer-not-recorded', 'the last answer is missing')
                done = len(term.given) == len(keys)
                if done:
                    ctx.probe('exhausted')
                ctx.check(done or term.must_end is not None or term.may_end, 'ended-early', lambda: 'after {} of {} labels, without being asked to'.format(len(term.given), len(keys)))
            ctx.check(sorted(tuple(float(v) for v in row) for row in X_run.tolist()) == sorted(keys), 'data-modified', '')
        term.learner_fault, term.write_fault = None, False
        ctx.log('end', len(term.given), term.must_end)


def tap(learner, term):
    """ failures of the learner """
    for name, where in (('fit_data', 'fit'), ('next_points_to_label', 'next')):
        def seam(*a, original=getattr(learner, name), where=where, **k):
            f = term.learner_fault
            if f is not None and f['where'] == where:
                term.learner_fault = None
                term.injected('learner-failed')
                raise FAULTS[f['kind']]()
            term.ctx.check(not term.stale, 'stale-learner', 'the learner was not cleared before its first use in an exploration')
            return original(*a, **k)
        setattr(learner, name, seam)

    def cleared(original=learner.clear):
        term.stale = False
        return original()
    learner.clear = cleared
