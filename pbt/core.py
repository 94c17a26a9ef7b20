"""Generated-case checks: definition, execution, shrinking and reporting.

A check module holds `subs = Subs()` and functions decorated with
@subs(name?, strategy, quick=N, thorough=M): each takes a JSON-able case and
a context, and raises (fail() or any exception) if the property is broken
there. Everything random in a case comes from its JSON description."""
import json
import os
import signal
import sys
import time
import traceback
import collections

CASE_TIMEOUT = 150      # seconds: far beyond any case on a sound tree
SHRINK = True           # tools/mutate.py sets it to False


class Violation(Exception):
    pass


class _Stop(KeyboardInterrupt):
    """Ends a run at once, through hypothesis."""


class CaseTimeout(BaseException):
    pass


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def check(cond, msg='condition is false', *args):
    if not cond:
        fail(msg, *args)


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough, examples, shards):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough
        self.examples, self.shards = list(examples), shards


class Subs(list):
    def __init__(self, rule):
        super().__init__()
        self.rule = rule

    def __call__(self, strategy, quick=200, thorough=None, examples=(),
                 name=None, shards=1):
        def deco(fn):
            self.append(Sub(name or fn.__name__, strategy, fn, quick,
                            thorough or quick*20, examples, shards))
            return fn
        return deco


class Ctx:
    """What a case tells about itself."""

    def __init__(self):
        self.nontrivial = False
        self.labels = []

    def nt(self, cond=True):
        self.nontrivial = self.nontrivial or bool(cond)

    def label(self, *labels):
        self.labels.extend(str(z) for z in labels)


def dumps(spec):
    return json.dumps(spec, sort_keys=True, separators=(',', ':'))


def reset_state():
    """The package and numpy global generators, as at the start of any case."""
    import numpy as np
    import sdepy
    np.random.seed(12345)
    sdepy.infrastructure.default_rng = np.random.default_rng(54321)


def run_case(fn, spec, ctx):
    """None if the property holds on this case, else what went wrong."""
    import warnings
    spec = json.loads(dumps(spec))
    reset_state()

    def on_alarm(signum, frame):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fn(spec, ctx)
    except Violation as e:
        return str(e)
    except CaseTimeout:
        return 'TIMEOUT: the case did not end within {} s'.format(CASE_TIMEOUT)
    except _Stop:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' < '.join('{}:{}'.format(os.path.basename(f.filename), f.lineno)
                           for f in reversed(tb[-4:]))
        return 'unexpected {}: {} [{}]'.format(type(e).__name__, e, where)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return None


def tune_hypothesis():
    """Plain random generation: by default, most cases would be mutations of
    earlier ones (repeating their parts), or built on constants found in the
    modules loaded, the code under test included."""
    from hypothesis.internal.conjecture import engine, providers
    mutate = engine.ConjectureRunner.generate_mutations_from

    def seldom(self, data):
        if self.random.random() < .05:
            mutate(self, data)
    engine.ConjectureRunner.generate_mutations_from = seldom
    providers.HypothesisProvider._maybe_draw_constant = \
        lambda self, *args, **kwargs: None


def run_sub(sub, seed, n, deadline, skip=None):
    """Runs fixed examples, then n generated cases; returns a report."""
    import hypothesis
    from hypothesis import settings, Phase, HealthCheck, given
    tune_hypothesis()
    t0 = time.time()
    rep = dict(sub=sub.name, evaluations=0, nontrivial=[], samples=[],
               labels=collections.Counter(), failure=None, error=None,
               incomplete=False, known=collections.Counter())
    seen_nt = set()
    st = dict(first_fail=None, last=None, best=None)

    def one(spec):
        ctx = Ctx()
        msg = run_case(sub.fn, spec, ctx)
        s = dumps(spec)
        if msg is not None and skip is not None:
            k = skip(sub.name, spec, msg)
            if k is not None:
                rep['known'][k] += 1
                return None
        if st['first_fail'] is None:
            rep['evaluations'] += 1
            rep['labels'].update(ctx.labels)
            if ctx.nontrivial and s not in seen_nt:
                seen_nt.add(s)
                if len(rep['samples']) < 2:
                    rep['samples'].append(json.loads(s))
        if msg is not None:
            if st['first_fail'] is None:
                st['first_fail'] = time.time()
            st['last'] = (s, msg)
            if st['best'] is None or len(s) < len(st['best'][0]):
                st['best'] = (s, msg)
        return msg

    def test(spec):
        now = time.time()
        if st['first_fail'] is None and now > deadline:
            rep['incomplete'] = True
            raise _Stop()
        if st['first_fail'] is not None and now > st['first_fail'] + 45:
            raise _Stop()
        msg = one(spec)
        if msg is not None:
            if msg.startswith('TIMEOUT'):
                raise _Stop()
            raise Violation(msg)

    try:
        for spec in sub.examples:
            if one(spec) is not None:
                break
        else:
            if n > 0:
                test = hypothesis.seed(seed)(settings(
                    max_examples=n, database=None, deadline=None,
                    phases=(Phase.generate, Phase.shrink) if SHRINK
                    else (Phase.generate,),
                    report_multiple_bugs=False, print_blob=False,
                    suppress_health_check=[HealthCheck.too_slow,
                                           HealthCheck.data_too_large,
                                           HealthCheck.large_base_example])(
                        given(sub.strategy)(test)))
                test()
            st['complete'] = True
    except (_Stop, Violation, hypothesis.errors.Flaky):
        pass
    except BaseException as e:
        if st['last'] is None:
            rep['error'] = '{}: {}\n{}'.format(
                type(e).__name__, e, traceback.format_exc()[-3000:])
    if st['last'] is not None:
        s, msg = st['best'] if len(st['best'][0]) < len(st['last'][0])/2 \
            else st['last']
        rep['failure'] = dict(spec=json.loads(s), message=msg)
    rep['nontrivial'] = len(seen_nt)
    rep['labels'] = dict(rep['labels'])
    rep['known'] = dict(rep['known'])
    rep['wall_s'] = time.time() - t0
    return rep
