"""
Machinery: cases, generation with hypothesis, shrinking, replay files, evidence, parallel shards.

A case is a check function plus a source of inputs. Inputs are plain JSON values. The check function raises `Violation`
(through the helpers below) if the property is broken for that input, and returns a label if the input was non-trivial
by the case's rule, or None if it was trivial.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = '/repo'
SHRINK_SECONDS = 40
EXAMPLE_SECONDS = 20          # wall clock; only triggers the deterministic step count below, never a violation by itself
STEP_LIMIT = 40_000_000       # calls, branches and jumps
TIME_BUDGET = {'quick': 600, 'thorough': 860}
MEMORY_LIMIT = 6 << 30

CASES = {}                    # property --> list of cases


class Violation(AssertionError):
    """The property does not hold for this input."""


class HarnessError(Exception):
    """The check is wrong, not the code under test."""


class Hang(BaseException):
    """The code under test did not come to an end for this input. (Not an Exception, so that hypothesis does not shrink it.)"""


class _Alarm(BaseException):
    pass


class _StepLimit(BaseException):
    pass


########################################################################################################################
# helpers for check functions


def expect(condition, message, *details):
    if not condition:
        raise Violation(message + (': ' + ', '.join(repr(_) for _ in details) if details else ''))


def same(actual, expected, message):
    """Equality of plain values. A different type of sequence counts as different only if `==` says so."""
    if not (actual == expected):
        raise Violation('%s: got %s, expected %s' % (message, short(actual), short(expected)))


class Dedicated:
    """Marker: any error class of the library itself."""


def refuses(thunk, message, kinds=Exception):
    """
    The call must raise an exception of one of the given kinds. A string (or list of strings) stands for the names of
    exception classes of the library (wherever they are defined), `Dedicated` for any of its error classes.
    """
    try:
        result = thunk()
    except Exception as e:
        names = [c.__name__ for c in type(e).__mro__]
        if kinds is Dedicated:
            fits = type(e).__module__.startswith('discretehelpers') and not names[0].endswith('Fail')
        elif isinstance(kinds, (str, list)):
            fits = any(k in names for k in ([kinds] if isinstance(kinds, str) else kinds))
        else:
            fits = isinstance(e, kinds)
        if not fits:
            raise Violation('%s: raised %s: %s instead of %s' % (message, type(e).__name__, e, kinds))
        return
    raise Violation('%s: accepted, result %s' % (message, short(result)))


def short(x, limit=300):
    try:
        s = repr(x)
    except Exception as e:
        s = '<%s, repr failed: %s>' % (type(x).__name__, e)
    return s if len(s) <= limit else s[:limit] + '...'


########################################################################################################################
# registration


class Case:
    def __init__(self, prop, name, check, rule, strategy, values, quick, thorough, examples, tiers):
        self.prop, self.name, self.check, self.rule = prop, name, check, rule
        self.strategy, self.values = strategy, values
        self.count = {'quick': quick, 'thorough': thorough}
        self.examples, self.tiers = examples, tiers


def random_case(prop, strategy, quick, thorough=None, rule='', name=None, examples=(), tiers=('quick', 'thorough')):
    """`strategy`: function returning a hypothesis strategy of JSON values. `quick`, `thorough`: number of inputs."""
    def wrap(check):
        CASES.setdefault(prop, []).append(Case(
            prop, name or check.__name__, check, rule, strategy, None, quick,
            thorough if thorough is not None else 8 * quick, list(examples), tiers
        ))
        return check
    return wrap


def enum_case(prop, values, rule='', name=None, tiers=('quick', 'thorough')):
    """`values`: function from tier to an iterable of JSON values, all of which are checked."""
    def wrap(check):
        CASES.setdefault(prop, []).append(Case(prop, name or check.__name__, check, rule, None, values, 0, 0, [], tiers))
        return check
    return wrap


########################################################################################################################
# evaluation of one input


def count_steps(thunk):
    """Run under a deterministic limit of calls, branches and jumps."""
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    state = [0]

    def on_event(*_):
        state[0] += 1
        if state[0] > STEP_LIMIT:
            raise _StepLimit

    mon.use_tool_id(tool, 'pbt')
    try:
        mon.register_callback(tool, mon.events.JUMP, on_event)
        mon.register_callback(tool, mon.events.BRANCH, on_event)
        mon.register_callback(tool, mon.events.PY_START, on_event)
        mon.set_events(tool, mon.events.JUMP | mon.events.BRANCH | mon.events.PY_START)
        return thunk()
    finally:
        mon.set_events(tool, 0)
        mon.register_callback(tool, mon.events.JUMP, None)
        mon.register_callback(tool, mon.events.BRANCH, None)
        mon.register_callback(tool, mon.events.PY_START, None)
        mon.free_tool_id(tool)


def on_alarm(signum, frame):
    raise _Alarm


def guarded(case, value):
    """
    Evaluate the check for one value. Every exception other than the harness's own is a violation: inputs are valid by
    construction, so neither the code under test nor the comparison of its results may fail.
    """
    def call():
        try:
            return case.check(json.loads(json.dumps(value)))
        except (Violation, HarnessError, MemoryError):
            raise
        except Exception as e:
            frames = traceback.extract_tb(e.__traceback__)
            where = [f for f in frames if f.filename.startswith(REPO + '/')] or list(frames)
            place = '%s:%s' % (os.path.relpath(where[-1].filename, REPO), where[-1].lineno)
            raise Violation('unexpected %s: %s (at %s)' % (type(e).__name__, e, place)) from e

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, EXAMPLE_SECONDS)
    try:
        try:
            return call()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except _Alarm:
        pass
    # slow: decide by counting steps, which does not depend on the speed of the machine
    try:
        return count_steps(call)
    except _StepLimit:
        raise Hang('no result after %d calls, branches and jumps' % STEP_LIMIT)


########################################################################################################################
# one shard of one case


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')


def digest(case, value):
    raw = json.dumps([case.name, value], sort_keys=True).encode()
    return int.from_bytes(hashlib.blake2b(raw, digest_size=8).digest(), 'big')


class Tally:
    def __init__(self, case):
        self.case = case
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.failed = False

    def run(self, value):
        if not self.failed:
            self.evaluations += 1
        try:
            label = guarded(self.case, value)
        except (Violation, Hang) as e:
            self.failed = True
            raise
        if not self.failed and label is not None:
            d = digest(self.case, value)
            if d not in self.nontrivial:
                self.nontrivial.add(d)
                self.labels[str(label)] = self.labels.get(str(label), 0) + 1
                n = len(self.nontrivial)
                if n in (1, 10, 100):
                    self.samples.append(value)


def prepare_hypothesis(storage):
    os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = storage
    import hypothesis
    import hypothesis.internal.conjecture.engine as engine
    import hypothesis.internal.conjecture.providers as providers
    engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
    if hasattr(providers, '_get_local_constants'):
        empty = providers.Constants()
        providers._get_local_constants = lambda: empty  # constants of the code under test must not steer generation
    return hypothesis


def run_shard(job):
    case, tier, seed, shard, shards, storage = job
    tally = Tally(case)
    failure = None
    started = time.time()
    try:
        if case.values is not None:
            for i, value in enumerate(case.values(tier)):
                if i % shards != shard:
                    continue
                try:
                    tally.run(value)
                except (Violation, Hang) as e:
                    failure = (value, str(e))
                    break
        else:
            failure = run_random(case, tier, seed, shard, shards, tally, storage)
        error = None
    except Exception:
        error = traceback.format_exc()
    return {
        'case': case.name, 'shard': shard, 'evaluations': tally.evaluations, 'nontrivial': tally.nontrivial,
        'labels': tally.labels, 'samples': tally.samples, 'failure': failure, 'error': error,
        'seconds': time.time() - started,
    }


def run_random(case, tier, seed, shard, shards, tally, storage):
    if shard == 0:
        for value in case.examples:
            try:
                tally.run(value)
            except (Violation, Hang) as e:
                return value, str(e)

    hypothesis = prepare_hypothesis(storage)
    total = case.count[tier]
    number = total // shards + (1 if shard < total % shards else 0)
    if number == 0:
        return None
    last = {}

    def test(value):
        try:
            tally.run(value)
        except Violation as e:
            last['failure'] = (value, str(e))
            raise
        except Hang as e:
            last['failure'] = (value, str(e))
            raise

    test = hypothesis.given(case.strategy())(test)
    test = hypothesis.settings(
        database=None, deadline=None, max_examples=number, derandomize=False, report_multiple_bugs=False,
        phases=(hypothesis.Phase.generate, hypothesis.Phase.shrink),
        suppress_health_check=list(hypothesis.HealthCheck), print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )(test)
    test = hypothesis.seed(derive_seed(seed, case.prop, case.name, shard))(test)
    try:
        test()
    except (Violation, Hang):
        return last['failure']
    except hypothesis.errors.Flaky:
        if 'failure' in last:  # failed once, then passed with the same value: depends on something hidden
            value, message = last['failure']
            return value, message + ' (not reproduced when run again)'
        raise
    return None


########################################################################################################################
# the whole check


def load(prop):
    importlib.import_module('pbt.props.' + prop.lower())
    if prop not in CASES:
        raise HarnessError('no cases for ' + prop)
    return CASES[prop]


def known_findings(verif, prop):
    """Lines `known: property=<id> case=<case> <text>` of /verif/known_findings.txt (lines with `fixed:` are only records)."""
    result = []
    path = os.path.join(verif, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith('known: property=%s ' % prop):
                    result.append(line[len('known: '):].strip())
    return result


def write_json(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(data, f, indent=1, ensure_ascii=False)
        f.write('\n')
    os.replace(tmp, path)


def init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    sys.setrecursionlimit(3000)
    # whatever the code under test prints must not mix with the output of the check
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull


def check_import():
    import discretehelpers
    place = os.path.realpath(os.path.dirname(discretehelpers.__file__))
    if place != REPO + '/discretehelpers':
        raise HarnessError('discretehelpers is imported from ' + place)


def main(argv, verif):
    parser = argparse.ArgumentParser()
    parser.add_argument('property', nargs='?')
    parser.add_argument('--tier', choices=['quick', 'thorough'])
    parser.add_argument('--case')
    parser.add_argument('--jobs', type=int, default=8)
    parser.add_argument('--replay')
    parser.add_argument('--times', action='store_true')
    args = parser.parse_args(argv)
    try:
        sys.path.insert(0, REPO)
        check_import()
        if args.replay:
            return replay(args.replay)
        tier = args.tier or os.environ.get('VERIF_TIER') or 'quick'
        seed = int(os.environ.get('VERIF_SEED', '1'))
        return run_check(args, verif, tier, seed)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        return 2


def replay(path):
    with open(path) as f:
        stored = json.load(f)
    prop = stored['property']
    case = [c for c in load(prop) if c.name == stored['case']][0]
    try:
        guarded(case, stored['value'])
    except (Violation, Hang) as e:
        print('%s %s: %s' % (prop, case.name, e))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('%s %s: no violation with this value' % (prop, case.name))
    return 0


def run_check(args, verif, tier, seed):
    prop = args.property
    started = time.time()
    cases = [c for c in load(prop) if tier in c.tiers and (args.case is None or c.name == args.case)]
    if not cases:
        raise HarnessError('nothing to run')
    storage = tempfile.mkdtemp(prefix='pbt-')
    try:
        jobs = []
        for case in cases:
            if case.values is not None:
                shards = args.jobs
            else:
                shards = max(1, min(args.jobs, case.count[tier] // 25))
            for shard in range(shards):
                jobs.append((case, tier, seed, shard, shards, storage))

        results = []
        failed = None
        out_of_time = False
        context = multiprocessing.get_context('fork')
        global _JOBS
        _JOBS = jobs
        pool = context.Pool(args.jobs, initializer=init_worker)
        try:
            iterator = pool.imap(run_job_number, range(len(jobs)))
            for i in range(len(jobs)):
                try:
                    result = iterator.next(timeout=max(1, TIME_BUDGET[tier] - (time.time() - started)))
                except multiprocessing.TimeoutError:
                    out_of_time = True
                    break
                results.append(result)
                if result['error']:
                    sys.stderr.write('error in case %s\n%s\n' % (result['case'], result['error']))
                    return 2
                if result['failure'] is not None:
                    failed = result
                    break
        finally:
            pool.terminate()
            pool.join()
    finally:
        shutil.rmtree(storage, ignore_errors=True)

    for line in known_findings(verif, prop):
        print('KNOWN-FINDING: ' + line)

    evidence = make_evidence(prop, tier, seed, cases, results, failed, time.time() - started, out_of_time)
    if args.case is None:
        write_json(os.path.join(verif, 'evidence', prop + '.json'), evidence)
    if args.times:
        for name, c in evidence['coverage']['cases'].items():
            print('%-40s %8d evaluations %8d nontrivial %7.1f cpu-s  %s' % (
                name, c['evaluations'], c['distinct_nontrivial'],
                sum(r['seconds'] for r in results if r['case'] == name), c['labels']))

    if failed is not None:
        value, message = failed['failure']
        path = os.path.join(verif, 'replays', '%s-%s.json' % (prop, failed['case']))
        write_json(path, {'property': prop, 'case': failed['case'], 'value': value, 'message': message, 'seed': seed, 'tier': tier})
        print('%s %s: %s' % (prop, failed['case'], message))
        print('input: %s' % short(json.dumps(value), 2000))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if out_of_time:
        sys.stderr.write('inconclusive: time budget used up after %d of %d shards\n' % (len(results), len(jobs)))
        return 3
    c = evidence['coverage']
    print('%s held: %d inputs, %d distinct and non-trivial, %.1f s' % (prop, c['evaluations'], c['distinct_nontrivial'], evidence['wall_s']))
    return 0


_JOBS = []


def run_job_number(i):
    return run_shard(_JOBS[i])


def make_evidence(prop, tier, seed, cases, results, failed, wall, out_of_time):
    per_case = {}
    samples = []
    total = 0
    distinct = 0
    for case in cases:
        rs = [r for r in results if r['case'] == case.name]
        nontrivial = set()
        labels = {}
        evaluations = 0
        case_samples = []
        for r in rs:
            nontrivial |= r['nontrivial']
            evaluations += r['evaluations']
            for k, v in r['labels'].items():
                labels[k] = labels.get(k, 0) + v
            case_samples += r['samples'][-1:]
        total += evaluations
        distinct += len(nontrivial)
        labels = dict(sorted(labels.items(), key=lambda kv: -kv[1])[:20])
        per_case[case.name] = {
            'source': 'enumeration' if case.values is not None else 'hypothesis',
            'rule': case.rule, 'evaluations': evaluations, 'distinct_nontrivial': len(nontrivial), 'labels': labels,
        }
        for s in case_samples[:2]:
            text = json.dumps(s)
            samples.append({'case': case.name, 'value': s if len(text) < 1500 else text[:1500]})
    return {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total,
            'distinct_nontrivial': distinct,
            'rule': 'Inputs are generated per case (hypothesis, seeded from VERIF_SEED, or complete enumeration of a small '
                    'scope) and evaluated against an independent oracle. Non-trivial and distinct are counted per case: '
                    + '; '.join('%s: %s' % (c.name, c.rule) for c in cases),
            'samples': samples,
            'cases': per_case,
        },
        'assumptions': [
            'the independent reference models in /verif/pbt are right',
            'inputs stay within the generated sizes; nothing is claimed about bigger ones',
        ] + (['time budget used up: not all planned inputs were tried'] if out_of_time else []),
        'wall_s': round(wall, 3),
        'violations': 1 if failed is not None else 0,
    }
