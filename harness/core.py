"""
Property-based testing framework: sub-check registry, hypothesis driver,
sharding over processes, evidence, replay.

A property is decided by one or more sub-checks. A sub-check is a hypothesis
strategy that generates JSON-able cases, and an oracle function that takes a
case, runs the code under test, and raises `Violation` if the property does not
hold on it. Everything random comes from hypothesis; bulk data is expanded
deterministically from integers drawn by hypothesis and stored in the case, so
that a case written to a file replays without hypothesis.
"""

import hashlib
import json
import os
import subprocess
import sys
import time
import traceback
import zlib

from . import boot


class Violation(Exception):
    """The property is broken on this case."""


class Skip(Exception):
    """The case can not be decided (e.g., undocumented helper not available)."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


REGISTRY = {}


class Sub:
    def __init__(self, pid, name, oracle, strategy, quick, thorough, shards, opt, shrink, rule, soft_time, x64):
        self.pid = pid
        self.name = name
        self.oracle = oracle
        self.strategy = strategy
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.opt = opt
        self.shrink = shrink
        self.rule = rule
        self.soft_time = soft_time
        self.x64 = x64


def sub(pid, *, strategy, quick, thorough=None, shards=1, opt=0, shrink=True, rule='', soft_time=(300, 3000), x64=False):
    """
    Register an oracle function as a sub-check of property `pid`.

    `strategy` is a function (shard, nshards) -> hypothesis strategy of JSON
    dicts. `quick`, `thorough` are number of cases per shard. `rule` says what
    makes a case non-trivial; the oracle returns a dict with `nontrivial` (bool)
    and `labels` (list of str). `opt` is the optimization level of the compiler,
    `x64` whether to run with 64 bit types.
    """
    def deco(oracle):
        s = Sub(pid, oracle.__name__, oracle, strategy, quick, thorough or 10 * quick, shards, opt, shrink, rule, soft_time, x64)
        REGISTRY.setdefault(pid, {})[s.name] = s
        return oracle
    return deco


def case_hash(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def crashed_in_sut(exc):
    """Whether an exception went through the code under test."""
    if type(exc).__name__ in ('XlaRuntimeError', 'JaxRuntimeError'):
        return True
    while exc is not None:
        for fs in traceback.extract_tb(exc.__traceback__):
            f = os.path.realpath(fs.filename)
            if f.startswith(boot.SRC + os.sep):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def internal_missing(exc):
    """
    Whether the harness failed to call an internal function of the package
    because it was renamed or its signature was changed: this says nothing about
    the property. The exception is raised by the harness itself.
    """
    if not isinstance(exc, (AttributeError, TypeError)):
        return False
    frames = [os.path.realpath(fs.filename) for fs in traceback.extract_tb(exc.__traceback__)]
    frames = [f for f in frames if f.startswith((boot.SRC + os.sep, boot.HERE + os.sep))]
    if not frames or frames[-1].startswith(boot.SRC + os.sep):
        return False
    msg = str(exc)
    if isinstance(exc, AttributeError):
        return "module 'bartz" in msg and 'has no attribute' in msg
    return any(t in msg for t in ('unexpected keyword argument', 'positional argument', 'required keyword-only argument')) \
        and any(msg.startswith(name + '()') for name in INTERNAL)


# internal functions called directly; changes to their signature are not changes
# of behaviour (the public interface is not here)
INTERNAL = {'sample_moves', 'accept_moves_and_sample_leaves', 'sample_trees', 'sample_sigma'}


def run_oracle(s, case):
    """Run the oracle; turn crashes of the code under test into violations."""
    try:
        return s.oracle(case) or {}
    except (Violation, Skip):
        raise
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        if internal_missing(e):
            raise Skip(f'internal function not available as expected: {e}') from e
        if crashed_in_sut(e):
            tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
            raise Violation(f'crash on valid input: {type(e).__name__}: {e}\n{tb}') from e
        if isinstance(e, (ArithmeticError, ValueError, IndexError)):
            # the oracle handles all the results in the expected domain, so it
            # met a value, a shape or an index out of it
            tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
            raise Violation(f'the results are out of the domain of the oracle: {type(e).__name__}: {e}\n{tb}') from e
        raise


# ---------------------------------------------------------------- worker

def worker(pid, name, shard, tier, seed, out):
    t0 = time.time()
    s = REGISTRY[pid][name]
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    if hasattr(engine, 'MAX_SHRINKING_SECONDS'):
        engine.MAX_SHRINKING_SECONDS = 45

    n = s.quick if tier == 'quick' else s.thorough
    soft = s.soft_time[0 if tier == 'quick' else 1]
    res = dict(evaluations=0, skipped=0, nontrivial=[], labels={}, samples=[], over_budget=0,
               violation=None, error=None)
    seen = set()
    last = dict(case=None, msg=None)
    state = dict(found=False)

    def body(case):
        if not state['found'] and time.time() - t0 > soft:
            res['over_budget'] += 1
            return
        try:
            r = run_oracle(s, case)
        except Skip as e:
            res['skipped'] += 1
            key = f'skip: {e}'
            res['labels'][key] = res['labels'].get(key, 0) + 1
            return
        except Violation as e:
            state['found'] = True
            last['case'], last['msg'] = case, str(e)
            raise
        if state['found']:
            return
        res['evaluations'] += 1
        for label in r.get('labels', ()):
            res['labels'][label] = res['labels'].get(label, 0) + 1
        if r.get('nontrivial', True):
            h = case_hash(case)
            if h not in seen:
                seen.add(h)
                res['nontrivial'].append(h)
            if len(res['samples']) < 3:
                d = dict(subcheck=name, case=case)
                if 'note' in r:
                    d['note'] = r['note']
                res['samples'].append(d)

    phases = [Phase.explicit, Phase.generate] + ([Phase.shrink] if s.shrink else [])
    hseed = zlib.crc32(f'{seed}/{pid}/{name}/{shard}'.encode())
    test = settings(max_examples=n, deadline=None, database=None, phases=phases,
                    report_multiple_bugs=False, print_blob=False, derandomize=False,
                    suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
                    )(given(s.strategy(shard, s.shards))(body))
    test = hypothesis.seed(hseed)(test)
    try:
        test()
    except Violation:
        pass
    except BaseException as e:
        if last['case'] is not None:
            # e.g. hypothesis.errors.Flaky: decide on the recorded case
            try:
                run_oracle(s, last['case'])
                res['error'] = f'unreproducible failure: {last["msg"]}\ncase: {json.dumps(last["case"])}\n' + traceback.format_exc()
                last['case'] = None
            except Violation as e2:
                last['msg'] = str(e2)
            except Exception:
                res['error'] = traceback.format_exc()
        else:
            res['error'] = traceback.format_exc()
    if last['case'] is not None and res['error'] is None:
        res['violation'] = dict(subcheck=name, case=last['case'], message=last['msg'])
    res['wall_s'] = time.time() - t0
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.replace(out + '.tmp', out)


# ---------------------------------------------------------------- parent

def known_findings():
    path = os.path.join(boot.HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def run_check(pid, tier, seed, only=None, jobs=None):
    t0 = time.time()
    subs = [s for s in REGISTRY[pid].values() if only is None or s.name == only]
    work = os.path.join(boot.HERE, '.work', f'{pid}-{os.getpid()}')
    os.makedirs(work, exist_ok=True)
    queue = []
    for s in subs:
        for shard in range(s.shards):
            queue.append((s, shard))
    # long ones first, as declared
    jobs = jobs or int(os.environ.get('VERIF_JOBS', 0)) or min(8, os.cpu_count() or 1)
    running = []
    results = []
    errors = []
    violation = None
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    try:
        while queue or running:
            while queue and len(running) < jobs and violation is None:
                s, shard = queue.pop(0)
                out = os.path.join(work, f'{s.name}-{shard}.json')
                log = open(out + '.log', 'w')
                cmd = [sys.executable, '-B', os.path.join(boot.HERE, 'check.py'), pid, '--worker', s.name,
                       '--shard', str(shard), '--tier', tier, '--seed', str(seed), '--out', out]
                p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, cwd=boot.HERE)
                running.append((p, s, shard, out, log))
            still = []
            for item in running:
                p, s, shard, out, log = item
                rc = p.poll()
                if rc is None:
                    still.append(item)
                    continue
                log.close()
                if os.path.exists(out):
                    with open(out) as f:
                        r = json.load(f)
                    r.update(sub=s.name, shard=shard)
                    results.append(r)
                    if r['error']:
                        errors.append(f'[{s.name}/{shard}] {r["error"]}')
                    if r['violation'] and violation is None:
                        violation = r['violation']
                else:
                    with open(out + '.log') as f:
                        errors.append(f'[{s.name}/{shard}] worker died rc={rc}\n{f.read()[-3000:]}')
            running = still
            if violation is not None:
                queue.clear()
                for p, *_ , log in running:
                    p.kill()
                    p.wait()
                    log.close()
                running = []
            if running:
                time.sleep(0.05)
    finally:
        for p, *_ in running:
            p.kill()
        for f in os.listdir(work):
            os.unlink(os.path.join(work, f))
        os.rmdir(work)

    # known findings: specific inputs, replayed with the same oracles
    known_lines = []
    for k in known_findings():
        if k['property'] == pid and (only is None or k['subcheck'] == only):
            s = REGISTRY[pid].get(k['subcheck'])
            try:
                run_oracle(s, k['case'])
            except Violation:
                known_lines.append(f'KNOWN-FINDING: property={pid} {k["what"]}')
            except Exception:
                errors.append(f'[known finding {k["id"]}] ' + traceback.format_exc())

    nontrivial = set()
    labels = {}
    samples = []
    persub = {}
    for r in results:
        d = persub.setdefault(r['sub'], dict(evaluations=0, nontrivial=0, skipped=0, over_budget=0, labels={}, cpu_s=0.))
        d['evaluations'] += r['evaluations']
        d['nontrivial'] += len(r['nontrivial'])
        d['skipped'] += r['skipped']
        d['over_budget'] += r['over_budget']
        d['cpu_s'] = round(d['cpu_s'] + r['wall_s'], 1)
        for k, v in r['labels'].items():
            d['labels'][k] = d['labels'].get(k, 0) + v
        nontrivial |= {r['sub'] + h for h in r['nontrivial']}
    for s in subs:
        got = [x for r in results if r['sub'] == s.name for x in r['samples']]
        samples += got[:2]
    evaluations = sum(r['evaluations'] for r in results)
    evidence = dict(
        property=pid, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=len(nontrivial),
            rule=' '.join(f'[{s.name}] {s.rule}' for s in subs),
            samples=samples,
            subchecks=persub,
        ),
        assumptions=[f'code under test imported from {boot.SRC}', 'jax on CPU, ' + ('64 bit types' if any(s.x64 for s in subs) else '32 bit types')],
        wall_s=round(time.time() - t0, 2),
        violations=int(violation is not None),
    )
    if only is None:
        d = os.path.join(boot.HERE, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f'{pid}.json'), 'w') as f:
            json.dump(evidence, f, indent=1)

    for line in known_lines:
        print(line)
    for name, d in persub.items():
        print(f'{pid}/{name}: {d["evaluations"]} cases, {d["nontrivial"]} non-trivial, {d["skipped"]} skipped, {d["over_budget"]} over budget, {d["cpu_s"]} s')
        if os.environ.get('VERIF_VERBOSE'):
            print('   ', json.dumps(d['labels']))
    if violation is not None:
        path = save_replay(pid, violation)
        print(violation['message'][:4000])
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if errors:
        for e in errors:
            print('ERROR', e, file=sys.stderr)
        return 2
    if evaluations == 0:
        print('ERROR no case was evaluated', file=sys.stderr)
        return 2
    return 0


def save_replay(pid, violation):
    d = os.path.join(boot.HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{pid}-{violation["subcheck"]}-{case_hash(violation["case"])}.json')
    with open(path, 'w') as f:
        json.dump(dict(property=pid, **violation), f, indent=1)
    return path


def replay(pid, path):
    with open(path) as f:
        v = json.load(f)
    s = REGISTRY[pid][v['subcheck']]
    try:
        run_oracle(s, v['case'])
    except Violation as e:
        print(str(e)[:4000])
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    print('the replayed case does not violate the property')
    return 0
