"""Runner shared by all checks: units, forked workers, verdicts, known findings, evidence."""
import argparse
import hashlib
import json
import os
import random
import signal
import sys
import tempfile
import threading
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get('VERIF_REPO_SRC', '/repo/src')
KNOWN_FILE = os.path.join(ROOT, 'known_findings.txt')


def bootstrap():
    """Make sure that we run the code of the current tree, and not a stale byte code file."""
    import grpc  # noqa: F401
    import google.protobuf  # noqa: F401
    import deepproto.proto.tracepoint.v1.tracepoint_pb2  # noqa: F401
    import deepproto.proto.poll.v1.poll_pb2_grpc  # noqa: F401
    import deepproto.proto.tracepoint.v1.tracepoint_pb2_grpc  # noqa: F401
    try:
        import opentelemetry.sdk.trace  # noqa: F401
        import opentelemetry.metrics  # noqa: F401
        import prometheus_client  # noqa: F401
    except ImportError:
        pass
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'verif-no-pyc-%d' % os.getpid())
    sys.path.insert(0, REPO_SRC)
    import deep
    import deep.push  # noqa: F401
    import deep.poll  # noqa: F401
    import deep.api.plugin.python  # noqa: F401
    where = os.path.realpath(deep.__file__)
    if not where.startswith(os.path.realpath(REPO_SRC)):
        raise SystemExit('deep was imported from %s and not from %s' % (where, REPO_SRC))


class Inconclusive(Exception):
    """The unit could not observe what it has to observe."""


class Enough(Exception):
    """The unit found a violation after which it makes no sense to go on (e.g. everything blocks)."""


class Out:
    """What a unit observed."""

    def __init__(self, prop, unit):
        self.prop = prop
        self.unit = unit
        self.counters = {}
        self.violations = []
        self.signatures = set()
        self.samples = []
        self.known = []
        self.evaluations = 0

    def case(self, signature, sample=None, nontrivial=True):
        """Record one evaluated case; `signature` identifies distinct non-trivial cases."""
        self.evaluations += 1
        if nontrivial:
            self.signatures.add(hashlib.sha1(repr(signature).encode('utf-8', 'replace')).hexdigest()[:16])
        if sample is not None and len(self.samples) < 3:
            self.samples.append(sample)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def high(self, name, value):
        self.counters[name] = max(self.counters.get(name, value), value)

    def violation(self, what, **detail):
        if len(self.violations) < 40:
            self.violations.append({'what': str(what), 'detail': {k: short(v) for k, v in detail.items()}})

    def check(self, ok, what, **detail):
        self.count('oracle_evaluations')
        if not ok:
            self.violation(what, **detail)
        return bool(ok)

    def known_finding(self, key, what):
        self.known.append([key, what])


def short(v, n=int(os.environ.get("VERIF_SHORT", "1500"))):
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


def load_known(prop):
    found = {}
    try:
        with open(KNOWN_FILE) as f:
            for line in f:
                line = line.strip()
                # KNOWN-FINDING property=C01 key=<key> <text>
                if line.startswith('KNOWN-FINDING property=%s key=' % prop):
                    rest = line.split('key=', 1)[1]
                    key, _, text = rest.partition(' ')
                    found[key] = text
    except FileNotFoundError:
        pass
    return found


class Check:
    """A check of one property."""

    def __init__(self, prop, level, rule, assumptions=(), unit_timeout=240, required=(), jobs=8):
        self.prop = prop
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.unit_timeout = unit_timeout
        self.required = list(required)
        self.jobs = jobs
        self.kinds = {}
        self.plan = None

    def unit(self, fn):
        """Decorator to register a kind of unit: fn(out, rng, params)."""
        self.kinds[fn.__name__] = fn
        return fn

    def planner(self, fn):
        """Decorator to register the planner: fn(tier, seed) -> list of (kind, params)."""
        self.plan = fn
        return fn

    # ------------------------------------------------------------------ running
    def _child(self, kind, params, path, log):
        fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        devnull = os.open(os.devnull, os.O_RDONLY)
        os.dup2(devnull, 0)
        sys.stdout = open(1, 'w', buffering=1, closefd=False, errors='backslashreplace')
        sys.stderr = open(2, 'w', buffering=1, closefd=False, errors='backslashreplace')
        import faulthandler
        faulthandler.enable(file=sys.stderr)
        faulthandler.dump_traceback_later(max(5, self.unit_timeout - 5), file=sys.stderr)
        out = Out(self.prop, [kind, params])
        error = None
        os.environ['VERIF_UNIT_TMP'] = os.path.dirname(path)
        try:
            rng = random.Random(json.dumps([self.prop, kind, params], sort_keys=True))
            self.kinds[kind](out, rng, params)
        except Enough:
            pass
        except Inconclusive as e:
            error = 'inconclusive: %s' % e
        except BaseException as e:
            error = traceback.format_exc()
            tb = e.__traceback__
            while tb is not None and tb.tb_next is not None:
                tb = tb.tb_next
            inner = os.path.realpath(tb.tb_frame.f_code.co_filename) if tb is not None else ''
            if inner.startswith(os.path.realpath(REPO_SRC) + os.sep):
                # an interface of the agent failed under the workload
                out.violation('the agent raised %s where it has to work' % type(e).__name__, trace=error[-1200:])
                error = None
        sys.settrace(None)
        threading.settrace(None)
        res = {'counters': out.counters, 'violations': out.violations, 'signatures': sorted(out.signatures),
               'samples': out.samples, 'known': out.known, 'evaluations': out.evaluations, 'error': error}
        with open(path + '.tmp', 'w') as f:
            json.dump(res, f, default=repr)
        os.rename(path + '.tmp', path)
        os._exit(0)

    def _run_units(self, units, jobs, deadline=None):
        tmp = tempfile.mkdtemp(prefix='verif-%s-' % self.prop)
        results = [None] * len(units)
        running = {}
        todo = list(range(len(units)))
        broken = None
        try:
            while todo or running:
                if broken is not None and time.time() - broken > 90:
                    break  # the answer is known, do not spend the time on what blocks
                while todo and len(running) < jobs:
                    if deadline is not None and time.time() > deadline:
                        todo = []
                        break
                    i = todo.pop(0)
                    path = os.path.join(tmp, 'u%d.json' % i)
                    log = os.path.join(tmp, 'u%d.log' % i)
                    sys.stdout.flush()
                    sys.stderr.flush()
                    pid = os.fork()
                    if pid == 0:
                        try:
                            os.setsid()
                            self._child(units[i][0], units[i][1], path, log)
                        finally:
                            os._exit(70)
                    running[pid] = (i, path, log, time.time())
                done = []
                for pid, (i, path, log, start) in running.items():
                    wpid, status = os.waitpid(pid, os.WNOHANG)
                    if wpid:
                        done.append(pid)
                        if os.environ.get('VERIF_TIMING'):
                            print('%6.1fs %s' % (time.time() - start, json.dumps(units[i])))
                        if os.path.exists(path):
                            with open(path) as f:
                                results[i] = json.load(f)
                            if results[i]['violations'] and broken is None:
                                broken = time.time()
                            if results[i]['error']:
                                results[i]['log'] = _tail(log)
                        else:
                            results[i] = {'crash': 'exit status %s' % status, 'log': _tail(log)}
                        _kill_group(pid)
                    elif time.time() - start > self.unit_timeout:
                        _kill_group(pid)
                        os.waitpid(pid, 0)
                        done.append(pid)
                        results[i] = {'crash': 'hang', 'log': _tail(log)}
                for pid in done:
                    del running[pid]
                if not done:
                    time.sleep(0.01)
        finally:
            for pid in running:
                _kill_group(pid)
            import shutil
            shutil.rmtree(tmp, ignore_errors=True)
        return results

    def main(self, argv=None):
        # what is reported can be text that cannot be encoded
        sys.stdout.reconfigure(errors='backslashreplace')
        ap = argparse.ArgumentParser()
        ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
        ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
        ap.add_argument('--replay', default=None)
        ap.add_argument('--only', default=None)
        ap.add_argument('--jobs', type=int, default=self.jobs)
        ap.add_argument('--budget', type=float, default=None, help='thorough: seconds')
        args = ap.parse_args(argv)
        tier = 'thorough' if args.tier == 'thorough' else 'quick'
        start = time.time()
        bootstrap()
        deadline = None
        if args.replay:
            with open(args.replay) as f:
                rep = json.load(f)
            units = [tuple(rep['unit'])]
        else:
            units = self.plan(tier, args.seed)
            if args.only:
                units = [u for u in units if u[0] == args.only]
            if tier == 'thorough':
                deadline = start + (args.budget or 600)
        results = self._run_units(units, args.jobs, deadline)
        # a unit that did not give an answer gets one more chance on its own
        answered = any(r is not None and r.get('violations') for r in results)
        for i, r in enumerate(results):
            if r is not None and 'crash' in r and not answered:
                second = self._run_units([units[i]], 1)[0]
                if 'crash' in second:
                    second['twice'] = True
                second['first'] = r
                results[i] = second
                break_after = sum(1 for x in results if x and x.get('twice'))
                if break_after >= 1:
                    break
        return self._verdict(args, tier, units, results, start)

    def _verdict(self, args, tier, units, results, start):
        known = load_known(self.prop)
        total = Out(self.prop, None)
        violations, errors, printed = [], [], {}
        ran = 0
        for unit, r in zip(units, results):
            if r is None:
                continue
            ran += 1
            if 'crash' in r:
                if r.get('twice') and r['crash'] == 'hang' and r['first']['crash'] == 'hang':
                    violations.append((unit, {'what': 'the workload did not finish: the agent blocked the program',
                                              'detail': {'log': r['log']}}))
                elif r.get('twice') and r['crash'] != 'hang':
                    violations.append((unit, {'what': 'the process that runs the agent died: %s' % r['crash'],
                                              'detail': {'log': r['log']}}))
                else:
                    errors.append((unit, 'crash: %s\n%s' % (r['crash'], r.get('log'))))
                continue
            for k, v in r['counters'].items():
                if k.startswith('max_'):
                    total.high(k, v)
                else:
                    total.count(k, v)
            total.evaluations += r['evaluations']
            total.signatures.update(r['signatures'])
            total.samples += r['samples'][:max(0, 5 - len(total.samples))]
            for key, text in r['known']:
                if key in known:
                    printed[key] = known[key]
                else:
                    violations.append((unit, {'what': text, 'detail': {'finding': key}}))
            for v in r['violations']:
                violations.append((unit, v))
            if r['error']:
                errors.append((unit, '%s\n%s' % (r['error'], r.get('log', ''))))
        missing = [name for name in self.required if not total.counters.get(name)] \
            if not args.only and not args.replay else []
        for key, text in sorted(printed.items()):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, key, text))
        evidence = {
            'property': self.prop, 'tier': tier, 'seed': args.seed, 'level': self.level,
            'coverage': {
                'evaluations': total.evaluations,
                'distinct_nontrivial': len(total.signatures),
                'rule': self.rule,
                'samples': total.samples[:5],
                'observed': dict(sorted(total.counters.items())),
                'units_run': ran,
                'units_planned': len(units),
                'known_findings_reproduced': sorted(printed),
                'inconclusive_units': len(errors),
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - start, 2),
            'violations': len(violations),
        }
        if not args.replay and not args.only:
            os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
            with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
                json.dump(evidence, f, indent=1, default=repr, sort_keys=False)
                f.write('\n')
        print('%s tier=%s seed=%s units=%d/%d evaluations=%d distinct=%d wall=%.1fs' % (
            self.prop, tier, args.seed, ran, len(units), total.evaluations, len(total.signatures),
            time.time() - start))
        print('observed: %s' % json.dumps(evidence['coverage']['observed']))
        if violations:
            os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
            seen = set()
            for unit, v in violations:
                key = v['what'][:60]
                if key in seen:
                    continue
                seen.add(key)
                name = '%s-%s.json' % (self.prop, hashlib.sha1(
                    json.dumps([unit, v['what']], sort_keys=True).encode()).hexdigest()[:10])
                path = os.path.join(ROOT, 'evidence', 'replay', name)
                with open(path, 'w') as f:
                    json.dump({'property': self.prop, 'unit': list(unit), 'violation': v}, f, indent=1, default=repr)
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                print('  unit=%s\n  what: %s\n  %s' % (json.dumps(unit), v['what'],
                                                     short(json.dumps(v['detail'], default=repr), 1200)))
                if len(seen) >= 6:
                    break
            return 1
        if errors:
            for unit, e in errors[:3]:
                print('INCONCLUSIVE unit=%s\n%s' % (json.dumps(unit), e))
            return 2
        if missing:
            print('INCONCLUSIVE nothing observed for: %s' % missing)
            return 2
        return 0


def _kill_group(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def _tail(path, n=3000):
    try:
        with open(path, errors='replace') as f:
            return f.read()[-n:]
    except OSError:
        return ''


def spread(kind, count_, seed_, **params):
    """Units of a kind with different seeds."""
    return [(kind, dict(params, seed=seed_ * 100003 + i)) for i in range(count_)]
