"""Seeded search: scenario generation, isolated execution, minimisation, replay, evidence.

A *scenario* is a JSON object that fixes one simulated run completely (data
seed, configuration, operation / fault / schedule decisions).  Scenario number
i of a check is a pure function of (VERIF_SEED, property, i).  Each scenario
is executed in its own process, forked from a pristine image in which the
package has been imported and nothing else has happened.
"""
import os
import sys
import json
import time
import errno
import gc
import random
import signal
import select
import hashlib
import traceback
import collections

from . import boot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
now = boot.real_monotonic


class Violation(Exception):
    def __init__(self, kind, msg, sig=None):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg
        self.sig = sig or kind


class Skip(Exception):
    """The reference itself has no defined outcome for this scenario."""


class Ctx(object):
    def __init__(self, strict=False):
        self.strict = strict
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.keys = []
        self.simtime = 0.0
        self.events = 0
        self.steps = 0
        self.h = hashlib.sha256()
        self.notes = []
        self.out = {}

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.log('fault', kind)

    def probe(self, name, n=1):
        self.probes[name] += n

    def key(self, *k):
        """Add a distinct-state key (measure of what was reached)."""
        self.keys.append(hashlib.sha256(repr(k).encode()).hexdigest()[:16])

    def log(self, *ev):
        self.events += 1
        self.h.update(repr(ev).encode())

    def note(self, s):
        if len(self.notes) < 20:
            self.notes.append(str(s)[:300])

    def reference(self, fn, *a, **k):
        """Run the reference execution; if it fails there is nothing to compare with."""
        try:
            return fn(*a, **k)
        except Violation:
            raise
        except Exception as e:
            if self.strict:
                raise Violation('reference', 'valid use without faults raised %s: %s\n%s' % (
                    type(e).__name__, str(e)[:300], tb_tail()), sig='reference:%s' % type(e).__name__)
            raise Skip('reference raised %s: %s' % (type(e).__name__, str(e)[:200]))

    def attempt(self, what, fn, *a, **k):
        """Run code under test; an exception where the reference had none is a violation."""
        try:
            return fn(*a, **k)
        except (Violation, Skip):
            raise
        except Exception as e:
            raise Violation('exception', '%s raised %s: %s\n%s' % (
                what, type(e).__name__, str(e)[:300], tb_tail()),
                sig='exception:%s' % type(e).__name__)


def tb_tail(n=4):
    return ''.join(traceback.format_exc().splitlines(True)[-2 * n:])


def from_package(e):
    return any(f.filename.startswith(boot.SPORCO) for f in traceback.extract_tb(e.__traceback__))


def subrng(*parts):
    return random.Random(hashlib.sha256(('/'.join(str(p) for p in parts)).encode()).hexdigest())


# ---------------------------------------------------------------- child side

def _child(prop, scn, wfd):
    ctx = Ctx(getattr(prop, 'STRICT_REF', False))
    res = {'status': 'ok'}
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        prop.execute(scn, ctx)
    except Violation as v:
        res = {'status': 'violation', 'kind': v.kind, 'msg': v.msg, 'sig': v.sig}
    except Skip as s:
        res = {'status': 'skip', 'msg': str(s)}
    except Exception as e:
        if from_package(e):
            # every scenario is a valid use of the package, so that its code must not fail
            res = {'status': 'violation', 'kind': 'exception', 'sig': 'exception:%s' % type(e).__name__,
                   'msg': 'package code raised %s: %s\n%s' % (type(e).__name__, str(e)[:300], tb_tail())}
        else:
            res = {'status': 'error', 'msg': traceback.format_exc()[-3000:], 'kind': type(e).__name__}
    except BaseException as e:      # harness error
        res = {'status': 'error', 'msg': traceback.format_exc()[-3000:], 'kind': type(e).__name__}
    res.update(faults=dict(ctx.faults), probes=dict(ctx.probes), keys=ctx.keys, simtime=ctx.simtime,
               events=ctx.events, steps=ctx.steps, digest=ctx.h.hexdigest()[:24], notes=ctx.notes,
               out=ctx.out)
    data = json.dumps(res).encode()
    off = 0
    while off < len(data):
        off += os.write(wfd, data[off:off + 65536])
    os._exit(0)


class Job(object):
    __slots__ = ('idx', 'scn', 'pid', 'fd', 'buf', 't0', 'tag')


class Farm(object):
    """Runs scenarios in forked children, at most `jobs` at a time."""

    def __init__(self, prop, jobs, timeout):
        self.prop, self.jobs, self.timeout = prop, jobs, timeout
        self.live = {}
        self.poll = select.poll()
        # keep the imported image out of the collections made by the runs
        gc.collect()
        gc.freeze()

    def start(self, idx, scn, tag=None):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                for j in self.live.values():
                    os.close(j.fd)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                _child(self.prop, scn, w)
            finally:
                os._exit(3)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        os.close(w)
        j = Job()
        j.idx, j.scn, j.pid, j.fd, j.buf, j.t0, j.tag = idx, scn, pid, r, [], now(), tag
        self.live[r] = j
        self.poll.register(r, select.POLLIN | select.POLLHUP)
        return j

    def _finish(self, j, res):
        self.poll.unregister(j.fd)
        os.close(j.fd)
        del self.live[j.fd]
        try:
            os.killpg(j.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(j.pid, 0)
        except OSError:
            pass
        res['wall'] = now() - j.t0
        return j, res

    def wait(self):
        """Yield finished (job, result) pairs; blocks until at least one is there."""
        done = []
        while not done and self.live:
            try:
                ev = self.poll.poll(500)
            except OSError as e:
                if e.errno == errno.EINTR:
                    continue
                raise
            for fd, _ in ev:
                j = self.live[fd]
                b = os.read(fd, 1 << 20)
                if b:
                    j.buf.append(b)
                    continue
                raw = b''.join(j.buf)
                try:
                    res = json.loads(raw.decode())
                except ValueError:
                    try:
                        os.killpg(j.pid, 0)
                    except OSError:
                        pass
                    pid, st = os.waitpid(j.pid, 0)
                    res = {'status': 'crash', 'kind': 'crash', 'sig': 'crash',
                           'msg': 'process running the scenario died (wait status %d)' % st}
                done.append(self._finish(j, res))
            t = now()
            for j in list(self.live.values()):
                if t - j.t0 > self.timeout:
                    done.append(self._finish(j, {'status': 'hang', 'kind': 'hang', 'sig': 'hang',
                                                 'msg': 'no outcome within %d s of wall time' % self.timeout}))
        return done

    def kill(self):
        for j in list(self.live.values()):
            self._finish(j, {})

    def run_one(self, scn):
        self.start(-1, scn)
        return self.wait()[0][1]


BAD = ('violation', 'hang', 'crash')


# ---------------------------------------------------------------- findings

def load_findings():
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                out.append(json.loads(l))
    return out


def is_known(findings, pid, res):
    for f in findings:
        if f['property'] == pid and f['status'] == 'known' and f['signature'] == res.get('sig'):
            return f
    return None


# ---------------------------------------------------------------- shrinking

def minimise(farm, prop, scn, res, findings, pid, budget):
    """Greedy minimisation; candidates are evaluated in parallel, first success wins."""
    t_end = now() + budget
    tried = 0
    if not hasattr(prop, 'shrink'):
        return scn, res, tried
    improved = True
    while improved and now() < t_end:
        improved = False
        gen = iter(prop.shrink(scn))
        exhausted = False
        while not exhausted and now() < t_end and not improved:
            batch = []
            while len(batch) < farm.jobs:
                try:
                    c = next(gen)
                except StopIteration:
                    exhausted = True
                    break
                if c != scn:
                    batch.append(c)
            if not batch:
                break
            results = {}
            for i, c in enumerate(batch):
                farm.start(i, c)
            while len(results) < len(batch):
                for j, r in farm.wait():
                    results[j.idx] = r
            tried += len(batch)
            for i, c in enumerate(batch):
                r = results[i]
                if r['status'] in BAD and r.get('kind') == res.get('kind') and \
                        not is_known(findings, pid, r):
                    scn, res, improved = c, r, True
                    break
    return scn, res, tried


# ---------------------------------------------------------------- main loop

def run_check(prop, pid, tier, seed, runs=None, jobs=None, verbose=False, start=0):
    t0 = now()
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '0')) or min(8, len(os.sched_getaffinity(0)))
    n = runs or prop.RUNS[tier]
    wall_cap = getattr(prop, 'WALL', {}).get(tier, 540 if tier == 'quick' else 6 * 3600)
    timeout = getattr(prop, 'TIMEOUT', 150)
    findings = load_findings()
    farm = Farm(prop, jobs, timeout)
    print('check %s tier=%s seed=%d runs=%d jobs=%d' % (pid, tier, seed, n, jobs))
    sys.stdout.flush()

    agg = dict(faults=collections.Counter(), probes=collections.Counter(), keys=set(), simtime=0.0, events=0,
               steps=0, status=collections.Counter())
    digests, samples, skips, errors, bad = {}, [], [], [], []
    known_hits = collections.Counter()

    def gen(i):
        return prop.generate(subrng(seed, pid, i), tier, i)

    i = start
    end = start + n
    evaluated = 0
    scn_keys = set()
    stop = False
    while (i < end and not stop) or farm.live:
        while i < end and not stop and len(farm.live) < jobs:
            if now() - t0 > wall_cap:
                stop = True
                break
            s = gen(i)
            farm.start(i, s)
            i += 1
        if not farm.live:
            break
        for j, r in farm.wait():
            evaluated += 1
            agg['status'][r['status']] += 1
            if verbose:
                print(j.idx, r['status'], '%.2fs' % r['wall'], r.get('msg', '')[:200].replace('\n', ' | '),
                      json.dumps(j.scn)[:160])
            if r['status'] in ('ok', 'violation', 'skip', 'error'):
                agg['faults'].update(r['faults'])
                agg['probes'].update(r['probes'])
                agg['keys'].update(r['keys'])
                agg['simtime'] += r['simtime']
                agg['events'] += r['events']
                agg['steps'] += r['steps']
            if r['status'] == 'ok':
                digests[j.idx] = r['digest']
                nk = prop.nontrivial(j.scn) if hasattr(prop, 'nontrivial') else json.dumps(j.scn, sort_keys=True)
                if nk:
                    scn_keys.add(hashlib.sha256(str(nk).encode()).hexdigest()[:16])
                if len(samples) < 3:
                    samples.append({'index': j.idx, 'scenario': trim(j.scn), 'notes': r['notes']})
            elif r['status'] == 'skip':
                skips.append((j.idx, r['msg']))
            elif r['status'] == 'error':
                errors.append((j.idx, r['msg']))
            elif r['status'] in BAD:
                f = is_known(findings, pid, r)
                if f:
                    known_hits[f['signature']] += 1
                else:
                    bad.append((j.idx, j.scn, r))
                    stop = True
    # determinism audit: re-execute a sample and compare event digests
    audit = {'rerun': 0, 'mismatch': 0}
    if not bad and not errors:
        idxs = sorted(digests)
        k = min(len(idxs), 16 if tier == 'quick' else 200)
        pick = subrng(seed, pid, 'audit').sample(idxs, k)
        q = list(pick)
        jb = max(1, jobs - 3)           # a different degree of parallelism
        while q or farm.live:
            while q and len(farm.live) < jb:
                x = q.pop()
                farm.start(x, gen(x))
            for j, r in farm.wait():
                audit['rerun'] += 1
                if r.get('digest') != digests[j.idx]:
                    audit['mismatch'] += 1
                    print('determinism audit: scenario %d diverged' % j.idx)

    rc = 0
    replay = None
    viol = 0
    if bad:
        bad.sort(key=lambda b: b[0])
        idx, scn, res = bad[0]
        viol = len(bad)
        print('violation in scenario %d (%s); minimising' % (idx, res['kind']))
        sys.stdout.flush()
        scn0 = scn
        # a hang is costly to shrink
        budget = 10 if res['status'] == 'hang' else (90 if tier == 'quick' else 300)
        try:
            scn, res, tried = minimise(farm, prop, scn, res, findings, pid, budget)
        except Exception:
            traceback.print_exc()
            tried = 0
        again = farm.run_one(scn)
        rdir = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, '%s-seed%d-%d.json' % (pid, seed, idx))
        with open(replay, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'index': idx, 'kind': res['kind'], 'sig': res.get('sig'),
                       'message': res['msg'], 'digest': res.get('digest'), 'scenario': scn,
                       'original_scenario': scn0, 'shrink_candidates_tried': tried,
                       'reproduced_in_fresh_process': again['status'] in BAD and again.get('kind') == res['kind'],
                       'replay_command': './run %s --replay %s' % (pid, replay)}, f, indent=1)
        print(res['msg'])
        print('scenario: ' + json.dumps(scn)[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        rc = 1
    elif errors:
        print('HARNESS ERROR in %d scenario(s); first (index %d):\n%s' % (len(errors), errors[0][0], errors[0][1]))
        rc = 2
    elif evaluated and len(skips) > 0.5 * evaluated:
        print('NO ANSWER: %d of %d scenarios had no reference; e.g. %s' % (len(skips), evaluated, skips[0][1]))
        rc = 2

    # listed findings: replay each, report it while it is still there
    for f in findings:
        if f['property'] == pid and f['status'] == 'known':
            r = farm.run_one(f['scenario'])
            if r['status'] in BAD and r.get('sig') == f['signature']:
                print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    wall = now() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(prop, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': evaluated,
            'distinct_nontrivial': len(scn_keys),
            'rule': prop.RULE,
            'samples': samples or [{'index': b[0], 'scenario': trim(b[1])} for b in bad[:1]],
            'planned_runs': n,
            'outcomes': dict(agg['status']),
            'runs_per_hour': round(evaluated / max(wall, 1e-9) * 3600),
            'seed_range': [start, i],
            'simulated_time_s': round(agg['simtime'], 3),
            'simulated_steps': agg['steps'],
            'events_logged': agg['events'],
            'faults_injected': dict(sorted(agg['faults'].items())),
            'probes': dict(sorted(agg['probes'].items())),
            'distinct_states': len(agg['keys']),
            'distinct_states_measure': getattr(prop, 'MEASURE', 'distinct keys logged by the runs'),
            'components': getattr(prop, 'COMPONENTS', {}),
            'determinism_audit': audit,
            'skipped': len(skips),
            'skip_example': skips[0][1] if skips else None,
            'known_finding_hits': dict(known_hits),
        },
        'assumptions': getattr(prop, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': viol,
    }
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d runs, %d distinct, %s, faults %s, %.1f s, exit %d' % (
        pid, evaluated, len(scn_keys), dict(agg['status']), sum(agg['faults'].values()), wall, rc))
    return rc


def trim(o, n=2000):
    s = json.dumps(o)
    return o if len(s) <= n else {'truncated_json': s[:n]}


def run_replay(prop, pid, path):
    d = json.load(open(path))
    farm = Farm(prop, 1, getattr(prop, 'TIMEOUT', 150) * 2)
    r = farm.run_one(d['scenario'])
    print(json.dumps({k: r.get(k) for k in ('status', 'kind', 'msg', 'digest')}, indent=1))
    if r['status'] in BAD:
        same = r.get('kind') == d.get('kind')
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('reproduced: kind %s, digest %s' % ('same' if same else 'DIFFERENT',
                                                  'same' if r.get('digest') == d.get('digest') else 'different'))
        return 1
    if r['status'] == 'error':
        return 2
    print('not reproduced: %s' % r['status'])
    return 0
