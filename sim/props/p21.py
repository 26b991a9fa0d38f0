"""P21: options that control only reporting or speed never change what is computed, and the status display shows the recorded statistics."""
import io
import re
import errno
import contextlib

import numpy as np

from .. import cat, par
from ..boot import ENV
from ..simpool import PoolWorld
from ..engine import Violation
from ..util import same, stats, with_, drop_each
from .p01 import all_finite

LEVEL = 'exploration'
RUNS = dict(quick=4000, thorough=120000)
RULE = ('a scenario fixes a solver, a history of solve calls and, for each call, the options controlling only reporting or speed (Verbose, StatusHeader, FastSolve, IterTimer, at construction also LinSolveCheck, HighMemSolve, '
        'AccurateDFid, AuxVarObj); the run is compared with the same history under other values of these options, and the lines written to the output are compared with the recorded statistics; the output may fail at a chosen write; '
        'non-trivial if an option differs in a call that iterates or a write fails')
MEASURE = 'distinct (class, options that differ, call number) triples'
COMPONENTS = {'real': ['all serial ADMM, PGM and dictionary learning classes, ParConvBPDN, consensus dictionary learning'], 'stub': ['standard output (captures, fails on request)', 'the process pool']}
ASSUMPTIONS = ['the options are changed between calls of solve, not inside one', 'stopping tolerances are disabled (with FastSolve they are documented not to be evaluated)', 'times are not compared',
               'with AccurateDFid, AuxVarObj and FastSolve the statistics may differ (by definition); the iterates may not']
STRICT_REF = True


class Out(io.StringIO):
    """An output that fails at the n-th write from now on."""
    left = None
    err = None
    failed = 0

    def write(self, s):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                self.failed += 1
                raise OSError(self.err, 'output')
        return super().write(s)


def generate(rng, tier, i):
    ns = cat.names()
    fam = None
    if i % 16 == 9:
        fam = rng.choice(['par', 'cns'])
        c = par.gen_par(rng) if fam == 'par' else par.gen_cns(rng)
        c['name'] = fam
    else:
        c = cat.gen(rng, name=ns[i % len(ns)])
        if rng.random() < .7:
            c.pop('noopt', None)
    segs = cat.gen_segs(rng, rng.choice([2, 3, 4, 6, 9]))
    init = {n: rng.random() < .5 for n in ('LinSolveCheck', 'HighMemSolve', 'AccurateDFid', 'AuxVarObj') if rng.random() < .5}
    calls = []
    for s in segs:
        calls.append([{'Verbose': rng.random() < .6, 'StatusHeader': rng.random() < .6, 'FastSolve': rng.random() < .35, 'IterTimer': rng.choice(['solve', 'solve_wo_func', 'solve_wo_rsdl'])} if rng.random() < .85 else {}
                      for _ in range(2)])
    # the order of the pair decides which of the two is the reference: options off
    fail = dict(call=rng.randrange(len(segs)), write=rng.randint(0, 14), err=rng.choice(['EPIPE', 'ENOSPC', 'EIO'])) if rng.random() < .25 else None
    return dict(c=c, fam=fam, nproc=rng.choice([0, 0, 2, 3]) if fam else 0, sched=par.gen_sched(rng) if fam else None, segs=segs, init=init, calls=[x[0] for x in calls], fail=fail)


def nontrivial(scn):
    import json
    return json.dumps(scn, sort_keys=True) if any(scn['calls']) or scn['init'] else None


NUM = re.compile(r'^[+-]?(\d+(\.\d*)?([eE][+-]?\d+)?|nan|inf)$')


def display(what, text, s, rows, header, verbose):
    """The lines written during one call against the statistics recorded during it."""
    lines = text.split('\n')
    if lines[-1] != '':
        raise Violation('display', '%s: the last line written is incomplete: %r' % (what, lines[-1]))
    lines = lines[:-1]
    if not verbose:
        if lines:
            raise Violation('display', '%s: Verbose is off but %r is written' % (what, lines[0]))
        return 0
    sep = [n for n, l in enumerate(lines) if l and set(l) == {'-'}]
    nums = [n for n, l in enumerate(lines) if l.split() and all(NUM.match(t) for t in l.split())]
    hdr = [n for n in range(len(lines)) if n not in sep and n not in nums]
    if header:
        if len(hdr) != 1 or len(sep) != 2 or hdr[0] != 0 or sep != [1, len(lines) - 1]:
            raise Violation('display', '%s: the table is not a header, a separator, the rows and a separator: %r' % (what, lines))
        lens = {len(lines[n]) for n in sep}
        if len(lens) != 1:
            raise Violation('display', '%s: separators of different lengths' % what)
    elif hdr or sep:
        raise Violation('display', '%s: StatusHeader is off but %r is written' % (what, lines[(hdr + sep)[0]]))
    if len(nums) != len(rows):
        raise Violation('display', '%s: %d rows are displayed, %d are recorded' % (what, len(nums), len(rows)))
    cols = columns(s)
    if header:
        ht = re.sub(r'\s+', ' ', lines[0]).strip()
        want = re.sub(r'\s+', ' ', ' '.join(n for n, _ in cols)).strip()
        if ht != want:
            raise Violation('display', '%s: the header is %r, the columns are %r' % (what, ht, want))
    for n, r in zip(nums, rows):
        tok = lines[n].split()
        if len(tok) != len(cols):
            raise Violation('display', '%s: row %r has %d values, the header %d' % (what, lines[n], len(tok), len(cols)))
        for t, (h, f) in zip(tok, cols):
            v = getattr(r, f)
            x, t = float(v), float(t)
            if np.isnan(x) and np.isnan(t) or x == t:
                continue
            if not abs(x - t) <= 0.006 * max(abs(x), abs(t)):
                raise Violation('display', '%s: column %s shows %s, field %s of iteration %s is %.6g' % (what, h, t, f, r.Iter, x))
    return len(rows)


def columns(s):
    cls = type(s)
    if hasattr(cls, 'hdrtxt') and callable(cls.hdrtxt):
        h, v = cls.hdrtxt(), cls.hdrval()
        out = [(n, v[n]) for n in h]
        if 'AutoRho' in s.opt and not s.opt['AutoRho', 'Enabled']:
            out = out[:-1]
        if 'Backtrack' in s.opt and s.opt['Backtrack'] is None:
            out = [(n, f) for n, f in out if n not in ('F', 'Q', 'It_Bt', 'L')]
        return out
    if 'Consensus' in cls.__name__:
        return [('Itn', 'Iter'), ('Fnc', 'ObjFun'), ('DFid', 'DFid'), ('Reg\u21131', 'RegL1')]
    o = s.isc
    return [(n, o.hdrmap[n]) for n in o.hdrtxt]


def execute(scn, ctx):
    c = scn['c']
    tol = cat.tol(c)
    segs = scn['segs']

    def make(init):
        if scn.get('fam') == 'par':
            b = par.par_make(c, scn['nproc'], None)
        elif scn.get('fam') == 'cns':
            b = par.cns_make(c, scn['nproc'])
        else:
            inp = cat.inputs(c)
            o = cat.options(c, inp, None)
            for n, v in init.items():
                if n in o:
                    o[n] = v
                    ctx.key(c['name'], n, v)
                    ctx.fault('option')
                for k in ('CBPDN', 'CCMOD', 'BPDN', 'CMOD'):
                    if k in o and n in o[k]:
                        o[k, n] = v
                        ctx.key(c['name'], k, n, v)
                        ctx.fault('option')
            b = cat.construct(c, inp, o)
        return b

    def run(var):
        b = make(scn['init'] if var else {})
        s = cat.core(b)
        its = []
        for n in ('Verbose', 'FastSolve'):
            if n in s.opt:
                s.opt[n] = False
        seen = []
        out = Out()
        fail = None
        with contextlib.redirect_stdout(out):
            for g, sg in enumerate(segs):
                p0, r0 = out.tell(), len(s.itstat)
                if var:
                    for n, v in scn['calls'][g].items():
                        if n in s.opt and not (n == 'IterTimer' and scn.get('fam') == 'cns'):
                            s.opt[n] = v if n != 'IterTimer' or v in s.timer.t0 else 'solve'
                            ctx.key(c['name'], n, v, g)
                            ctx.fault('option')
                    f = scn['fail']
                    if f and f['call'] == g:
                        out.left, out.err = f['write'], getattr(errno, f['err'])
                try:
                    ret = cat.drive(b, [sg])
                except OSError as e:
                    if not out.failed:
                        raise
                    ctx.fault('output')
                    fail = g
                    if e.errno != out.err:
                        raise Violation('output', 'the failing output raised %s, the call %s' % (errno.errorcode[out.err], e))
                    break
                if out.failed:
                    raise Violation('output', '%s, call %d: writing the status failed and the call reported nothing' % (c['name'], g))
                out.left = None
                if var:
                    n = display('%s, call %d' % (c['name'], g), out.getvalue()[p0:], s, list(s.itstat)[r0:], s.opt['StatusHeader'], s.opt['Verbose'])
                    if s.opt['Verbose']:
                        ctx.probe('row', n)
                its.append(cat.result(b, ret))
                ctx.steps += 1
        return its, list(s.itstat), fail
    if scn.get('fam'):
        ENV.pools = PoolWorld(ctx, par.schedules(scn['sched']))
        ENV.ncpu = 3
    want = ctx.reference(run, False)
    if not all_finite(want[0]):
        ctx.probe('diverged')
        return
    got = ctx.attempt('run', run, True)
    for g, r in enumerate(got[0]):
        same('%s, call %d' % (c['name'], g), r, want[0][g], tol, 'solution')
    if got[2] is None and len(got[0]) != len(segs):
        raise Violation('output', 'calls are missing')
    # the statistics
    rec = {r.Iter: r for r in want[1]}
    alg = not scn['init'].get('AccurateDFid') and not scn['init'].get('AuxVarObj', False) and 'AuxVarObj' not in scn['init'] and 'AccurateDFid' not in scn['init']
    for r in got[1]:
        if r.Iter not in rec:
            raise Violation('records', 'iteration %s is recorded, the reference has none' % r.Iter)
        if alg:
            w = rec[r.Iter]
            for f in r._fields:
                x, y = getattr(r, f), getattr(w, f)
                if f == 'Time' or f.startswith('XSlv') and 'LinSolveCheck' in scn['init'] or x is None or y is None:
                    continue
                x, y = np.asarray(x, float), np.asarray(y, float)
                if x.shape != y.shape or not np.allclose(x, y, rtol=max(tol, 1e-6) * 10, atol=1e-9 if not cat.f32(c) else 1e-3, equal_nan=True):
                    raise Violation('statistics', '%s of iteration %s is %s, with other reporting options %s' % (f, r.Iter, x, y))
    ctx.log(c['name'], segs, len(got[1]), got[2])
    ctx.note('%s %s %s' % (c['name'], scn['init'], scn['calls']))


def shrink(scn):
    if scn['fail']:
        yield with_(scn, fail=None)
    for k in list(scn['init']):
        yield with_(scn, init={n: v for n, v in scn['init'].items() if n != k})
    for g, d in enumerate(scn['calls']):
        for k in d:
            yield with_(scn, calls=scn['calls'][:g] + [{n: v for n, v in d.items() if n != k}] + scn['calls'][g + 1:])
    if scn.get('nproc'):
        yield with_(scn, nproc=0)
    if len(scn['segs']) > 1 and not scn['fail']:
        for g in range(len(scn['segs'])):
            yield with_(scn, segs=scn['segs'][:g] + scn['segs'][g + 1:], calls=scn['calls'][:g] + scn['calls'][g + 1:])
    for i, (l, st) in enumerate(scn['segs']):
        if l > 1:
            yield with_(scn, segs=scn['segs'][:i] + [[l - 1, None if st is None else min(st, l - 1)]] + scn['segs'][i + 1:])
    if not scn.get('fam'):
        for cc in cat.shrink_conf(scn['c']):
            yield with_(scn, c=cc)
