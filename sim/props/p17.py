"""P17: image and dictionary files are read completely or an error is reported."""
import os
import io
import copy
import errno
import shutil
import struct
import tempfile
import zlib
import builtins

import numpy as np
import imageio.v3 as iio3
import scipy.ndimage as sn
from PIL import Image

from sporco import util as su

from .. import boot
from ..engine import Violation
from ..util import rs, with_, drop_each

LEVEL = 'exploration'
RUNS = dict(quick=1600, thorough=60000)
RULE = ('a scenario is a directory tree with image files and other content, and a sequence of listings, reads with conversion options, replacements of files, and storage faults acting on chosen reads '
        'below the file interface; every answer is compared with the stored pixels converted by an independent reference, or must be an error; non-trivial if at least one read is performed')
MEASURE = 'distinct (operation, file kind, options, fault, outcome) tuples'
COMPONENTS = {'real': ['sporco.util.ExampleImages', 'sporco.util.convdicts', 'sporco.signal.rgb2gray', 'imageio', 'PIL', 'filetype', 'numpy.load', 'io.BufferedReader'],
              'stub': ['the raw file below io.BufferedReader (faulty file), directory trees in a scratch directory']}
ASSUMPTIONS = ['images have 8 bits per sample', 'whether a corrupt file can be recognised as corrupt is decided by the decoding library (imageio, zipfile): for flipped bytes the library called directly is the reference',
               'a listing may raise an error instead when a file cannot be read']

NAMES = ['a.png', 'b.png', 'im 1.png', 'x', u'\u00fc.png', 'noext', 'c.PNG', 'z.data']
DIRS = ['', 's', 'standard', 'kodak', 's/t', 'a.b', 'long name', 'ab/cd/ef']
KINDS = ['gray', 'rgb', 'rgb', 'rgba', 'bmp', 'jpg', 'text', 'empty', 'fake', 'npz', 'gray3']


def generate(rng, tier, i):
    files = []
    used = set()
    for _ in range(rng.randint(1, 6)):
        p = (rng.choice(DIRS), rng.choice(NAMES))
        if p in used:
            continue
        used.add(p)
        files.append(dict(d=p[0], n=p[1], kind=rng.choice(KINDS), seed=rng.getrandbits(24), sz=[rng.randint(2, 9), rng.randint(2, 9)]))
    ctor = dict(scaled=rng.choice([False, False, True]), dtype=rng.choice([None, None, 'uint8', 'float32', 'float64', 'int16']), zoom=rng.choice([None, None, None, .5, 2.0]), gray=rng.choice([False, False, True]))
    ops = []
    for _ in range(rng.randint(1, 8)):
        r = rng.random()
        if r < .12:
            ops.append(dict(op='list', spell=rng.choice(SPELL), fault=gen_fault(rng) if rng.random() < .4 else None))
        elif r < .3:
            ops.append(dict(op='replace', f=rng.randrange(len(files)), kind=rng.choice(KINDS + ['gone', 'gone', 'dir']), seed=rng.getrandbits(24), sz=[rng.randint(2, 9), rng.randint(2, 9)]))
        elif r < .45:
            ops.append(dict(op='dicts', fault=gen_fault(rng) if rng.random() < .7 else None))
        else:
            ops.append(dict(op='image', f=rng.randrange(len(files)), bygroup=rng.random() < .5, scaled=rng.choice([None, None, True, False]), dtype=rng.choice([None, None, 'uint8', 'float32', 'float64', 'int16']),
                            idx=rng.choice([None, None, 'crop', 'row', 'step']), zoom=rng.choice([None, None, .5, 2.0, 1.5]), gray=rng.choice([None, None, True, False]), fault=gen_fault(rng) if rng.random() < .4 else None,
                            twice=rng.random() < .2))
    return dict(files=files, ctor=ctor, spell=rng.choice(SPELL), ops=ops)


SPELL = ['plain', 'plain', 'slash', 'dbl', 'rel', 'dot', 'relslash', 'cwd', 'up']


def gen_fault(rng):
    k = rng.choice(['short', 'short', 'trunc', 'eio', 'eacces', 'emfile', 'enoent', 'flip', 'eintr', 'zeros', 'estale'])
    return dict(k=k, at=rng.random(), n=rng.choice([1, 2, 7, 100]), which=rng.choice([0, 0, 0, 1]))


def nontrivial(scn):
    import json
    return json.dumps(scn, sort_keys=True) if any(o['op'] in ('image', 'dicts') for o in scn['ops']) else None


# ------------------------------------------------------------- stored content

def png(a):
    ct = {2: 0, 3: 2, 4: 6}[a.ndim if a.ndim == 2 else a.shape[2]]

    def chunk(t, d):
        return struct.pack('>I', len(d)) + t + d + struct.pack('>I', zlib.crc32(t + d))
    raw = b''.join(b'\0' + a[r].tobytes() for r in range(a.shape[0]))
    return (b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', struct.pack('>IIBBBBB', a.shape[1], a.shape[0], 8, ct, 0, 0, 0)) +
            chunk(b'IDAT', zlib.compress(raw)) + chunk(b'IEND', b''))


def content(kind, seed, sz):
    """(bytes, array or None)"""
    r = rs(seed)
    h, w = sz
    if kind in ('gray', 'gray3'):
        a = r.randint(0, 256, size=(h, 3 if kind == 'gray3' else w)).astype(np.uint8)
        return png(a), a
    if kind in ('rgb', 'rgba'):
        a = r.randint(0, 256, size=(h, w, len(kind))).astype(np.uint8)
        return png(a), a
    if kind == 'bmp':
        a = r.randint(0, 256, size=(h, w, 3)).astype(np.uint8)
        f = io.BytesIO()
        Image.fromarray(a).save(f, format='bmp')
        return f.getvalue(), a
    if kind == 'jpg':
        a = r.randint(0, 256, size=(h, w, 3)).astype(np.uint8)
        f = io.BytesIO()
        Image.fromarray(a).save(f, format='jpeg', quality=95)
        return f.getvalue(), np.asarray(Image.open(io.BytesIO(f.getvalue())))
    if kind == 'text':
        return b'plain text %d\n' % seed * 9, None
    if kind == 'empty':
        return b'', None
    if kind == 'fake':
        return b'PNG? no' + r.bytes(40), None
    f = io.BytesIO()
    np.savez(f, a=np.arange(3))
    return f.getvalue(), None


# ---------------------------------------------------------------- faulty files

class Raw(io.RawIOBase):
    def __init__(self, data, f, name, log):
        self.d, self.f, self.name, self.p, self.log, self.k = data, f, name, 0, log, 0
        self.mode = 'rb'

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, o, w=0):
        self.p = o if w == 0 else self.p + o if w == 1 else len(self.d) + o
        return self.p

    def tell(self):
        return self.p

    def readinto(self, b):
        n = min(len(b), max(len(self.d) - self.p, 0))
        f = self.f
        if f['k'] == 'short':
            n = min(n, f['n'])
            self.log('short_read')
        elif f['k'] == 'eintr':
            self.k += 1
            if self.k % 2:
                # an interrupted call that has transferred part of the data
                n = min(n, 1)
                self.log('interrupted_read')
        elif f['k'] in ('eio', 'estale'):
            lim = int(f['at'] * len(self.d))
            if self.p + n > lim:
                if self.p >= lim or n == 0:
                    self.log('read_error')
                    raise OSError(errno.EIO if f['k'] == 'eio' else errno.ESTALE, 'injected read error', self.name)
                n = lim - self.p
        b[:n] = self.d[self.p:self.p + n]
        self.p += n
        return n


class Files(object):
    """The seam: open() for reading inside one directory (or of one file) goes through a chosen fault."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.fault = None       # (predicate, fault)
        self.count = 0
        self.fired = False
        self.ro, self.rio = builtins.open, io.open
        builtins.open = io.open = self.open

    def close(self):
        builtins.open, io.open = self.ro, self.rio

    def arm(self, pred, f):
        self.fault = (pred, f) if f else None
        if f:
            self.count = 0
            self.fired = False

    def open(self, file, mode='r', *a, **k):
        if self.fault and isinstance(file, (str, bytes, os.PathLike)) and 'r' in mode and 'b' in mode and '+' not in mode:
            pred, f = self.fault
            p = os.path.realpath(os.fsdecode(os.fspath(file)))
            if pred(p):
                self.count += 1
                if self.count > f['which']:
                    return self.faulty(p, f)
        return self.ro(file, mode, *a, **k)

    def log(self, kind):
        if not self.fired:
            self.ctx.fault(kind)
        self.fired = True

    def faulty(self, p, f):
        k = f['k']
        e = dict(eacces=errno.EACCES, emfile=errno.EMFILE, enoent=errno.ENOENT).get(k)
        if e:
            self.log('open_' + k)
            raise OSError(e, os.strerror(e), p)
        with self.ro(p, 'rb') as h:
            d = bytearray(h.read())
        n = int(f['at'] * len(d))
        if k == 'trunc':
            self.log('truncated')
            d = d[:n]
        elif k == 'flip' and d:
            self.log('flipped_byte')
            d[min(n, len(d) - 1)] ^= 0x21
        elif k == 'zeros':
            self.log('lost_tail')
            d[n:] = bytes(len(d) - n)
        return io.BufferedReader(Raw(bytes(d), f, p, self.log))


# ------------------------------------------------------------------- reference

def index(kind):
    return {None: None, 'crop': np.s_[1:, :2], 'row': np.s_[:1], 'step': np.s_[::2, ::2]}[kind]


def convert(a, o, ctor):
    """Reference conversion of the stored array; (array, tolerance)."""
    scaled = ctor['scaled'] if o['scaled'] is None else o['scaled']
    dt = o['dtype'] or ctor['dtype'] or 'uint8'
    if scaled and np.dtype(dt).kind in 'iu':
        dt = 'float32'
    zoom = ctor['zoom'] if o['zoom'] is None else o['zoom']
    gray = ctor['gray'] if o['gray'] is None else o['gray']
    x = a.astype(dt)
    tol = 0 if np.dtype(dt).kind in 'iu' else 1e-5 if dt == 'float32' else 1e-10
    if scaled:
        x = x / np.array(255, dtype=dt)
    if o['idx']:
        x = x[index(o['idx'])]
    if zoom is not None:
        x = sn.zoom(x, zoom if x.ndim == 2 else (zoom, zoom, 1))
    if gray and x.ndim == 3:
        if x.shape[2] != 3:
            return None, 0
        y = x.astype(float)
        y = .299 * y[..., 0] + .587 * y[..., 1] + .114 * y[..., 2]
        if np.dtype(dt).kind in 'iu':
            return y, (1.0, dt)
        x = y.astype(dt)
    return x, tol


def check_image(what, got, want, tol):
    if not isinstance(got, np.ndarray) or got.shape != want.shape:
        raise Violation('image', '%s: shape %s, expected %s' % (what, np.shape(got), want.shape))
    if isinstance(tol, tuple):
        if got.dtype != np.dtype(tol[1]) and got.dtype.kind != 'f':
            raise Violation('image', '%s: dtype %s, expected %s' % (what, got.dtype, tol[1]))
        tol = tol[0]
    elif got.dtype != want.dtype:
        raise Violation('image', '%s: dtype %s, expected %s' % (what, got.dtype, want.dtype))
    if got.size:
        d = np.abs(got.astype(float) - want.astype(float)).max()
        s = 1.0 if got.dtype.kind in 'iu' or tol == 1.0 else max(1.0, np.abs(want.astype(float)).max())
        if not d <= tol * s:
            raise Violation('image', '%s: pixels differ from the stored image by up to %g' % (what, d))


def execute(scn, ctx):
    top = os.path.realpath(tempfile.mkdtemp(prefix='vp17'))
    root = os.path.join(top, 'root')
    os.mkdir(root)
    fs = Files(ctx)
    cwd = os.getcwd()
    try:
        os.chdir(top)
        _execute(scn, ctx, root, fs)
    finally:
        fs.close()
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)


def spelled(root, how):
    os.chdir(os.path.dirname(root))
    if how == 'cwd':
        os.chdir(root)
        return '.'
    return dict(plain=root, slash=root + '/', dbl=root + '//', rel='root', dot='./root', relslash='root/', up='root/../root')[how]


def put(root, f, kind, seed, sz):
    p = os.path.join(root, f['d'], f['n'])
    if os.path.isdir(p):
        shutil.rmtree(p)
    elif os.path.lexists(p):
        os.unlink(p)
    if kind == 'gone':
        return None
    if kind == 'dir':
        os.mkdir(p)
        return None
    d, a = content(kind, seed, sz)
    with open(p, 'wb') as h:
        h.write(d)
    return a


def expected_listing(scn, st):
    lst, grp = set(), {}
    for f, a in zip(scn['files'], st):
        if a is not None:
            n = os.path.join(f['d'], f['n'])
            lst.add(n)
            grp.setdefault(f['d'], set()).add(n)
    return lst, grp


def check_listing(what, ei, lst, grp):
    got = list(ei.images())
    if len(got) != len(set(got)) or set(got) != lst:
        raise Violation('listing', '%s: images %s, expected %s' % (what, sorted(got), sorted(lst)))
    g = list(ei.groups())
    if len(g) != len(set(g)) or set(g) != set(grp):
        raise Violation('listing', '%s: groups %s, expected %s' % (what, sorted(g), sorted(grp)))
    for k in grp:
        gi = list(ei.groupimages(k))
        if len(gi) != len(grp[k]) or set(gi) != grp[k]:
            raise Violation('listing', '%s: group %s has images %s, expected %s' % (what, k, gi, sorted(grp[k])))


DICTS = []


def _execute(scn, ctx, root, fs):
    st = []
    for f in scn['files']:
        os.makedirs(os.path.join(root, f['d']), exist_ok=True)
        st.append(put(root, f, f['kind'], f['seed'], f['sz']))
    ck = {k: v for k, v in scn['ctor'].items()}
    if ck['dtype']:
        ck['dtype'] = np.dtype(ck['dtype']).type

    def new(how):
        return su.ExampleImages(pth=spelled(root, how), **ck)
    ei = ctx.attempt('listing', new, scn['spell'])
    first = expected_listing(scn, st)
    check_listing('listing of %s path' % scn['spell'], ei, *first)
    # every listed image can be read under its listed name
    for n in ei.images():
        o = dict(scaled=None, dtype=None, zoom=None, gray=None, idx=None)
        k = [os.path.join(f['d'], f['n']) for f in scn['files']].index(n)
        want, tol = convert(st[k], o, scn['ctor'])
        if want is not None:
            check_image('listed image %s' % n, ctx.attempt('reading listed image %s' % n, ei.image, n), want, tol)
    for q, op in enumerate(scn['ops']):
        f = op.get('fault')
        what = 'op %d (%s%s)' % (q, op['op'], ', fault ' + f['k'] if f else '')
        ctx.steps += 1
        if op['op'] == 'replace':
            f = scn['files'][op['f']]
            st[op['f']] = put(root, f, op['kind'], op['seed'], op['sz'])
            ctx.fault('replaced' if op['kind'] not in ('gone', 'dir') else 'removed')
            continue
        if op['op'] == 'list':
            fs.arm(lambda p: p.startswith(root), f)
            fs.fired = False
            try:
                ei = new(op['spell'])
            except OSError as e:
                if not fs.fired:
                    raise Violation('listing', '%s raised %s without a fault' % (what, e))
                ei = None
            fs.arm(None, None)
            if ei is None or (f and f['k'] in ('flip', 'zeros', 'trunc', 'eio', 'estale', 'eacces', 'enoent', 'emfile') and fs.fired):
                ctx.key('list', f['k'], ei is None)
                if ei is not None:
                    # files that could be read must be listed correctly; nothing may be invented
                    lst, grp = expected_listing(scn, st)
                    if not set(ei.images()) <= {os.path.join(g['d'], g['n']) for g in scn['files']}:
                        raise Violation('listing', '%s: listing names files that do not exist' % what)
                ei = ctx.attempt('listing after a fault', new, scn['spell'])
            lst, grp = expected_listing(scn, st)
            check_listing(what, ei, lst, grp)
            ctx.key('list', op['spell'])
            continue
        if op['op'] == 'dicts':
            pth = os.path.realpath(os.path.join(boot.SPORCO, 'data', 'convdict.npz'))
            if not DICTS:
                with np.load(pth) as z:
                    DICTS.append({k: z[k] for k in z.files})
            want = DICTS[0]

            def direct():
                with np.load(pth) as z:
                    return {k: z[k] for k in z.files}
            if f and f['k'] in ('flip', 'zeros', 'trunc'):
                fs.arm(lambda p: p == pth, dict(f, which=0))
                try:
                    want = direct()
                except Exception:
                    want = None
            if f:
                f = dict(f, which=0)
                if f['k'] == 'short':
                    f['n'] = max(f['n'], 100)
            fs.fired = False
            fs.arm(lambda p: p == pth, f)
            try:
                got = su.convdicts()
            except Exception as e:
                if not f or f['k'] in ('short', 'eintr') or not fs.fired or (f['k'] in ('flip', 'zeros', 'trunc') and want is not None):
                    raise Violation('dicts', '%s raised %s: %s' % (what, type(e).__name__, e))
                ctx.key('dicts', f['k'], 'error')
                continue
            finally:
                fs.arm(None, None)
            if want is None or (f and f['k'] in ('eacces', 'emfile', 'enoent')):
                raise Violation('dicts', '%s: an unreadable file gave %d dictionaries' % (what, len(got)))
            if set(got) != set(want):
                raise Violation('dicts', '%s: dictionaries %s, expected %s' % (what, sorted(got), sorted(want)))
            for k in want:
                if not (isinstance(got[k], np.ndarray) and got[k].dtype == want[k].dtype and got[k].shape == want[k].shape and np.array_equal(got[k], want[k])):
                    raise Violation('dicts', '%s: dictionary %s differs from the stored one' % (what, k))
            got[k][...] = 0         # what one caller does to its copy is not seen by the next
            ctx.key('dicts', f['k'] if f else None, 'ok')
            continue
        fl = scn['files'][op['f']]
        a = st[op['f']]
        pth = os.path.realpath(os.path.join(root, fl['d'], fl['n']))
        kw = {}
        for k in ('scaled', 'zoom', 'gray'):
            if op[k] is not None:
                kw[k] = op[k]
        if op['dtype']:
            kw['dtype'] = np.dtype(op['dtype']).type
        if op['idx']:
            kw['idxexp'] = index(op['idx'])
        args = (fl['n'],) if op['bygroup'] else (os.path.join(fl['d'], fl['n']),)
        if op['bygroup']:
            kw['group'] = fl['d']
        if a is not None and f and f['k'] in ('flip', 'zeros', 'trunc'):
            fs.arm(lambda p: p == pth, dict(f, which=0))
            try:
                a = iio3.imread(pth)
            except Exception:
                a = None
            fs.arm(None, None)
        if a is not None:
            want, tol = convert(a, op, scn['ctor'])
        else:
            want = None
        for rep in range(2 if op['twice'] else 1):
            if f:
                f = dict(f, which=0)
            fs.fired = False
            fs.arm(lambda p: p == pth, f)
            try:
                got = ei.image(*args, **kw)
            except Exception as e:
                hard = f and fs.fired and f['k'] not in ('short', 'eintr', 'flip', 'zeros', 'trunc')
                if hard or want is None:
                    ctx.key('image', fl['kind'], f['k'] if f else None, 'error')
                    if ((f and f['k'] in ('eacces', 'emfile', 'enoent')) or not os.path.isfile(pth)) and not isinstance(e, OSError):
                        raise Violation('error', '%s: an inaccessible image was reported as %s: %s' % (what, type(e).__name__, e))
                    continue
                raise Violation('image', '%s: reading %s raised %s: %s' % (what, args, type(e).__name__, str(e)[:200]))
            finally:
                fs.arm(None, None)
            if f and f['k'] in ('eacces', 'emfile', 'enoent'):
                raise Violation('image', '%s: an inaccessible image was returned' % what)
            if a is None:
                raise Violation('image', '%s: %s cannot be decoded but was returned with shape %s' % (what, args, np.shape(got)))
            if want is None:
                ctx.probe('rgba_gray_accepted')
                continue
            check_image(what + ' ' + str(args), got, want, tol)
            ctx.key('image', fl['kind'], f['k'] if f else None, op['dtype'], op['scaled'], op['idx'], op['zoom'], op['gray'])
            got[...] = 0            # a second read returns the stored data again


def shrink(scn):
    for ops in drop_each(scn['ops']):
        yield with_(scn, ops=ops)
    for n, o in enumerate(scn['ops']):
        for k in ('fault', 'idx', 'zoom', 'gray', 'scaled', 'dtype'):
            if o.get(k) is not None:
                s = copy.deepcopy(scn)
                s['ops'][n][k] = None
                yield s
    for k, v in (('zoom', None), ('gray', False), ('scaled', False), ('dtype', None)):
        if scn['ctor'][k] != v:
            s = copy.deepcopy(scn)
            s['ctor'][k] = v
            yield s
    if scn['spell'] != 'plain':
        yield with_(scn, spell='plain')
    last = len(scn['files']) - 1
    if last > 0 and not any(o.get('f') == last for o in scn['ops']):
        yield with_(scn, files=scn['files'][:-1])
