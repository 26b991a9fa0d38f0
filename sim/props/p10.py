"""P10: downloads return complete data or a URL error, within the retry limit."""
import gc
import io
import os
import urllib.error
import urllib.request

import sporco.util as su

from ..boot import ENV
from ..engine import Violation
from ..simnet import NetWorld, SimClock, Hang
from ..util import rs, with_

LEVEL = 'exploration'
RUNS = dict(quick=5000, thorough=200000)
RULE = ('a scenario fixes the content of a resource, its transfer encoding, the number of attempts, the time limit, and for each connection a fault (refusal, resolution failure, unreachable host, '
        'time-out or reset while connecting, sending, in the headers or at a byte position of the body, premature close, malformed response, HTTP error, redirection, slow delivery in pieces); '
        'non-trivial if at least one fault strikes')
MEASURE = 'distinct sequences of (fault kind, stage)'
COMPONENTS = {'real': ['sporco.util.netgetdata', 'urllib.request', 'http.client'], 'stub': ['sockets and name resolution', 'the HTTP server', 'the clock']}
ASSUMPTIONS = ['a response cut short inside its header lines, or inside a body that carries no length, is indistinguishable from a complete one for the Python HTTP library and is not injected',
               'a connection object that has been garbage collected has closed its socket']

URL = 'http://example.test/data/file.bin'
TIMEOUT = 60


def gen_ev(rng, size):
    k = rng.choice(['ok', 'ok', 'refused', 'resolve', 'unreachable', 'timeout', 'timeout', 'timeout', 'timeout', 'timeout', 'reset', 'close', 'close', 'bad', 'http', 'redirect', 'pipe'])
    e = {'kind': k}
    if k == 'timeout':
        e['where'] = rng.choice(['connect', 'syn', 'send', 'status', 'headers', 'body', 'body', 'body'])
    elif k == 'reset':
        e['where'] = rng.choice(['send', 'status', 'headers', 'body', 'body'])
    elif k == 'close':
        e['where'] = rng.choice(['status', 'body', 'body', 'body'])
    elif k == 'bad':
        e['what'] = rng.choice(['status', 'chunk', 'longline'])
    elif k == 'http':
        e['code'] = rng.choice([400, 403, 404, 408, 500, 502, 503, 504])
    if k in ('timeout', 'reset', 'close') and e['where'] in ('body', 'headers', 'status'):
        e['frac'] = rng.choice([0.0, rng.random(), rng.random(), 0.9999])
    if rng.random() < .3 and e.get('what') != 'longline':
        e['chunk'] = rng.choice([1, 7, 100, 1000]) if size < 3000 else rng.choice([500, 4000])
    if rng.random() < .2:
        e['delay'] = rng.choice([0.001, 0.01])
    return e


def generate(rng, tier, i):
    size = rng.choice([0, 1, 10, 100, 1000, 9000, 40000])
    return dict(ds=rng.randrange(1 << 30), size=size, enc=rng.choice(['length', 'length', 'chunked', 'close']), maxtry=rng.choice([1, 2, 3, 3, 3, 5, None]),
                timeout=rng.choice([1, 5, 30, None]), script=[gen_ev(rng, size) for _ in range(rng.randint(0, 7))], req=rng.random() < .1)


def nontrivial(scn):
    import json
    return json.dumps(scn, sort_keys=True) if any(e['kind'] not in ('ok', 'redirect') for e in scn['script']) else None


def responder(scn, content):
    def respond(k, req, ev):
        head = b'HTTP/1.1 200 OK\r\nServer: sim\r\n'
        body = content
        if ev['kind'] == 'http':
            b = b'<html>error %d</html>' % ev['code']
            return b'HTTP/1.1 %d Simulated\r\nContent-Length: %d\r\n\r\n' % (ev['code'], len(b)) + b, None
        if ev['kind'] == 'redirect':
            return b'HTTP/1.1 302 Found\r\nLocation: http://mirror%d.test/x\r\nContent-Length: 0\r\n\r\n' % k, None
        if ev['kind'] == 'bad' and ev['what'] == 'status':
            return b'NOT HTTP AT ALL\r\n\r\n', None
        if ev['kind'] == 'bad' and ev['what'] == 'longline':
            return b'HTTP/1.1 200 OK\r\nX: ' + b'y' * 70000 + b'\r\n\r\n', None
        enc = scn['enc']
        if ev['kind'] == 'close' and ev['where'] == 'body' and enc == 'close':
            enc = 'length'
        if ev['kind'] == 'bad' or enc == 'chunked':
            head += b'Transfer-Encoding: chunked\r\n'
            n = max(1, len(content) // 3 + 1)
            body = b''.join(b'%x\r\n%s\r\n' % (len(content[i:i + n]), content[i:i + n]) for i in range(0, len(content), n))
            body += b'0\r\n\r\n'
            if ev['kind'] == 'bad':
                body = b'zz!\r\n' + body
        elif enc == 'length':
            head += b'Content-Length: %d\r\n' % len(content)
        head += b'Connection: close\r\n\r\n'
        cut = None
        if 'frac' in ev:
            w = ev['where']
            if w == 'status':
                cut = int(ev['frac'] * 5)
            elif w == 'headers':
                cut = 16 + int(ev['frac'] * (len(head) - 17))
            else:
                # for a chunked body the data is complete once the last chunk is known
                m = len(body) if enc != 'chunked' else len(body) - 5
                cut = len(head) + min(max(0, m - 1), int(ev['frac'] * m))
        return head + body, cut
    return respond


def strikes(ev, scn):
    """Whether the event makes the attempt fail."""
    if ev['kind'] in ('ok', 'redirect'):
        return False
    if 'frac' in ev and ev['where'] == 'body' and scn['size'] == 0 and scn['enc'] != 'chunked':
        # nothing to read after the headers: only a body delimited by the end of the connection waits for it
        return scn['enc'] == 'close' and ev['kind'] != 'close'
    return True


def expect(scn):
    """('ok', n) / ('error', n, kinds): outcome and number of connections."""
    maxtry = 3 if scn['maxtry'] is None else scn['maxtry']
    k = 0
    kind = None
    script = scn['script']
    for a in range(maxtry):
        hops = 0
        while True:
            ev = script[k] if k < len(script) else {'kind': 'ok'}
            k += 1
            if ev['kind'] == 'redirect' and hops < 4:
                hops += 1
                continue
            break
        if ev['kind'] == 'redirect':
            return None
        if not strikes(ev, scn):
            return 'ok', k, None
        kind = ev
        if ev['kind'] != 'timeout':
            return 'error', k, ev
    return 'error', k, kind


def execute(scn, ctx):
    for v in list(os.environ):
        if v.lower().endswith('_proxy'):
            del os.environ[v]
    want = expect(scn)
    if want is None:
        return
    r = rs(scn['ds'])
    content = r.bytes(scn['size'])
    clock = SimClock()
    net = NetWorld(ctx, scn['script'], responder(scn, content), clock)
    ENV.net, ENV.clock = net, clock
    kw = {}
    if scn['maxtry'] is not None:
        kw['maxtry'] = scn['maxtry']
    if scn['timeout'] is not None:
        kw['timeout'] = scn['timeout']
    out = exc = None
    try:
        out = su.netgetdata(URL, **kw)
    except Hang as e:
        raise Violation('hang', str(e))
    except Exception as e:
        exc = e
    ENV.clock = None
    ctx.simtime += clock.t
    what = [(e['kind'], e.get('where', e.get('what', e.get('code')))) for e in scn['script'][:want[1]]]
    ctx.key(what)
    ctx.log(what, type(exc).__name__, net.nconn)
    ctx.steps += net.nconn
    if exc is None:
        if not hasattr(out, 'read'):
            raise Violation('form', 'returned %r' % type(out))
        data = out.read()
        if data != content:
            raise Violation('content', 'returned %d bytes that are not the %d bytes of the resource, after %s' % (len(data), len(content), what))
        if want[0] != 'ok':
            raise Violation('retries', 'succeeded after %d connections although %s' % (net.nconn, what))
    else:
        if not isinstance(exc, urllib.error.URLError):
            raise Violation('type', 'network failure %s surfaced as %s: %s' % (what, type(exc).__name__, exc))
        if want[0] == 'ok':
            raise Violation('retries', 'raised %s: %s although %s' % (type(exc).__name__, exc, what))
        if want[2]['kind'] == 'http' and (not isinstance(exc, urllib.error.HTTPError) or exc.code != want[2]['code']):
            raise Violation('type', 'HTTP error %d surfaced as %r' % (want[2]['code'], exc))
    if net.nconn != want[1]:
        raise Violation('retries', '%d connections were made, expected %d, for %s' % (net.nconn, want[1], what))
    to = 10 if scn['timeout'] is None else scn['timeout']
    limit = (max(127, to)) * want[1] + 1 + net.delayed
    if clock.t > limit:
        raise Violation('time', 'took %.1f s' % clock.t)
    out = exc = None
    gc.collect()
    if net.open_sockets():
        raise Violation('leak', '%d connection(s) left open after %s' % (len(net.open_sockets()), what))
    ENV.net = None


def shrink(scn):
    s = scn['script']
    for i in range(len(s)):
        yield with_(scn, script=s[:i] + s[i + 1:])
    for i, e in enumerate(s):
        for k in ('chunk', 'delay'):
            if k in e:
                d = dict(e)
                del d[k]
                yield with_(scn, script=s[:i] + [d] + s[i + 1:])
    if scn['size'] > 10:
        yield with_(scn, size=10)
    if scn['enc'] != 'length':
        yield with_(scn, enc='length')
