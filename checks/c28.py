"""The console answers every request with a complete response, executes only
valid queries within the size limit, and shows tracebacks only in debug mode."""
import json
import string

from hikustat.values import *   # noqa
from hikustat import extlib, models as M
from hikustat.driver import describe_exc
from hikustat.qspec import value
from hikustat.world import World, nm

R_STATUS = 'C28.status'
R_LEN = 'C28.content_length'
R_EXEC = 'C28.executes_valid_queries'
R_READ = 'C28.reads_within_limit'
R_DEBUG = 'C28.hides_internals'
R_BODY = 'C28.answer'

LIMIT = 2 ** 20
HTML = ('<p>caf\u00e9 \u2713</p><a href="${docs_url}">d</a> $js_url '
        '${index_url} $unknown $$')
JS = 'var caf\u00e9 = "\u2713";'
TB = 'Traceback (most recent call last): \u00e9 frames of the library'
SECRET = 'secret detail'
KNOWN = {'/': ('GET', 'POST'), '/docs': ('GET',), '/console.js': ('GET',)}
PATHS = ['/', '', '/docs', '/console.js', '/docs/', '//', '/nope', 'docs',
         '/console.html', '/DOCS', '/index', '/caf\u00e9']
METHODS = ['GET', 'POST', 'HEAD', 'PUT', 'DELETE', 'OPTIONS', 'PATCH', 'get',
           '']
OK_BODY = '[:a {:n [:b {:l [:b]}]}]'
WANT = {'a': 'value of a', 'n': {'b': 'b of i', 'l': [
    {'b': 'b of j'}, {'b': 'b of k'}]}}
VALID = {
    'a field': ('[:a]', {'a': WANT['a']}),
    'links': (OK_BODY, WANT),
    'nothing': ('[]', {}),
    'text': ('[:u]', {'u': 'caf\u00e9 \u2713'}),
    'options': ('[(:o {:x "caf\u00e9"})]', {'o': 'caf\u00e9'}),
    'context': ('[:c]', {'c': 'from the context'}),
    'values': ('[:v]', {'v': [None, True, 1.5, {'k': ''}]}),
}
INVALID = {
    'unknown field': '[:a :nope]', 'unknown link': '[:a {:nope [:a]}]',
    'unknown nested': '[:a {:n [:nope]}]',
    'missing option': '[:a (:r)]' if False else '[:a :r]',
    'wrong option': '[:a (:r {:x "s"})]', 'field as link': '[{:a [:b]}]',
    'link as field': '[:a :n]', 'unknown option': '[(:o {:y 1})]',
}
UNREADABLE = {
    'not EDN': b'[:a', 'a symbol': b'a', 'a map': b'{:a 1}', 'empty': b'',
    'not UTF-8': b'[:a "\xff\xfe"]', 'number': b'[1]', 'closing': b']]',
}
FAILING = {'root field': '[:fa]', 'link': '[{:fl [:b]}]',
           'nested field': '[:a {:n [:fb]}]',
           'row too short': '[:fs]'}
ERRORS = ['ArithmeticError', 'KeyError', 'TypeError', 'AssertionError',
          'ValueError', 'LookupError']


def run(c):
    c.rule(R_STATUS, 'every request gets one response with the right status')
    c.rule(R_LEN, 'the declared content length is the length of the body')
    c.rule(R_EXEC, 'a query is executed exactly when it is within the limit '
           'and valid')
    c.rule(R_READ, 'not more than the declared length is read, nothing '
           'of a request over the limit')
    c.rule(R_DEBUG, 'internals are shown only in debug mode')
    c.rule(R_BODY, 'the body is the answer')
    for p in PATHS:
        c.scenario('path %r' % p, lambda s, p=p: path(s, p), R_STATUS)
    c.scenario('any method', any_method, R_STATUS)
    c.scenario('any path', any_path, R_STATUS)
    for debug in (False, True):
        d = ', debug' * debug
        for n in VALID:
            c.scenario('valid: %s%s' % (n, d), lambda s, a=(n, debug):
                       valid(s, *a), R_EXEC)
        for n in INVALID:
            c.scenario('invalid: %s%s' % (n, d), lambda s, a=(n, debug):
                       invalid(s, *a), R_EXEC)
        for n in UNREADABLE:
            c.scenario('unreadable: %s%s' % (n, d), lambda s, a=(n, debug):
                       unreadable(s, *a), R_DEBUG)
        for n in FAILING:
            for e in ERRORS[:1] if 'row' in n else ERRORS:
                c.scenario('failing: %s, %s%s' % (n, e, d),
                           lambda s, a=(n, e, debug): failing(s, *a),
                           R_DEBUG)
        for stage in ('read', 'validate', 'denormalize'):
            c.scenario('failing: %s%s' % (stage, d), lambda s, a=(
                stage, debug): broken(s, *a), R_DEBUG)
    for n in ('0', '5', '', None, '-7', str(len(OK_BODY)), '999',
              str(LIMIT - 1), str(LIMIT), str(LIMIT + 1), str(2 * LIMIT),
              '10000000000'):
        for body in ('short', 'long'):
            c.scenario('content length %s, %s body' % (n, body),
                       lambda s, a=(n, body): length(s, *a), R_READ)
    c.scenario('many requests', many, R_BODY)


class W28(World):
    def __init__(self, s, debug=False, fail=None):
        super().__init__(s)
        self.debug = debug
        self.fail = fail
        self.loads = []
        self.reads = []
        h = s.I.ext_handlers
        both = lambda p: {p, extlib.canon(p)}
        for p in both('traceback.format_exc'):
            h[p] = lambda I, a, k: Const(TB)
        for p in both('pkgutil.get_data'):
            h[p] = self.asset
        for p in both('string.Template'):
            h[p] = self.template
        self.build()

    def asset(self, I, a, k):
        name = I.resolve(a[1])
        if isinstance(name, Const) and name.v.endswith('.html'):
            return Const(HTML.encode('utf-8'))
        if isinstance(name, Const) and name.v.endswith('.js'):
            return Const(JS.encode('utf-8'))
        raise Imprecise('asset %r' % (name,))

    def template(self, I, a, k):
        text = I.resolve(a[0])
        if not isinstance(text, Const):
            raise Imprecise('a template')
        t = string.Template(text.v)

        def method(name):
            def call(args, kw):
                d = {}
                for x in args:
                    from hikustat.builtins_ import plain
                    d.update(plain(I, x))
                for n, x in kw.items():
                    x = I.resolve(x)
                    if not isinstance(x, Const):
                        raise Imprecise('a value of a template')
                    d[n] = x.v
                try:
                    return Const(getattr(t, name)(d))
                except (KeyError, ValueError) as e:
                    raise I.exc(type(e).__name__, Const(str(e)))
            return self.s.stub(call)
        return self.s.stub(None, attrs={n: method(n) for n in (
            'safe_substitute', 'substitute')})

    def load(self, name, make):
        s = self.s

        def fn(args, kw):
            self.loads.append(name)
            if self.fail is not None and name.startswith('f'):
                raise s.I.exc(self.fail, Const(SECRET))
            return make(args)
        return s.stub(fn)

    def build(self):
        s = self.s
        row = lambda *v: lambda a: value(s, list(v))
        rows = lambda f: lambda a: s.list(*[
            s.list(*[f(i) for _ in M.segs_of(s.I, a[0])])
            for i in M.segs_of(s.I, a[1])])
        I = s.get('hiku.types:Integer')
        opt = lambda n, t=NONE: s.list(self.option(n, t))
        of = lambda i: Const('b of %s' % s.I.resolve(i).v)
        seq = self.sub('Sequence', self.typeref('n'))
        self.c_loader = s.mk('hiku.engine:pass_context', self.load(
            'c', lambda a: s.list(s.item(a[0], Const('key')))))
        self.g = self.graph(
            s.mk('hiku.graph:Node', Const('n'), s.list(
                s.mk('hiku.graph:Field', Const('b'), s.get(
                    'hiku.types:String'), self.load('b', rows(of)),
                    description=Const('na\u00efve \u2713')),
                self.field('fb', self.load('fb', rows(of))),
                self.link('l', 'many', 'n', self.load('l', lambda a: s.list(
                    *[s.list(Const('j'), Const('k')) for _ in M.segs_of(
                        s.I, a[0])])), 'b'))),
            self.root(
                self.field('a', self.load('a', row('value of a'))),
                self.field('u', self.load('u', row('caf\u00e9 \u2713'))),
                self.field('v', self.load('v', row(
                    [None, True, 1.5, {'k': ''}]))),
                self.field('o', self.load('o', lambda a: s.list(s.item(
                    s.attr(M.segs_of(s.I, a[0])[0], 'options'),
                    Const('x')))), options=opt('x')),
                self.field('r', self.load('r', row(1)), options=opt('x', I)),
                self.field('c', self.c_loader),
                self.field('fa', self.load('fa', row('x'))),
                self.field('fs', self.load('short', row())),
                self.link('n', 'one', 'n', self.load('n', lambda a: Const(
                    'i')), None),
                self.link('fl', 'one', 'n', self.load('fl', lambda a: Const(
                    'i')), None)))
        self.app = s.mk('hiku.console.ui:ConsoleApplication', self.g,
                        s.mk('hiku.engine:Engine', self.sync()),
                        value(s, {'key': 'from the context'}),
                        debug=Const(self.debug))

    def environ(self, method, path, body=b'', length=None, **kw):
        s = self.s
        env = {'REQUEST_METHOD': method, 'PATH_INFO': path,
               'SCRIPT_NAME': '', 'QUERY_STRING': ''}
        if length is not None:
            env['CONTENT_LENGTH'] = length
        env.update(kw)
        pos = [0]

        def read(args, kw):
            n = s.I.resolve(args[0]) if args else Const(-1)
            if not isinstance(n, Const):
                raise Imprecise('the number of bytes read')
            self.reads.append(n.v)
            if n.v is None or n.v < 0:
                n = Const(len(body))
            r = body[pos[0]:pos[0] + n.v]
            pos[0] += len(r)
            return Const(r)
        d = s.dict_of([(Const(k), v if not isinstance(v, (str, int))
                        else Const(v)) for k, v in env.items()])
        M.dict_set(self.I, d, Const('wsgi.input'), s.stub(
            None, attrs={'read': s.stub(read)}))
        return d

    def request(self, *args, **kw):
        """(status, body) | None"""
        s, I = self.s, self.I
        started = []
        self.loads, self.reads = [], []
        exc, r = s.raises(lambda: s.call(self.app, self.environ(
            *args, **kw), s.stub(lambda a, k: (started.append((a, k)),
                                               NONE)[1])))
        if not s.ok(exc is None, R_STATUS, 'the request raises %s' % (
                exc and describe_exc(I, s.last_raise))):
            return None
        if not s.ok(len(started) == 1, R_STATUS, 'start_response is called '
                    '%d times' % len(started)):
            return None
        a = started[0][0]
        status, headers = I.resolve(a[0]), {}
        if not isinstance(status, Const):
            raise Imprecise('the status')
        for h in M.segs_of(I, a[1]):
            n, v = [I.resolve(x) for x in M.segs_of(I, h)]
            s.ok(n.v.lower() not in headers, R_STATUS, 'header %s is sent '
                 'twice' % n.v)
            headers[n.v.lower()] = v
        body = [I.resolve(x) for x in M.segs_of(I, r)]
        if not all(isinstance(x, Const) for x in body):
            raise Imprecise('the body %s' % [I.show(x) if hasattr(I,'show') else s.show(x) for x in body])
        if not s.ok(all(isinstance(x.v, bytes) for x in body), R_STATUS,
                    'the body is not bytes'):
            return None
        body = b''.join(x.v for x in body)
        n = headers.get('content-length')
        if s.ok(n is not None, R_LEN, 'no content length is declared'):
            if not isinstance(n, Const):
                raise Imprecise('the content length')
            s.ok(n.v == str(len(body)), R_LEN, 'the content length of the '
                 'answer %s is %s, its length is %d' % (
                     status.v, n.v, len(body)))
        text = body.decode('utf-8', 'replace')
        if not self.debug:
            for x in (TB, json.dumps(TB)[1:-1], SECRET, 'Traceback'):
                s.ok(x not in text, R_DEBUG, 'the answer contains %r '
                     'without the debug mode' % x)
        return status.v, text

    def post(self, body, length=Ellipsis, path='/'):
        if isinstance(body, str):
            body = body.encode('utf-8')
        return self.request('POST', path, body, str(len(body))
                            if length is Ellipsis else length)

    def status(self, r, code, what):
        if r is None:
            return False
        return self.s.ok(r[0].startswith('%d ' % code), R_STATUS,
                         '%s is answered with %r instead of %d' % (
                             what, r[0], code))

    def json(self, r):
        try:
            return json.loads(r[1])
        except ValueError:
            self.s.ok(False, R_BODY, 'the answer is not JSON: %s'
                      % r[1][:100])


def code(path, method):
    path = path or '/'
    if path not in KNOWN:
        return 404
    return 200 if method in KNOWN[path] else 405


def path(s, p):
    for debug in (False, True):
        w = W28(s, debug)
        for m in METHODS:
            for script in ('', '/app', '/caf\u00e9/'):
                r = w.request(m, p, OK_BODY.encode(), str(len(OK_BODY)),
                              SCRIPT_NAME=script)
                if not w.status(r, code(p, m), '%s %s' % (m, p)):
                    continue
                if not (m == 'POST' and p in ('', '/')):
                    s.ok(not w.loads, R_EXEC, '%s %s executes the query'
                         % (m, p))
                    if r[0].startswith('200'):
                        content(s, p or '/', script, r[1])


def content(s, p, script, text):
    if p == '/console.js':
        s.ok(text == JS, R_BODY, 'the script is %r' % text[:80])
    elif p == '/docs':
        s.ok('na\u00efve \u2713' in text, R_BODY, 'the documentation is not '
             'complete: %r' % text[-80:])
    else:
        base = script.rstrip('/')
        s.ok('href="%s/docs"' % base in text and 'caf\u00e9' in text,
             R_BODY, 'the page is %r' % text[:80])


def any_method(s):
    w = W28(s)
    for p in ('/docs', '/console.js', '/nope', '/'):
        m = s.tok('method of ' + p, ty='str')
        r = w.request(m, p, b'[:a]', '4')
        known = [x for x in METHODS if s.same3(m, Const(x)) is True]
        want = code(p, known[0] if known else None)
        w.status(r, want, 'a request of %s with %s' % (
            p, 'the method ' + known[0] if known else 'another method'))


def any_path(s):
    w = W28(s)
    for m in ('GET', 'POST', 'PUT'):
        p = s.tok('path of ' + m, ty='str')
        r = w.request(m, p, b'[:a]', '4')
        known = [x for x in PATHS if s.same3(p, Const(x)) is True]
        w.status(r, code(known[0] if known else 'another', m),
                 '%s of %s' % (m, known[0] if known else 'another path'))


def valid(s, n, debug):
    w = W28(s, debug)
    body, want = VALID[n]
    r = w.post(body)
    if w.status(r, 200, 'the query %s' % body):
        got = w.json(r)
        s.ok(got == want, R_BODY, 'the answer to %s is %s' % (body, r[1]))
        s.ok(bool(w.loads) == bool(want), R_EXEC, '%s is not executed' % body)


def invalid(s, n, debug):
    w = W28(s, debug)
    body = INVALID[n]
    r = w.post(body)
    s.ok(not w.loads, R_EXEC, 'the invalid query %s is executed: %s are '
         'loaded' % (body, w.loads))
    if w.status(r, 400, 'the invalid query %s' % body):
        got = w.json(r)
        s.ok(isinstance(got, dict) and bool(got.get('errors')), R_BODY,
             'the answer to the invalid query %s is %s' % (body, r[1]))


def internal(w, r, what, debug):
    s = w.s
    if w.status(r, 500, what):
        got = w.json(r)
        if debug:
            s.ok(TB in str(got), R_DEBUG, 'the answer to %s does not contain '
                 'the traceback in debug mode: %s' % (what, r[1]))


def unreadable(s, n, debug):
    w = W28(s, debug)
    r = w.post(UNREADABLE[n])
    s.ok(not w.loads, R_EXEC, 'loaders are called for an unreadable query')
    internal(w, r, 'an unreadable query (%s)' % n, debug)


def failing(s, n, exc, debug):
    w = W28(s, debug, exc)
    internal(w, w.post(FAILING[n]), 'a query which fails', debug)
    # and the next one is answered
    r = w.post(OK_BODY)
    if w.status(r, 200, 'the query after one which fails'):
        s.ok(w.json(r) == WANT, R_BODY, 'the answer is %s' % r[1])


def broken(s, stage, debug):
    """a failure inside of the library"""
    w = W28(s, debug)

    def fail(args, kw):
        raise s.I.exc('RuntimeError', Const(SECRET))
    if not replace(s, 'hiku.console.ui', stage, s.stub(fail)):
        return
    internal(w, w.post(OK_BODY), 'a query on which %s fails' % stage, debug)


def replace(s, mod, name, v):
    fid = s.I.o(s.I.load(mod)).extra[1]
    if name not in s.I.o(Ref(fid)).attrs:
        return False
    s.I.setvar_raw(fid, name, v)
    return True


def length(s, n, body):
    w = W28(s)
    data = OK_BODY.encode()
    if body == 'long':
        data = data + b' ' * 20
    r = w.post(data, n)
    size = max(0, int(n or 0))
    if size > LIMIT:
        w.status(r, 400, 'a request of %s bytes' % n)
        s.ok(not w.loads, R_EXEC, 'a request of %s bytes is executed' % n)
        s.ok(not any(w.reads), R_READ, 'the body of a request of %s '
             'bytes is read' % n)
        return
    s.ok(all(x is not None and 0 <= x <= size for x in w.reads), R_READ,
         '%s bytes of a request of %s bytes are read' % (w.reads, n))
    s.ok(sum(w.reads) >= min(size, len(data)), R_READ, 'only %s bytes of a '
         'request of %s bytes are read' % (w.reads, n))
    if size >= len(OK_BODY):
        if w.status(r, 200, 'a request of %s bytes' % n):
            s.ok(w.json(r) == WANT, R_BODY, 'the answer is %s' % r[1])
    else:
        w.status(r, 500, 'an incomplete query')
        s.ok(not w.loads, R_EXEC, 'an incomplete query is executed')


def many(s):
    """requests do not depend on each other"""
    for debug in (False, True):
        w = W28(s, debug)
        for _ in range(2):
            for body, want in VALID.values():
                r = w.post(body)
                if w.status(r, 200, 'the query ' + body):
                    s.ok(w.json(r) == want, R_BODY, 'the answer to %s is %s'
                         % (body, r[1]))
            for body in [b for b in INVALID.values() for _ in range(2)]:
                w.status(w.post(body), 400, 'the invalid query ' + body)
                s.ok(not w.loads, R_EXEC, 'the invalid query %s is executed'
                     % body)
            for body in UNREADABLE.values():
                internal(w, w.post(body), 'an unreadable query', debug)
            for m, p in (('GET', '/nope'), ('PUT', '/'), ('GET', '/docs')):
                w.status(w.request(m, p), code(p, m), '%s %s' % (m, p))
