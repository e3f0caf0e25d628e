"""GraphQL documents of the scenarios.

The external parser (graphql-core) turns the constant document text into its
tree, which is mirrored by abstract objects.  Names starting with `star_` stand
for any number of nodes: `star_A` repeats its node for every index of A, the
name being the generic name fA of that index."""
from .values import *   # noqa
from . import extlib


def install(s, docs=None):
    """parse() of the analysed program yields the mirrored tree; docs: extra
    documents by their (abstract) source"""
    I = s.I
    docs = docs or {}

    def parse(I, a, k):
        src = I.resolve(a[0]) if a else I.resolve(k['source'])
        s.emit('parse', src)
        if isinstance(src, Const) and isinstance(src.v, str):
            return parse_doc(s, src.v)
        f = docs.get(I.term(src))
        if f is None:
            raise Imprecise('parse of %r' % (src,))
        return f()
    for p in ('graphql.parse', 'graphql.language.parse',
              'graphql.language.parser.parse'):
        I.ext_handlers[p] = parse


def parse_doc(s, src):
    from graphql.language.parser import parse
    from graphql.error import GraphQLSyntaxError
    try:
        doc = parse(src)
    except GraphQLSyntaxError as e:
        raise syntax_error(s, str(e))
    return mirror(s, doc, {})


def syntax_error(s, msg='Syntax Error'):
    I = s.I
    c = extlib.canon('graphql.error.GraphQLSyntaxError')
    r = I.new('inst', Ext(c))
    I.o(r).attrs.update(args=Tup([Const(msg)]), message=Const(msg))
    return AbsRaise(r, I.callpath())


def star_of(node):
    """the star index this node repeats over"""
    n = getattr(getattr(node, 'name', None), 'value', None)
    if isinstance(n, str) and n.startswith('star_'):
        return n[5:]
    return None


def mirror(s, x, names):
    from graphql.language import ast as gast
    import enum
    I = s.I
    if isinstance(x, gast.Node):
        c = extlib.canon('graphql.language.ast.' + type(x).__name__)
        r = I.new('inst', Ext(c), extra='gqlast')
        at = I.o(r).attrs
        at['kind'] = Const(x.kind)
        for k in x.keys:
            if k == 'loc':
                at['loc'] = NONE
                continue
            at[k] = mirror(s, getattr(x, k, None), names)
        return r
    if isinstance(x, (list, tuple)):
        out = []
        for i in x:
            n = star_of(i)
            if n is None:
                out.append(mirror(s, i, names))
            else:
                out.append(s.star(n, lambda j, i=i, n=n: mirror(
                    s, i, dict(names, **{'star_' + n: s.name_('f' + n, j)}))))
        return I.new_list(out)
    if isinstance(x, enum.Enum):
        c = type(x)
        return Ext(extlib.canon(c.__module__ + '.' + c.__qualname__)
                   + '.' + x.name)
    if isinstance(x, str) and x in names:
        return names[x]
    if x is None or isinstance(x, (str, int, float, bool)):
        return Const(x)
    raise Imprecise('document part %r' % (x,))
