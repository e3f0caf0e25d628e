"""Syntax trees built by the analysed program: calls of the `ast` module build
abstract nodes, compile() and eval() turn them back into code to interpret."""
import ast
from .values import *   # noqa
from . import models as M

LEGACY = {'Str': 's', 'Num': 'n', 'NameConstant': 'value', 'Bytes': 's'}


def install(I):
    for name in dir(ast):
        c = getattr(ast, name)
        if isinstance(c, type) and issubclass(c, ast.AST):
            I.ext_handlers['ast.' + name] = maker(name, c)
    I.ext_handlers['ast.Index'] = lambda I, a, k: a[0] if a \
        else k['value']
    I.ext_handlers['ast.fix_missing_locations'] = lambda I, a, k: a[0]
    for name, f in LEGACY.items():
        I.ext_handlers['ast.' + name] = legacy(f)
    I.ext_handlers['ast.Ellipsis'] = lambda I, a, k: build(
        I, 'Constant', {'value': Const(Ellipsis)})


def legacy(f):
    def h(I, a, k):
        v = a[0] if a else k.get(f, k.get('value'))
        return build(I, 'Constant', {'value': v})
    return h


def maker(name, cls):
    def h(I, a, k):
        if len(a) > len(cls._fields):
            raise I.exc('TypeError', Const('%s constructor takes at most %d '
                                           'positional arguments' % (
                                               name, len(cls._fields))))
        at = dict(zip(cls._fields, a))
        at.update(k)
        return build(I, name, at)
    return h


def build(I, name, attrs):
    return I.new('inst', Ext('ast.' + name), attrs=dict(attrs), extra='pyast')


def is_node(I, v):
    return isinstance(v, Ref) and I.o(v).kind == 'inst' \
        and I.o(v).extra == 'pyast'


class Bad(Exception):
    pass


def concrete(I, v, consts):
    """abstract tree -> ast node; unknown constants become names"""
    v = I.resolve(v)
    if is_node(I, v):
        o = I.o(v)
        name = o.cls.path[4:]
        cls = getattr(ast, name)
        if name == 'Constant':
            x = I.resolve(o.attrs.get('value', NONE))
            if isinstance(x, Const):
                return ast.Constant(value=x.v)
            n = '$k%d' % len(consts)
            consts[n] = x
            return ast.Name(id=n, ctx=ast.Load())
        return cls(**{f: concrete(I, x, consts)
                      for f, x in o.attrs.items() if f in cls._fields})
    if isinstance(v, Const):
        return v.v
    if isinstance(v, Ref) and I.o(v).kind == 'list':
        out = []
        for x in M.segs_of(I, v):
            if isinstance(x, Star):
                raise Imprecise('compiled code of unknown length')
            out.append(concrete(I, x, consts))
        return out
    if isinstance(v, Tup):
        return [concrete(I, x, consts) for x in v.items]
    raise Imprecise('compiled code with unknown parts')


def compile_(I, a, k):
    v = I.resolve(a[0]) if a else None
    if v is None or not is_node(I, v):
        return None
    consts = {}
    tree = concrete(I, v, consts)
    if isinstance(tree, ast.Expression):
        body = tree.body
        try:
            compile(ast.fix_missing_locations(ast.Expression(body)),
                    '<analysed>', 'eval')
        except (TypeError, ValueError, SyntaxError) as e:
            raise I.exc(type(e).__name__, Const(str(e)))
        return I.new('pycode', Bi('object'), extra=(body, consts))
    return None


def eval_(I, a, k):
    v = I.resolve(a[0]) if a else None
    if not (isinstance(v, Ref) and I.o(v).kind == 'pycode') or len(a) > 1:
        return None
    body, consts = I.o(v).extra
    from .interp import Frame
    caller = I.stack[-1]
    fr = I.new('frame', extra=(I._module_frame(caller), False))
    for n, x in consts.items():
        I.setvar_raw(fr.oid, n, x)
    f = Frame(fr.oid, caller.module)
    f.fname = '<compiled>'
    I.stack.append(f)
    try:
        return I.ev(body, f)
    finally:
        I.stack.pop()
