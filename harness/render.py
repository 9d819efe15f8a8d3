"""Python source of a specification, in two flavours: pydantic-xml classes and plain pydantic (shadow) classes."""

import collections
import enum
import itertools
import sys
import types

from . import prims
from .spec import NT, TD, Mod, Raw, Tag, UMod, deps, inner_types, strip_opt, type_expr


def rep(v):
    return repr(v)


class MV:
    """Neutral model value: field name -> neutral value of explicitly given fields."""

    def __init__(self, name, fields):
        self.name = name
        self.fields = fields

    def __repr__(self):
        return 'MV(%s, %r)' % (self.name, self.fields)


class RV:
    """Neutral raw element."""

    def __init__(self, node):
        self.node = node

    def __repr__(self):
        return 'RV(%r)' % (self.node,)


class NTV:
    def __init__(self, name, items):
        self.name = name
        self.items = items

    def __repr__(self):
        return 'NTV(%s, %r)' % (self.name, self.items)


class SV:
    """Neutral scalar: kind and its canonical text."""

    __slots__ = ('kind', 'value')

    def __init__(self, kind, value):
        self.kind = kind
        self.value = value

    def __repr__(self):
        return 'SV(%s, %r)' % (self.kind, self.value)


class Coll_:
    """Neutral collection."""

    def __init__(self, kind, items):
        self.kind = kind
        self.items = items

    def __repr__(self):
        return '%s%r' % (self.kind, self.items)


def build(env, d):
    """Neutral value to a value of the flavour of the environment."""
    if d is None:
        return None
    if isinstance(d, SV):
        return d.value
    if isinstance(d, MV):
        cls = env[d.name]
        m = env['_U'][d.name]
        if m.root:
            if 'root' in d.fields:
                return cls(build(env, d.fields['root']))
            return cls()
        keys = {f.name: f.key for f in env['_U'].eff_fields(m)}
        return cls(**{keys[k]: build(env, v) for k, v in d.fields.items()})
    if isinstance(d, RV):
        return env['_raw'](d.node)
    if isinstance(d, NTV):
        return env[d.name](*[build(env, i) for i in d.items])
    if isinstance(d, Coll_):
        items = [build(env, i) for i in d.items]
        return {'list': list, 'set': set, 'frozenset': frozenset, 'vtuple': tuple, 'tuple': tuple, 'deque': collections.deque}[d.kind](items)
    if isinstance(d, dict):
        return {k: build(env, v) for k, v in d.items()}
    raise TypeError(d)


def src(U, d):
    """Neutral value as a source expression."""
    if d is None:
        return 'None'
    if isinstance(d, SV):
        if type(d.value) in (int, str, bool) or type(d.value) is float and d.value == d.value and abs(d.value) < 1e308:
            return repr(d.value)
        return '_V(%r, %r)' % (d.kind, prims.PRIMS[d.kind].encode(d.value))
    if isinstance(d, MV):
        m = U[d.name]
        if m.root:
            return '%s(%s)' % (d.name, src(U, d.fields['root']) if 'root' in d.fields else '')
        keys = {f.name: f.key for f in U.eff_fields(m)}
        return '%s(**{%s})' % (d.name, ', '.join('%r: %s' % (keys[k], src(U, v)) for k, v in d.fields.items()))
    if isinstance(d, NTV):
        return '%s(%s)' % (d.name, ', '.join(src(U, i) for i in d.items))
    if isinstance(d, Coll_):
        items = ', '.join(src(U, i) for i in d.items)
        if d.kind == 'list':
            return '[%s]' % items
        if d.kind in ('vtuple', 'tuple'):
            return '(%s%s)' % (items, ',' if d.items else '')
        return '%s([%s])' % (d.kind, items)
    if isinstance(d, dict):
        return '{%s}' % ', '.join('%s: %s' % ('%s(%r)' % (type(k).__name__, k.value) if isinstance(k, enum.Enum) else repr(k), src(U, v)) for k, v in d.items())
    raise TypeError(d)


def ent_args(ent, f=None, alias_of=None):
    args = []
    if ent.loc == 'wrapped':
        args.append(rep(ent.tag))
        if ent.inner is not None:
            args.append(ent_expr(ent.inner))
        if ent.ns is not None:
            args.append('ns=%r' % ent.ns)
        if ent.nsmap is not None:
            args.append('nsmap=%r' % ent.nsmap)
    elif ent.loc == 'attr':
        if ent.tag is not None:
            args.append('name=%r' % ent.tag)
        if ent.ns is not None:
            args.append('ns=%r' % ent.ns)
    else:
        if ent.tag is not None:
            args.append('tag=%r' % ent.tag)
        if ent.ns is not None:
            args.append('ns=%r' % ent.ns)
        if ent.nsmap is not None:
            args.append('nsmap=%r' % ent.nsmap)
        if ent.nillable is not None:
            args.append('nillable=%r' % ent.nillable)
    return args


def ent_expr(ent, extra=()):
    return '%s(%s)' % ({'attr': 'attr', 'element': 'element', 'wrapped': 'wrapped'}[ent.loc],
                       ', '.join(ent_args(ent) + list(extra)))


def spread_expr(f, kw):
    """The declaration of a field; the arguments of what is wrapped may stand inside."""
    ents = [f.ent]
    while ents[-1].inner is not None:
        ents.append(ents[-1].inner)
    place = [[] for _ in ents]
    for i, k in enumerate(kw):
        i = 0 if 'alias' in k.split('=')[0] else i + 1
        place[(f.spread >> (2 * i) & 3) % len(ents)].append(k)
    out = None
    for e, ks in zip(reversed(ents), reversed(place)):
        args = ent_args(e)
        if out is not None:
            args[1] = out
        out = '%s(%s)' % (e.loc, ', '.join(args + ks))
    return out


def field_kwargs(U, f):
    out = []
    if f.default[0] == 'value':
        out.append('default=%s' % src(U, f.default[1]))
    elif f.default[0] == 'factory':
        out.append('default_factory=lambda: %s' % src(U, f.default[1]))
    if f.alias is not None and 'alias' not in f.generated:
        out.append('alias=%r' % f.alias)
    if f.valias is not None and 'valias' not in f.generated:
        va = repr(f.valias)
        out.append('validation_alias=%s' % ('pd.AliasPath(%s)' % va if f.choices == '-' else 'pd.AliasChoices(%s, %s)' % (va, f.choices) if f.choices else va))
    if f.salias is not None and 'salias' not in f.generated:
        out.append('serialization_alias=%r' % f.salias)
    if f.exclude:
        out.append('exclude=True')
    if f.exclude_if:
        out.append('exclude_if=%s' % f.exclude_if)
    if f.discriminator:
        out.append('discriminator=%r' % f.discriminator)
    if f.frozen:
        out.append('frozen=True')
    for k, v in f.extra_kwargs.items():
        out.append('%s=%s' % (k, v))
    return out


def ann(t, known, plain_tag=False):
    e = type_expr(t, plain_tag)
    for i in inner_types(t):
        names = [i.name] if isinstance(i, Mod) else i.names if isinstance(i, (UMod, Tag)) else ()
        if any(n not in known for n in names):
            return repr(e)
    return e


def field_lines(U, f, flavour, known):
    t = ann(f.type, known, bool(f.discriminator))
    if f.computed:
        if flavour == 'shadow':
            return []
        if f.ent is None:
            deco = 'pd.computed_field(%s)' % ('alias=%r' % f.alias if f.alias and not f.generated else '')
        else:
            args = ent_args(f.ent)
            if f.alias and not f.generated:
                args.append('alias=%r' % f.alias)
            deco = '%s(%s)' % ({'attr': 'computed_attr', 'element': 'computed_element'}[f.ent.loc], ', '.join(args))
        return ['@%s' % deco, *({'function': []}.get(f.prop, ['@' + f.prop])), 'def %s(self) -> %s: return %s' % (f.name, t, f.computed)]
    if f.type_alias and t[0] not in '\'"':
        t = f.type_alias
    if f.harmless:
        t = 'Annotated[%s, %s]' % (t, f.harmless)
    if flavour == 'shadow':
        kw = field_kwargs(U, f)
        return ['%s: %s%s' % (f.name, t, ' = Field(%s)' % ', '.join(kw) if kw else '')]
    kw = field_kwargs(U, f)
    if f.noxml:
        t = 'Annotated[%s, NoXml]' % t
    if f.meta:
        t = 'Annotated[%s, %s]' % (t, ', '.join(f.meta))
    if f.ent is None:
        if not kw:
            return ['%s: %s' % (f.name, t)]
        if len(kw) == 1 and f.default[0] == 'value':
            return ['%s: %s = %s' % (f.name, t, src(U, f.default[1]))]
        return ['%s: %s = Field(%s)' % (f.name, t, ', '.join(kw))]
    if f.style == 'annotated':
        simple = f.default[0] == 'value'
        rest = [k for k in kw if not (simple and k.startswith('default='))]
        return ['%s: Annotated[%s, %s]%s' % (
            f.name, t, spread_expr(f, rest), ' = ' + src(U, f.default[1]) if simple else '')]
    if f.style == 'split' and f.ent.loc != 'wrapped':
        # name and the like in the annotation, the rest in the default value
        from dataclasses import replace
        a = replace(f.ent, ns=None, nillable=None)
        b = replace(f.ent, tag=None, nsmap=None)
        return ['%s: Annotated[%s, %s] = %s' % (f.name, t, ent_expr(a), ent_expr(b, kw))]
    return ['%s: %s = %s' % (f.name, t, spread_expr(f, kw))]


def config_expr(m):
    cfg = dict(m.config)
    if m.extra is not None:
        cfg['extra'] = repr(m.extra)
    return cfg


def uses_raw(U, m):
    return any(isinstance(t, Raw) for f in m.fields for t in inner_types(f.type))


def class_kwargs(m):
    return ['%s=%r' % (k, v) for k, v in (
        ('tag', m.tag), ('ns', m.ns), ('nsmap', m.nsmap), ('ns_attrs', m.ns_attrs), ('skip_empty', m.skip_empty),
        ('search_mode', m.search_mode)) if v is not None]


MEMBERS = [
    ['shared: ClassVar[Any] = Vague()'],
    ['_secret: int = pd.PrivateAttr(default=3)'],
    ['def to_item(self):', '    return 1'],
    ['@property', 'def size_of(self):', "    raise RuntimeError('not to be read')"],
    ['@classmethod', 'def build(cls, *args):', '    return cls'],
    ['@staticmethod', 'def helper(*args):', '    return args'],
    ['class Meta:', "    tag = 'meta'", '    fields = 1'],
]


def class_lines(U, m, flavour, known):
    cfg = config_expr(m)
    if uses_raw(U, m):
        cfg['arbitrary_types_allowed'] = 'True'
    body = []
    base = '%s' % ', '.join(m.bases) if m.bases else None
    kw = class_kwargs(m) if flavour == 'xml' else []
    if m.root:
        f = m.field('root')
        if base is None:
            base = 'RootXmlModel' if flavour == 'xml' else 'RootModel'
            if f.ent is None and f.default[0] == 'req' and not field_kwargs(U, f) and not f.meta:
                base += '[%s]' % ann(f.type, known)
                flines = []
            else:
                flines = field_lines(U, f, flavour, known)
        else:
            flines = field_lines(U, f, flavour, known)
        body += flines
        if cfg:
            body.append('model_config = pd.ConfigDict(%s)' % ', '.join('%s=%s' % kv for kv in cfg.items()))
    else:
        if base is None:
            base = 'BaseXmlModel' if flavour == 'xml' else 'BaseModel'
        if cfg:
            body.append('model_config = pd.ConfigDict(%s)' % ', '.join('%s=%s' % kv for kv in cfg.items()))
        for f in m.fields:
            body += field_lines(U, f, flavour, known)
    for i in m.members:
        body += MEMBERS[i]
    body += m.body
    if not body:
        body = ['pass']
    return ['class %s(%s):' % (m.name, ', '.join([base] + kw))] + ['    ' + l for l in body]


def helper_lines(U, m, done):
    out = []
    for f in m.fields:
        for t in inner_types(f.type):
            if isinstance(t, NT) and t.name not in done:
                done.add(t.name)
                out.append('class %s(NamedTuple):' % t.name)
                out += ['    %s: %s%s' % (n, type_expr(i), ' = ' + t.default(k) if t.default(k) else '') for k, (n, i) in enumerate(t.fields)]
            elif isinstance(t, TD) and t.name not in done:
                done.add(t.name)
                out.append('class %s(TypedDict):' % t.name)
                out += ['    %s: %s' % (n, type_expr(i) if r else 'NotRequired[%s]' % type_expr(i)) for n, i, r in t.fields]
        if f.type_alias and f.type_alias not in done:
            done.add(f.type_alias)
            out.append('%s = TypeAliasType(%r, %s)' % (f.type_alias, f.type_alias, type_expr(f.type)))
    return out


def render(U, flavour):
    lines = []
    known = set()
    done = set()
    rebuild = []
    for m in U.models.values():
        lines += helper_lines(U, m, done)
        # a class may mention itself unquoted only in strings
        lines += class_lines(U, m, flavour, known)
        if any(d not in known and d != m.name for d in deps(m)):
            rebuild.append(m.name)
        known.add(m.name)
    lines += ['%s.model_rebuild()' % n for n in rebuild]
    return '\n'.join(lines) + '\n'


XML_PRELUDE = prims.PRELUDE + '''
from pydantic_xml import *
from pydantic_xml.element.native import ElementT as RawElement
from pydantic_xml.element import SearchMode
'''
SHADOW_PRELUDE = prims.PRELUDE + '''
from harness.nodes import Node as RawElement
from harness.render import NoXml
'''


class NoXml:
    pass


def _V(kind, text):
    return prims.PRIMS[kind].decode(text)


_counter = itertools.count()


def make(U, source, flavour, raw=None, extra=None):
    """Executes the source in a module of its own and returns its namespace."""
    name = '_spec_%s_%d' % (flavour, next(_counter))
    mod = types.ModuleType(name)
    sys.modules[name] = mod
    env = mod.__dict__
    env['_V'] = _V
    env.update(extra or {})
    exec(XML_PRELUDE if flavour == 'xml' else SHADOW_PRELUDE, env)
    env['_U'] = U
    env['_raw'] = raw
    exec(compile(source, name, 'exec'), env)
    return env


def unload(*envs):
    for env in envs:
        sys.modules.pop(env['__name__'], None)
