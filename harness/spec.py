"""Declarative model specifications. Everything else (classes, shadow classes, reference semantics) derives from them."""

from dataclasses import dataclass, field, replace
from typing import Any, Dict, List, Optional, Tuple


# ---- types -----------------------------------------------------------------------------------------------------

@dataclass(frozen=True)
class Prim:
    kind: str


@dataclass(frozen=True)
class Opt:
    item: Any


@dataclass(frozen=True)
class UPrim:
    kinds: Tuple[str, ...]
    labels: bool = False        # the alternatives are labelled with pydantic tags


@dataclass(frozen=True)
class Mod:
    name: str


@dataclass(frozen=True)
class UMod:
    names: Tuple[str, ...]
    labels: bool = False


@dataclass(frozen=True)
class Tag:
    names: Tuple[str, ...]
    discriminator: str


@dataclass(frozen=True)
class Coll:
    kind: str       # list, set, frozenset, vtuple
    item: Any
    meta: str = ''  # an annotation of the items that changes nothing


@dataclass(frozen=True)
class Tup:
    items: Tuple[Any, ...]


@dataclass(frozen=True)
class NT:
    name: str
    fields: Tuple[Tuple[str, Any], ...]
    defaults: Tuple[str, ...] = ()      # expressions, of the last fields

    def default(self, i):
        i -= len(self.fields) - len(self.defaults)
        return self.defaults[i] if i >= 0 else None


@dataclass(frozen=True)
class Dct:
    key: str
    val: Any        # Prim or Opt(Prim)
    form: str = ''


@dataclass(frozen=True)
class TD:
    name: str
    fields: Tuple[Tuple[str, Any, bool], ...]     # name, Prim, required


@dataclass(frozen=True)
class Raw:
    pass


def strip_opt(t):
    while isinstance(t, Opt):
        t = t.item
    return t


# ---- entities, fields, models ----------------------------------------------------------------------------------

@dataclass
class Ent:
    loc: str                        # attr, element, wrapped
    tag: Optional[str] = None       # name or tag; path for wrapped
    ns: Optional[str] = None
    nsmap: Optional[Dict[str, str]] = None
    nillable: Optional[bool] = None
    inner: Optional['Ent'] = None   # wrapped only


REQ = ('req',)


@dataclass
class FieldSpec:
    name: str
    type: Any
    ent: Optional[Ent] = None
    alias: Optional[str] = None
    valias: Optional[str] = None
    salias: Optional[str] = None
    default: Tuple = REQ            # ('req',) | ('value', data) | ('factory', data)
    exclude: bool = False
    exclude_if: Optional[str] = None    # name of a predicate in prims.EXCLUDES
    noxml: bool = False
    computed: Optional[str] = None  # expression over self
    prop: str = 'property'          # how a computed field is defined: property | cached_property | function
    style: str = 'default'          # default | annotated | split
    discriminator: Optional[str] = None
    frozen: bool = False
    meta: Tuple = ()                # annotations of the field, in the flavour under test only
    extra_kwargs: Dict[str, str] = field(default_factory=dict)     # rendered as given, to both flavours
    type_alias: str = ''            # the name the type goes by
    harmless: str = ''              # an annotation that changes nothing
    generated: Tuple = ()           # the aliases that come from a generator of the model, not from the field
    choices: str = ''               # further validation aliases: arguments of AliasChoices; '-' for an alias path
    spread: int = 0                 # where the arguments of a wrapped field stand: bits of the depth
    by_name: bool = False           # the model turns the aliases off for the validation

    @property
    def key(self):
        return self.name if self.by_name else self.valias or self.alias or self.name

    @property
    def xml_alias(self):
        return self.salias or self.alias


@dataclass
class ModelSpec:
    name: str
    fields: List[FieldSpec] = field(default_factory=list)
    root: bool = False
    tag: Optional[str] = None
    ns: Optional[str] = None
    nsmap: Optional[Dict[str, str]] = None
    ns_attrs: Optional[bool] = None
    skip_empty: Optional[bool] = None
    search_mode: Optional[str] = None
    extra: Optional[str] = None
    config: Dict[str, str] = field(default_factory=dict)           # rendered as given, to both flavours
    body: List[str] = field(default_factory=list)                  # source lines for both flavours
    members: List[int] = field(default_factory=list)               # members that are no fields (render.MEMBERS)
    bases: Tuple[str, ...] = ()                                    # own fields and settings extend those of the bases

    def field(self, name):
        for f in self.fields:
            if f.name == name:
                return f
        raise KeyError(name)


class Universe:
    """A set of models in definition order; the last one is the root model."""

    def __init__(self, models=()):
        self.models: Dict[str, ModelSpec] = {m.name: m for m in models}

    def add(self, m):
        self.models[m.name] = m
        return m

    def __getitem__(self, name):
        return self.models[name]

    @property
    def top(self):
        return list(self.models.values())[-1]

    # effective settings: nearest in the (single inheritance) chain of bases

    def chain(self, m):
        yield m
        for b in m.bases:
            yield from self.chain(self.models[b])

    def eff(self, m, setting):
        for c in self.chain(m):
            v = getattr(c, setting)
            if v is not None:
                return v
        return None

    def eff_nsmap(self, m):
        maps = [c.nsmap for c in self.chain(m) if c.nsmap]
        if not maps:
            return m.nsmap
        out = {}
        for mp in reversed(maps):
            out.update(mp)
        return out

    def eff_fields(self, m):
        """Fields of the bases first, overridden in place."""
        out = {}
        for c in reversed(list(self.chain(m))):
            for f in c.fields:
                if not f.computed:
                    out[f.name] = f
        comp = {}
        for c in reversed(list(self.chain(m))):
            for f in c.fields:
                if f.computed:
                    comp[f.name] = f
        return list(out.values()) + list(comp.values())

    def mode(self, m):
        return self.eff(m, 'search_mode') or 'strict'

    def scope(self, m):
        return ((self.eff(m, 'ns'), self.eff_nsmap(m)),)


def pick_ns(own, scopes):
    if own is not None:
        return own
    for ns, _ in reversed(scopes):
        if ns is not None:
            return ns
    return None


def pick_nsmap(own, scopes, middle=None):
    out = {}
    for _, mp in scopes:
        out.update(mp or {})
    out.update(middle or {})
    out.update(own or {})
    return out


class BadDefinition(Exception):
    pass


def clark(tag, ns, nsmap, is_attr=False):
    if ns is None:
        uri = None if is_attr else nsmap.get('')
    elif not nsmap:
        uri = None
    elif ns in nsmap:
        uri = nsmap[ns]
    else:
        raise BadDefinition('namespace alias %r' % ns)
    return '{%s}%s' % (uri, tag) if uri else tag


def plain_elem(f, ent, scopes):
    """Name of an element field that is not a model."""
    tag = (ent.tag if ent else None) or f.xml_alias or f.name
    return clark(tag, pick_ns(ent.ns if ent else None, scopes), pick_nsmap(ent.nsmap if ent else None, scopes))


def split_local(name):
    return name.rsplit('}', 1)[-1]


def attr_name(U, m, f, ent, scopes):
    tag = ent.tag or f.xml_alias or f.name
    ns = ent.ns
    if ns is None and U.eff(m, 'ns_attrs'):
        ns = pick_ns(None, scopes)
    if ns == '':
        raise BadDefinition('default namespace attribute')
    return clark(tag, ns, pick_nsmap(ent.nsmap, scopes), is_attr=True)


def model_elem(U, f, ent, sub, scopes, is_root_field=False):
    """Name of the element a model-typed field is bound to."""
    tag = (ent.tag if ent else None) or U.eff(sub, 'tag')
    if not tag and not is_root_field:
        tag = f.xml_alias or f.name
    tag = tag or sub.name
    own = ent.ns if ent else None
    if own is None:
        own = U.eff(sub, 'ns')
    return clark(tag, pick_ns(own, scopes), pick_nsmap(ent.nsmap if ent else None, scopes, U.eff_nsmap(sub)))


def root_elem(U, m):
    return clark(U.eff(m, 'tag') or m.name, U.eff(m, 'ns'), U.eff_nsmap(m) or {})


def map_uri(U, m, ent, scopes):
    """Namespace of the attributes of a mapping field."""
    if not U.eff(m, 'ns_attrs'):
        return None
    ns = pick_ns(ent.ns if ent else None, scopes)
    nsmap = pick_nsmap(ent.nsmap if ent else None, scopes)
    return (nsmap.get(ns) or None) if ns else None


def wrap_scope(ent, scopes):
    return scopes + ((ent.ns, ent.nsmap),)


def wrap_path(ent, scopes):
    ns, nsmap = pick_ns(ent.ns, scopes), pick_nsmap(ent.nsmap, scopes)
    return [clark(part, ns, nsmap) for part in ent.tag.split('/')]


def show_type(t):
    return type_expr(t)


def labelled(t, exprs):
    return ['Annotated[%s, pd.Tag(%r)]' % (e, 't%d' % i) for i, e in enumerate(exprs)] if t.labels else exprs


def type_expr(t, plain_tag=False):
    from . import prims
    if isinstance(t, Prim):
        return prims.PRIMS[t.kind].expr
    if isinstance(t, Opt):
        return 'Optional[%s]' % type_expr(t.item, plain_tag)
    if isinstance(t, UPrim):
        return 'Union[%s]' % ', '.join(labelled(t, [prims.PRIMS[k].expr for k in t.kinds]))
    if isinstance(t, Mod):
        return t.name
    if isinstance(t, UMod):
        return 'Union[%s]' % ', '.join(labelled(t, t.names))
    if isinstance(t, Tag):
        e = 'Union[%s]' % ', '.join(t.names)
        return e if plain_tag else 'Annotated[%s, Field(discriminator=%r)]' % (e, t.discriminator)
    if isinstance(t, Coll):
        i = type_expr(t.item)
        if t.meta:
            i = 'Annotated[%s, %s]' % (i, t.meta)
        return {'list': 'List[%s]', 'set': 'Set[%s]', 'frozenset': 'FrozenSet[%s]', 'deque': 'Deque[%s]', 'vtuple': 'Tuple[%s, ...]'}[t.kind] % i
    if isinstance(t, Tup):
        return 'Tuple[%s]' % ', '.join(type_expr(i) for i in t.items)
    if isinstance(t, NT):
        return t.name
    if isinstance(t, Dct):
        return '%s[%s, %s]' % (t.form or 'Dict', prims.PRIMS[t.key].expr, type_expr(t.val))
    if isinstance(t, TD):
        return t.name
    if isinstance(t, Raw):
        return 'RawElement'
    raise TypeError(t)


def inner_types(t):
    yield t
    if isinstance(t, (Opt, Coll)):
        yield from inner_types(t.item)
    elif isinstance(t, Tup):
        for i in t.items:
            yield from inner_types(i)
    elif isinstance(t, NT):
        for _, i in t.fields:
            yield from inner_types(i)
    elif isinstance(t, Dct):
        yield from inner_types(t.val)
    elif isinstance(t, TD):
        for _, i, _r in t.fields:
            yield from inner_types(i)


def deps(m):
    for f in m.fields:
        for t in inner_types(f.type):
            if isinstance(t, Mod):
                yield t.name
            elif isinstance(t, (UMod, Tag)):
                yield from t.names
