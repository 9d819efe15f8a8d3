"""Random specifications, values and documents."""

import copy
import math
from dataclasses import dataclass, field as dfield, replace
from typing import Any, Dict, Tuple

import pydantic as pd
import pydantic.alias_generators

from . import nodes, prims
from .nodes import NIL, Node
from .render import MV, NTV, RV, SV, Coll_
from .spec import (NT, REQ, TD, Coll, Dct, Ent, FieldSpec, Mod, ModelSpec, Opt, Prim, Raw, Tag, Tup, UMod, UPrim,
                   Universe, BadDefinition, attr_name, inner_types, map_uri, model_elem, plain_elem, root_elem,
                   strip_opt, wrap_path, wrap_scope)

RESERVED = {'xml': 'http://www.w3.org/XML/1998/namespace', 'xsi': 'http://www.w3.org/2001/XMLSchema-instance'}
URIS = ['http://a.example/x', 'http://b.example/', 'urn:c', 'http://a.example/x/y', 'urn:d:1']


N_MEMBERS = 7      # render.MEMBERS


@dataclass
class Profile:
    models: Tuple[int, int] = (1, 4)
    fields: Tuple[int, int] = (1, 5)
    kinds: Tuple[str, ...] = tuple(prims.COMMON)
    types: Dict[str, float] = dfield(default_factory=lambda: dict(
        prim=6, uprim=.6, mod=3, coll=3, tup=1, nt=.5, dct=1, td=.6, raw=.8, umod=1, tag=.8))
    items: Dict[str, float] = dfield(default_factory=lambda: dict(prim=4, mod=3, tup=.8, dct=.6, raw=.4, umod=.7, tag=.6))
    colls: Tuple[str, ...] = ('list', 'list', 'list', 'set', 'frozenset', 'vtuple')
    p_root: float = .15
    p_ns: float = .35             # of models using namespaces at all
    p_ns_attrs: float = .3
    p_wrapped: float = .22
    p_share: float = .6
    p_attr: float = .3
    p_text: float = .25
    p_opt: float = .25
    p_none_default: float = .75
    p_default: float = .2
    p_alias: float = .15
    p_tag: float = .4             # explicit tag or name in the field
    p_model_tag: float = .4
    p_style: float = .25          # other than plain default value style
    p_computed: float = .12
    p_exclude: float = .04
    p_noxml: float = .04
    p_nillable: float = .2
    p_optitem: float = .0
    p_map_opt: float = .12          # of mapping values that may be None
    p_skip_empty: float = .1
    p_repeat_step: float = .12  # of wrapped paths
    p_recursive: float = .1
    p_mutual: float = .1            # of universes with an earlier model referring to a later one
    p_inherit: float = .15
    p_constraint: float = .1
    p_hide: float = .06             # of models configuring whether errors show inputs
    p_special: float = .08         # of lists and mappings of the classes in module collections
    p_members: float = .08         # of models with members that are no fields
    p_kin: float = 0               # of unions with several more alternatives that differ in the types of their fields
    p_twin: float = .3              # of unions with an alternative that reads what another one reads
    p_type_alias: float = .06       # of fields with types defined by type aliases
    p_nt_default: float = .3        # of named tuples with defaults
    p_harmless: float = .06         # of types with validators that change nothing
    p_conf: float = .15             # of models with other settings of pydantic
    modes: Dict[str, float] = dfield(default_factory=lambda: dict(strict=3, ordered=1, unordered=1))
    extras: Dict[str, float] = dfield(default_factory=lambda: dict(none=5, forbid=.5, ignore=.2, allow=.2))
    p_alias_generator: float = .05  # of universes whose models make up the aliases
    p_choices: float = .3           # of validation aliases that are one of several
    p_spread: float = .3            # of wrapped fields with arguments at the wrapped declaration
    p_by_name: float = .04          # of universes whose models do not validate by aliases
    p_dup: float = 0.0            # several fields bound to the same tag
    p_nonadjacent: float = .05
    p_odd_names: float = .15
    require: Tuple[str, ...] = ()  # type families the top model must have

    def but(self, **kw):
        return replace(self, **kw)


# settings of pydantic that do not change what a model means; each of them for both flavours
CONFIGS = [('strict', 'True'), ('strict', 'True'), ('defer_build', 'True'), ('defer_build', 'True'), ('frozen', 'True'), ('validate_assignment', 'True'),
           ('revalidate_instances', "'always'"), ('revalidate_instances', "'subclass-instances'"), ('str_strip_whitespace', 'True'),
           ('validate_default', 'True'), ('from_attributes', 'True'), ('loc_by_alias', 'False'), ('regex_engine', "'python-re'"), ('cache_strings', "'none'"),
           ('ser_json_inf_nan', "'strings'"), ('protected_namespaces', '()'),
           ('populate_by_name', 'True'), ('serialize_by_alias', 'True'), ('validate_by_name', 'True')]
if pd.VERSION < '2.11':
    CONFIGS = [c for c in CONFIGS if c[0] not in ('serialize_by_alias', 'validate_by_name')]

GENERATORS = [('lambda s: "g" + s', ('alias',)), ('pd.AliasGenerator(alias=lambda s: "G-" + s)', ('alias',)),
              ('pd.AliasGenerator(validation_alias=lambda s: "v" + s, serialization_alias=lambda s: "s" + s)', ('valias', 'salias')),
              ('pd.AliasGenerator(serialization_alias=lambda s: s.upper())', ('salias',)),
              ('pd.AliasGenerator(validation_alias=lambda s: s.upper())', ('valias',)),
              ('pd.alias_generators.to_camel', ('alias',))]


def made_alias(made, name, which):
    if not isinstance(made, pd.AliasGenerator):
        return made(name)
    if which is True:
        g = made.serialization_alias or made.alias
    else:
        g = {'alias': made.alias, 'valias': made.validation_alias, 'salias': made.serialization_alias}[which]
    return g(name) if g else None


def eager(U):
    """Makes the models of a universe be completed when they are defined."""
    for m in U.models.values():
        m.config.pop('defer_build', None)
    return U


def weighted(rng, d):
    ks = list(d)
    return rng.choices(ks, [d[k] for k in ks])[0]


def close_cycle(rng, U):
    """An earlier model gets a field of a later one that, often, contains it."""
    ms = [m for m in U.models.values() if not m.root]
    if len(ms) < 2:
        return False
    if any('alias_generator' in m.config or f.by_name for m in ms for f in m.fields):
        return False
    pairs = [(a, b) for i, a in enumerate(ms) for b in ms[i + 1:]]
    cyclic = [(a, b) for a, b in pairs
              if any(isinstance(t, Mod) and t.name == a.name or isinstance(t, (UMod, Tag)) and a.name in t.names
                     for m in U.chain(b) for f in m.fields for t in inner_types(f.type))]
    a, b = rng.choice(cyclic if cyclic and rng.random() < .6 else pairs)
    users = [m for m in U.models.values() if a in list(U.chain(m))]
    if any(f.computed for m in users for f in m.fields) or b in users and rng.random() < .7:
        return False
    t = Mod(b.name)
    t = rng.choice([Opt(t), Opt(Coll('list', t))])
    wrapped = [f.ent is not None and f.ent.loc == 'wrapped' for f in a.fields]
    at = rng.choice([i for i in range(len(a.fields) + 1) if not any(wrapped[max(i - 1, 0):i + 1])] + [len(a.fields)])
    a.fields.insert(at, FieldSpec('cyc%d' % rng.randint(100, 999), t, Ent('element', tag='cyc%d' % rng.randint(100, 999)), default=('value', None)))
    return True


class Gen:
    def __init__(self, rng, prof):
        self.rng = rng
        self.p = prof
        self.U = Universe()
        self.n = 0
        self.complete = set()
        self.unions = {}
        self.type_aliases = {}
        self.namespaced = rng.random() < prof.p_ns

    STYLES = {
        'f': ('f', 'f', 'f', 'fieldName', 'F', 'some_field_', 'Größe', 'z', 'a', 'ID', 'data', 'copy_of_', 'B__'),
        'c': ('c', 'c', 'c', 'computedName', 'C', 'ca_', 'A', 'é'),
        'M': ('M', 'M', 'M', 'Model_', 'm', 'Élan', 'HTTPThing'),
        'al': ('al', 'al', 'Alias', 'al-', 'al.', 'AL_', 'é'),
        'k': ('k', 'k', 'Key', 'K_'),
    }

    def fresh(self, base=None):
        self.n += 1
        if base is None:
            base = self.rng.choice(['alpha', 'item', 'val', 'node', 'x', 'name', 'part', 'el'])
        elif base in self.STYLES:
            base = self.rng.choice(self.STYLES[base])
        return base + str(self.n)

    def tagname(self):
        t = self.fresh()
        if self.rng.random() < self.p.p_odd_names:
            t = self.rng.choice([t + '-a', t + '.b', 'É' + t, '_' + t, t + '·', t.upper(), t + '_z', 'xs-' + t])
        return t

    # ---- universe

    def universe(self):
        rng, p = self.rng, self.p
        n = rng.randint(*p.models)
        for i in range(n):
            self.model(i == n - 1)
        if rng.random() < p.p_mutual:
            close_cycle(rng, self.U)
        self.aliases()
        return self.U

    def aliases(self):
        """Settings of aliases that all the models share."""
        rng, p = self.rng, self.p
        models = [m for m in self.U.models.values() if not m.root]
        if any('revalidate_instances' in m.config for m in models):
            for m in models:        # pydantic takes a field that has an alias for an extra one then
                m.extra = None if m.extra == 'allow' else m.extra
        inner = [t for m in self.U.models.values() for f in m.fields for t in inner_types(f.type)]
        # the discriminators must not have aliases, the ones of a typed dictionary are those of the model
        if rng.random() < p.p_alias_generator and not any(isinstance(t, (Tag, TD)) for t in inner):
            expr, names = rng.choice(GENERATORS)
            made = eval(expr, {'pd': pd})
            for m in models:
                m.config['alias_generator'] = expr
                for f in m.fields:
                    if f.computed:
                        if f.alias is None and made_alias(made, f.name, True):
                            f.alias, f.generated = made_alias(made, f.name, True), ('alias',)
                        continue
                    for n in names:
                        # an alias given explicitly stands for the others too
                        if getattr(f, n) is None and not (f.alias and n != 'alias'):
                            setattr(f, n, made_alias(made, f.name, n))
                            f.generated += (n,)
        if rng.random() < p.p_by_name and pd.VERSION >= '2.11':
            for m in models:
                m.config.update(validate_by_alias='False', validate_by_name='True')
                m.config.pop('populate_by_name', None)
                for f in m.fields:
                    f.by_name = True

    def nsmap(self):
        rng = self.rng
        keys = rng.sample(['', 'a', 'b', 'co', 'x-y', 'nsx', 'ns1'], rng.randint(1, 3))
        nsmap = {k: rng.choice(URIS) for k in keys}
        if rng.random() < .04:
            nsmap.update(('p%d' % i, 'urn:p:%d' % i) for i in range(rng.randint(6, 20)))
        if rng.random() < .08:
            nsmap[rng.choice(['xml', 'xsi'])] = ''
        return {k: uri or RESERVED[k] for k, uri in nsmap.items()}

    def model(self, top=False):
        rng, p, U = self.rng, self.p, self.U
        name = self.fresh('M')
        m = ModelSpec(name)
        parents = [x for x in U.models.values() if x.name in self.complete and not x.root and not any(f.computed for f in x.fields)]
        if parents and rng.random() < p.p_inherit:
            m.bases = (rng.choice(parents).name,)
        if rng.random() < p.p_model_tag:
            m.tag = self.tagname()
        if self.namespaced and rng.random() < .8:
            if rng.random() < .85:
                m.nsmap = self.nsmap()
            avail = dict(U.eff_nsmap(replace(m)) or {}) if m.bases else dict(m.nsmap or {})
            if avail and rng.random() < .7:
                m.ns = rng.choice(list(avail))
        if rng.random() < p.p_ns_attrs * (1 if self.namespaced else .1):
            m.ns_attrs = True
        if rng.random() < p.p_skip_empty:
            m.skip_empty = rng.random() < .7
        mode = weighted(rng, p.modes)
        if mode != 'strict' or rng.random() < .1:
            m.search_mode = mode
        ex = weighted(rng, p.extras)
        if ex != 'none':
            m.extra = ex
        if rng.random() < p.p_hide:
            m.config['hide_input_in_errors'] = rng.choice(['True', 'True', 'False'])
        if rng.random() < p.p_conf:
            m.config.update(rng.sample(CONFIGS, rng.randint(1, 2)))
        if rng.random() < p.p_members:
            m.members = rng.sample(range(N_MEMBERS), rng.randint(1, 3))
        self.m = m
        base_fields = U.eff_fields(U[m.bases[0]]) if m.bases else []
        self.used = set()
        for f in base_fields:
            self.used |= self.tags_of(f)
        self.has_text = any(self.at_text(f) for f in base_fields)
        self.has_map = any(isinstance(strip_opt(f.type), (Dct, TD)) and f.ent is None for f in base_fields)
        self.last_wrap = None
        U.models[name] = m   # visible to settings lookup
        if not m.bases and not (top and p.require) and rng.random() < p.p_root:
            m.root = True
            m.extra = None
            m.fields.append(self.field('root', root=True))
        else:
            req = list(p.require) if top else []
            for _ in range(max(rng.randint(*p.fields), len(req))):
                m.fields.append(self.field(self.fresh('f'), family=req.pop() if req else None))
            rng.shuffle(m.fields) if rng.random() < .2 and not any(f.ent and f.ent.loc == 'wrapped' for f in m.fields) else None
            if not m.root and rng.random() < p.p_recursive:
                t = Mod(name)
                fn = self.fresh('f')
                if rng.random() < .5:
                    m.fields.append(FieldSpec(fn, Opt(t), Ent('element', tag=self.tagname()), default=('value', None)))
                else:
                    m.fields.append(FieldSpec(fn, Opt(Coll('list', t)), Ent('element', tag=self.tagname()), default=('value', None)))
            if rng.random() < p.p_computed:
                self.computed(m)
        self.complete.add(name)
        return m

    def tags_of(self, f):
        """Local names a field may use as direct children."""
        e = f.ent
        out = set()
        if e is not None and e.loc == 'wrapped':
            return {e.tag.split('/')[0]}
        if e is not None and e.tag:
            out.add(e.tag)
            return out
        t = strip_opt(f.type)
        while isinstance(t, Coll):
            t = strip_opt(t.item)
        names = [t.name] if isinstance(t, Mod) else list(t.names) if isinstance(t, (UMod, Tag)) else []
        if isinstance(t, (Tup, NT)):
            its = t.items if isinstance(t, Tup) else [i for _, i in t.fields]
            names = [strip_opt(i).name for i in its if isinstance(strip_opt(i), Mod)]
        for n in names:
            tag = self.U.eff(self.U[n], 'tag')
            if tag:
                out.add(tag)
        out.add(f.xml_alias or f.name)
        return out

    def at_text(self, f):
        return f.ent is None and isinstance(strip_opt(f.type), (Prim, UPrim))

    # ---- types

    def prim(self):
        return Prim(self.rng.choice(self.p.kinds))

    def harmless(self):
        if self.rng.random() >= self.p.p_harmless:
            return ''
        return self.rng.choice(['pd.AfterValidator(ident)', 'pd.BeforeValidator(ident)', 'pd.WrapValidator(ident_w)', 'Field(description="d")',
                                'pd.AfterValidator(ident), pd.BeforeValidator(ident)'])

    def map_prim(self):
        # types with a schema that is a bare function are not supported as mapping values
        t = Prim(self.rng.choice([k for k in self.p.kinds if k not in ('bytesize', 'hex', 'void')]))
        return Opt(t) if self.rng.random() < self.p.p_map_opt else t

    def models_avail(self):
        return [n for n in self.U.models if n in self.complete]

    def scalar_union(self):
        rng = self.rng
        return UPrim(rng.choice([('int', 'word'), ('posint', 'date'), ('date', 'word'), ('uuid', 'int'), ('bool', 'date'),
                                 ('ip4', 'word'), ('literal', 'int'), ('color', 'date'), ('int', 'date', 'word'),
                                 ('uuid', 'ip4', 'word')]), rng.random() < .15)

    def disc_models(self):
        """Models for a discriminated union: created on demand."""
        rng = self.rng
        k = rng.randint(2, 3) if not self.p.p_kin else rng.choice([2, 2, 3, 3, 4, 6])
        dname, aname = self.fresh('kind'), rng.choice([None, self.fresh('k')])
        saved = self.m, self.used, self.has_text, self.has_map, self.last_wrap, self.p
        out = []
        same_tag = rng.random() < .5
        pre = 'elit:' if rng.random() < .25 else 'lit:'
        tag = self.tagname()
        for i in range(k):
            self.p = self.p.but(p_root=0, p_recursive=0, p_inherit=0, p_computed=0, fields=(0, 2), require=(),
                                p_ns_attrs=0,
                                types={k: v for k, v in self.p.types.items() if k not in ('tag', 'umod')},
                                items={k: v for k, v in self.p.items.items() if k not in ('tag', 'umod')})
            m = self.model()
            m.ns_attrs = None
            m.tag = tag if same_tag else (m.tag or self.tagname())
            v = 'k%d' % i if rng.random() < .7 else 'k%d|v%d' % (i, i)
            kind = (pre if rng.random() < .8 else 'lit:') + v
            default = ('value', SV(kind, v.split('|')[0])) if rng.random() < .4 else REQ
            m.fields.insert(0, FieldSpec(dname, Prim(kind), Ent('attr', tag=aname), default=default))
            if rng.random() < 2 * self.p.p_exclude:
                m.fields[0].exclude = True
            out.append(m.name)
        self.m, self.used, self.has_text, self.has_map, self.last_wrap, self.p = saved
        # the model being built comes last again
        self.U.models[self.m.name] = self.U.models.pop(self.m.name)
        self.unions.setdefault(frozenset(out), tuple(out))
        return Tag(tuple(out), dname)

    def item(self, families):
        rng = self.rng
        fam = weighted(rng, families)
        avail = self.models_avail()
        if fam in ('mod',) and not avail or fam == 'umod' and len(avail) < 2 or fam == 'tag' and self.n > 60:
            fam = 'prim'
        if fam == 'prim':
            t = self.prim()
            if rng.random() < self.p.p_optitem:
                t = Opt(t)
            return t
        if fam == 'mod':
            return Mod(rng.choice(avail))
        if fam == 'umod':
            return self.umod(avail)
        if fam == 'tag':
            return self.disc_models()
        if fam == 'tup':
            return Tup(tuple(self.tup_item(i) for i in range(rng.randint(1, 3))))
        if fam == 'dct':
            return self.dct() if rng.random() < .6 else self.td()
        if fam == 'raw':
            return Raw()
        raise KeyError(fam)

    def umod(self, avail):
        names = tuple(self.rng.sample(avail, self.rng.randint(2, min(3, len(avail)))))
        if self.rng.random() < self.p.p_twin:
            twin = self.twin(names[0])
            if twin is not None:
                names = (names[0], twin) + names[2:]
                names = tuple(self.rng.sample(names, len(names)))
        if self.p.p_kin and self.rng.random() < self.p.p_kin:
            kin = [self.twin(names[0], None) for _ in range(self.rng.randint(2, 4))]
            names = tuple(self.rng.sample(names, len(names))) + tuple(k for k in kin if k)
        # the typing module takes List[Union[B, A]] for the List[Union[A, B]] it has seen before
        return UMod(self.unions.setdefault(frozenset(names), names), self.rng.random() < .15)

    def twin(self, name, kinds=('str', 'word')):
        """A model that reads the elements of another one, and more of them, or different ones."""
        rng, U = self.rng, self.U
        m = U[name]
        if m.root or m.bases or m.body:
            return None
        t = copy.deepcopy(m)
        t.name = self.fresh('M')
        t.tag = m.tag or m.name
        loose = [f for f in t.fields if isinstance(f.type, Prim) and not f.computed and not f.name.startswith('kind') and f.default == REQ]
        if not loose:
            return None
        for f in rng.sample(loose, rng.randint(1, len(loose))):
            f.type, f.type_alias = Prim(rng.choice(kinds or self.p.kinds)), ''
            f.exclude_if = None
        U.models[t.name] = t
        self.complete.add(t.name)
        U.models[self.m.name] = U.models.pop(self.m.name)
        return t.name

    def nt(self):
        rng = self.rng
        # (pydantic forgets about serializers inside of named tuples)
        p, self.p = self.p, replace(self.p, kinds=tuple(k for k in self.p.kinds if k not in ('hex', 'void')))
        fields = [(self.fresh('n'), self.tup_item(i)) for i in range(rng.randint(1, 3))]
        self.p = p
        defaults = []
        if rng.random() < self.p.p_nt_default:
            for _, t in reversed(fields[1:]):
                if isinstance(t, Opt):
                    defaults.insert(0, 'None')
                elif isinstance(t, Prim):
                    defaults.insert(0, '_V(%r, %r)' % (t.kind, prims.PRIMS[t.kind].encode(finite(self.value(t)).value)))
                else:
                    break
        return NT(self.fresh('Nt'), tuple(fields), tuple(defaults))

    def tup_item(self, i=0):
        rng = self.rng
        avail = self.models_avail()
        r = rng.random()
        if r < .2 and avail:
            return Mod(rng.choice(avail))
        t = self.prim()
        if i and rng.random() < .2:
            return Opt(t)
        return t

    def dct(self):
        # the texts of all keys are names
        key, val = 'word' if self.rng.random() < .75 else self.rng.choice(prims.KEYS), self.map_prim()
        form = ''
        if self.rng.random() < 2 * self.p.p_special:
            form = self.rng.choice(['OrderedDict', 'Mapping'] + ['DefaultDict'] * (val in (Prim('int'), Prim('str'))))
        return Dct(key, val, form)

    def td(self):
        rng = self.rng
        return TD(self.fresh('Td'), tuple(
            (self.fresh('k'), self.map_prim(), rng.random() < .7) for _ in range(rng.randint(1, 3))))

    # ---- fields

    def field(self, name, root=False, family=None):
        rng, p = self.rng, self.p
        fam = family or weighted(rng, p.types)
        avail = self.models_avail()
        if fam == 'mod' and not avail or fam == 'umod' and len(avail) < 2 or fam == 'tag' and self.n > 60:
            fam = 'prim'
        f = FieldSpec(name, None)
        disc = None
        if fam == 'prim':
            t = self.prim()
        elif fam == 'uprim':
            t = self.scalar_union()
        elif fam == 'mod':
            t = Mod(rng.choice(avail))
        elif fam == 'umod':
            t = self.umod(avail)
        elif fam == 'tag':
            t = self.disc_models()
            disc = t.discriminator
        elif fam == 'coll':
            it = self.item(p.items)
            kind = rng.choice(p.colls)
            if not self.hashable(it):
                kind = rng.choice(['list', 'vtuple'])
            if kind == 'list' and rng.random() < p.p_special:
                kind = 'deque'
            if isinstance(it, Tag):
                f.discriminator = None
            t = Coll(kind, it, self.harmless())
        elif fam == 'tup':
            t = Tup(tuple(self.tup_item(i) for i in range(rng.randint(1, 3))))
        elif fam == 'nt':
            t = self.nt()
        elif fam == 'dct':
            t = self.dct()
        elif fam == 'td':
            t = self.td()
        elif fam == 'raw':
            t = Raw()
        else:
            raise KeyError(fam)
        f.discriminator = disc
        if not root and not disc:
            f.harmless = self.harmless()
        base = t
        if rng.random() < p.p_opt and not root:
            t = Opt(t)
        f.type = t
        if not root and not disc and rng.random() < p.p_type_alias and not any(isinstance(i, (Mod, UMod, Tag)) for i in inner_types(t)):
            f.type_alias = self.type_aliases.setdefault(t, '') or self.fresh('Ta')
            self.type_aliases[t] = f.type_alias
        scalar = isinstance(base, (Prim, UPrim))
        inner_item = base
        while isinstance(inner_item, Coll):
            inner_item = inner_item.item
        modelish = isinstance(inner_item, (Mod, UMod, Tag)) or isinstance(inner_item, (Tup, NT)) and all(
            isinstance(i, Mod) for i in (inner_item.items if isinstance(inner_item, Tup) else [x for _, x in inner_item.fields]))
        f.ent = self.location(f, base, scalar, modelish, root)
        # aliases
        if not root and rng.random() < p.p_alias:
            r = rng.random()
            if r < .5:
                f.alias = self.fresh('al')
            elif r < .7:
                f.salias = self.fresh('sal')
            elif r < .85:
                f.valias = self.fresh('val')
                if rng.random() < p.p_choices:
                    f.choices = rng.choice(['-', repr(self.fresh('cho')), 'pd.AliasPath(%r)' % self.fresh('cho'), 'pd.AliasPath(%r, 0)' % self.fresh('cho')])
            else:
                f.alias, f.salias = self.fresh('al'), self.fresh('sal')
        if f.ent is not None and f.ent.inner is not None and rng.random() < p.p_spread:
            f.spread = rng.getrandbits(16)
        # collisions
        def collides(f):
            if f.ent is not None and f.ent.loc == 'attr' or self.at_text(f) or \
                    f.ent is None and isinstance(strip_opt(f.type), (Dct, TD)):
                return False
            if f.ent is not None and f.ent.loc == 'wrapped':
                return False
            return bool(self.tags_of(f) & self.used)
        if collides(f):
            f.ent = Ent('element', tag=self.tagname(), ns=f.ent.ns if f.ent else None, nsmap=f.ent.nsmap if f.ent else None,
                        nillable=f.ent.nillable if f.ent else None)
        elif p.p_dup and f.ent is not None and f.ent.loc == 'element' and self.used and rng.random() < p.p_dup:
            f.ent.tag = rng.choice(sorted(self.used))
        if not (f.ent is not None and f.ent.loc == 'attr'):
            self.used |= self.tags_of(f)
        # default
        if isinstance(t, Opt):
            if rng.random() < p.p_none_default:
                f.default = ('value', None)
            elif rng.random() < p.p_default and not root:
                d = self.default(base)
                if d is not None:
                    f.default = d
        elif rng.random() < p.p_default and not root:
            d = self.default(base)
            if d is not None:
                f.default = d
        # nillable
        e = f.ent
        while e is not None and e.loc == 'wrapped':
            e = e.inner
        if e is not None and e.loc == 'element' and rng.random() < p.p_nillable and not isinstance(strip_opt(t), (Coll, Dct, TD, Raw)):
            if f.default == ('value', None) or not isinstance(t, Opt):
                e.nillable = True
        if not root:
            if rng.random() < p.p_exclude:
                f.exclude = True
            elif rng.random() < p.p_exclude:
                f.exclude_if = rng.choice(sorted(prims.EXCLUDES))
            elif rng.random() < p.p_noxml and f.default != REQ and f.ent is not None:
                f.noxml = True
        if f.ent is not None and rng.random() < p.p_style and not root:
            f.style = rng.choice(['annotated', 'split'])
            if f.style == 'annotated' and (f.default[0] == 'factory' or f.discriminator):
                f.style = 'default'
            if f.style == 'split' and (f.noxml or f.ent.loc == 'wrapped'):
                f.style = 'default'
        if isinstance(base, Coll) and not f.harmless and not f.type_alias and rng.random() < p.p_constraint and not root and f.default[0] == 'req':
            f.extra_kwargs['max_length'] = '3'
        return f

    def hashable(self, t):
        return isinstance(t, Prim) or isinstance(t, Tup) and all(isinstance(strip_opt(i), Prim) for i in t.items)

    def location(self, f, base, scalar, modelish, root):
        rng, p = self.rng, self.p
        r = rng.random()
        if r < p.p_wrapped:
            self.wrapping = True
            return self.wrap(f, base, scalar, modelish, root)
        self.last_wrap = None if rng.random() > p.p_nonadjacent else self.last_wrap
        return self.plain(f, base, scalar, modelish, root)

    def plain(self, f, base, scalar, modelish, root, inside=False):
        rng, p = self.rng, self.p
        if scalar:
            if not inside and not self.has_text and rng.random() < p.p_text:
                self.has_text = True
                return None
            if inside and rng.random() < .15:
                return None
            if rng.random() < p.p_attr:
                e = Ent('attr')
                self.naming(e, root)
                return e
        if isinstance(base, (Dct, TD)) and rng.random() < .5:
            if inside and rng.random() < .5 or not inside and not self.has_map:
                if not inside:
                    self.has_map = True
                return None
        if modelish and rng.random() < .4:
            return None
        if isinstance(base, Raw) and rng.random() < .3 and not root:
            return None
        e = Ent('element')
        self.naming(e, root)
        return e

    def naming(self, e, root):
        rng, p = self.rng, self.p
        if root or rng.random() < p.p_tag:
            e.tag = self.tagname()
        self.scoping(e)

    def scoping(self, e):
        rng = self.rng
        if not self.namespaced:
            return
        own = {}
        if e.loc != 'attr' and rng.random() < .25:
            e.nsmap = own = self.nsmap()
        avail = dict(self.U.eff_nsmap(self.m) or {})
        avail.update(self.wrap_maps)
        avail.update(own)
        if avail and rng.random() < .35:
            c = [k for k in avail if k or e.loc != 'attr']
            if c:
                e.ns = rng.choice(c)

    wrap_maps = {}

    def wrap(self, f, base, scalar, modelish, root):
        rng, p = self.rng, self.p
        n = rng.choice([1, 1, 2, 2, 3])
        parts = [self.tagname() for _ in range(n)]
        w = Ent('wrapped')
        if self.last_wrap is not None and rng.random() < p.p_share:
            lp, lns, lmap = self.last_wrap
            k = rng.randint(1, len(lp))
            parts = lp[:k] + parts[:rng.randint(0, 2)]
            w.ns, w.nsmap = lns, copy.deepcopy(lmap)
        else:
            self.scoping(w)
        if rng.random() < p.p_repeat_step:
            # the same step twice in a row, or once more further down
            parts.insert(rng.randint(0, len(parts)), rng.choice(parts))
        self.last_wrap = (parts, w.ns, w.nsmap)
        self.wrap_maps = dict(w.nsmap or {})
        # attributes must not inherit the default namespace
        inner = self.plain(f, base, scalar, modelish, root, inside=True)
        self.wrap_maps = {}
        if len(parts) > 1 and rng.random() < .3:
            k = rng.randint(1, len(parts) - 1)
            w.tag = '/'.join(parts[:k])
            w.inner = Ent('wrapped', tag='/'.join(parts[k:]), inner=inner)
        else:
            w.tag = '/'.join(parts)
            w.inner = inner
        return w

    def default(self, t):
        rng = self.rng
        if isinstance(t, (Prim, UPrim)):
            return ('value', finite(self.value(t)))
        if isinstance(t, Coll):
            if rng.random() < .6:
                return (rng.choice(['value', 'factory']) if t.kind in ('list', 'deque') else 'value', Coll_(t.kind, []))
            if isinstance(t.item, Prim):
                return ('factory', self.value(t))
        if isinstance(t, Dct):
            return ('factory', {})
        return None

    def computed(self, m):
        rng = self.rng
        src = [f for f in m.fields if not f.computed and not f.noxml and not f.exclude
               and isinstance(f.type if rng.random() < .6 else strip_opt(f.type), (Prim, UPrim, Mod, Coll, Dct, TD, Tup, NT, UMod, Raw))]
        if src and rng.random() < .6:
            o = rng.choice(src)
            t, e = o.type, 'self.%s' % o.name
        else:
            t = self.prim()
            e = '_V(%r, %r)' % (t.kind, prims.PRIMS[t.kind].encode(prims.PRIMS[t.kind].gen(rng)))
        f = FieldSpec(self.fresh('c'), t, computed=e, prop=rng.choice(['property', 'property', 'cached_property', 'function']))
        if any(isinstance(i, Tag) for i in inner_types(t)):
            return
        if isinstance(t, Prim):
            if rng.random() < .5:
                f.ent = Ent('attr')
            elif not self.has_text and rng.random() < .2:
                self.has_text = True
            else:
                f.ent = Ent('element')
        else:
            f.ent = Ent('element')
            f.ent.tag = self.tagname()
            if isinstance(t, Opt) and rng.random() < self.p.p_nillable and isinstance(t.item, (Prim, UPrim, Mod, UMod)):
                f.ent.nillable = True
        if f.ent is not None:
            if rng.random() < .5 and not f.ent.tag:
                f.ent.tag = self.tagname()
            self.scoping(f.ent)
            if rng.random() < .2:
                f.alias = self.fresh('al')
        m.fields.append(f)

    # ---- values

    def value(self, t, opts=None, depth=0):
        """A neutral value of the type."""
        return value(self.rng, self.U, t, opts or ValueOpts(finite=True), depth)


@dataclass
class ValueOpts:
    p_none: float = .3          # of Optional values
    p_unset: float = .3         # of fields with defaults
    p_empty: float = .0         # empty strings, collections
    none_items: bool = True
    items: Tuple[int, int] = (1, 4)
    max_depth: int = 4
    raw_tag: Any = None
    finite: bool = False        # no infinities: inside of collections of special classes
    p_sub: float = .0           # of instances of a subclass of the declared model
    p_bulk: float = .004        # collections, mappings and texts far larger than usual


def bulk(rng, o, t=None, depth=0):
    if depth > 1 or rng.random() >= o.p_bulk:
        return 0
    if isinstance(t, (UMod, Tag)):
        return rng.choice([20, 70])
    if isinstance(t, (Prim, Opt, UPrim)):
        return rng.choice([40, 150, 600, 1100, 2600])
    return rng.choice([40, 150, 300])


def raw_tag(U, m, f):
    from .spec import plain_elem, wrap_scope
    if not any(isinstance(t, Raw) for t in inner_types(f.type)):
        return None
    ent, scopes = f.ent, U.scope(m)
    while ent is not None and ent.loc == 'wrapped':
        scopes = wrap_scope(ent, scopes)
        ent = ent.inner
    return plain_elem(f, ent, scopes)


def value(rng, U, t, o, depth=0):
    if isinstance(t, Opt):
        if rng.random() < o.p_none or depth > o.max_depth:
            return None
        return value(rng, U, t.item, o, depth)
    if isinstance(t, Prim):
        p = prims.PRIMS[t.kind]
        if t.kind == 'str' and rng.random() < o.p_empty:
            return SV('str', '')
        if t.kind == 'str' and depth <= 1 and rng.random() < o.p_bulk / 2:
            return SV('str', prims.text(rng, 1, 9) + 'x' * rng.choice([300, 5000, 70000]) + prims.text(rng, 1, 9))
        v = SV(t.kind, p.gen(rng))
        return finite(v) if o.finite else v
    if isinstance(t, UPrim):
        return value(rng, U, Prim(rng.choice(t.kinds)), o, depth)
    if isinstance(t, Mod):
        m = U[t.name]
        if o.p_sub and rng.random() < o.p_sub:
            m = rng.choice([s for s in U.models.values() if m in list(U.chain(s))])
        return model_value(rng, U, m, o, depth + 1)
    if isinstance(t, (UMod, Tag)):
        return model_value(rng, U, U[rng.choice(t.names)], o, depth + 1)
    if isinstance(t, Coll):
        lo, hi = o.items
        n = rng.randint(lo, hi) if depth <= 2 else 1
        if rng.random() < o.p_empty or depth > o.max_depth:
            n = 0
        n = bulk(rng, o, t.item, depth) or n
        if n > 10:
            o = replace(o, p_bulk=0)
        if t.kind == 'deque':
            o = replace(o, finite=True)
        items = [value(rng, U, t.item, o, depth) for _ in range(n)]
        return Coll_(t.kind, items)
    if isinstance(t, Tup):
        return Coll_('tuple', [value(rng, U, i, o, depth) for i in t.items])
    if isinstance(t, NT):
        return NTV(t.name, [finite(value(rng, U, i, o, depth)) for _, i in t.fields])
    if isinstance(t, Dct):
        n = rng.randint(1, 3) if rng.random() >= o.p_empty else 0
        n = min(bulk(rng, o, None, depth), 150) or n
        if t.form:
            o = replace(o, finite=True)
        return {key(rng) if t.key == 'word' else prims.PRIMS[t.key].gen(rng): value(rng, U, t.val, o, depth) for _ in range(n)}
    if isinstance(t, TD):
        return {k: value(rng, U, i, o, depth) for k, i, r in t.fields if r or rng.random() < .6}
    if isinstance(t, Raw):
        return RV(raw_node(rng, tag=o.raw_tag))
    raise TypeError(t)


def key(rng):
    """A key of a mapping: any XML name without a colon."""
    w = prims.word(rng, 2, 5)
    return w if rng.random() < .85 else rng.choice([w + '-1', w + '.z', '_' + w, w + '\u00b7x', '\u00c9' + w, '\u540d' + w, w + '_' + w, w.upper()])


def finite(v):
    """Known finding P23: infinities held by a named tuple, or a collection or mapping of a special class, are written as nothing."""
    if isinstance(v, SV) and v.kind == 'float' and not math.isfinite(v.value):
        return SV('float', 2.5)
    return v


def model_value(rng, U, m, o, depth=0):
    fields = {}
    for f in U.eff_fields(m):
        if f.computed:
            continue
        if f.default[0] != 'req' and (rng.random() < o.p_unset or depth > o.max_depth):
            continue
        tag = raw_tag(U, m, f)
        v = value(rng, U, f.type, replace(o, raw_tag=tag) if tag else o, depth)
        if f.extra_kwargs.get('max_length') and isinstance(v, Coll_):
            v.items = v.items[:int(f.extra_kwargs['max_length'])]
        fields[f.name] = v
    return MV(m.name, fields)


def raw_node(rng, depth=0, tag=None):
    n = Node(tag or rng.choice(['r', '{urn:raw}r', 'x-1', '{http://a.example/x}e']))
    for _ in range(rng.choice([0, 0, 1, 2])):
        n.attrib[rng.choice(['a', 'b', '{urn:raw}c', '{http://www.w3.org/XML/1998/namespace}lang'])] = prims.text(rng, 0, 5)
    if rng.random() < .6:
        n.text = prims.text(rng, 1, 5)
    if depth < 2:
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            same = rng.random() < .3
            c = Node(n.tag) if same and rng.random() < .5 else raw_node(rng, depth + 1, n.tag if same else None)
            if rng.random() < .5:
                c.tail = prims.text(rng, 1, 4)
            n.children.append(c)
    return n


def resolve(U, m, f, ent, t, scopes):
    if ent is not None and ent.loc == 'wrapped':
        wrap_path(ent, scopes)
        return resolve(U, m, f, ent.inner, t, wrap_scope(ent, scopes))
    t = strip_opt(t)
    if isinstance(t, (Prim, UPrim)):
        if ent is not None:
            attr_name(U, m, f, ent, scopes) if ent.loc == 'attr' else plain_elem(f, ent, scopes)
    elif isinstance(t, Mod):
        model_elem(U, f, ent, U[t.name], scopes)
    elif isinstance(t, (UMod, Tag)):
        for n in t.names:
            model_elem(U, f, ent, U[n], scopes)
    elif isinstance(t, Coll):
        resolve(U, m, f, ent, t.item, scopes)
    elif isinstance(t, Tup):
        for i in t.items:
            resolve(U, m, f, ent, i, scopes)
    elif isinstance(t, NT):
        for _, i in t.fields:
            resolve(U, m, f, ent, i, scopes)
    elif isinstance(t, (Dct, TD)):
        if ent is not None:
            plain_elem(f, ent, scopes)
    elif isinstance(t, Raw):
        plain_elem(f, ent, scopes)


def check_definition(U):
    """Raises BadDefinition if some name can not be resolved."""
    for m in U.models.values():
        root_elem(U, m)
        for f in U.eff_fields(m):
            if not f.noxml:
                resolve(U, m, f, f.ent, f.type, U.scope(m))


def universe(rng, prof):
    for _ in range(200):
        U = Gen(rng, prof).universe()
        try:
            check_definition(U)
        except BadDefinition:
            continue
        return U
    raise RuntimeError('no valid specification generated')
