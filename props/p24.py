import re

import pydantic_xml
from harness import gen, nodes, render
from harness.core import Skip, Violation
from harness.flow import native_etree

TECHNIQUE = 'runtime monitoring: unsupported definitions built from families of violations, at every position and by every way of creating a class, must raise at definition time; their nearest supported neighbours must be usable'
RULE = ('random unsupported field definitions (nested collections, structured attributes, unnamed scalars and raw elements, mixed unions, mappings of '
        'structures, discriminators, namespaces, types) wrapped in optionals, annotations, collections, tuples and mappings, put into random models, '
        'subclasses, generic parametrizations, forward references, dynamically created, computed and root models; supported neighbours are '
        'defined in the same ways, written and read back; distinct = (family, type, entity, route)')
CASES = {'quick': 12000, 'thorough': 120000}
MIN = {'rejected': 5000, 'accepted and used': 2500}
FAMILIES = ('nested', 'attr', 'unnamed', 'mixed', 'mapping', 'discriminator', 'nsattr', 'alias', 'type', 'root', 'prefixed')
ROUTES = ('direct', 'universe', 'subclass', 'override', 'generic', 'forward', 'create', 'computed', 'root', 'annotated')
MIN.update({'rejected: %s' % f: 100 for f in FAMILIES})
MIN.update({'rejected by route: %s' % r: 60 for r in ROUTES})

HELPERS = '''
class Color(enum.Enum):
    RED = 'red'
    BLUE = 'blue'
class M(BaseXmlModel, tag='m'):
    x: int = attr()
class M2(BaseXmlModel, tag='m2'):
    y: str
class P(pd.BaseModel):
    x: int
@dc.dataclass
class D:
    x: int
class Plain:
    pass
class K1(BaseXmlModel, tag='k'):
    kind: Literal['a'] = attr()
    v: int = attr()
class K2(BaseXmlModel, tag='k'):
    kind: Literal['b', 'bb'] = attr()
class K3(BaseXmlModel, tag='kk'):
    kind: Literal['c'] = attr(default='c')
    w: str = element()
class Kother(BaseXmlModel, tag='k'):
    kind: Literal['d'] = attr(name='other')
class Kother2(BaseXmlModel, tag='k'):
    kind: Literal['dd'] = attr(name='other')
class Kns(BaseXmlModel, tag='k', nsmap={'n': 'urn:n'}):
    kind: Literal['n'] = attr(ns='n')
class Kalias(BaseXmlModel, tag='k'):
    kind: Literal['e'] = attr(alias='kindly')
class Kelem(BaseXmlModel, tag='k'):
    kind: Literal['f'] = element()
class Ktext(BaseXmlModel, tag='k'):
    kind: Literal['g']
class Kwrap(BaseXmlModel, tag='k'):
    kind: Literal['h'] = wrapped('w', attr())
class Kint(BaseXmlModel, tag='k'):
    kind: Literal[1] = attr()
class Kint2(BaseXmlModel, tag='k'):
    kind: Literal[2, 3] = attr()
class Kelem2(BaseXmlModel, tag='k'):
    kind: Literal['i'] = element()
class Kroot(RootXmlModel[K1], tag='k'):
    pass
'''
MODELS = ['M', 'M2', 'K1']
SCALARS = [('int', '-3'), ('str', "'a b'"), ('float', '1.5'), ('bool', 'True'), ('Color', 'Color.RED'), ('dt.date', 'dt.date(2020, 1, 2)'),
           ("Literal['x', 'y']", "'y'"), ('Annotated[int, pd.Field(gt=1)]', '7'), ('Union[int, str]', "'q'"), ('decimal.Decimal', "decimal.Decimal('1.50')"),
           ('pd.PositiveInt', '4'), ('uuid.UUID', 'uuid.UUID(int=5)')]
VALUES = {'M': 'M(x=1)', 'M2': "M2(y='t')", 'K1': "K1(kind='a', v=2)"}


class Def:
    """A field definition: type, entity (an expression or None), whether it needs a default; lines needed before."""

    def __init__(self, rng):
        self.rng = rng
        self.pre = []
        self.n = 0
        self.unnamed = False

    def name(self):
        self.n += 1
        return '_T%d' % self.n

    def scalar(self, union=True):
        rng = self.rng
        s = rng.choice(SCALARS)[0]
        if not union and s.startswith('Union'):
            s = 'int'
        if rng.random() < .2 and not s.startswith('Union'):
            s = 'Optional[%s]' % s
        return s

    def model(self):
        return self.rng.choice(MODELS)

    def nt(self, *items):
        n = self.name()
        self.pre += ['class %s(NamedTuple):' % n] + ['    i%d: %s' % (i, t) for i, t in enumerate(items)]
        return n

    def td(self, *items):
        n = self.name()
        items = [('%s[%s]' % (self.rng.choice(['NotRequired', 'NotRequired', 'Required']), t)) if self.rng.random() < .3 else t for t in items]
        if self.rng.random() < .3:
            self.pre += ['%s = TypedDict(%r, {%s})' % (n, n, ', '.join('"i%d": %s' % (i, t) for i, t in enumerate(items)))]
        else:
            self.pre += ['class %s(TypedDict%s):' % (n, self.rng.choice(['', '', ', total=False']))] + ['    i%d: %s' % (i, t) for i, t in enumerate(items)]
        return n

    def among(self, bad, fillers):
        """The bad item among others."""
        items = [f() for f in fillers]
        items.insert(self.rng.randint(0, len(items)), bad)
        return items

    def tup(self, bad, filler):
        items = self.among(bad, [filler] * self.rng.randint(0, 3))
        if self.rng.random() < .5:
            return 'Tuple[%s]' % ', '.join(items)
        return self.nt(*items)

    def variable(self, t):
        return self.rng.choice(['List[%s]', 'Set[%s]', 'FrozenSet[%s]', 'Tuple[%s, ...]', 'List[%s]', 'Deque[%s]']) % t

    def wrap(self, t):
        """Wrappings that do not change what a type is."""
        rng = self.rng
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            r = rng.randrange(4)
            if r == 0:
                t = 'Optional[%s]' % t
            elif r == 1:
                t = "Annotated[%s, 'meta']" % t
            elif r == 2:
                t = 'Annotated[%s, pd.AfterValidator(lambda v: v)]' % t
            else:
                t = 'Annotated[%s, pd.BeforeValidator(lambda v: v)]' % t
        return t

    def structured(self):
        rng = self.rng
        k = rng.randrange(8)
        if k == 0:
            return self.variable(rng.choice([self.scalar(), self.model()]))
        if k == 1:
            return 'Tuple[%s]' % ', '.join(self.scalar() for _ in range(rng.randint(1, 3)))
        if k == 2:
            return self.nt(*[self.scalar() for _ in range(rng.randint(1, 3))])
        if k == 3:
            return 'Dict[str, %s]' % self.scalar(union=False)
        if k == 4:
            return self.td(*[self.scalar(union=False) for _ in range(rng.randint(1, 3))])
        if k == 5:
            return self.model()
        if k == 6:
            return 'Union[M, M2]'
        return 'RawElement'

    def elem(self):
        """An element entity, possibly wrapped."""
        rng = self.rng
        e = rng.choice(['element()', "element('t')", "element(tag='t')", 'element(default=None)'])
        if rng.random() < .3:
            e = rng.choice(["wrapped('a', %s)", "wrapped('a/b', %s)", "wrapped('a', wrapped('b', %s))"]) % e
        return e

    def attr(self):
        rng = self.rng
        e = rng.choice(['attr()', "attr('t')", "attr(name='t')", 'attr(default=None)'])
        if rng.random() < .3:
            e = rng.choice(["wrapped('a', %s)", "wrapped('a/b', %s)", "wrapped('a', wrapped('b', %s))"]) % e
        return e

    def none(self):
        return self.rng.choice([None, None, None, "wrapped('a')", "wrapped('a/b')"])

    def place(self, t, scalar_like=False):
        """A bad type inside containers that would be fine with a good one."""
        rng = self.rng
        r = rng.random()
        if r < .4:
            return self.wrap(t)
        if r < .6:
            return self.wrap(self.variable(self.wrap(t)))
        if r < .8:
            return self.wrap(self.tup(self.wrap(t), self.scalar))
        return self.wrap('List[%s]' % self.tup(self.wrap(t), self.scalar))


def bad(rng, family):
    d = Def(rng)
    d.family = family
    ent = d.elem()
    if family == 'nested':
        inner = d.variable(rng.choice([d.scalar(), d.model(), 'RawElement', 'Union[M, M2]', 'Dict[str, int]']))
        inner = d.wrap(inner)
        r = rng.random()
        if r < .4:
            t = d.variable(inner)
        elif r < .7:
            t = d.tup(inner, d.scalar)
        elif r < .85:
            t = d.variable(d.wrap(d.tup(inner, d.scalar)))
        else:
            t = d.tup(d.wrap('Tuple[%s]' % ', '.join(d.scalar() for _ in range(rng.randint(1, 2)))), d.scalar)
        if rng.random() < .15:
            ent = d.none()
        t = d.wrap(t)
    elif family == 'attr':
        t, ent = d.wrap(d.structured()), d.attr()
    elif family == 'unnamed':
        ent = d.none()
        d.unnamed = True
        s = rng.choice([d.scalar, d.scalar, lambda: 'Dict[str, int]', lambda: d.td('int', 'str'), lambda: 'RawElement'])()
        r = rng.random()
        if r < .5:
            t = d.variable(d.wrap(s))
        elif r < .8:
            t = d.tup(d.wrap(s), d.model)
        else:
            t = d.variable(d.wrap(d.tup(d.wrap(s), rng.choice([d.model, d.scalar]))))
        t = d.wrap(t)
    elif family == 'mixed':
        s, m = d.scalar(), d.model()
        alts = rng.choice([[s, m], [s, m, 'M2'], [s, 'List[int]'], [m, 'Dict[str, int]'], [m, 'List[%s]' % m], [s, 'Tuple[int, int]'],
                           ['RawElement', s], ['RawElement', m], [m, d.nt('int')], [s, d.td('int')]])
        rng.shuffle(alts)
        t = d.place('Union[%s]' % ', '.join(alts))
        if rng.random() < .3:
            ent = d.none()
    elif family == 'mapping':
        s = d.structured()
        r = rng.random()
        if r < .5:
            t = rng.choice(['Dict[str, %s]', 'Mapping[str, %s]', 'OrderedDict[str, %s]', 'Dict[str, Optional[%s]]']) % d.wrap(s)
            if t.startswith('Mapping'):
                t = t.replace('Mapping', 'Dict', 1)
        elif r < .65:
            t = 'Dict[%s, int]' % d.wrap(rng.choice(['Tuple[int, int]', d.nt('int'), 'FrozenSet[int]']))
        else:
            t = d.td(*d.among(d.wrap(s), [lambda: 'int'] * rng.randint(0, 3)))
        if rng.random() < .4:
            ent = d.none()
            t = d.wrap(t)
        else:
            t = d.place(t)
    elif family == 'discriminator':
        good = rng.sample(['K1', 'K2', 'K3'], rng.randint(1, 3))
        r = rng.random()
        if r < .45:
            alts = good + [rng.choice(['Kother', 'Kns', 'Kalias', 'Kelem', 'Ktext', 'Kwrap', 'Kroot' if 'K1' not in good else 'Kelem'])]
        elif r < .6:
            alts = good + [rng.choice(['Kint', 'Kint2'])]
        elif r < .7:
            alts = ['Kint', 'Kint2']
        elif r < .8:
            alts = ['Kelem', 'Kelem2']
        else:
            alts = None
        if alts:
            rng.shuffle(alts)
            t = "Annotated[Union[%s], pd.Field(discriminator='kind')]" % ', '.join(alts)
        else:
            t = "Annotated[Union[Annotated[K1, pd.Tag('a')], Annotated[M, pd.Tag('b')]], pd.Discriminator(lambda v: 'a')]"
        t = rng.choice([t, d.wrap(t), 'List[%s]' % t, d.wrap('Optional[%s]' % t), 'Tuple[%s, M]' % t])
        if rng.random() < .3:
            ent = d.none()
    elif family == 'nsattr':
        t = d.wrap(d.scalar())
        ent = rng.choice(["attr(ns='')", "attr('t', ns='')", "wrapped('a', attr(ns=''))", "wrapped('a', wrapped('b', attr('t', '')))"])
        d.kw = ["nsmap={'': 'urn:d'}"] if rng.random() < .7 else []
        if rng.random() < .3:
            ent = d.attr()
            d.kw = ["nsmap={'': 'urn:d'}", "ns=''", 'ns_attrs=True']
    elif family == 'alias':
        nsmap = rng.choice(["nsmap={'a': 'urn:a'}", "nsmap={'': 'urn:d', 'q': 'urn:q'}"])
        r = rng.randrange(5)
        d.kw = [nsmap]
        if r == 0:
            t, ent = d.wrap(d.scalar()), rng.choice(["attr(ns='zz')", "wrapped('a', attr('t', ns='zz'))", "wrapped('a', attr('t', 'ZZ'))"])
        elif r == 1:
            t = d.wrap(rng.choice([d.scalar, d.model, d.structured])())
            ent = rng.choice(["element(ns='zz')", "element('t', ns='zz')", "wrapped('a', element(ns='zz'))"])
        elif r == 2:
            t = d.wrap(rng.choice([d.scalar, d.model, lambda: 'List[%s]' % d.scalar()])())
            ent = rng.choice(["wrapped('a', element(), ns='zz')", "wrapped('a/b', element('t', ns='a', nsmap={'a': 'urn:a'}), ns='zz')",
                              "wrapped('a', wrapped('b', element(), ns='zz'))"])
        elif r == 3:
            t = d.wrap(rng.choice([d.scalar, d.structured])())
            d.kw = []
            ent = "element('t', ns='zz', %s)" % nsmap
        else:
            t, ent = d.scalar(), rng.choice(['element()', 'attr()', None])
            d.kw = [nsmap, "ns='zz'"]
    elif family == 'type':
        u = rng.choice(['Any', 'Callable[[], int]', 'complex', 'P', 'D', 'Type[int]', 'Type[M]', 'object', 'Callable[..., int]'])
        t = d.place(u)
        ent = rng.choice([d.elem(), d.elem(), d.attr(), d.none()])
        if rng.random() < .15:
            t = rng.choice(['Dict[str, %s]' % u, d.td(*d.among(u, [lambda: 'int'])), 'Union[%s, int]' % u if u != 'object' else 'Any'])
    elif family == 'root':
        d.only = 'root'
        t, ent = rng.choice([
            (d.wrap(d.scalar()), rng.choice(['element()', 'attr()', "wrapped('a', element())", "wrapped('a', attr())"])),
            (d.variable(d.scalar()), None), (d.variable(d.scalar()), 'element()'), (d.wrap('Dict[str, int]'), 'element()'),
            (d.tup('int', d.scalar), rng.choice([None, 'element()'])), ('RawElement', rng.choice([None, 'element()'])),
            ('List[RawElement]', 'element()'), (d.td('int'), 'element()'),
        ])
    else:
        items = [d.scalar() for _ in range(rng.randint(1, 2))]
        items.insert(rng.randint(1, len(items)), 'Unpack[Tuple[%s, ...]]' % d.scalar())
        t = d.wrap('Tuple[%s]' % ', '.join(items))
        if rng.random() < .3:
            t = 'List[%s]' % t
    d.type, d.ent = t, ent
    return d


def value(rng, t):
    for s, v in SCALARS:
        if s == t:
            return v
    return VALUES[t]


def good(rng):
    """A supported definition and a value that XML can express."""
    d = Def(rng)
    s, v = rng.choice(SCALARS)
    s2, v2 = rng.choice(SCALARS)
    m, m2 = rng.choice(MODELS), rng.choice(MODELS)
    mv, mv2 = VALUES[m], VALUES[m2]
    elem = rng.choice(['element()', "element('t')"]) if rng.random() < .7 else rng.choice(
        ["wrapped('a', element('t'))", "wrapped('a/b', element())", "wrapped('a', wrapped('b', element('t')))"])
    named = rng.choice(["element('t')", "wrapped('a', element('t'))", "wrapped('a', wrapped('b', element('t')))"])
    attr = rng.choice(['attr()', "attr('t')", "wrapped('a', attr('t'))"])
    tag = "Annotated[Union[%s], pd.Field(discriminator='kind')]"
    k = rng.randrange(20)
    root = None          # entity to be used in a root model, if any
    if k == 0:
        t, ent, val, root = s, elem, v, named
    elif k == 1:
        t, ent, val, root = s, attr, v, "attr('t')"
    elif k == 2:
        t, ent, val, root = s, None, v, None
    elif k == 3:
        t, ent, val, root = 'List[%s]' % s, elem, '[%s, %s]' % (v, v), named
    elif k == 4:
        t, ent, val, root = 'Tuple[%s, %s]' % (s, s2), elem, '(%s, %s)' % (v, v2), named
    elif k == 5:
        t, ent, val, root = 'Tuple[%s, ...]' % s, elem, '(%s, %s, %s)' % (v, v, v), named
    elif k == 6:
        t, ent, val, root = 'List[Tuple[%s, %s]]' % (s, s2), elem, '[(%s, %s)] * 2' % (v, v2), named
    elif k == 7:
        n = d.nt(s, s2)
        t, ent, val, root = n, elem, '%s(%s, %s)' % (n, v, v2), named
        if rng.random() < .4:
            t, val = 'List[%s]' % n, '[%s] * 2' % val
    elif k == 8:
        t, ent, val, root = 'List[%s]' % m, rng.choice([None, elem]), '[%s, %s]' % (mv, mv), None
    elif k == 9:
        t, ent, val, root = 'Tuple[%s, %s]' % (m, m2), rng.choice([None, elem]), '(%s, %s)' % (mv, mv2), None
        if m != m2 and ent:
            ent = None
    elif k == 10:
        t, ent, val, root = 'List[Union[M, M2]]', None, rng.choice(['[M(x=1), M2(y="b")]', '[M2(y="b"), M(x=1), M2(y="c")]']), None
    elif k == 11:
        t, ent, val, root = 'Union[M, M2]', rng.choice([None, 'element()']), rng.choice(['M(x=1)', 'M2(y="b")']), None
        if ent:
            val = 'M(x=1)'
    elif k == 12:
        t, ent, val, root = 'Dict[str, int]', rng.choice([None, elem]), "{'k1': 1, 'k2': -5}", None
    elif k == 13:
        n = d.td('int', 'str')
        t, ent, val, root = n, rng.choice([None, elem]), "{'i0': 1, 'i1': 'b'}", None
    elif k == 14:
        t, ent, val, root = 'List[Dict[int, str]]', elem, "[{}, {}]" if rng.random() < .3 else "[{}]", named
    elif k == 15:
        alts, vals = zip(*rng.sample([('K1', "K1(kind='a', v=1)"), ('K2', "K2(kind='bb')"), ('K3', "K3(w='q')")], rng.randint(2, 3)))
        t, ent, val, root = tag % ', '.join(alts), rng.choice([None, 'element()']), rng.choice(vals), None
        if rng.random() < .5:
            t, ent, val = 'List[%s]' % t, None, '[%s]' % ', '.join(vals * 2)
    elif k == 16:
        t, ent, val, root = tag % 'Kother, Kother2', None, "Kother2(kind='dd')", None
    elif k == 17:
        d.kw = ["nsmap={'a': 'urn:a', '': 'urn:d'}"]
        t, ent, val = s, rng.choice(["attr(ns='a')", "element(ns='a')", "wrapped('w', element(), ns='a')", "wrapped('w', attr(ns='a'), ns='')", "element(ns='')"]), v
        if rng.random() < .3:
            d.kw = ["nsmap={'a': 'urn:a', '': 'urn:d'}", "ns='a'", 'ns_attrs=True']
            ent = rng.choice(['attr()', 'element()'])
        root = "element('t', ns='a')"
    elif k == 18:
        d.kw = []
        t, ent, val, root = 'RawElement', rng.choice([None, 'element()', "wrapped('a', element())"]), None, None
    else:
        t, ent, val, root = 'Tuple[Union[M, M2], %s]' % m, None, '(M2(y="z"), %s)' % mv, None
    if k != 18 and rng.random() < .3:
        t = rng.choice(['Optional[%s]', "Annotated[%s, 'meta']", 'Annotated[%s, pd.AfterValidator(lambda v: v)]']) % t
    d.family, d.type, d.ent, d.value, d.root, d.k = 'supported', t, ent, val, root, k
    return d


CFG = 'arbitrary_types_allowed=True'


def settings(rng, d, families_own):
    kw = getattr(d, 'kw', None)
    if kw is not None:
        return list(kw) + rng.choice([[], ["tag='top'"], ["search_mode='ordered'"]])
    kw = []
    if rng.random() < .4:
        kw.append("tag='top'")
    if rng.random() < .25 and getattr(d, 'k', 0) not in (9, 10, 15, 19):
        kw.append("search_mode='%s'" % rng.choice(['strict', 'ordered', 'unordered']))
    if rng.random() < .2:
        kw.append(rng.choice(["nsmap={'q': 'urn:q'}, ns='q'", "nsmap={'': 'urn:d'}", "nsmap={'': 'urn:d'}, ns=''"]))
    if rng.random() < .1 and getattr(d, 'k', 0) != 14:
        kw.append('skip_empty=True')
    return kw


def field(d, name='x'):
    return '    %s: %s%s' % (name, d.type, ' = ' + d.ent if d.ent else '')


def source(rng, d, route):
    """The lines of definitions, the expression giving the class and the name of the field."""
    kw = settings(rng, d, True) + [CFG]
    if route == 'generic' and "tag='top'" not in kw:
        kw.append("tag='top'")
    args = ', '.join(kw)
    plain = ['    g0: int = attr(default=1)'] if rng.random() < .5 and route != 'root' else []
    L = list(d.pre)
    if route == 'direct':
        L += ['class T(BaseXmlModel, %s):' % args] + (plain + [field(d)])[::rng.choice([1, -1]) if getattr(d, 'k', 0) not in (12, 13) else 1]
    elif route == 'annotated':
        t = 'Annotated[%s, %s]' % (d.type, d.ent) if d.ent else d.type
        L += ['class T(BaseXmlModel, %s):' % args] + plain + ['    x: %s' % t]
    elif route == 'subclass':
        L += ['class B(BaseXmlModel, %s):' % args] + (plain or ['    pass']) + ['class T(B):', field(d)]
    elif route == 'override':
        L += ['class B(BaseXmlModel, %s):' % args, "    x: Optional[int] = element('orig', default=None)", 'class T(B):', field(d) if d.ent else
              field(d) + ' = Field()']
    elif route == 'generic':
        r = rng.random()
        m = re.fullmatch(r'(List|Set|FrozenSet|Optional)\[(.*)\]', d.type)
        if m and r < .5:
            outer, inner = m[1] + '[V]', m[2]
        else:
            outer, inner = 'V', d.type
        # the type parameter stands for a part of the type
        L += ["V = TypeVar('V')", 'class G(BaseXmlModel, Generic[V], %s):' % args] + plain + [
            '    x: %s%s' % (outer, ' = ' + d.ent if d.ent else ''), 'A = %s' % inner]
        L += ['class T(G[A]): pass'] if rng.random() < .5 else ['T = G[A]']
    elif route == 'forward':
        L += ['class T(BaseXmlModel, %s):' % args] + plain + ["    x: 'Later'%s" % (' = ' + d.ent if d.ent else ''), 'Later = %s' % d.type, 'T.model_rebuild()']
    elif route == 'create':
        found = re.findall(r"(\w+)=(\{[^}]*\}|'[^']*'|\w+)", ', '.join(kw))
        extra = ', '.join('__%s__=%s' % kv for kv in found if kv[0] != 'arbitrary_types_allowed')
        L += ["T = create_model('T', __config__=pd.ConfigDict(%s), %s%sx=(%s, %s))" % (CFG, extra, ', ' if extra else '', d.type, d.ent or '...')]
    elif route == 'computed':
        if d.ent is None:
            dec = 'pd.computed_field'
        else:
            dec = 'computed_' + d.ent
        L += ['class T(BaseXmlModel, %s):' % args] + plain + ['    @%s' % dec, '    @property', '    def x(self) -> %s:' % d.type, '        return None']
    elif route == 'root':
        if d.ent is None and rng.random() < .6:
            L += ['class T(RootXmlModel[%s], %s):' % (d.type, args), '    pass']
        else:
            L += ['class T(RootXmlModel, %s):' % args, field(d, 'root')]
    return '\n'.join(L)


def fits(d, route):
    only = getattr(d, 'only', None)
    if only:
        return route == only
    if route == 'computed':
        # wrapped computed fields do not exist
        return d.ent is None or not d.ent.startswith('wrapped') and 'default' not in d.ent
    if route == 'root':
        return d.ent is None or 'default' not in d.ent
    return True


HOSTS = gen.Profile(models=(1, 3), fields=(1, 4), p_inherit=.2, p_recursive=.05, p_mutual=0, p_root=.1)


def host(rng, d):
    """A random supported universe with the bad field in one of its classes."""
    U = gen.eager(gen.universe(rng, HOSTS))
    text = render.render(U, 'xml')
    lines = text.split('\n')
    names = [m.name for m in U.models.values() if not m.root]
    if not names:
        raise Skip('only root models')
    name = rng.choice(names)
    i = next(k for k, l in enumerate(lines) if l.startswith('class %s(' % name))
    head = lines[i].rstrip()
    own = getattr(d, 'kw', None)
    if own is not None and not d.ent:
        raise Skip('needs class settings')
    if own:
        # the entity brings the namespaces along; attributes can not
        if re.search(r'nsmap|ns=', head) or len(own) > 1 or not re.match(r"element\(.*ns='zz'", d.ent):
            raise Skip('needs class settings')
        d.ent = d.ent[:-1] + ', ' + own[0] + ')'
    lines[i] = head[:-2] + ', %s):' % CFG
    j = i + 1
    while j < len(lines) and lines[j].startswith('    '):
        j += 1
    at = rng.choice([i + 1, j])
    new = lines[:at] + [field(d, 'x_bad')] + lines[at:]
    return U, text, '\n'.join(d.pre + new)


_base = {}


def base():
    if not _base:
        import sys
        import types
        sys.modules['_p24_helpers'] = types.ModuleType('_p24_helpers')
        env = sys.modules['_p24_helpers'].__dict__
        exec(compile('import enum, decimal, uuid, dataclasses as dc, datetime as dt\nfrom typing import *\n'
                     'from typing_extensions import TypedDict, Unpack, Annotated, NotRequired, Required\nimport pydantic as pd\nfrom pydantic import Field\n'
                     'from pydantic_xml import *\nfrom pydantic_xml.element.native import ElementT as RawElement', 'p', 'exec'), env)
        exec(compile(HELPERS, 'helpers', 'exec'), env)
        _base.update((k, v) for k, v in env.items() if not k.startswith('__'))
    return _base


def define(U, text):
    et = native_etree()
    env = render.make(U, '', 'xml', raw=lambda n: nodes.to_native(n, et))
    try:
        env.update(base())
        exec(compile(text, 'definition', 'exec'), env)
        return env
    finally:
        render.unload(env)


def case(ctx, rng):
    for _ in range(2):
        reject(ctx, rng)
    accept(ctx, rng)


def reject(ctx, rng):
    family = rng.choice(FAMILIES)
    d = bad(rng, family)
    route = rng.choice([r for r in ROUTES if fits(d, r)])
    U = None
    if route == 'universe':
        try:
            U, ok, text = host(rng, d)
        except Skip:
            return
        try:
            define(U, ok)
        except Exception as e:
            raise Violation('a supported definition is rejected: %s: %s' % (type(e).__name__, str(e)[:300]), source=ok)
        ctx.count('hosts accepted')
    else:
        text = source(rng, d, route)
    ctx.count('evaluations')
    try:
        define(U, text)
    except (NameError, SyntaxError, ImportError, AttributeError, KeyError, IndexError, RecursionError) as e:
        raise Violation('an unsupported definition (%s by %s) ends in %s: %s' % (family, route, type(e).__name__, e), source=text)
    except Exception as e:
        ctx.count('rejected')
        ctx.count('rejected: %s' % family)
        ctx.count('rejected by route: %s' % route)
        ctx.count('rejected with %s' % type(e).__name__)
        ctx.cover(family, re.sub(r'_T\d+', 'T', d.type), d.ent, route)
        ctx.sample('%s -> %s: %s' % (text, type(e).__name__, e))
        return
    raise Violation('an unsupported definition (%s by %s) is accepted: %s%s' % (family, route, d.type, ' = %s' % d.ent if d.ent else ''), source=text)


def accept(ctx, rng):
    d = good(rng)
    route = rng.choice([r for r in ROUTES if r not in ('universe', 'computed')])
    if route == 'root':
        d.ent = d.root
        if d.k in (18,) or d.k == 2 and 'Optional' in d.type:
            route = 'direct'
    text = source(rng, d, route)
    ctx.count('evaluations')
    name = 'root' if route == 'root' else 'x'
    try:
        env = define(None, text)
    except Exception as e:
        raise Violation('a supported definition is rejected: %s: %s' % (type(e).__name__, str(e)[:300]), source=text)
    T = env['T']
    et = native_etree()
    try:
        if d.k == 18:
            n = et.fromstring('<x b="1">t<c/></x>')
            obj = T(**{name: n})
            back = T.from_xml(obj.to_xml())
            same = nodes.diff(nodes.from_native(getattr(back, name), False), nodes.from_native(n, False)) is None
        else:
            v = eval(d.value, env)
            obj = T(v) if route == 'root' else T(**{name: v})
            back = T.from_xml(obj.to_xml())
            same = back == obj
    except Exception as e:
        raise Violation('a supported definition is unusable: %s: %s' % (type(e).__name__, str(e)[:300]), source=text, value=d.value)
    ctx.check(same, 'a supported definition does not round-trip: %r and %r' % (obj, back), source=text, value=d.value)
    ctx.count('accepted and used')
    ctx.count('accepted by route: %s' % route)
    ctx.cover('ok', d.k, re.sub(r'_T\d+', 'T', d.type), d.ent, route)
