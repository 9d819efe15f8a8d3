import itertools
import math

import pydantic as pd

from harness import canon, gen, nodes, prims, standard
from harness.core import Skip, Violation
from harness.findings import judge
from harness.prims import PRIMS, encode_json, scalar_key
from harness.render import SHADOW_PRELUDE, XML_PRELUDE

TECHNIQUE = ('runtime monitoring: every scalar written and read by the library compared with the JSON form and the validation of pydantic '
             'on plain models')
RULE = ('one class per case with one scalar type (33 kinds, constrained, literal, enum, url, network, date kinds and the like) at every '
        'location (attribute, element, text, list, tuple, named tuple, dictionary, typed dictionary, wrapped, optional, computed, '
        'sub-model, root model), optionally with field serializers or JSON configuration; each written text compared with the pydantic '
        'JSON form and each value read back compared by type and value; and random universes over all kinds in both text modes; '
        'distinct = (kind, location, serializer, configuration, value class)')
CASES = {'quick': 2400, 'thorough': 40000}
MIN = {'scalars written': 20000, 'scalars read back': 20000, 'parsed: ok': 300}
PROFILE = gen.Profile(types=dict(prim=8, uprim=2, mod=2, coll=3, tup=1, nt=.7, dct=2, td=1.5), kinds=tuple(prims.ALL), p_text=.4, p_attr=.35,
                      p_ns=.05)

EXTRA_KINDS = {     # expression, values as expressions
    'ip6': ('ipaddress.IPv6Address', ["ipaddress.ip_address('::1')", "ipaddress.ip_address('2001:db8::ff00:42:8329')"]),
    'ip4if': ('ipaddress.IPv4Interface', ["ipaddress.ip_interface('10.0.0.1/8')", "ipaddress.ip_interface('192.168.1.7')"]),
    'ip4net': ('ipaddress.IPv4Network', ["ipaddress.ip_network('10.0.0.0/8')"]),
    'uuid4': ('pd.UUID4', ["uuid.UUID('7c9e6679-7425-40de-944b-e07fc1f90ae7')"]),
    'negint': ('pd.NegativeInt', ['-1', '-10**20']),
    'conint': ('Annotated[int, Field(ge=0, multiple_of=5)]', ['0', '15', '10**30']),
    'finite': ('pd.FiniteFloat', ['0.1', '-1e-300', '1e22', '123456789.123456789', '0.1 + 0.2']),
    'strict_str': ('pd.StrictStr', ["' a '", "'1'", "'true'"]),
    'naive': ('pd.NaiveDatetime', ['dt.datetime(2020, 1, 2, 3, 4, 5, 6)']),
    'past': ('pd.PastDate', ['dt.date(1999, 12, 31)']),
    'future': ('pd.FutureDatetime', ['dt.datetime(9999, 12, 31, 23, 59, 59, 999999, dt.timezone.utc)']),
    'strenum': ('Color', ['Color.RED', 'Color.GREEN', 'Color.NONE']),
    'newtype': ("NewType('Nw', int)", ['5', '-5']),
    'fileurl': ('pd.FileUrl', ["pd.FileUrl('file:///a/b')"]),
    'dsn': ('pd.PostgresDsn', ["pd.PostgresDsn('postgres://u:p@h:5432/db')"]),
    'wsurl': ('pd.AnyWebsocketUrl', ["pd.AnyWebsocketUrl('wss://a.b/c?d=e&f')"]),
    'strip': ('Annotated[str, pd.StringConstraints(strip_whitespace=True)]', ["'a b'", "'x'"]),
    'base64str': ('pd.Base64Str', ["TypeAdapter_str"]),
    'aware_time': ('dt.time', ['dt.time(1, 2, 3, tzinfo=dt.timezone.utc)', 'dt.time(23, 59, 59, 999999, dt.timezone(dt.timedelta(hours=-5)))']),
    'tz': ('dt.datetime', ['dt.datetime(1, 1, 1)', 'dt.datetime(2020, 6, 1, 12, 0, 0, 1, dt.timezone(dt.timedelta(hours=5, minutes=45)))']),
    'bigdelta': ('dt.timedelta', ['dt.timedelta(days=99999)', 'dt.timedelta(microseconds=1)', 'dt.timedelta(days=-1, microseconds=1)',
                                  'dt.timedelta(0)']),
    'extfloat': ('float', ["float('nan')", "float('inf')", "-0.0", '1.7976931348623157e308', '5e-324', '1e16', '123456789012345680.0']),
    'extint': ('int', ['10**300', '-0', '2**63', '-2**63 - 1']),
    'extdec': ('decimal.Decimal', ["decimal.Decimal('1E-20')", "decimal.Decimal('0E+3')", "decimal.Decimal('-0.00')",
                                   "decimal.Decimal('123456789012345678901234567890.12')"]),
    'decnum': ('pd.condecimal(max_digits=5, decimal_places=2)', ["decimal.Decimal('123.45')", "decimal.Decimal('-1.5')"]),
    'optlit': ("Literal['x', ' y ', '<&>']", ["'x'", "' y '", "'<&>'"]),
    'url_idn': ('pd.AnyUrl', ["pd.AnyUrl('http://\\xfcber.example/\\xe9?q=\\u20ac#f')"]),
}
EXTRA_KINDS.pop('base64str')
EXTRA_KINDS.pop('strenum')

STRINGS = ['\U0001f600 \U0010ffff', '\ufeffbom', '\u200b', ' lead', 'trail ', '\n', '\t', '  ', '\xa0', '\u2028', ']]>', '<![CDATA[x]]>', '&lt;',
           '&#65;', "\"'", '<a b="c">d</a>', '<!-- c -->', '<?pi?>', 'a\n\nb', '\x85', '\ud7ff\ue000\ufffd', 'e\u0301', '%s{0}{{}}', 'a' * 5000, ' long\n text' * 8000,
           'None', 'true', 'nil', '\\n', '\u0627\u0644', '\x7f\x80']

# type expression -> text of the value for one location
LOCATIONS = [
    ('at', '{n}: {T} = attr()'), ('elm', '{n}: {T} = element()'), ('list', '{n}: List[{T}] = element()'),
    ('vtuple', '{n}: Tuple[{T}, ...] = element()'), ('tuple', '{n}: Tuple[{T}, int, {T}] = element()'),
    ('dict', '{n}: Dict[str, {T}] = element()'), ('optdict', '{n}: Optional[Dict[str, {T}]] = element()'),
    ('td', '{n}: TD_ = element()'), ('nt', '{n}: NT_ = element()'),
    ('wrp', "{n}: {T} = wrapped('w{n}/v')"), ('wattr', "{n}: {T} = wrapped('w{n}', attr(name='x'))"),
    ('wlist', "{n}: List[{T}] = wrapped('w{n}', element(tag='i'))"), ('optional', '{n}: Optional[{T}] = element(default=None)'),
    ('optattr', '{n}: Optional[{T}] = attr(default=None)'), ('nillable', '{n}: Optional[{T}] = element(default=None, nillable=True)'),
    ('sub', '{n}: Sub_ = element()'), ('root', '{n}: Root_ = element()'), ('rootlist', '{n}: RootList_ = element()'),
    ('generic', '{n}: Gen_[{T}] = element()'), ('annotated', '{n}: Annotated[{T}, element(tag="an")]'),
    ('computed', None), ('cattr', None), ('txt', '{n}: {T}'),
]
SERIALIZERS = {
    # name -> (field annotation, method lines); None keeps the default
    'plain': ("Annotated[{t}, pd.PlainSerializer(lambda v: 'P|%s' % (v,))]", True),
    'plainjson': ("Annotated[{t}, pd.PlainSerializer(lambda v: 'J|%s' % (v,), when_used='json')]", True),
    'plaint': ("Annotated[{t}, pd.PlainSerializer(lambda v: True, return_type=bool)]", True),
    'unlessnone': ("Annotated[{t}, pd.PlainSerializer(lambda v: len(str(v)), return_type=int, when_used='unless-none')]", True),
    'wrap': ("Annotated[{t}, pd.WrapSerializer(lambda v, h: 'W|%s' % (h(v),))]", True),
    'inner': ("Annotated[{t}, pd.AfterValidator(lambda v: v)]", False),
    'method': None,
}
CONFIGS = ["ser_json_timedelta='float'", "ser_json_inf_nan='strings'", "ser_json_timedelta='iso8601'", "ser_json_inf_nan='null'"]
CONFIGS += ["ser_json_temporal='iso8601'", "ser_json_temporal='seconds'", "ser_json_temporal='milliseconds'"] if pd.VERSION >= '2.12' else []
_n = itertools.count()


def case(ctx, rng):
    if rng.random() < .3:
        opts = gen.ValueOpts(p_empty=rng.choice([0, 0, .3]))
        standard.run(ctx, rng, PROFILE, values=2, documents=2, eas=.4, opts=opts)
        return
    template(ctx, rng)


def source(kind, T, locs, ser, cfg, flavour):
    # T: annotation as used everywhere
    base, root = ('BaseXmlModel', 'RootXmlModel') if flavour == 'xml' else ('BaseModel', 'RootModel')
    out = ['T_ = %s' % T] if T else []
    out += ["GT = TypeVar('GT')"]
    conf = '    model_config = pd.ConfigDict(%s)' % cfg if cfg else '    pass'
    out += ['class TD_(TypedDict):', '    a: T_', '    b: NotRequired[T_]', 'class NT_(NamedTuple):', '    a: T_', '    b: T_']
    out += ['class Sub_(%s):' % base, conf, '    a: T_ = attr()', '    t: T_', 'class Root_(%s[T_]):' % root, conf,
            'class RootList_(%s):' % root, conf, "    root: List[T_] = element(tag='i')",
            'class Gen_(%s, Generic[GT]):' % base, conf, '    g: GT = element()']
    out += ['class Top(%s):' % base, conf]
    for n, tpl in locs:
        if tpl:
            out.append('    ' + tpl.format(n=n, T='T_'))
    for n, tpl in locs:
        if not tpl:
            deco = 'computed_element' if n == 'computed' else 'computed_attr'
            out += ['    @%s' % (deco if flavour == 'xml' else 'pd.computed_field'), '    @property', '    def %s(self) -> T_: return VALUE_[0]' % n]
    if ser == 'method':
        names = [n for n, tpl in locs if n in ('at', 'elm', 'wrp', 'wattr', 'txt', 'optional')]
        if names:
            out += ['    @pd.field_serializer(%s)' % ', '.join(map(repr, names)), "    def ser_(self, v): return 'M|%s' % (v,)"]
    return '\n'.join(out) + '\n'


SHADOW_EXTRA = '''
def attr(**k): return Field(**{a: b for a, b in k.items() if a in ('default', 'alias')})
element = attr
def wrapped(path, entity=None, **k): return Field(**k)
'''


def template(ctx, rng):
    from harness.prims import PRELUDE
    ns = {}
    exec(PRELUDE, ns)
    if rng.random() < .35:
        kind = rng.choice(list(EXTRA_KINDS))
        T, vals = EXTRA_KINDS[kind]
        vals = [eval(v, ns) for v in vals]
        value = lambda: rng.choice(vals)
    elif rng.random() < .2:
        kind, T = 'str', 'str'
        more = ['\r', 'a\r\nb'] if ctx.lxml else []
        value = lambda: rng.choice(STRINGS + more)
    else:
        kind = rng.choice(prims.ALL)
        T, value = PRIMS[kind].expr, lambda: PRIMS[kind].gen(rng)
    ser = rng.choice([None, None] + list(SERIALIZERS))
    cfg = rng.choice([None, None, None] + CONFIGS)
    locs = [l for l in LOCATIONS if rng.random() < .6]
    if kind in ('bytesize', 'ipany', 'plainv'):
        # types whose schema is a bare function are not supported everywhere
        ser = None
        locs = [l for l in locs if l[0] not in ('dict', 'optdict', 'td')]
    lossless = ser in (None, 'inner')
    full = SERIALIZERS[ser][0].format(t=T) if ser and ser != 'method' else T
    if ser and ser not in ('inner', 'method'):
        # a function based schema is not supported for the values of mappings and items of collections
        locs = [l for l in locs if l[0] not in ('dict', 'optdict', 'td')]
    src = {f: source(kind, full, locs, ser, cfg, f) for f in ('xml', 'shadow')}
    first = [value()]
    env = {}
    import sys, types
    for f, prelude in (('xml', XML_PRELUDE), ('shadow', SHADOW_PRELUDE + SHADOW_EXTRA)):
        mod = types.ModuleType('_p23_%s_%d' % (f, next(_n)))
        sys.modules[mod.__name__] = mod
        env[f] = mod.__dict__
        mod.VALUE_ = first
        exec(prelude, mod.__dict__)
        mod._V = lambda k, t: PRIMS[k].decode(t)
        try:
            exec(compile(src[f], mod.__name__, 'exec'), mod.__dict__)
        except Exception as e:
            if f == 'xml':
                raise Violation('a supported definition is rejected: %s: %s' % (type(e).__name__, str(e)[:500]), source=src[f])
            raise
    try:
        for _ in range(2):
            one(ctx, rng, kind, value, locs, ser, cfg, lossless, env, src['xml'], first)
    finally:
        for e in env.values():
            sys.modules.pop(e['__name__'], None)


def one(ctx, rng, kind, value, locs, ser, cfg, lossless, env, src, first):
    first[0] = value()
    data = {}
    for n, tpl in locs:
        v = value()
        if n in ('list', 'vtuple', 'wlist', 'rootlist'):
            data[n] = [value() for _ in range(rng.randint(1, 3))]
        elif n == 'tuple':
            data[n] = (v, rng.randint(0, 9), value())
        elif n in ('dict', 'optdict'):
            data[n] = {prims.word(rng) + str(i): value() for i in range(rng.randint(1, 3))}
        elif n == 'td':
            data[n] = {'a': v, 'b': value()} if rng.random() < .5 else {'a': v}
        elif n == 'nt':
            data[n] = tuple(2.5 if isinstance(x, float) and not math.isfinite(x) else x for x in (v, value()))
        elif n == 'sub':
            data[n] = {'a': v, 't': value()}
        elif n == 'generic':
            data[n] = {'g': v}
        elif tpl:
            data[n] = v
    x, s = env['xml']['Top'](**data), env['shadow']['Top'](**data)
    j = s.model_dump(mode='json')
    for e in (x, s):
        # numbers written by the JSON form of infinities and the like are covered by the configuration only
        pass
    how = rng.choice(['unicode', 'utf-8', None, 'utf-16', 'tree'])
    try:
        if how == 'tree':
            doc = nodes.from_native(x.to_xml_tree())
        else:
            out = x.to_xml(**({'encoding': how} if how else {}))
    except Exception as e:
        raise Violation('serialization failed: %s: %s' % (type(e).__name__, str(e)[:300]), source=src, instance=repr(x))
    if how != 'tree':
        doc = nodes.parse(out)
    exp = []
    E = encode_json
    for n, tpl in locs:
        v = j[n] if n in j else None
        el = lambda tag: [c for c in doc.children if c.tag == tag]
        if n in ('at', 'optattr', 'cattr'):
            exp.append((n, [E(v)], [doc.attrib.get(n)]))
        elif n in ('elm', 'optional', 'nillable', 'root', 'computed'):
            exp.append((n, [E(v)], [c.text for c in el(n)]))
        elif n == 'annotated':
            exp.append((n, [E(v)], [c.text for c in el('an')]))
        elif n in ('list', 'vtuple', 'tuple', 'nt'):
            exp.append((n, [E(i) for i in v], [c.text for c in el(n)]))
        elif n in ('dict', 'optdict', 'td'):
            exp.append((n, [{k: E(i) for k, i in v.items()}], [c.attrib for c in el(n)]))
        elif n == 'wrp':
            exp.append((n, [E(v)], [d.text for c in el('w' + n) for d in c.children]))
        elif n == 'wattr':
            exp.append((n, [E(v)], [c.attrib.get('x') for c in el('w' + n)]))
        elif n == 'wlist':
            exp.append((n, [E(i) for i in v], [d.text for c in el('w' + n) for d in c.children]))
        elif n == 'rootlist':
            exp.append((n, [E(i) for i in v], [d.text for c in el(n) for d in c.children]))
        elif n == 'sub':
            exp.append((n, [(E(v['a']), E(v['t']))], [(c.attrib.get('a'), c.text) for c in el(n)]))
        elif n == 'generic':
            exp.append((n, [E(v['g'])], [d.text for c in el(n) for d in c.children]))
        elif n == 'txt':
            exp.append((n, [E(v)], [doc.text]))
    for n, e, g in exp:
        ctx.count('evaluations')
        ctx.count('scalars written', len(e))
        ctx.cover(kind, n, ser, cfg, len(str(e)))
        ctx.check(e == g, '%s at %s%s%s is written as %s instead of %s' % (
            kind, n, ', serializer %s' % ser if ser else '', ', %s' % cfg if cfg else '', g, e), source=src, instance=repr(x), document=nodes.show(doc))
    ctx.sample('%s %r -> %s' % (kind, x, nodes.show(doc)[:300]))
    if not lossless or cfg and kind in ('timedelta', 'bigdelta', 'datetime', 'date', 'time', 'aware', 'naive', 'past', 'future', 'tz',
                                        'aware_time') and 'iso' not in cfg:
        return
    eas = rng.random() < .2
    try:
        back = env['xml']['Top'].from_xml_tree(x.to_xml_tree(), empty_as_string=eas) if how == 'tree' else \
            env['xml']['Top'].from_xml(out, empty_as_string=eas)
    except Exception as e:
        raise Violation('the document written is not accepted: %s: %s' % (type(e).__name__, str(e)[:500]), source=src, instance=repr(x), document=nodes.show(doc))
    for n, tpl in locs:
        if tpl is None:
            continue
        a, b = canon.canon(getattr(x, n), fields_set=False), canon.canon(getattr(back, n), fields_set=False)
        ctx.count('scalars read back')
        ctx.count('evaluations')
        if a != b and isinstance(getattr(x, n), str) and not getattr(x, n):
            continue
        ctx.check(a == b, '%s at %s reads back as %s instead of %s' % (kind, n, b, a), source=src, instance=repr(x), document=nodes.show(doc))


def fixed(ctx):
    yield 'json', json_field
    yield 'infinite floats in named tuples', nt_inf
    yield 'literals', literals
    yield 'empty and missing', empty


def json_field(ctx):
    from typing import Dict, List
    from pydantic_xml import BaseXmlModel, attr, element

    class J(BaseXmlModel, tag='j'):
        a: pd.Json = attr()
        b: pd.Json[List[int]] = element()

    j = J(a='{"x": "y"}', b='[1, 2]')
    n = nodes.from_native(j.to_xml_tree())
    got = (n.attrib.get('a'), n.children[0].text)
    try:
        right = J.from_xml(j.to_xml()) == j
    except pd.ValidationError:
        right = False
    judge(ctx, 'KF-json', 'ok' if right else got, 'ok', ("{'x': 'y'}", '[1, 2]'))


def nt_inf(ctx):
    from typing import NamedTuple
    from pydantic_xml import BaseXmlModel, element

    class NT(NamedTuple):
        a: float
        b: float
        c: float

    class M(BaseXmlModel, tag='m'):
        n: NT = element()

    m = M(n=NT(float('inf'), 1.5, float('nan')))
    got = [c.text for c in nodes.from_native(m.to_xml_tree()).children]
    judge(ctx, 'KF-namedtuple-inf', got, ['inf', '1.5', 'nan'], ['', '1.5', ''])


def literals(ctx):
    """Literals that are no strings: pydantic accepts no text for them."""
    import enum
    from typing import Literal
    from pydantic_xml import BaseXmlModel, attr

    class Level(enum.IntEnum):
        LOW = 1

    class Share(enum.Enum):
        HALF = .5

    class Flags(enum.IntFlag):
        A = 1
        B = 2

    got = []
    for t, v in ((Literal[1, 2], 1), (Literal[True], True), (Literal[None], None), (Literal[Level.LOW], Level.LOW), (Share, Share.HALF),
                 (Flags, Flags.A | Flags.B)):
        M = type(BaseXmlModel)('M', (BaseXmlModel,), {'__module__': __name__, '__annotations__': {'x': t}, 'x': attr()})
        m = M(x=v)
        try:
            ok = M.from_xml(m.to_xml()) == m
        except pd.ValidationError:
            ok = False
        got.append((nodes.from_native(m.to_xml_tree()).attrib['x'], ok))
    texts = ['1', 'true', '', '1', '0.5', '3']
    judge(ctx, 'KF-literal', got, [(x, True) for x in texts], [(x, False) for x in texts])


def empty(ctx):
    from typing import List, Optional
    from pydantic_xml import BaseXmlModel, attr, element, wrapped

    class S(BaseXmlModel, tag='s'):
        text: Optional[str] = None

    class M(BaseXmlModel, tag='m'):
        a: Optional[str] = attr(default='A')
        e: Optional[str] = element(default='E')
        f: Optional[str] = element(default='F')
        w: Optional[str] = wrapped('w/v', default='W')
        s: Optional[S] = element(tag='s', default=None)
        text: Optional[str] = 'T'

    for doc in ('<m a=""><e/><w><v/></w><s/></m>', '<m a=""><e></e><w><v></v></w><s></s></m>',
                '<m a=""><e><!-- c --></e><w><v><![CDATA[]]></v></w><s><?p i?></s></m>'):
        m = M.from_xml(doc)
        ctx.check((m.a, m.e, m.f, m.w, m.s.text, m.text) == ('', 'E', 'F', 'W', None, 'T'), 'empty texts are read as %r' % m)
        ctx.check(m.model_fields_set == {'a', 's'}, 'fields set: %s' % m.model_fields_set)
        m = M.from_xml(doc, empty_as_string=True)
        ctx.check((m.a, m.e, m.f, m.w, m.s.text, m.text) == ('', '', 'F', '', '', ''), 'empty texts are read as %r in empty as string mode' % m)
        ctx.check(m.model_fields_set == {'a', 'e', 'w', 's', 'text'}, 'fields set: %s' % m.model_fields_set)
        ctx.count('evaluations', 4)
