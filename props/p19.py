import copy

import pydantic as pd

from harness import canon, docs, flow, gen, nodes, refparse, refser, render, standard
from harness.core import Skip, Violation
from harness.nodes import Node
from harness.spec import FieldSpec, Opt, Prim, UPrim, strip_opt

TECHNIQUE = 'runtime monitoring: converters record every call; call logs, documents and outcomes compared with the reference semantics'
RULE = ('random universes with custom serializers and validators (decorated methods for one or several fields, annotations, both; on bases, '
        'overridden by method name, by another method and by redeclaring the field in subclasses) that write and read attributes, elements, '
        'text, nothing or fixed values, and fields not for XML; logs of calls (converter, class, field, value) in order, documents and outcomes '
        'compared; distinct = (shape with converters, edits, flags, outcome)')
CASES = {'quick': 3000, 'thorough': 40000}
MIN = {'serializer calls compared': 5000, 'validator calls compared': 5000, 'parsed: ok': 3000, 'parsed: err': 500,
       'by: decorator': 1000, 'by: annotation': 1000, 'overridden': 200, 'inherited': 500, 'documents compared': 3000}
PROFILE = gen.Profile(p_noxml=.15, p_inherit=.4, p_computed=.15, p_exclude=.08, p_ns=.2, p_root=.2, p_recursive=.1, models=(1, 5),
                      types=dict(prim=6, uprim=1, mod=4, coll=4, tup=1, nt=.5, dct=1, td=.6, raw=.8, umod=1, tag=.6))


class Conv:
    """A converter and the reference form of it."""

    def __init__(self, cid, kind, const=None):
        self.cid, self.kind, self.const = cid, kind, const

    def tag(self, name):
        return 'cv_' + name


class Table:
    def __init__(self, ctx):
        self.ctx = ctx
        self.convs = {}
        self.log = []
        self.frame = None

    # the functions under the decorators

    def ser(self, cid, inst, el, value, name):
        c = self.convs[cid]
        got = getattr(inst, name)
        self.log.append((cid, type(inst).__name__, name, canon.canon(value), got is value or canon.canon(got) == canon.canon(value)))
        if c.kind == 'attr':
            el.set_attribute(c.tag(name), self.text(value))
        elif c.kind == 'element':
            sub = el.make_element(c.tag(name), None)
            sub.set_text(self.text(value))
            el.append_element(sub)
        elif c.kind == 'create':
            from pydantic_xml.element import SearchMode
            sub = el.find_element_or_create('cv_shared', SearchMode.STRICT, None)
            sub.set_attribute(c.tag(name), self.text(value))

    def val(self, cid, cls, el, name):
        c = self.convs[cid]
        self.log.append((cid, cls.__name__, name))
        if c.kind == 'attr':
            return el.pop_attrib(c.tag(name))
        if c.kind == 'element':
            sub = el.pop_element(c.tag(name), cls.__xml_search_mode__)
            return sub.pop_text() if sub is not None else None
        if c.kind == 'peek':
            el.get_attrib('zz'), el.is_empty(), el.get_sourceline()
            return None
        if c.kind == 'const':
            return render.build(self.ex, c.const)
        return None

    @staticmethod
    def text(value):
        # any text made of the value alone
        if isinstance(value, (int, str)) and not isinstance(value, bool) and type(value) in (int, str):
            return str(value)
        return type(value).__name__

    # the same for the reference

    def ref_ser(self, cid, f):
        c = self.convs[cid]

        def over(n, inst, value):
            name = f.name
            self.log.append((cid, type(inst).__name__, name, canon.canon(value), True))
            if c.kind == 'attr':
                n.attrib[c.tag(name)] = self.text(value)
            elif c.kind == 'element':
                n.children.append(Node(c.tag(name), {}, self.text(value), []))
            elif c.kind == 'create':
                last = n.children[-1] if n.children else None
                if last is None or last.tag != 'cv_shared':
                    last = Node('cv_shared')
                    n.children.append(last)
                last.attrib[c.tag(name)] = self.text(value)
        return over

    def ref_val(self, cid, m, f, mode):
        c = self.convs[cid]

        def conv(parser, cur):
            self.log.append((cid, m.name, f.name))
            if c.kind == 'attr':
                return cur.attrib.pop(c.tag(f.name), None) if cur.attrib else None
            if c.kind == 'element':
                sub = parser.find(cur, c.tag(f.name), mode)
                if sub is None:
                    return None
                t, sub.text = sub.text, None
                return t or None
            if c.kind == 'const':
                return render.build(self.es, c.const)
            return None
        return conv


def instrument(ctx, rng, U, table):
    """A copy with converters; what is effective for each class; the fields redeclared by subclasses are added to both."""
    for m in list(U.models.values()):
        if m.bases and not m.root:
            inherited = [f for f in U.eff_fields(U[m.bases[0]]) if not f.computed and not f.discriminator and not f.name.startswith('kind')]
            for f in inherited:
                if rng.random() < .15 and f.name not in [x.name for x in m.fields]:
                    m.fields.append(copy.deepcopy(f))
    U2 = copy.deepcopy(U)
    n = [0]
    eff = {}          # (role, model, field) -> converter
    shape = []

    def make(role, f):
        n[0] += 1
        t = strip_opt(f.type)
        if role == 'ser':
            kind = rng.choice(['attr', 'element', 'element', 'create', 'none'])
            c = Conv('%s%d' % (role, n[0]), kind)
        else:
            scalar = isinstance(t, (Prim, UPrim))
            kind = rng.choice(['attr', 'element', 'element', 'const', 'none', 'peek'] if scalar else ['const', 'const', 'none', 'peek'])
            if kind in ('none', 'peek') and f.default[0] == 'req' and rng.random() < .7:
                kind = 'const'
            const = gen.value(rng, U, f.type, gen.ValueOpts(raw_tag='r')) if kind == 'const' else None
            c = Conv('%s%d' % (role, n[0]), kind, const)
        table.convs[c.cid] = c
        shape.append((role, c.kind))
        return c

    for m, m2 in zip(U.models.values(), U2.models.values()):
        base = m.bases[0] if m.bases else None
        names = [f.name for f in m.fields]
        for role in ('ser', 'val'):
            for f in U.eff_fields(m):
                if base and (role, base, f.name) in eff:
                    how, c = eff[role, base, f.name]
                    if how == 'annotation' and f.name in names:
                        continue          # the new declaration carries no converter
                    eff[role, m.name, f.name] = how, c
                    ctx.count('inherited')
        for f, f2 in zip(m.fields, m2.fields):
            if f.computed or f.noxml or f.discriminator or f.name.startswith('kind'):
                continue
            for role, cls in (('ser', 'XmlFieldSerializer'), ('val', 'XmlFieldValidator')):
                if rng.random() < .2 and eff.get((role, m.name, f.name), ('annotation',))[0] == 'annotation':
                    c = make(role, f)
                    f2.meta += ('%s(%s(%r))' % (cls, role.upper(), c.cid),)
                    if (role, m.name, f.name) in eff or base and (role, base, f.name) in eff:
                        ctx.count('overridden')
                    eff[role, m.name, f.name] = 'annotation', c
                    ctx.count('by: annotation')
        # methods
        for role in ('ser', 'val'):
            cand = [f for f in U.eff_fields(m) if not (f.noxml or f.discriminator or f.name.startswith('kind')) and (role == 'ser' or not f.computed)
                    and not ((role, m.name, f.name) in eff and eff[role, m.name, f.name][0] == 'annotation' and f.name in names)]
            rng.shuffle(cand)
            used = set()
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                fs = [f for f in cand if f.name not in used][:rng.choice([1, 1, 2, 3, 4])]
                if not fs:
                    break
                if role == 'val':
                    # one function, one kind of value
                    fs = fs[:1] if not all(isinstance(strip_opt(f.type), (Prim, UPrim)) for f in fs) else fs
                c = make(role, fs[0])
                if c.kind == 'const':
                    fs = fs[:1]
                meth = '%s_m' % c.cid
                old = [eff[role, m.name, f.name] for f in fs if (role, m.name, f.name) in eff]
                if old:
                    ctx.count('overridden')
                    inherited = [o for o in old if o[0] == 'decorator']
                    if len(fs) == 1 and inherited and rng.random() < .5 and only(eff, role, base, inherited[0][1]) == {fs[0].name}:
                        meth = '%s_m' % inherited[0][1].name
                c.name = meth[:-2]
                args = ', '.join(repr(f.name) for f in fs)
                if role == 'ser':
                    m2.body += ['@xml_field_serializer(%s)' % args, 'def %s(self, element, value, field_name): SER(%r)(self, element, value, field_name)' % (meth, c.cid)]
                else:
                    m2.body += ['@xml_field_validator(%s)' % args] + ['@classmethod'] * rng.choice([0, 1, 1]) + [
                        'def %s(cls, element, field_name): return VAL(%r)(cls, element, field_name)' % (meth, c.cid)]
                for f in fs:
                    used.add(f.name)
                    eff[role, m.name, f.name] = 'decorator', c
                ctx.count('by: decorator')
    return U2, eff, tuple(shape)


def only(eff, role, model, conv):
    return {k[2] for k, v in eff.items() if k[0] == role and k[1] == model and v[1] is conv}


def case(ctx, rng):
    U = gen.universe(rng, PROFILE)
    if rng.random() < .35:
        gen.close_cycle(rng, U)
    table = Table(ctx)
    U2, eff, shape = instrument(ctx, rng, U, table)
    env = {'SER': lambda cid: lambda *a: table.ser(cid, *a), 'VAL': lambda cid: lambda *a: table.val(cid, *a)}
    source = render.render(U2, 'xml') + ''.join('%s.model_rebuild()\n' % n for n in U.models)
    if rng.random() < .4:
        source = 'from __future__ import annotations\n' + source
    w = flow.World(ctx, rng, None, U=U, source=source, extra=env)
    table.ex, table.es = w.ex, w.es
    for c in table.convs.values():
        if c.kind == 'const':
            try:
                render.build(w.es, c.const)
            except pd.ValidationError:
                c.kind = 'none'          # no such value: revalidated instances of classes with aliases
    w.sig = (w.sig, shape)
    over = {(k[1], k[2]): table.ref_ser(v[1].cid, U_field(U, k)) for k, v in eff.items() if k[0] == 'ser'}
    conv = {(k[1], k[2]): table.ref_val(v[1].cid, U[k[1]], U_field(U, k), U.mode(U[k[1]])) for k, v in eff.items() if k[0] == 'val'}
    try:
        ctx.sample(w.src)
        for _ in range(2):
            try:
                inst = w.instance()
            except Skip as e:
                ctx.count('skipped: %s' % e)
                continue
            fl = flow.flags(rng, .2)
            doc = write(ctx, rng, w, table, over, inst, fl)
            if fl:
                doc = refser.serialize(U, inst, overrides=over)
            for _ in range(3):
                try:
                    read(ctx, rng, w, table, conv, inst, doc)
                except Skip as e:
                    ctx.count('skipped: %s' % e)
    finally:
        w.close()


def U_field(U, k):
    return next(f for f in U.eff_fields(U[k[1]]) if f.name == k[2])


def write(ctx, rng, w, table, over, inst, fl):
    table.log = []
    exp = refser.serialize(w.U, inst, overrides=over, **fl)
    exp.tail = ''
    want, table.log = table.log, []
    got = w.serialize(inst, rng.choice(['unicode', 'tree']), **fl)
    calls = table.log
    ctx.count('evaluations')
    ctx.count('documents compared')
    ctx.count('serializer calls compared', len(want))
    ctx.cover('w', w.sig, sorted(fl))
    if calls != want:
        raise Violation('serializers called differently: %s instead of %s' % (calls[:20], want[:20]), source=w.src, instance=repr(inst), flags=fl)
    if got != exp:
        raise Violation('wrong document %s: %s' % (fl, nodes.diff(exp, got)), source=w.src, instance=repr(inst), expected=nodes.show(exp), got=nodes.show(got))
    return exp


def read(ctx, rng, w, table, conv, inst, base):
    doc, done = standard.document(ctx, rng, w, inst, standard.OPS, rng.choice([0, 0, 1, 2]), base=base)
    text = nodes.write(doc, docs.style(rng))
    kw = {'empty_as_string': True} if rng.random() < .15 else {}
    exp = []
    for stable in (False, True):
        table.log = []
        o, p = refparse.parse(w.U, w.es, doc, lines=ctx.lxml, stable=stable, converters=conv, **kw)
        if o[0] == 'known':
            raise Skip('known finding %s' % o[1])
        exp.append((flow.outcome(o), table.log))
        if not p.moved:
            break
    table.log = []
    entry = rng.choice(['bytes', 'tree'])
    data = text.encode() if entry == 'bytes' else flow.tree_of(w.etree, rng, text.encode())
    try:
        act = w.parse(data, entry, **kw)
    except Exception as e:
        raise Violation('parsing failed: %s: %s' % (type(e).__name__, str(e)[:500]), source=w.src, document=text)
    calls, got = table.log, flow.outcome(act)
    ctx.count('evaluations')
    ctx.count('parsed: %s' % got[0])
    ctx.count('validator calls compared', len(calls))
    ctx.cover('r', w.sig, done, got[0])
    if (got, calls) in exp:
        return
    o, want = exp[0]
    if o != got:
        raise Violation('wrong outcome: %s' % flow.explain(o, got), source=w.src, document=text, expected=o, got=got)
    raise Violation('validators called differently: %s instead of %s' % (calls[:20], want[:20]), source=w.src, document=text)
