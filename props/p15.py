import collections
import copy

import pydantic as pd

from harness import canon, docs, flow, gen, nodes, standard
from harness.core import Skip, Violation

TECHNIQUE = 'runtime monitoring: state snapshots before/after each call, aliasing monitor over object graphs, perturbation of results'
RULE = ('random universes, instances and documents; snapshots of the source tree, context and instance around each call, results '
        'perturbed afterwards and calls repeated; object graphs of results searched for shared mutable parts; '
        'distinct = (shape, operation, outcome)')
CASES = {'quick': 1800, 'thorough': 30000}
MIN = {'trees kept': 1500, 'instances kept': 1000, 'object graphs compared': 500, 'native parts compared': 300, 'custom converters': 80}
PROFILE = gen.Profile(types=dict(prim=5, uprim=.6, mod=3, coll=3, tup=1, nt=.5, dct=1.5, td=.6, raw=2.5, umod=1, tag=.8),
                      items=dict(prim=4, mod=3, tup=.8, dct=1, raw=1.5, umod=.7, tag=.6), p_default=.3)


def dump(w, el):
    """Everything observable about a native tree."""
    out = []
    for e in el.iter():
        out.append((repr(e.tag), e.text, e.tail, tuple(e.attrib.items()), len(e), e.prefix if w.ctx.lxml else None,
                    tuple(sorted((e.nsmap or {}).items(), key=repr)) if w.ctx.lxml else None))
    return out


def mutable_parts(v, out, depth=0):
    """Mutable objects reachable from a value."""
    if isinstance(v, pd.BaseModel):
        out[id(v)] = v
        for n in type(v).model_fields:
            mutable_parts(getattr(v, n), out, depth + 1)
        out[id(v.__dict__)] = v.__dict__
    elif canon.is_native(v):
        for e in list(v.iter()):
            out[id(e)] = e      # held by the dictionary: the identity of lxml proxies is stable
    elif isinstance(v, dict):
        out[id(v)] = v
        for x in v.values():
            mutable_parts(x, out, depth + 1)
    elif isinstance(v, (list, set, collections.deque)):
        out[id(v)] = v
        for x in v:
            mutable_parts(x, out, depth + 1)
    elif isinstance(v, (tuple, frozenset)):
        for x in v:
            mutable_parts(x, out, depth + 1)


def perturb_tree(rng, el):
    for e in list(el.iter()):
        if isinstance(e.tag, str):
            e.text = 'P%s' % rng.random()
            e.set('perturbed', 'yes')
            if e is not el:
                e.tail = 'T'
    for e in list(el):
        if rng.random() < .5:
            el.remove(e)


def perturb_value(rng, v):
    if isinstance(v, pd.BaseModel):
        for n in type(v).model_fields:
            x = getattr(v, n)
            perturb_value(rng, x)
            v.__dict__[n] = None
        v.__pydantic_fields_set__.clear()
    elif canon.is_native(v):
        perturb_tree(rng, v)
    elif isinstance(v, dict):
        for x in v.values():
            perturb_value(rng, x)
        v.clear()
        v['perturbed'] = 1
    elif isinstance(v, list):
        for x in v:
            perturb_value(rng, x)
        v.append('perturbed')
    elif isinstance(v, (set, collections.deque)):
        v.clear()
    elif isinstance(v, (tuple, frozenset)):
        for x in v:
            perturb_value(rng, x)


CONVERTERS = '''
from typing import *
from pydantic_xml import *
def make(given, lists, order):
    class S(BaseXmlModel, tag='s'):
        z: int = attr(default=1)
        m: Dict[str, str] = element(default_factory=dict)
    ns = {'__annotations__': {}, '__module__': __name__}
    for n in order:
        ns['__annotations__'][n] = {'a': int, 'b': int, 'e': int, 'd': Dict[str, str], 'v': List[str]}[n]
        ns[n] = attr() if n in 'ab' else element()
    @xml_field_serializer('e', 'd', 'v')
    def ser(self, element, value, name):
        element.set_attributes(given[name])
        for x in lists[name]:
            sub = element.make_element('sub', None)
            sub.set_attributes(given[name])
            sub.set_attribute('x', x)
            element.append_element(sub)
    @xml_field_validator('e', 'd', 'v')
    @classmethod
    def val(cls, element, name):
        attributes = element.pop_attributes()
        seen.append((element, attributes))
        if attributes is not None:
            attributes['perturbed'] = '1'
        out = {'e': 5, 'd': {'k': 'v'}, 'v': ['i']}[name]
        return out
    seen = []
    ns['ser'], ns['val'] = ser, val
    return type(BaseXmlModel)('M', (BaseXmlModel,), ns, tag='m'), seen
'''


def converters(ctx, rng):
    """What custom converters hand to an element stays theirs."""
    env = {'__name__': '_p15_converters'}
    exec(CONVERTERS, env)
    names = ['e', 'd', 'v']
    shared = {k: 'g' for k in rng.sample('pqr', 2)}
    given = {n: shared if rng.random() < .5 else {k: n for k in rng.sample('pqr', 2)} for n in names}
    lists = {n: [str(i) for i in range(rng.randint(0, 3))] for n in names}
    kept = copy.deepcopy(given), copy.deepcopy(lists)
    order = rng.sample(['a', 'b', *names], 5)
    M, seen = env['make'](given, lists, order)
    inst = M(a=1, b=2, e=3, d={'k': 'w'}, v=['x', 'y'])
    docs_ = []
    for _ in range(3):
        docs_.append(nodes.parse(inst.to_xml(encoding='utf-8')))
        ctx.check((given, lists) == kept, 'what a custom serializer hands to its element has been changed: %s instead of %s' % (given, kept[0]))
    ctx.check(all(d == docs_[0] for d in docs_), 'the document changes when written again')
    # the fields write in their order; attributes set as a whole replace the ones before
    last = max((order.index(n) for n in names))
    want = dict(given[order[last]])
    for n in order[last:]:
        if n in 'ab':
            want[n] = str(dict(a=1, b=2)[n])
    ctx.check(docs_[0].attrib == want, 'attributes %s instead of %s' % (docs_[0].attrib, want), order=order)
    tree = inst.to_xml_tree()
    before = nodes.from_native(tree)
    try:
        M.from_xml_tree(tree)
    except pd.ValidationError:
        pass
    ctx.check(nodes.from_native(tree) == before, 'the tree read has been changed through what a custom validator was handed')
    ctx.count('custom converters')
    ctx.count('evaluations')
    ctx.cover('converters', tuple(order))


def case(ctx, rng):
    if rng.random() < .08:
        return converters(ctx, rng)
    w = flow.World(ctx, rng, PROFILE)
    try:
        for _ in range(2):
            try:
                inst = w.instance()
            except Skip:
                continue
            serialize(ctx, rng, w, inst)
            for _ in range(2):
                doc, done = standard.document(ctx, rng, w, inst, ['drop', 'dup', 'swap', 'invalid', 'text', 'insert', 'attr_add', 'tail'],
                                              rng.choice([0, 0, 1, 2]))
                parse(ctx, rng, w, doc, done)
    finally:
        w.close()


def serialize(ctx, rng, w, inst):
    fl = flow.flags(rng)
    parts = {}
    mutable_parts(inst, parts)
    for e in parts.values():
        if canon.is_native(e) and not e.tail and rng.random() < .3:
            e.tail = rng.choice(['after', ' '])
    before, state = canon.canon(inst), pd.BaseModel.__repr__(inst)
    parts = {}
    mutable_parts(inst, parts)
    raws = [(e, dump(w, e)) for e in parts.values() if canon.is_native(e)]
    first = inst.to_xml_tree(**fl)
    n1 = nodes.from_native(first)
    ctx.count('evaluations')

    def kept(what):
        ctx.check(canon.canon(inst) == before, '%s changed the instance: %s' % (what, canon.cdiff(before, canon.canon(inst))), source=w.src,
                  instance=state, flags=fl)
        again = {}
        mutable_parts(inst, again)
        ctx.check(set(again) == set(parts), '%s replaced parts of the instance' % what, source=w.src, instance=state)
        for e, d in raws:
            ctx.check(dump(w, e) == d, '%s changed a raw element of the instance' % what, source=w.src, instance=state, before=d, after=dump(w, e))
        ctx.count('instances kept')

    kept('to_xml_tree')
    text = inst.to_xml(encoding='unicode', **fl)
    kept('to_xml')
    for e in first.iter():
        if id(e) in parts:
            raise Violation('the written tree contains an element of the instance', source=w.src, instance=state)
    ctx.count('native parts compared', len(raws))
    second = inst.to_xml_tree(**fl)
    ctx.check(nodes.from_native(second) == n1, 'serializing again gives another document', source=w.src, instance=state)
    perturb_tree(rng, first)
    kept('changing the written tree')
    ctx.check(nodes.from_native(second) == n1, 'two written trees share parts', source=w.src, instance=state)
    ctx.check(inst.to_xml(encoding='unicode', **fl) == text, 'serializing again gives another text', source=w.src, instance=state)
    perturb_tree(rng, second)
    ctx.check(nodes.from_native(inst.to_xml_tree(**fl)) == n1, 'changing a written tree changes later ones', source=w.src, instance=state)
    ctx.cover('w', w.sig, sorted(fl))


def parse(ctx, rng, w, doc, done):
    text = nodes.write(doc, docs.style(rng))
    tree = flow.tree_of(w.etree, rng, text.encode())
    holder = None
    if rng.random() < .3:
        # an element within a larger document
        holder = w.etree.Element('holder')
        holder.append(tree)
        tree.tail = 'after'
        sibling = w.etree.SubElement(holder, 'sibling')
        sibling.text = 'x'
    root = holder if holder is not None else tree
    context = {'a': [1, {'b': 2}], 'c': 'x'}
    context_before = copy.deepcopy(context)
    before = dump(w, root)
    held = list(root.iter())        # keeps the identity of lxml proxies
    kw = {'empty_as_string': True} if rng.random() < .2 else {}
    ctx.count('evaluations')

    def run():
        r = w.parse(tree, 'tree', context=context, **kw)
        return r, flow.outcome(r)

    def kept(what):
        ctx.check(len(held) == len(before) and all(a is b for a, b in zip(root.iter(), held)), '%s replaced elements of the source tree' % what,
                  source=w.src, document=text)
        ctx.check(dump(w, root) == before, '%s changed the source tree' % what, source=w.src, document=text, before=before, after=dump(w, root))
        ctx.check(context == context_before, '%s changed the context: %r' % (what, context), source=w.src, document=text)
        ctx.count('trees kept')

    r1, o1 = run()
    kept('parsing')
    r2, o2 = run()
    kept('parsing again')
    ctx.check(o1 == o2, 'parsing again gives another result: %s' % flow.explain(o1, o2), source=w.src, document=text)
    ctx.cover('r', w.sig, done, r1[0])
    if r1[0] != 'ok':
        return
    p1, p2 = {}, {}
    mutable_parts(r1[1], p1)
    mutable_parts(r2[1], p2)
    shared = set(p1) & set(p2)
    ctx.check(not shared, 'two parsed instances share %r' % [p1[i] for i in list(shared)[:2]], source=w.src, document=text)
    own = {id(e) for e in held}
    ctx.check(not own & set(p1), 'the parsed instance contains elements of the source', source=w.src, document=text)
    ctx.count('object graphs compared')
    ctx.count('mutable parts seen', len(p1))
    # elements handed to raw fields stand alone
    for e in p1.values():
        if canon.is_native(e) and ctx.lxml:
            t = e.getroottree().getroot()
            ctx.check(id(t) in p1, 'a raw element is attached to a tree of others', source=w.src, document=text)
    perturb_value(rng, r1[1])
    kept('changing the parsed instance')
    ctx.check(flow.outcome(r2) == o2, 'changing an instance changes another one', source=w.src, document=text)
    r3, o3 = run()
    ctx.check(o3 == o2, 'changing an instance changes later results: %s' % flow.explain(o2, o3), source=w.src, document=text)
    perturb_tree(rng, root)
    ctx.check(flow.outcome(r3) == o2, 'changing the source tree changes the instance: %s' % flow.explain(o2, flow.outcome(r3)),
              source=w.src, document=text)
    ctx.sample('%s\n%s' % (w.src, text))
