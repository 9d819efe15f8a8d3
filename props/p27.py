import datetime
import json
from typing import Annotated, List, Literal, Union

import pydantic as pd
import pydantic_core

from harness import docs, flow, gen, nodes, prims, standard
from harness.core import Skip, Violation
from harness.findings import judge
from harness.nodes import NIL, Node
from harness.spec import Mod, Tag, UMod, inner_types

TECHNIQUE = 'runtime monitoring: hostile documents against random models; any escaping exception, endless run or unserializable result is a violation'
RULE = ('random universes over all kinds of fields and hostile documents: random trees over the vocabulary of the models, valid documents '
        'with up to 40 edits, documents of other models, with entities, document type declarations, default and special attributes, '
        'foreign namespaces, wide and moderately deep; every error report is rendered in all forms and every instance serialized under '
        'all eight option combinations and parsed independently; distinct = (shape, generator, outcome)')
CASES = {'quick': 2200, 'thorough': 40000}
MIN = {'custom readers validating': 300, 'parsed: ok': 1000, 'parsed: err': 3000, 'parsed: root': 100, 'serialized': 5000, 'reports rendered': 3000}
PROFILE = gen.Profile(kinds=tuple(prims.ALL), p_computed=.1, p_opt=.5, p_default=.4, p_optitem=.1, p_nillable=.3, p_recursive=.2,
                      extras=dict(none=5, forbid=1, ignore=.3), p_dup=.1, p_nonadjacent=.2, p_constraint=.2,
                      modes=dict(strict=2, ordered=1, unordered=1))
COMBOS = [dict(zip(('skip_empty', 'exclude_none', 'exclude_unset'), (a, b, c))) for a in (0, 1) for b in (0, 1) for c in (0, 1)]
COMBOS = [{k: True for k, v in c.items() if v} for c in COMBOS]


def case(ctx, rng):
    prof = PROFILE
    r = rng.random()
    if r < .3:
        # everything may be absent: many documents are accepted
        prof = PROFILE.but(p_opt=.9, p_none_default=1, p_default=.9)
    elif r < .4:
        prof = PROFILE.but(p_ns=1, p_ns_attrs=.6)
    elif r < .5:
        prof = PROFILE.but(types=dict(raw=3, coll=3, dct=3, td=2, tup=2, nt=2, mod=2, umod=1, tag=1))
    U = gen.universe(rng, prof)
    env = {}
    if rng.random() < .15:
        env['CV'] = lambda k: converter(ctx, rng, k)
        for m in U.models.values():
            for f in m.fields:
                if not f.computed and f.ent and rng.random() < .25:
                    f.meta += ('XmlFieldValidator(CV(%d))' % rng.randrange(len(ADAPTERS)),)
    w = flow.World(ctx, rng, None, U=U, extra=env)
    try:
        voc = vocabulary(w)
        bases = []
        for _ in range(2):
            try:
                bases.append(w.ref_ser(w.instance(gen.ValueOpts(p_empty=.2, p_bulk=0))))
            except Skip:
                pass
        for _ in range(8):
            how, doc = hostile(rng, w, voc, bases)
            attempt(ctx, rng, w, how, doc)
    finally:
        w.close()


class Inner(pd.BaseModel):
    a: int
    b: 'list[int]' = []


def custom(v):
    raise pydantic_core.PydanticCustomError('own_type', 'own {word} message', {'word': v})


def plain(v):
    raise ValueError('own message {x} %s {}' % v)


ADAPTERS = [pd.TypeAdapter(t) for t in (
    int, Annotated[int, pd.Field(gt=5)], Literal['a', 'b'], Inner, List[int], Annotated[str, pd.AfterValidator(custom)],
    Annotated[str, pd.AfterValidator(plain)], Union[int, datetime.date], Annotated[str, pd.Field(max_length=2)])]


def converter(ctx, rng, k):
    """A custom reader that validates on its own."""
    def read(cls, element, name):
        r = rng.random()
        value = element.pop_text() if r < .3 else element.pop_attrib(name) if r < .5 else {'a': 'q', 'b': ['x', 1]} if r < .7 else None
        if r > .85:
            return value
        ctx.count('custom readers validating')
        return ADAPTERS[k].validate_python(value)
    return read


def vocabulary(w):
    """All names a model of the universe may look for, and some others."""
    tags, attrs = set(), set()
    for _ in range(4):
        for m in w.U.models.values():
            try:
                d = gen.model_value(w.rng, w.U, m, gen.ValueOpts(p_none=0, p_unset=0, p_bulk=0))
                from harness.render import build
                n = w_ser(w, m, build(w.ex, d))
            except (pd.ValidationError, Skip):
                continue
            for x in n.walk():
                tags.add(x.tag)
                attrs.update(x.attrib)
    tags |= {'other', '{urn:other}x'}
    attrs |= {'zz', NIL, '{http://www.w3.org/XML/1998/namespace}lang', '{http://www.w3.org/XML/1998/namespace}space',
              '{http://www.w3.org/2001/XMLSchema-instance}type', '{urn:other}' + sorted(attrs)[0].rsplit('}', 1)[-1] if attrs else 'q'}
    return sorted(tags), sorted(attrs)


def w_ser(w, m, inst):
    from harness import refser
    return refser.Ser(w.U).root(inst, m)


def hostile(rng, w, voc, bases):
    tags, attrs = voc
    r = rng.random()
    from harness.spec import root_elem
    root = root_elem(w.U, w.U.top)

    def tree(tag, depth, budget):
        n = Node(tag)
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            n.attrib[rng.choice(attrs)] = docs.texts(rng, w.U)
        if rng.random() < .5:
            n.text = docs.texts(rng, w.U)
        if depth:
            for _ in range(rng.choice([0, 1, 2, 3, 6])):
                budget[0] -= 1
                if budget[0] < 0:
                    break
                c = tree(rng.choice(tags), depth - 1, budget)
                if rng.random() < .2:
                    c.tail = docs.texts(rng, w.U)
                n.children.append(c)
        return n

    if r < .35 or not bases:
        return 'vocabulary', tree(root, rng.randint(1, 5), [120])
    doc = rng.choice(bases).copy()
    doc.tail = ''
    if r < .75:
        for _ in range(rng.randint(1, 40)):
            docs.mutate(rng, doc, w.U, standard.OPS + ['nil', 'nil', 'root'] if rng.random() < .05 else standard.OPS + ['nil'])
        if doc.size() > 400:
            doc.children = doc.children[:20]
        doc.tail = ''
        return 'edits', doc
    if r < .85:
        # parts of the document elsewhere
        all_ = [n for n in doc.walk()]
        for _ in range(rng.randint(1, 5)):
            a, b = rng.choice(all_), rng.choice(all_).copy()
            a.children.insert(rng.randint(0, len(a.children)), b)
            if doc.size() > 300:
                break
        doc.tail = ''
        return 'grafts', doc
    if r < .92:
        n = rng.choice([n for n in doc.walk()])
        for _ in range(rng.randint(30, 120)):
            n.children.append(Node(rng.choice(tags), text=docs.texts(rng, w.U)))
        doc.tail = ''
        return 'wide', doc
    n = rng.choice([n for n in doc.walk()])
    for _ in range(rng.randint(20, 100)):
        c = Node(rng.choice(tags) if rng.random() < .5 else n.tag)
        n.children.insert(0, c)
        n = c
    doc.tail = ''
    return 'deep', doc


ENTITIES = '<!DOCTYPE any [<!ENTITY e "text"><!ENTITY f "a&e;b"><!ATTLIST %s dflt CDATA "d">]>'


def attempt(ctx, rng, w, how, doc):
    st = docs.style(rng, noise=2)
    st.decl = False
    text = nodes.write(doc, st)
    more, odd = {}, ''
    if rng.random() < .2:
        local = text[1:].split('>')[0].split(' ')[0].split('/')[0]
        text = ENTITIES % local + text
        for _ in range(rng.randint(0, 4)):
            i = text.find('>', rng.randrange(len(text) // 2, len(text)))
            if 0 < i < len(text) - 1 and text[i - 1] not in '?-]':
                text = text[:i + 1] + rng.choice(['&e;', '&f;']) + text[i + 1:]
        odd = 'entities'
        try:
            w.etree.fromstring(text.encode())
        except Exception:
            return
        if ctx.lxml and rng.random() < .4:
            more['parser'] = w.etree.XMLParser(resolve_entities=False)
            odd = 'unresolved entities'
    elif ctx.lxml and rng.random() < .1:
        more['parser'] = w.etree.XMLParser(remove_blank_text=True, strip_cdata=False, recover=True)
        odd = 'parser'
    elif not ctx.lxml and rng.random() < .15:
        more['parser'] = w.etree.XMLParser(target=w.etree.TreeBuilder(insert_comments=True, insert_pis=True))
        odd = 'parser'
    kw = {'empty_as_string': True} if rng.random() < .25 else {}
    entry = 'tree' if rng.random() < .3 else 'bytes'
    ctx.count('evaluations')
    ctx.count('documents: %s %s' % (how, odd))
    try:
        if entry == 'tree':
            act = w.parse(w.etree.fromstring(text.encode(), **more), 'tree', **kw)
        else:
            act = w.parse(text.encode(), **kw, **more)
    except Exception as e:
        raise Violation('%s escapes from parsing: %s' % (type(e).__name__, str(e)[:500]), source=w.src, document=text, options=(kw, odd))
    ctx.count('parsed: %s' % act[0])
    ctx.cover(w.sig, how, odd, act[0])
    if act[0] == 'err':
        e = act[1]
        try:
            s = [str(e), repr(e), e.errors(), e.errors(include_url=False, include_context=False, include_input=False), e.json(), e.title]
            ctx.check(e.error_count() == len(s[2]) > 0 and len(json.loads(s[4])) == len(s[2]), 'a validation error without errors: %r' % e,
                      source=w.src, document=text)
        except Violation:
            raise
        except Exception as x:
            if 'Error serializing' in str(x) or isinstance(x, ValueError) and 'serialize' in str(x).lower():
                # raw elements have no JSON form: not for the library to solve
                ctx.count('reports with inputs that have no JSON form')
            else:
                raise Violation('a report can not be rendered: %s: %s' % (type(x).__name__, str(x)[:500]), source=w.src, document=text)
        ctx.count('reports rendered')
    elif act[0] == 'root':
        str(act[1]), repr(act[1])
    else:
        inst = act[1]
        ctx.sample('%s\n%s -> %r' % (w.src, text[:500], inst))
        for c in COMBOS:
            try:
                out = inst.to_xml(encoding='unicode', **c)
            except Exception as e:
                raise Violation('an instance read can not be written with %s: %s: %s' % (c, type(e).__name__, str(e)[:500]), source=w.src,
                                document=text, instance=repr(inst))
            try:
                n = nodes.parse(out)
            except Exception as e:
                raise Violation('an instance read is written malformed with %s: %s' % (c, e), source=w.src, document=text, output=out)
            ctx.count('serialized')
            ctx.check(n.tag == doc.tag, 'another root element is written: %s' % n.tag, source=w.src, document=text, output=out)


def fixed(ctx):
    yield 'deep nesting', deep
    yield 'odd nodes', odd


def deep(ctx):
    import sys
    from typing import Optional
    from pydantic_xml import BaseXmlModel, element
    from pydantic_xml.element.native import etree

    class M(BaseXmlModel, tag='m'):
        x: Optional[int] = element(default=None)

    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(1000)
    try:
        depth = 200
        doc = '<m><x>1</x>%s%s</m>' % ('<a>' * depth, '</a>' * depth)
        ctx.check(M.from_xml(doc).x == 1, 'a nested document is read wrong')
        depth = 2000
        doc = '<m><x>1</x>%s%s</m>' % ('<a>' * depth, '</a>' * depth)
        kw = {'parser': etree.XMLParser(huge_tree=True)} if ctx.lxml else {}
        try:
            got = M.from_xml(doc, **kw).x
        except RecursionError:
            got = 'RecursionError'
        judge(ctx, 'KF-deep', got, 1, 'RecursionError')
    finally:
        sys.setrecursionlimit(limit)


def odd(ctx):
    from typing import Dict, List, Optional
    from pydantic_xml import BaseXmlModel, attr, element

    class M(BaseXmlModel, tag='m'):
        a: Optional[str] = attr(default=None)
        x: List[int] = element(default=[])
        d: Optional[Dict[str, str]] = element(default=None)
        text: Optional[str] = None

    for doc in ('<?xml version="1.0"?><!DOCTYPE m><!--c--><?p?><m/><!--c--><?p?>', '<m xml:space="preserve" xml:lang="x" xml:id="i"> </m>',
                '<m xmlns:p="urn:p" p:a="1" a="2"/>', '<m><d xmlns:q="urn:q" q:a="1" a="2" xml:lang="3"/></m>', '<m><![CDATA[]]></m>',
                '<m><x>1</x><!-- --><x>2</x><?p?>t</m>', '<!DOCTYPE m [<!ATTLIST m a CDATA "dflt">]><m/>',
                '<!DOCTYPE m [<!ELEMENT m ANY><!ENTITY e "<x>5</x>">]><m>&e;</m>'):
        m = M.from_xml(doc)
        for c in COMBOS:
            nodes.parse(m.to_xml(encoding='unicode', **c))
        ctx.count('evaluations')
        ctx.cover('odd', doc)
