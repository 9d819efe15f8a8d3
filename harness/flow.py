"""Cases over random universes: instance -> document -> instance, judged against the reference semantics."""

import random

import pydantic as pd

from . import canon, docs, gen, nodes, refparse, refser, render
from .core import Skip, Violation
from .spec import (NT, TD, Coll, Dct, Mod, Opt, Prim, Raw, Tag, Tup, UMod, UPrim, inner_types)

INF_OPS = ('drop', 'dup', 'swap', 'shuffle', 'insert', 'rename', 'text', 'invalid', 'attr_drop', 'attr_add', 'attr_text',
           'attr_ns', 'tail', 'head', 'empty')


def native_etree():
    from pydantic_xml.element.native import etree
    return etree


class World:
    """A universe with the classes under test and their shadows (plain pydantic models)."""

    def __init__(self, ctx, rng, profile, U=None, source=None, extra=None):
        self.ctx, self.rng = ctx, rng
        self.etree = native_etree()
        self.U = U or gen.universe(rng, profile)
        self.src = source or render.render(self.U, 'xml')
        shadow = render.render(self.U, 'shadow')
        self.es = render.make(self.U, shadow, 'shadow', raw=lambda n: n, extra=extra)
        try:
            self.ex = render.make(self.U, self.src, 'xml', raw=lambda n: nodes.to_native(n, self.etree), extra=extra)
        except Exception as e:
            render.unload(self.es)
            raise Violation('a supported definition is rejected: %s: %s' % (type(e).__name__, str(e)[:500]), source=self.src)
        ctx.count('models defined', len(self.U.models))
        self.sig = signature(self.U)

    def close(self):
        render.unload(self.ex, self.es)

    @property
    def top(self):
        return self.ex[self.U.top.name]

    def instance(self, opts=None, data=None):
        d = data if data is not None else gen.model_value(self.rng, self.U, self.U.top, opts or gen.ValueOpts())
        try:
            render.build(self.es, d)
        except pd.ValidationError as e:
            raise Skip('unbuildable value')
        try:
            return render.build(self.ex, d)
        except Exception as e:
            raise Violation('an instance cannot be built: %s: %s' % (type(e).__name__, str(e)[:500]), source=self.src)

    # -- serialization

    def ref_ser(self, inst, **flags):
        return refser.serialize(self.U, inst, **flags)

    def serialize(self, inst, how='unicode', **flags):
        """Document written by the library, as a Node."""
        try:
            if how == 'tree':
                el = inst.to_xml_tree(**flags)
                self.ctx.check(canon.is_native(el), 'to_xml_tree returned %r' % (el,), source=self.src)
                return nodes.from_native(el, tail=False)
            out = inst.to_xml(encoding=how, **flags) if how else inst.to_xml(**flags)
        except Violation:
            raise
        except Exception as e:
            raise Violation('serialization failed: %s: %s' % (type(e).__name__, str(e)[:500]), source=self.src,
                            instance=repr(inst), flags=flags)
        self.ctx.check(isinstance(out, (str, bytes)), 'to_xml returned %r' % (out,), source=self.src)
        try:
            return nodes.parse(out)
        except Exception as e:
            raise Violation('the serialized document is not well formed: %s' % e, source=self.src, instance=repr(inst), document=out)

    def check_ser(self, inst, how='unicode', **flags):
        exp = self.ref_ser(inst, **flags)
        exp.tail = ''
        if how is None and not all(name.isascii() for n in exp.walk() for name in (n.tag, *n.attrib)):
            how = 'unicode'      # the default output encoding can not express all names
        got = self.serialize(inst, how, **flags)
        self.ctx.count('evaluations')
        self.ctx.count('serializations compared')
        self.ctx.count('elements written', exp.size())
        if got != exp:
            raise Violation('wrong document %s: %s' % (flags or '', nodes.diff(exp, got)), source=self.src, instance=repr(inst),
                            expected=nodes.show(exp), got=nodes.show(got), how=how)
        return exp

    # -- parsing

    def ref_parse(self, node, lines=None, **kw):
        """Acceptable outcomes; the second differs only if an unordered search moved elements."""
        if lines is None:
            lines = self.ctx.lxml
        out = []
        for stable in (False, True):
            o, p = refparse.parse(self.U, self.es, node, lines=lines, stable=stable, **kw)
            self.parser = p
            if o[0] == 'known':
                raise Skip('known finding %s' % o[1])
            out.append(outcome(o))
            if not p.moved:
                break
        return out

    def parse(self, data, entry='bytes', cls=None, **kw):
        cls = cls or self.top
        from pydantic_xml import ParsingError
        try:
            if entry == 'tree':
                return ('ok', cls.from_xml_tree(data, **kw))
            return ('ok', cls.from_xml(data, **kw))
        except pd.ValidationError as e:
            return ('err', e)
        except ParsingError as e:
            return ('root', e)

    def check_parse(self, node, style=None, entry='bytes', text=None, cls=None, **kw):
        """Writes the document, parses it with the library and compares with the reference outcome."""
        if text is None:
            text = nodes.write(node, style or nodes.PLAIN)
        exp = self.ref_parse(node, **kw)
        p = self.parser
        if entry == 'tree':
            data = tree_of(self.etree, self.rng, text.encode())
        elif entry == 'str':
            data = text
        else:
            data = text.encode()
        try:
            act = self.parse(data, entry, cls=cls, **kw)
            got = outcome(act)
        except Violation:
            raise
        except Exception as e:
            raise Violation('parsing failed: %s: %s' % (type(e).__name__, str(e)[:500]), source=self.src, document=text)
        c = self.ctx
        c.count('evaluations')
        c.count('parsed: %s' % got[0])
        c.count('pieces of content bound', p.bound)
        c.count('elements read', node.size())
        if p.moved:
            c.count('documents with elements out of order')
        if p.skipped:
            c.count('documents with skipped elements')
        for k, n in p.events.items():
            c.count('event: %s' % k, n)
        if got not in exp:
            raise Violation('wrong outcome: %s' % explain(exp[0], got), source=self.src, document=text, expected=exp[0], got=got,
                            options=kw, entry=entry)
        if act[0] == 'err':
            self.check_hidden(cls or self.top, act[1], text)
        return act

    def check_hidden(self, cls, err, text):
        """The configuration of the model read decides if the text of the error shows inputs."""
        hide = bool(cls.model_config.get('hide_input_in_errors', False))
        shown = str(err).count(', input_value=')
        self.ctx.count('errors with inputs hidden' if hide else 'errors with inputs shown')
        if hide and shown or not hide and shown < err.error_count():
            raise Violation('hide_input_in_errors is %s but the text of an error of %d items shows %d inputs' % (hide, err.error_count(), shown),
                            source=self.src, document=text, error=str(err))


def tree_of(etree, rng, data):
    """A native tree; the one of the standard library may keep its comments and processing instructions as lxml does."""
    if hasattr(etree, 'LXML_VERSION') or rng.random() < .4:
        return etree.fromstring(data)
    return etree.fromstring(data, parser=etree.XMLParser(target=etree.TreeBuilder(insert_comments=True, insert_pis=rng.random() < .7)))


def clean_msg(m):
    # the native element class has another name than its shadow
    i = m.find('an instance of ')
    return m[:i] + 'an instance of ELEMENT' if i >= 0 else m


def loc_key(x):
    """Pydantic names a union alternative by its schema: the validators added by a harness are not part of the definition compared."""
    while isinstance(x, str) and x.startswith('function-') and '[hook_' in x:
        x = x.split(', ', 1)[1][:-1]
    return x


def error_key(e):
    return (e['type'], tuple(map(loc_key, e['loc'])), clean_msg(e['msg']), canon.canon(e['input']))


def outcome(o):
    """Comparable form of an outcome; errors as a multiset."""
    if o[0] == 'ok':
        return ('ok', canon.canon(o[1]))
    if o[0] == 'err':
        errs = o[1].errors() if isinstance(o[1], pd.ValidationError) else o[1]
        title = o[1].title if isinstance(o[1], pd.ValidationError) else o[2]
        return ('err', title, tuple(sorted((error_key(e) for e in errs), key=repr)))
    return ('root',)


def explain(exp, got):
    if exp[0] != got[0]:
        return 'expected %s, got %s' % (short(exp), short(got))
    if exp[0] == 'err':
        if exp[1] != got[1]:
            return 'error title %r instead of %r' % (got[1], exp[1])
        e, g = list(exp[2]), list(got[2])
        for x in list(e):
            if x in g:
                e.remove(x)
                g.remove(x)
        return 'missing errors %s, unexpected errors %s' % (e, g)
    return canon.cdiff(exp[1], got[1])


def short(o):
    return str(o)[:600]


# ---- what a universe looks like, names aside

def tsig(t):
    if isinstance(t, Prim):
        return t.kind if not ':' in t.kind else 'lit'
    if isinstance(t, Opt):
        return ('opt', tsig(t.item))
    if isinstance(t, UPrim):
        return ('u',) + tuple(t.kinds)
    if isinstance(t, Mod):
        return 'M'
    if isinstance(t, UMod):
        return ('U', len(t.names))
    if isinstance(t, Tag):
        return ('T', len(t.names))
    if isinstance(t, Coll):
        return (t.kind, tsig(t.item))
    if isinstance(t, Tup):
        return ('tup',) + tuple(map(tsig, t.items))
    if isinstance(t, NT):
        return ('nt',) + tuple(tsig(i) for _, i in t.fields)
    if isinstance(t, Dct):
        return ('dct', t.key, tsig(t.val))
    if isinstance(t, TD):
        return ('td',) + tuple((tsig(i), r) for _, i, r in t.fields)
    return 'raw'


def esig(e):
    if e is None:
        return None
    return (e.loc, e.tag.count('/') if e.loc == 'wrapped' else bool(e.tag), e.ns, bool(e.nsmap), e.nillable, esig(e.inner))


def signature(U):
    return tuple(
        (m.root, bool(m.tag), m.ns, bool(m.nsmap), m.ns_attrs, m.skip_empty, m.search_mode, m.extra, len(m.bases), tuple(
            (tsig(f.type), esig(f.ent), bool(f.alias), bool(f.valias), bool(f.salias), f.default[0], f.exclude, bool(f.exclude_if), f.noxml,
             bool(f.computed), f.style) for f in m.fields))
        for m in U.models.values())


def flags(rng, p=.25):
    out = {}
    for k in ('skip_empty', 'exclude_none', 'exclude_unset'):
        if rng.random() < p:
            out[k] = True
    return out
