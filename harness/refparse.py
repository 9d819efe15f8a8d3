"""Reference parser: what a document means for a specification. Nested models become instances of the shadow classes."""

import copy

import pydantic as pd
import pydantic_core as pdc

from .core import Skip
from .nodes import NIL, Node
from .spec import (NT, TD, Coll, Dct, Ent, Mod, Opt, Prim, Raw, Tag, Tup, UMod, UPrim, attr_name, map_uri, model_elem,
                   plain_elem, root_elem, split_local, strip_opt, wrap_path, wrap_scope)


class Errs(Exception):
    """Errors of a failed model: list of dicts with type, loc, msg, input."""

    def __init__(self, errors, title):
        super().__init__(title)
        self.errors = errors
        self.title = title


class RootMismatch(Exception):
    pass


class Known(Exception):
    """The case touches a mechanism recorded as a known finding: it is not judged here."""


class Cur:
    """Element with what has not been consumed yet."""

    __slots__ = ('tag', 'text', 'tail', 'attrib', 'children', 'pos', 'line')

    def __init__(self, node):
        self.tag = node.tag
        self.text = node.text
        self.tail = node.tail
        self.attrib = dict(node.attrib)
        self.children = [Cur(c) for c in node.children]
        self.pos = 0
        self.line = node.line

    def clone(self):
        c = Cur.__new__(Cur)
        c.tag, c.text, c.tail, c.pos, c.line = self.tag, self.text, self.tail, self.pos, self.line
        c.attrib = dict(self.attrib) if self.attrib is not None else None
        c.children = [x.clone() for x in self.children]
        return c

    def adopt(self, c):
        self.text, self.tail, self.pos = c.text, c.tail, c.pos
        self.attrib, self.children = c.attrib, c.children

    def unbound(self, path=()):
        if self.text and self.text.strip():
            yield path, None, self.text.strip(), self.line
        if self.tail and self.tail.strip():
            yield path, None, self.tail.strip(), self.line
        for k, v in (self.attrib or {}).items():
            yield path, k, v, self.line
        for c in self.children:
            yield from c.unbound(path + (c.tag,))

    def to_node(self):
        return Node(self.tag, self.attrib, self.text, [c.to_node() for c in self.children], self.tail)


class Parser:
    """
    stable: in unordered mode a found element is moved before the remaining ones without changing their order
    (otherwise exchanged with the next remaining one; either is allowed).
    """

    def __init__(self, U, env, lines=True, context=None, empty_as_string=False, stable=False, converters=None):
        self.U = U
        self.env = env
        self.lines = lines
        self.context = context
        self.empty = empty_as_string
        self.stable = stable
        self.moved = 0            # unordered matches not at the next position
        self.skipped = 0
        self.bound = 0            # pieces of content bound
        self.converters = converters or {}     # (model, field) -> callable(parser, cur) giving the raw value
        self.events = {}
        self.in_tuple = 0

    def ev(self, k):
        self.events[k] = self.events.get(k, 0) + 1

    # searching

    def find(self, cur, tag, mode, behind=False, step=True):
        if behind and cur.pos and cur.pos <= len(cur.children) and cur.children[cur.pos - 1].tag == tag:
            return cur.children[cur.pos - 1]
        ch = cur.children
        if mode == 'strict':
            if cur.pos < len(ch) and ch[cur.pos].tag == tag:
                cur.pos += step
                return ch[cur.pos - step]
            return None
        for i in range(cur.pos, len(ch)):
            if ch[i].tag == tag:
                el = ch[i]
                if mode == 'ordered':
                    if step:
                        self.skipped += i - cur.pos
                        cur.pos = i + 1
                else:
                    if i != cur.pos:
                        self.moved += 1
                        if self.stable:
                            if step:
                                ch.insert(cur.pos, ch.pop(i))
                        else:
                            ch[cur.pos], ch[i] = ch[i], ch[cur.pos]
                    if step:
                        cur.pos += 1
                return el
        return None

    # entry

    def parse(self, node, m=None):
        m = m or self.U.top
        if node.tag != root_elem(self.U, m):
            raise RootMismatch(node.tag)
        cur = Cur(node)
        cur.tail = ''
        return self.model(m, cur)

    def line(self, cur):
        return cur.line if self.lines else -1

    def model(self, m, cur):
        saved, self.in_tuple = self.in_tuple, 0
        try:
            return self.model_(m, cur)
        finally:
            self.in_tuple = saved

    def model_(self, m, cur):
        U = self.U
        smap = {(): self.line(cur)}
        cls = self.env[m.name]
        scopes = U.scope(m)
        mode = U.mode(m)
        errors = []
        if m.root:
            f = U.eff_fields(m)[0]
            try:
                conv = self.converters.get((m.name, f.name))
                result = conv(self, cur) if conv else self.field(m, f, f.ent, f.type, cur, (), smap, scopes, mode)
            except Errs as e:
                raise Errs(e.errors, m.name)
            if result is None:
                result = pdc.PydanticUndefined
        else:
            result = {}
            for f in U.eff_fields(m):
                if f.noxml or f.computed:
                    continue
                loc = (f.key,)
                smap[loc] = self.line(cur)
                try:
                    conv = self.converters.get((m.name, f.name))
                    if conv is not None:
                        v = conv(self, cur)
                    else:
                        v = self.field(m, f, f.ent, f.type, cur, loc, smap, scopes, mode)
                except Errs as e:
                    errors += [dict(x, loc=(f.name,) + x['loc']) for x in e.errors]
                    continue
                if v is not None:
                    result[f.key] = v
            if errors:
                raise Errs(errors, m.name)
        if U.eff(m, 'extra') == 'forbid':
            for path, attr, value, line in cur.unbound():
                errors.append(dict(
                    type='extra_forbidden', loc=path + (('@' + attr,) if attr else ()), input=value,
                    msg='[line %d]: Extra inputs are not permitted' % (line if self.lines else -1),
                ))
            if errors:
                raise Errs(errors, m.name)
        try:
            return cls.model_validate(result, strict=False, context=self.context)
        except pd.ValidationError as e:
            out = []
            for err in e.errors():
                loc = err['loc']
                while loc and loc not in smap:
                    loc = loc[:-1]
                out.append(dict(type=err['type'], loc=err['loc'], input=err['input'],
                                msg='[line %d]: %s' % (smap[loc], err['msg'])))
            raise Errs(out, m.name)

    def field(self, m, f, ent, t, cur, loc, smap, scopes, mode):
        if ent is not None and ent.loc == 'wrapped':
            for tag in wrap_path(ent, scopes):
                cur = self.find(cur, tag, mode, behind=True)
                if cur is None:
                    self.ev('path_missing')
                    return None
            smap[loc] = self.line(cur)
            self.ev('path_found')
            return self.field(m, f, ent.inner, t, cur, loc, smap, wrap_scope(ent, scopes), mode)
        return self.take(m, f, ent, t, cur, loc, smap, scopes, mode)

    def nil(self, cur):
        v = cur.attrib.pop(NIL, None) if cur.attrib else None
        return v is not None and v.strip() in ('true', '1')

    def get_text(self, cur):
        v, cur.text = cur.text, ''
        if not v:
            return '' if self.empty else None
        self.bound += 1
        return v

    def take(self, m, f, ent, t, cur, loc, smap, scopes, mode):
        U = self.U
        t = strip_opt(t)
        if isinstance(t, (Prim, UPrim)):
            if ent is None:
                self.ev('text')
                return self.get_text(cur)
            if ent.loc == 'attr':
                v = cur.attrib.pop(attr_name(U, m, f, ent, scopes), None) if cur.attrib else None
                if v is not None:
                    self.bound += 1
                    self.ev('attr')
                return v
            sub = self.find(cur, plain_elem(f, ent, scopes), mode)
            if sub is None:
                self.ev('absent')
                return None
            self.ev('element')
            smap[loc] = self.line(sub)
            if ent.nillable and self.nil(sub):
                self.ev('nil')
                return Nil(self, f)
            return self.get_text(sub)
        if isinstance(t, Mod):
            sub = self.find(cur, model_elem(U, f, ent, U[t.name], scopes, is_root_field=m.root), mode)
            if sub is None:
                self.ev('absent')
                return None
            self.ev('submodel')
            return self.submodel(U[t.name], sub, loc, smap, f, ent)
        if isinstance(t, UMod):
            failed = nil = None
            errs = {}
            for name in t.names:
                snap = cur.clone()
                tag = model_elem(U, f, ent, U[name], scopes, is_root_field=m.root)
                sub = self.find(snap, tag, mode)
                if sub is None:
                    continue
                try:
                    v = self.submodel(U[name], sub, loc, smap, f, ent)
                except Errs as e:
                    errs[e.title] = e.errors
                    failed = failed or tag
                    self.ev('union_alternative_failed')
                    continue
                if v is None:
                    nil = nil or snap
                    continue
                cur.adopt(snap)
                self.ev('union')
                return v
            if failed:
                self.find(cur, failed, mode)
                raise Errs([dict(x, loc=(title,) + x['loc']) for title, xs in errs.items() for x in xs], m.name)
            if nil:
                cur.adopt(nil)
                self.ev('union_nil')
            return None
        if isinstance(t, Tag):
            for name in t.names:
                sub_m = U[name]
                df = next(x for x in U.eff_fields(sub_m) if x.name == t.discriminator)
                aname = attr_name(U, sub_m, df, df.ent, U.scope(sub_m))
                tag = model_elem(U, f, ent, sub_m, scopes, is_root_field=m.root)
                for value in discriminator_values(df):
                    sub = self.find(cur, tag, mode, step=False)
                    if sub is not None and (sub.attrib or {}).get(aname) == value:
                        sub = self.find(cur, tag, mode)
                        self.ev('tagged_union')
                        return self.submodel(sub_m, sub, loc, smap, f, ent)
            return None
        if isinstance(t, Coll):
            out, errors, i = [], [], 0
            while True:
                try:
                    before = self.events.get('element', 0), self.events.get('nil', 0)
                    v = self.take(m, f, ent, t.item, cur, loc + (i,), smap, scopes, mode)
                    if v is None:
                        if (self.events.get('element', 0), self.events.get('nil', 0)) != before:
                            raise Known('P10')      # an empty item ends the collection
                        break
                    out.append(v)
                except Errs as e:
                    errors += [dict(x, loc=(i,) + x['loc']) for x in e.errors]
                i += 1
            if errors:
                raise Errs(errors, m.name)
            self.ev('items_%s' % ('0' if not out else '1' if len(out) == 1 else 'n'))
            return out or None
        if isinstance(t, (Tup, NT)):
            out, errors = [], []
            items = t.items if isinstance(t, Tup) else [x for _, x in t.fields]
            self.in_tuple += 1
            for i, it in enumerate(items):
                try:
                    v = self.take(m, f, ent, it, cur, loc + (i,), smap, scopes, mode)
                    out.append(v)
                except Errs as e:
                    errors += [dict(x, loc=(i,) + x['loc']) for x in e.errors]
            self.in_tuple -= 1
            if errors:
                raise Errs(errors, m.name)
            if all(v is None for v in out):
                return None
            if isinstance(t, NT):
                while out[-1] is None and t.default(len(out) - 1):
                    self.ev('default of a named tuple')
                    out.pop()
            return out
        if isinstance(t, (Dct, TD)):
            if ent is not None:
                cur = self.find(cur, plain_elem(f, ent, scopes), mode)
                if cur is None:
                    return None
                smap[loc] = self.line(cur)
            if cur.attrib is None:
                return None
            attrs, cur.attrib = cur.attrib, None
            self.bound += len(attrs)
            self.ev('mapping')
            if U.eff(m, 'ns_attrs'):
                out = {split_local(k): v for k, v in attrs.items()}
                if len(out) != len(attrs):
                    # which one wins depends on the order of the attributes, which XML does not define
                    raise Skip('attributes sharing a local name')
                return out
            return attrs
        if isinstance(t, Raw):
            sub = self.find(cur, plain_elem(f, ent, scopes), mode)
            if sub is None:
                return None
            smap[loc] = self.line(sub)
            self.ev('raw')
            node = sub.to_node()
            sub.text = sub.tail = ''
            sub.attrib = None
            sub.children = []
            sub.pos = 0
            return node
        raise TypeError(t)

    def submodel(self, sub_m, sub, loc, smap, f, ent):
        smap[loc] = self.line(sub)
        if self.nil(sub):
            self.ev('nil')
            return Nil(self, f)
        return self.model(sub_m, sub)


def discriminator_values(df):
    from .prims import PRIMS
    t = df.type
    import typing
    return list(typing.get_args(PRIMS[t.kind].type))


def Nil(parser, f):
    """None read from an element marked as nil; it can not be told from an absent one (known finding)."""
    if not parser.in_tuple and (f.default[0] == 'req' or f.default[1] is not None):
        raise Known('P07')
    return None


def parse(U, env, node, m=None, **kw):
    """('ok', shadow instance), ('err', errors, title), ('root',) or ('known', id)."""
    p = Parser(U, env, **kw)
    try:
        return ('ok', p.parse(node, m)), p
    except Errs as e:
        return ('err', e.errors, e.title), p
    except RootMismatch:
        return ('root',), p
    except Known as e:
        return ('known', str(e)), p
