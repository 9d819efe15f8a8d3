"""Reference serializer: the document a specification prescribes for an instance."""

import pydantic_core as pdc

from . import prims
from .canon import is_native
from .nodes import NIL, Node, from_native
from .spec import (NT, TD, Coll, Dct, Ent, Mod, Opt, Prim, Raw, Tag, Tup, UMod, UPrim, attr_name, map_uri, model_elem,
                   pick_nsmap, plain_elem, root_elem, strip_opt, wrap_path, wrap_scope)


def encode(t, v):
    if v is None:
        return ''
    if isinstance(t, Prim):
        return prims.PRIMS[t.kind].encode(v)
    return prims.encode_json(pdc.to_jsonable_python(v))


def is_empty(n):
    return not n.text and not n.attrib and not n.children and not n.tail


class Ser:
    def __init__(self, U, skip_empty=False, exclude_none=False, exclude_unset=False, overrides=None):
        self.U = U
        self.S = skip_empty
        self.N = exclude_none
        self.X = exclude_unset
        self.written = 0
        self.excluded = 0
        self.overrides = overrides or {}     # (model name, field name) -> callable(node, instance, value)

    def root(self, inst, m=None):
        m = m or self.U[type(inst).__name__]
        n = Node(root_elem(self.U, m), nsmap=self.U.eff_nsmap(m) or {})
        self.model(n, m, inst, self.S)
        return n

    def model(self, n, m, inst, S):
        U = self.U
        eff = U.eff(m, 'skip_empty')
        if eff is not None:
            S = eff
        scopes = U.scope(m)
        for f in U.eff_fields(m):
            if f.noxml or f.exclude:
                continue
            if self.X and f.name not in inst.model_fields_set:
                continue
            v = getattr(inst, f.name)
            if f.exclude_if and prims.EXCLUDES[f.exclude_if](v):
                self.excluded += 1
                continue
            self.written += 1
            over = self.overrides.get((m.name, f.name))
            if over is not None:
                over(n, inst, v)
                continue
            self.field(n, m, f, f.ent, f.type, v, S, scopes)

    def field(self, n, m, f, ent, t, v, S, scopes):
        if ent is not None and ent.loc == 'wrapped':
            if v is None:
                return
            path = [n]
            for tag in wrap_path(ent, scopes):
                last = path[-1].children[-1] if path[-1].children else None
                if last is None or last.tag != tag:
                    last = Node(tag, nsmap=pick_nsmap(ent.nsmap, scopes))
                    path[-1].children.append(last)
                path.append(last)
            self.field(path[-1], m, f, ent.inner, t, v, S, wrap_scope(ent, scopes))
            if S:
                while len(path) > 1 and is_empty(path[-1]):
                    gone = path.pop()
                    path[-1].children = [c for c in path[-1].children if c is not gone]
            return
        self.place(n, m, f, ent, t, v, S, scopes)

    def place(self, n, m, f, ent, t, v, S, scopes):
        U = self.U
        t = strip_opt(t)
        skip_none = S or self.N
        if isinstance(t, (Prim, UPrim)):
            if v is None and skip_none:
                return
            text = encode(t, v)
            if ent is None:
                n.text = text
            elif ent.loc == 'attr':
                n.attrib[attr_name(U, m, f, ent, scopes)] = text
            else:
                sub = Node(plain_elem(f, ent, scopes), text=text, nsmap=pick_nsmap(ent.nsmap, scopes))
                if v is None and ent.nillable:
                    sub.attrib[NIL] = 'true'
                if not (S and is_empty(sub)):
                    n.children.append(sub)
        elif isinstance(t, (Mod, UMod, Tag)):
            if isinstance(t, Mod):
                name = t.name
            elif v is not None:
                name = type(v).__name__
                if name not in t.names:
                    bases = [c.__name__ for c in type(v).__mro__]
                    name = [x for x in t.names if x in bases][0]
            else:
                return
            sub_m = U[name]
            elem = lambda: Node(model_elem(U, f, ent, sub_m, scopes, is_root_field=m.root),
                                nsmap=pick_nsmap(ent.nsmap if ent else None, scopes, U.eff_nsmap(sub_m)))
            if v is None:
                if self.N or not (ent is not None and ent.nillable):
                    return
                sub = elem()
                sub.attrib[NIL] = 'true'
                n.children.append(sub)
                return
            sub = elem()
            if not (sub_m.root and self.X and 'root' not in v.model_fields_set):
                self.model(sub, sub_m, v, S)
            if not (S and is_empty(sub)):
                n.children.append(sub)
        elif isinstance(t, Coll):
            if v is None:
                return
            for item in v:
                if S and item is None:
                    continue
                self.place(n, m, f, ent, t.item, item, S, scopes)
        elif isinstance(t, (Tup, NT)):
            if v is None:
                return
            items = t.items if isinstance(t, Tup) else [i for _, i in t.fields]
            for it, item in zip(items, v):
                self.place(n, m, f, ent, it, item, S, scopes)
        elif isinstance(t, (Dct, TD)):
            target = n
            if ent is not None:
                if v is None and skip_none:
                    return
                target = Node(plain_elem(f, ent, scopes), nsmap=pick_nsmap(ent.nsmap, scopes))
            if v is not None:
                uri = map_uri(U, m, ent, scopes)
                types = {} if isinstance(t, Dct) else {k: vt for k, vt, _ in t.fields}
                for k, item in v.items():
                    kt = Prim(t.key) if isinstance(t, Dct) else None
                    key = encode(kt, k) if kt else k
                    vt = strip_opt(t.val if isinstance(t, Dct) else types[k])
                    target.attrib['{%s}%s' % (uri, key) if uri else key] = encode(vt, item)
            if ent is not None and not (S and is_empty(target)):
                n.children.append(target)
        elif isinstance(t, Raw):
            if v is None:
                return
            sub = from_native(v) if is_native(v) and not isinstance(v, Node) else v.copy()
            if not (S and is_empty(sub)):
                n.children.append(sub)
        else:
            raise TypeError(t)


def serialize(U, inst, **kw):
    return Ser(U, **kw).root(inst)
