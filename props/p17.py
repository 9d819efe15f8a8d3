import dataclasses
import random
import re

from harness import flow, gen, nodes, render, standard
from harness.core import Skip, Violation
from harness.render import ann, class_kwargs, class_lines, config_expr, ent_expr, field_kwargs, field_lines, helper_lines, src, uses_raw
from harness.spec import NT, Coll, Ent, FieldSpec, Mod, Opt, Tag, UMod, deps, inner_types, root_elem, type_expr

TECHNIQUE = 'runtime monitoring: one reference semantics judges the same definitions however the classes come into being'
RULE = ('random universes, with recursive and mutually recursive models, rendered as one class, split over one or two base classes, generic '
        'parametrizations, create_model calls, annotated, stringified, shuffled and local definitions; documents written and parsed are compared '
        'with the reference; classes are compared again after random subclasses have been derived; distinct = (routes, shape, edits, outcome)')
CASES = {'quick': 3000, 'thorough': 40000}
MIN = {'serializations compared': 3000, 'parsed: ok': 3000, 'route: split': 300, 'route: twin': 100, 'route: generic': 200, 'route: create': 300,
       'layout: future': 100, 'settings overridden: ns_attrs': 20, 'settings overridden: ns': 20, 'layout: local': 100, 'layout: shuffled': 100, 'mutually recursive': 100, 'unresolved definitions used': 100,
       'classes seen again after subclassing': 300, 'declarations shared': 200, 'wrapped fields sharing what they wrap': 40}
PROFILE = gen.Profile(p_recursive=.2, p_inherit=.35, p_root=.2, models=(1, 5), p_ns=.4, p_ns_attrs=.4, p_skip_empty=.25)
SETTINGS = ('tag', 'ns', 'nsmap', 'ns_attrs', 'skip_empty', 'search_mode')


def leaf(ent):
    return leaf(ent.inner) if ent.inner is not None else ent


def with_leaf(ent, new):
    return dataclasses.replace(ent, inner=with_leaf(ent.inner, new)) if ent.inner is not None else new


def share_declarations(rng, U):
    """Some wrapped fields have what they wrap in common."""
    fields = [f for m in U.models.values() for f in m.fields if not f.computed and f.ent is not None and f.ent.loc == 'wrapped' and f.ent.inner is not None]
    shared = []
    for loc in ('element', 'attr'):
        fs = [f for f in fields if leaf(f.ent).loc == loc]
        plain = [leaf(f.ent) for f in fs if leaf(f.ent).tag is not None and leaf(f.ent).ns is None and not leaf(f.ent).nsmap and not leaf(f.ent).nillable]
        if len(fs) > 1 and plain:
            ent = rng.choice(plain)
            for f in fs:
                if not leaf(f.ent).nillable and (leaf(f.ent).tag is not None or rng.random() < .5) and rng.random() < .8:
                    f.ent = with_leaf(f.ent, ent)
            shared.append(ent)
    return shared


def hoist(rng, U, lines):
    """Equal declarations become one object."""
    exprs, new = [], []
    for m in U.models.values():
        for f in m.fields:
            e = f.ent
            while e is not None and not f.computed:
                exprs.append(ent_expr(e))
                e = e.inner
    # the outer declarations first
    for x in sorted(set(exprs), key=lambda x: (-len(x), x)):
        pat = re.compile(r'(?<![\w.])' + re.escape(x))
        n = sum(len(pat.findall(l)) for l in lines if not l.lstrip().startswith('@'))
        if n > 1 and rng.random() < .9 or n == 1 and rng.random() < .1:
            v = '_E%d' % len(new)
            lines = [l if l.lstrip().startswith('@') else pat.sub(v, l) for l in lines]
            new = ['%s = %s' % (v, x)] + [pat.sub(v, l) for l in new]
    return new + lines


class Renderer:
    def __init__(self, ctx, rng, U):
        self.ctx, self.rng, self.U = ctx, rng, U
        self.routes = []
        self.n = 0
        self.hoist = False

    def settings(self, m):
        return {k: getattr(m, k) for k in SETTINGS if getattr(m, k) is not None}

    @staticmethod
    def kw(s):
        return ['%s=%r' % kv for kv in s.items()]

    def config(self, m):
        cfg = config_expr(m)
        if uses_raw(self.U, m):
            cfg['arbitrary_types_allowed'] = 'True'
        return ['model_config = pd.ConfigDict(%s)' % ', '.join('%s=%s' % kv for kv in cfg.items())] if cfg else []

    @staticmethod
    def cls(name, bases, kw, body):
        return ['class %s(%s):' % (name, ', '.join(list(bases) + kw))] + ['    ' + l for l in body or ['pass']]

    def own_lines(self, fields, known):
        return [l for f in fields for l in field_lines(self.U, f, 'xml', known)]

    def model(self, m, known):
        rng = self.rng
        can = ['direct', 'split', 'split', 'create', 'create', 'generic', 'generic']
        if not m.root and not m.bases:
            can.append('twin')
        route = rng.choice(can)
        if route == 'create' and (m.body or any(f.computed for f in m.fields)):
            route = 'split'
        lines = getattr(self, route)(m, known)
        self.routes.append(route)
        self.ctx.count('route: %s' % route)
        return lines

    def direct(self, m, known):
        return class_lines(self.U, m, 'xml', known)

    def share(self, m):
        """Settings of the base and of the class: overridden, moved or divided."""
        rng = self.rng
        base, own = {}, {}
        for k, v in self.settings(m).items():
            r = rng.random()
            if k == 'nsmap' and r < .5:
                ks = list(v)
                cut = set(rng.sample(ks, rng.randint(0, len(ks))))
                base[k] = {x: v[x] if rng.random() < .6 else 'urn:overridden' for x in cut}
                own[k] = {x: v[x] for x in ks if x not in cut or base[k][x] != v[x]}
            elif r < .4:
                base[k] = v
            elif r < .7 or k == 'nsmap' or k == 'ns':
                own[k] = v
            else:
                base[k] = {'tag': 'other', 'ns_attrs': not v, 'skip_empty': not v, 'search_mode': rng.choice(['strict', 'ordered', 'unordered'])}[k]
                own[k] = v
        if 'ns' in base and base['ns'] not in (base.get('nsmap') or {}):
            own['ns'] = base.pop('ns')
        return base, own

    def decoys(self, m):
        """The base knows the same aliases; whatever else it declares is overridden."""
        rng = self.rng
        s = dict(self.settings(m))
        if not m.bases:
            s.setdefault('ns_attrs', False)
            s.setdefault('search_mode', 'strict')
        base, own = {}, {}
        for k, v in s.items():
            if rng.random() < .4:
                base[k] = v
                if rng.random() < .3:
                    own[k] = v
            else:
                own[k] = v
                if k == 'nsmap':
                    base[k] = {x: u if x == 'xml' or rng.random() < .4 else 'urn:decoy:%s' % x for x, u in v.items()}
                elif k == 'ns':
                    known = {x for b in self.U.chain(m) for x in b.nsmap or {}} | {v}
                    base[k] = rng.choice(sorted(known - {''} or known))
                elif k == 'tag':
                    base[k] = 'decoy'
                elif k in ('ns_attrs', 'skip_empty'):
                    base[k] = not v
                else:
                    base[k] = rng.choice(['strict', 'ordered', 'unordered'])
                self.ctx.count('settings overridden: %s' % k)
        if base.get('ns') == '' or 'ns' not in base or any("ns=''" in l for l in self.own_lines(m.fields, set())):
            # attributes in the default namespace are rejected
            if base.get('ns_attrs') and not s.get('ns_attrs'):
                base['ns_attrs'] = False
        return base, own

    def fits(self, m, base):
        """Whether the attributes and elements of the fields can be named with the settings of a base alone."""
        return not self.settings(m).get('nsmap') and not self.settings(m).get('ns')

    def split(self, m, known):
        rng = self.rng
        base, own = self.share(m)
        bases = list(m.bases) or ['RootXmlModel' if m.root else 'BaseXmlModel']
        k = len(m.fields) if m.root else rng.randint(0, len(m.fields))
        if not self.fits(m, base):
            # the base must be able to name what it contains
            base, own = self.decoys(m)
        cfg = self.config(m)
        name = '_B' + m.name
        first = cfg if rng.random() < .5 or any('arbitrary' in c for c in cfg) else []
        out = self.cls(name, bases, self.kw(base), first + self.own_lines(m.fields[:k], known))
        return out + self.cls(m.name, [name], self.kw(own), ([] if first else cfg) + self.own_lines(m.fields[k:], known) + m.body)

    def twin(self, m, known):
        """Two bases; the fields of the last base come first."""
        rng = self.rng
        cfg = self.config(m)
        k = rng.randint(0, len(m.fields))
        s = self.settings(m)
        if rng.random() < .5:
            bases, own = s, {}
        else:
            bases, own = (s if not self.fits(m, s) else {}), s
        out = self.cls('_A' + m.name, ['BaseXmlModel'], self.kw(bases), cfg + self.own_lines(m.fields[:k], known))
        out += self.cls('_B' + m.name, ['BaseXmlModel'], self.kw(bases), cfg + self.own_lines(m.fields[k:], known))
        return out + self.cls(m.name, ['_B' + m.name, '_A' + m.name], self.kw(own), cfg + m.body)

    def generic(self, m, known):
        """Some types become parameters."""
        rng = self.rng
        self.n += 1
        if m.bases and any(x.root for x in self.U.models.values()):
            return self.split(m, known)
        subst, args, names = {}, [], []
        for f in m.fields:
            t = f.type
            if f.computed or f.discriminator or f.name.startswith('kind') or rng.random() < .3:
                continue
            if any(n not in known for x in inner_types(t) for n in ([x.name] if isinstance(x, Mod) else x.names if isinstance(x, (UMod, Tag)) else ())):
                continue
            tv = '_T%d_%d' % (self.n, len(names))
            if isinstance(t, (Opt, Coll)) and rng.random() < .6:
                subst[f.name] = type_expr(t).replace(type_expr(t.item), tv, 1)
                args.append(type_expr(t.item))
            else:
                subst[f.name] = tv
                args.append(type_expr(t))
            names.append(tv)
        if not names:
            return self.split(m, known)
        body = []
        for f in m.fields:
            ls = field_lines(self.U, f, 'xml', known)
            if f.name in subst:
                t = ann(f.type, known, bool(f.discriminator))
                t = f.type_alias if f.type_alias and f.type_alias in ls[0] else t
                assert t in ls[0]
                ls = [ls[0].replace(t, subst[f.name], 1)] + ls[1:]
            body += ls
        out = ['%s = TypeVar(%r)' % (n, n) for n in names]
        s = self.settings(m)
        bases = list(m.bases) or ['RootXmlModel[%s]' % subst['root'] if m.root else 'BaseXmlModel']
        g = '_G' + m.name
        base, own = (s, {}) if rng.random() < .6 or not self.fits(m, s) else ({}, s)
        cfg = self.config(m)
        out += self.cls(g, bases + ['Generic[%s]' % ', '.join(names)], self.kw(base), cfg + body + m.body)
        # other parametrizations of the same class must not matter
        other = ['int' if rng.random() < .5 else a for a in args]
        if rng.random() < .4 and other != args:
            out += ['try: %s[%s]' % (g, ', '.join(other)), 'except Exception: pass']
        # (a root model counts as an open parameter for pydantic)
        if len(names) > 1 and rng.random() < .3 and not any(x.root for x in self.U.models.values()):
            # in two steps
            out += ['_H%s = %s[%s]' % (m.name, g, ', '.join([args[0]] + names[1:]))]
            out += self.cls(m.name, ['_H%s[%s]' % (m.name, ', '.join(args[1:]))], self.kw(own), [])
        else:
            out += self.cls(m.name, ['%s[%s]' % (g, ', '.join(args))], self.kw(own), [])
        return out

    def create(self, m, known):
        rng = self.rng
        parts = []
        for f in m.fields:
            ls = field_lines(self.U, f, 'xml', known)
            assert len(ls) == 1, ls
            name, rest = ls[0].split(': ', 1)
            if ' = ' in rest:
                t, d = rest.split(' = ', 1)
                parts.append('%s=(%s, %s)' % (name, t, d))
            else:
                parts.append('%s=(%s, ...)' % (name, rest))
        kw = ['__%s__=%r' % kv for kv in self.settings(m).items()]
        base = list(m.bases) or (['RootXmlModel'] if m.root else [])
        if base:
            kw.append('__base__=%s' % (base[0] if rng.random() < .7 else '(%s,)' % base[0]))
        cfg = self.config(m)
        if cfg:
            kw.append('__config__=%s' % cfg[0].split(' = ', 1)[1])
        if rng.random() < .5:
            kw.append('__module__=__name__')
        if rng.random() < .2:
            kw.append("__doc__='text'")
        return ['%s = create_model(%r, %s)' % (m.name, m.name, ', '.join(kw + parts))]

    def order(self):
        """Definition order: bases and whatever the source mentions come first, annotations may refer to later classes."""
        rng = self.rng
        ms = list(self.U.models.values())
        left, done, out = list(ms), set(), []
        need = {}
        for m in ms:
            n = set(m.bases)
            for f in m.fields:
                if f.default[0] != 'req':
                    n |= set(x for x in self.U.models if x + '(' in src(self.U, f.default[1]))
                for t in inner_types(f.type):
                    if isinstance(t, NT):
                        n |= {x.name if isinstance(x, Mod) else y for x in inner_types(t) if isinstance(x, (Mod, UMod, Tag))
                              for y in (getattr(x, 'names', None) or (0,))}
            n.discard(m.name)
            need[m.name] = n
        while left:
            ready = [m for m in left if need[m.name] <= done]
            if not ready:
                return ms
            m = rng.choice(ready)
            left.remove(m)
            done.add(m.name)
            out.append(m)
        return out

    def source(self):
        rng = self.rng
        layout = rng.choice(['plain', 'plain', 'future', 'local', 'shuffled', 'shuffled'])
        self.ctx.count('layout: %s' % layout)
        self.routes.append(layout)
        order = self.order() if layout == 'shuffled' or layout != 'plain' and rng.random() < .5 else list(self.U.models.values())
        known, done, lines, late = set(), set(), [], []
        for m in order:
            lines += helper_lines(self.U, m, done)
            for f in m.fields:
                if f.ent is not None and f.style == 'default' and rng.random() < .2 and f.ent.loc != 'wrapped':
                    f.style = rng.choice(['annotated', 'split'])
            lines += self.model(m, known)
            if any(d not in known and d != m.name for d in deps(m)):
                lines.append('_UNRESOLVED(%s)' % m.name)
            known.add(m.name)
        if self.hoist:
            lines = hoist(rng, self.U, lines)
            self.ctx.count('declarations shared')
        # whoever contains an unresolved class is unresolved as well
        names = [m.name for m in order]
        rng.shuffle(names)
        if layout != 'local' and rng.random() < .4:
            # completed on the first use
            names = [n for n in names if rng.random() < .2]
            self.routes.append('lazy')
            self.ctx.count('layout: completed on use')
        rebuild = ['%s.model_rebuild()' % n for n in names]
        lines += rebuild
        if layout == 'local':
            lines = ['def _local():'] + ['    ' + l for l in lines] + ['    return locals()', 'globals().update(_local())']
        text = '\n'.join(lines) + '\n'
        return ('from __future__ import annotations\n' if layout == 'future' else '') + text


def unresolved(ctx, U):
    def use(cls):
        """A class that mentions an undefined one can not be used."""
        import pydantic as pd
        from pydantic_xml import ParsingError
        m = U[cls.__name__]
        ctx.count('unresolved definitions used')
        text = nodes.write(nodes.Node(root_elem(U, m)), nodes.PLAIN)
        for what, fn in (('from_xml', lambda: cls.from_xml(text.encode())), ('the constructor', lambda: cls(**{})),
                         ('to_xml', lambda: cls.model_construct().to_xml())):
            try:
                r = fn()
            except (pd.ValidationError, ParsingError) as e:
                raise Violation('%s of a partially defined class works: %s' % (what, e))
            except Exception:
                continue
            raise Violation('%s of a partially defined class returned %r' % (what, r))
    return use


def case(ctx, rng):
    U = gen.universe(rng, PROFILE)
    if rng.random() < .3 and gen.close_cycle(rng, U):
        ctx.count('mutually recursive')
    share = rng.random() < .25
    shared = share_declarations(rng, U) if share else []
    r = Renderer(ctx, rng, U)
    r.hoist = share
    if shared:
        try:
            gen.check_definition(U)
        except gen.BadDefinition:
            raise Skip('the shared declaration means nothing to a field')
        ctx.count('wrapped fields sharing what they wrap')
    text = r.source()
    w = flow.World(ctx, rng, None, U=U, source=text, extra={'_UNRESOLVED': unresolved(ctx, U)})
    w.sig = (tuple(r.routes), w.sig)
    try:
        standard.run(ctx, rng, None, values=2, documents=2, world=w)
        if rng.random() < .4:
            derive(ctx, rng, w)
    finally:
        w.close()


def derive(ctx, rng, w):
    """Subclasses with other settings, fields and converters leave their bases alone."""
    U = w.U
    n = 0
    for m in list(U.models.values()):
        if rng.random() < .3:
            continue
        s = {}
        if rng.random() < .5:
            s['tag'] = 'derived'
        if rng.random() < .5:
            s['nsmap'] = {rng.choice(['', 'a', 'b', 'zz']): 'urn:derived', 'yy': 'urn:yy'}
            if rng.random() < .6:
                s['ns'] = rng.choice(list(s['nsmap']))
        for k, v in (('ns_attrs', True), ('skip_empty', True), ('search_mode', 'unordered'), ('ns_attrs', False), ('skip_empty', False),
                     ('search_mode', 'strict')):
            if rng.random() < .25:
                s[k] = v
        body = []
        if not m.root:
            fs = U.eff_fields(m)
            f = rng.choice(fs) if fs else None
            if rng.random() < .5:
                body.append('zzz: Optional[int] = element(default=None)')
            if f is not None and not f.computed and not f.name.startswith('kind') and rng.random() < .5:
                body.append('%s: Optional[str] = element(tag=\'qqq\', default=None)' % f.name)
            if f is not None and not f.computed and rng.random() < .5:
                body += ['@xml_field_serializer(%r)' % f.name, 'def ser(self, el, value, name): el.set_text("nothing")']
            if f is not None and not f.computed and rng.random() < .5:
                body += ['@xml_field_validator(%r)' % f.name, '@classmethod', 'def val(cls, el, name): return None']
            if rng.random() < .3:
                body.append("model_config = pd.ConfigDict(extra='forbid')")
        name = '_D%d' % n
        n += 1
        text = '\n'.join(Renderer.cls(name, [m.name], Renderer.kw(s), body)) + '\n'
        try:
            exec(compile(text, 'derived', 'exec'), w.ex)
            ctx.count('subclasses derived')
        except Exception:
            # what a subclass may override is not the point
            ctx.count('subclasses rejected')
        d = w.ex.get(name)
        if d is not None and rng.random() < .5:
            try:
                d.from_xml('<derived/>')
            except Exception:
                pass
        if rng.random() < .3:
            w.ex[m.name].model_rebuild(force=True)
            ctx.count('classes rebuilt')
    ctx.count('classes seen again after subclassing')
    w.sig = ('again',) + w.sig
    standard.run(ctx, rng, None, values=1, documents=2, world=w)
