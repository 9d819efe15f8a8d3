import io
import os
import re
import subprocess
import sys
import xml.etree.ElementTree as std

from harness import flow, gen, nodes
from harness.core import Violation

TECHNIQUE = ('runtime monitoring: the namespace declarations of every element of every document written are compared with those the '
             'definition declares; the environment variables are checked in processes of their own')
NOTE = 'Held on the definitions, instances and settings run; the reference for the declarations is independent of the library.'
RULE = ('random universes with namespace maps on models, fields, wrappers and sub-models (overlapping and repeated prefixes, default namespaces), '
        'instances written as tree and text; with lxml the bindings in scope of every element, with the standard library the prefixes of the '
        'document; every spelling of the two environment variables; distinct = (shape, options) and (variable, spelling)')
CASES = {'quick': 3000, 'thorough': 60000}
MIN = {'elements with declarations checked': 10000, 'prefixes checked': 3000}
PROFILE = gen.Profile(p_ns=1, p_ns_attrs=.4, p_attr=.4, p_wrapped=.3, p_inherit=.25, models=(1, 4), p_tag=.5, p_model_tag=.6, p_root=.2, p_nillable=.1)


def unqualified(n):
    return not n.tag.startswith('{') or any(unqualified(c) for c in n.children)


def kids(el):
    return [c for c in el if isinstance(c.tag, str)]


def scopes(ctx, w, exp, el, outer, how):
    """Bindings in scope of the elements of a tree of lxml."""
    if exp.nsmap is None:
        return     # raw element
    declared = {k or None: u for k, u in exp.nsmap.items()}
    have = {'xml': gen.RESERVED['xml'], **el.nsmap}       # needs no declaration
    ctx.count('elements with declarations checked', bool(declared))
    for k, u in declared.items():
        ctx.count('prefixes checked')
        if have.get(k) != u and not (k is None and unqualified(exp)):
            raise Violation('%s: element %s binds the prefix %r to %r instead of %r' % (how, el.tag, k, have.get(k), u), source=w.src, document=nodes.show(exp))
    for k, u in have.items():
        if k == 'xml' or k in declared or outer.get(k) == u:
            continue
        # a prefix made up: only for a name that has none to use
        used = [t[1:].partition('}')[0] for t in [el.tag] * (k is None) + [el.tag] + list(el.attrib) if t.startswith('{')]
        other = [p for p, x in have.items() if x == u and p is not None and p != k]
        ctx.count('prefixes made up')
        if u not in used or other:
            raise Violation('%s: element %s binds the prefix %r to %r for no reason (in scope: %s)' % (how, el.tag, k, u, have), source=w.src,
                            document=nodes.show(exp))
    for c, e in zip(exp.children, kids(el)):
        scopes(ctx, w, c, e, have, how)


def maps(U):
    for m in U.models.values():
        if m.nsmap:
            yield m.nsmap
        for f in m.fields:
            e = f.ent
            while e is not None:
                if e.nsmap:
                    yield e.nsmap
                e = e.inner


def prefixes(ctx, w, text):
    """Prefixes of a document of the standard library: the registered ones."""
    pairs = {(k, u) for mp in maps(w.U) for k, u in mp.items()}
    for k, u in {(k, u) for _, (k, u) in std.iterparse(io.BytesIO(text), ['start-ns'])}:
        mine = {p for p, x in pairs if x == u and p and not re.match(r'ns\d+$', p)}
        if len(mine) == 1:
            p = next(iter(mine))
            if {x for q, x in pairs if q == p} == {u}:
                ctx.count('prefixes checked')
                ctx.check(k == p, 'the prefix of %r is %r instead of %r' % (u, k, p), source=w.src, document=text.decode())
    ctx.count('elements with declarations checked', text.count(b'</'))


def case(ctx, rng):
    w = flow.World(ctx, rng, PROFILE if rng.random() < .6 else PROFILE.but(types=dict(mod=4, umod=1, tag=1, coll=3, dct=1.5, td=1, tup=1, prim=2, raw=.5)))
    try:
        for _ in range(3):
            inst = w.instance(gen.ValueOpts())
            flags = {k: rng.random() < .25 for k in ('skip_empty', 'exclude_none', 'exclude_unset')}
            exp = w.ref_ser(inst, **flags)
            ctx.count('evaluations')
            ctx.cover(w.sig, sorted(k for k in flags if flags[k]))
            if ctx.lxml:
                scopes(ctx, w, exp, inst.to_xml_tree(**flags), {}, 'tree')
                scopes(ctx, w, exp, w.etree.fromstring(inst.to_xml(encoding='utf-8', **flags)), {}, 'text')
            else:
                prefixes(ctx, w, inst.to_xml(encoding='utf-8', **flags))
        ctx.sample('%s\n%s' % (w.src, nodes.show(exp)))
    finally:
        w.close()


PROGRAM = '''
import sys
import pydantic_xml as px
from typing import Optional
from pydantic_xml.element import native
class S(px.BaseXmlModel, tag='s', ns='sub', nsmap={'sub': 'urn:sub'}):
    x: int = px.attr(ns='sub')
class M(px.BaseXmlModel, tag='m', ns='top', nsmap={'top': 'urn:top'}):
    s: S
    e: int = px.element(ns='el', nsmap={'el': 'urn:el'})
    @px.computed_element(ns='co', nsmap={'co': 'urn:co'})
    def c(self) -> int:
        return 1
m = M(s=S(x=1), e=2)
text = m.to_xml(encoding='unicode')
assert M.from_xml(text) == m
print(native.etree.__name__)
print(text)
'''
SPELLINGS = {True: ('y', 'yes', 't', 'true', 'on', '1', 'True', 'TRUE', 'YES'), False: ('n', 'no', 'f', 'false', 'off', '0', 'False', 'FALSE', 'Off')}


def program(**env):
    e = {k: v for k, v in os.environ.items() if k not in ('FORCE_STD_XML', 'REGISTER_NS_PREFIXES')}
    e.update(env)
    r = subprocess.run([sys.executable, '-c', PROGRAM], env=e, capture_output=True, text=True, timeout=300)
    if r.returncode:
        raise Violation('the program fails with %s: %s' % (env, r.stderr[-600:]))
    lib, text = r.stdout.strip().split('\n', 1)
    return lib, text


def setting(force, register):
    def run(ctx):
        env = {}
        if force is not None:
            env['FORCE_STD_XML'] = force[1]
        if register is not None:
            env['REGISTER_NS_PREFIXES'] = register[1]
        lib, text = program(**env)
        is_std = force is not None and force[0]
        ctx.count('evaluations')
        ctx.count('settings checked')
        ctx.cover(force, register)
        ctx.check(lib == ('xml.etree.ElementTree' if is_std else 'lxml.etree'), 'the parser is %s with %s' % (lib, env))
        names = set(re.findall(r'xmlns:(\w+)="urn:', text))
        want = {'top', 'sub', 'el', 'co'}
        if is_std and register is not None and not register[0]:
            ctx.check(not names & want, 'prefixes are registered with %s: %s' % (env, text))
        else:
            ctx.check(names == want, 'prefixes %s with %s: %s' % (sorted(names), env, text))
    return run


def refused(name, value):
    def run(ctx):
        try:
            out = program(**{name: value})
        except Violation:
            ctx.count('settings checked')
            ctx.cover(name, value)
            return
        raise Violation('%s=%r is understood: %s' % (name, value, out))
    return run


def fixed(ctx):
    if not ctx.lxml:
        return
    yield 'setting default', setting(None, None)
    for v in (True, False):
        for s in SPELLINGS[v]:
            yield 'setting std %s' % s, setting((v, s), None)
            yield 'setting prefixes %s' % s, setting((True, 'true'), (v, s))
    for s in ('', '2', 'maybe', 'none', 'null', ' true', 'truee'):
        yield 'setting std %r' % s, refused('FORCE_STD_XML', s)
        yield 'setting prefixes %r' % s, refused('REGISTER_NS_PREFIXES', s)
    yield 'setting prefixes off, lxml', setting((False, '0'), (False, '0'))
