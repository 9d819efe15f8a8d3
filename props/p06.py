import copy

from harness import flow, gen, render, standard
from harness.core import Violation
from harness.spec import BadDefinition

RULE = ('random universes using namespace maps and aliases on models, fields, wrappers and sub-models (overlapping prefixes, default '
        'namespaces, attributes), both directions compared as URI-qualified trees with the reference, documents using other prefixes, '
        'elements and attributes moved to other namespaces; and definitions with one undeclared alias, which must be rejected; '
        'distinct = (shape, ...)')
CASES = {'quick': 2000, 'thorough': 40000}
MIN = {'serializations compared': 500, 'parsed: ok': 500, 'undeclared aliases rejected': 100}
PROFILE = gen.Profile(p_ns=1, p_ns_attrs=.45, p_attr=.4, p_wrapped=.3, p_inherit=.25, models=(1, 4), p_computed=.08, p_tag=.5, p_model_tag=.6,
                      p_root=.2)
OPS = ['attr_ns', 'rename', 'rename', 'attr_add', 'dup', 'drop']


def case(ctx, rng):
    if rng.random() < .25:
        return undeclared(ctx, rng)
    prof = PROFILE if rng.random() < .6 else PROFILE.but(types=dict(mod=4, umod=1, tag=1, coll=3, dct=1.5, td=1, tup=1, prim=2, raw=.5))
    standard.run(ctx, rng, prof, values=2, documents=3, ops=OPS, mutations=(0, 0, 1, 1, 2))


def entities(U):
    for m in U.models.values():
        yield m
        for f in m.fields:
            e = f.ent
            while e is not None:
                yield e
                e = e.inner


def undeclared(ctx, rng):
    U = gen.universe(rng, PROFILE.but(p_mutual=0))      # (incomplete definitions are rejected later)
    bad = gen.eager(copy.deepcopy(U))
    rng.choice(list(entities(bad))).ns = rng.choice(['zz', 'b2', 'xml'])
    try:
        gen.check_definition(bad)
    except BadDefinition as e:
        if 'namespace alias' not in str(e):
            return
    else:
        return
    src = render.render(bad, 'xml')
    from pydantic_xml import errors
    ctx.count('evaluations')
    try:
        env = render.make(bad, src, 'xml', raw=lambda n: n)
    except errors.BaseError:
        ctx.count('undeclared aliases rejected')
        ctx.cover('bad', flow.signature(bad))
        return
    render.unload(env)
    raise Violation('an undeclared namespace alias is accepted', source=src)
