from harness import gen, prims, standard

RULE = ('random universes with many nillable elements (scalars, sub-models, unions, tuples, wrapped), instances with None, documents '
        'with xsi:nil marks of every lexical form put on random elements; both directions compared with the reference; '
        'distinct = (shape, options or edits, outcome)')
CASES = {'quick': 1800, 'thorough': 30000}
MIN = {'serializations compared': 500, 'event: nil': 300}
PROFILE = gen.Profile(kinds=tuple(prims.COMMON) + ('void', 'void'), p_nillable=.8, p_opt=.7, p_none_default=1, p_attr=.1, p_text=.1, p_ns=.2, p_default=.05, p_optitem=.1,
                      types=dict(prim=6, uprim=1, mod=4, tup=2, nt=1, coll=1, umod=2, tag=.7, dct=.3, raw=.3))
OPS = ['nil', 'nil', 'nil', 'text', 'empty', 'drop']


def case(ctx, rng):
    standard.run(ctx, rng, PROFILE, values=3, documents=4, ops=OPS, opts=gen.ValueOpts(p_none=.5, p_unset=.2, p_empty=.12), mutations=(0, 1, 1, 2, 3))


def fixed(ctx):
    yield 'nil with a default', nil_default


def nil_default(ctx):
    from typing import Optional
    from harness.findings import judge
    from pydantic_xml import BaseXmlModel, element

    class M(BaseXmlModel, tag='m'):
        e: Optional[int] = element(default=5, nillable=True)

    class R(BaseXmlModel, tag='m'):
        e: Optional[int] = element(nillable=True)

    doc = '<m xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"><e xsi:nil="true">7</e></m>'
    judge(ctx, 'KF-nil-default', M.from_xml(doc).e, None, 5)
    try:
        got = R.from_xml(doc).e
    except Exception as e:
        got = type(e).__name__
    judge(ctx, 'KF-nil-default', got, None, 'ValidationError')
