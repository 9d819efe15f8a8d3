from harness import gen, standard

RULE = ('random universes dominated by lists, sets, tuples and named tuples of scalars, models, unions, tuples, mappings and raw '
        'elements; both directions, documents with items dropped, repeated, interleaved with others and invalid; distinct = (shape, ...)')
CASES = {'quick': 1800, 'thorough': 30000}
MIN = {'event: items_n': 500, 'event: items_0': 100, 'serializations compared': 500, 'parsed: err': 200}
PROFILE = gen.Profile(
    types=dict(coll=8, tup=2, nt=1.5, prim=1, mod=1), items=dict(prim=4, mod=3, tup=1.5, dct=1, raw=.7, umod=1, tag=1),
    p_attr=.2, fields=(1, 4), p_constraint=.2, p_optitem=.1, p_default=.3, p_wrapped=.25,
    modes=dict(strict=2, ordered=1, unordered=1))
OPS = ['dup', 'dup', 'drop', 'swap', 'shuffle', 'insert', 'rename', 'invalid', 'invalid', 'empty', 'attr_text']


def case(ctx, rng):
    standard.run(ctx, rng, PROFILE, values=2, documents=4, ops=OPS, opts=gen.ValueOpts(items=(0, 5), p_none=.2, p_bulk=.02), mutations=(0, 1, 1, 2, 3, 4))


def fixed(ctx):
    yield 'empty item', empty_item


def empty_item(ctx):
    from typing import List, Optional
    from harness.findings import judge
    from pydantic_xml import BaseXmlModel, element

    class M(BaseXmlModel, tag='m'):
        e: List[str] = element(tag='e')

    class N(BaseXmlModel, tag='m'):
        e: List[Optional[int]] = element(tag='e', nillable=True)

    doc = '<m><e>1</e><e/><e>2</e></m>'
    ctx.check(M.from_xml(doc, empty_as_string=True).e == ['1', '', '2'], 'an empty item is lost in empty as string mode')
    try:
        got = M.from_xml(doc).e
    except Exception as e:
        got = type(e).__name__
    if got == 'ValidationError':
        got = 'ok'      # None reported for the item would be fine as well
    judge(ctx, 'KF-empty-item', got, 'ok', ['1'])
    nil = '<m xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"><e>1</e><e xsi:nil="true"/><e>2</e></m>'
    judge(ctx, 'KF-empty-item', N.from_xml(nil).e, [1, None, 2], [1])
