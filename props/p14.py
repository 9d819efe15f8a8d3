from harness import gen, standard

RULE = ('random universes with raw elements as required, optional, repeated, wrapped and nested fields beside other fields; random '
        'raw content; both directions compared with the reference; distinct = (shape, edits, outcome)')
CASES = {'quick': 1500, 'thorough': 25000}
MIN = {'event: raw': 1000, 'serializations compared': 500}
PROFILE = gen.Profile(types=dict(raw=5, coll=3, prim=3, mod=1.5, tup=.5), items=dict(raw=4, prim=1, mod=1), p_opt=.3, p_wrapped=.25,
                      modes=dict(strict=2, ordered=1, unordered=1), extras=dict(none=3, forbid=1))
OPS = ['insert', 'attr_add', 'tail', 'head', 'text', 'dup', 'drop', 'swap']


def case(ctx, rng):
    standard.run(ctx, rng, PROFILE, values=2, documents=3, ops=OPS, mutations=(0, 0, 1, 2, 3), p_assign=.5)
