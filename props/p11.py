from harness import gen, standard

RULE = ('random universes dominated by unions of models (same and different tags, ambiguous and nested), discriminated unions and '
        'scalar unions, alone, optional, wrapped and as items, followed by other fields, in every search mode; documents with invalid '
        'and altered alternatives; both directions compared with the reference; distinct = (shape, edits, outcome)')
CASES = {'quick': 1800, 'thorough': 30000}
MIN = {'event: union': 1000, 'event: union_alternative_failed': 300, 'event: tagged_union': 300, 'serializations compared': 500}
PROFILE = gen.Profile(models=(3, 5), fields=(1, 4), p_model_tag=.3,
                      types=dict(umod=6, tag=2, uprim=2, coll=4, prim=2, raw=.3), items=dict(umod=5, tag=2, prim=1), p_opt=.3, p_ns=.2,
                      modes=dict(strict=1.5, ordered=1, unordered=1), extras=dict(none=3, forbid=1), p_default=.3, p_text=.3, p_inherit=.3,
                      p_wrapped=.2, p_kin=.3)
OPS = ['invalid', 'invalid', 'attr_text', 'attr_text', 'drop', 'dup', 'swap', 'text', 'attr_drop', 'rename', 'insert']


def case(ctx, rng):
    prof = PROFILE if rng.random() < .7 else PROFILE.but(p_tag=.9)
    standard.run(ctx, rng, prof, values=2, documents=4, ops=OPS, mutations=(0, 1, 1, 2, 3))
