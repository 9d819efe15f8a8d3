from harness import gen, standard

RULE = ('random universes with many computed attributes, elements and texts; documents with stale, dropped, repeated or invalid '
        'computed content; both directions compared with the reference; distinct = (shape, ...)')
CASES = {'quick': 1800, 'thorough': 30000}
MIN = {'serializations compared': 500, 'parsed: ok': 500}
PROFILE = gen.Profile(p_computed=.9, p_inherit=.25, p_root=.05, p_alias=.3, extras=dict(none=3, forbid=1))
OPS = ['text', 'attr_text', 'drop', 'dup', 'attr_drop', 'invalid', 'empty']


def case(ctx, rng):
    standard.run(ctx, rng, PROFILE, values=2, documents=3, ops=OPS, p_flags=.25, p_assign=.6)
