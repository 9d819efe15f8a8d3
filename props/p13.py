from harness import gen, standard

RULE = ('random universes whose models forbid, ignore or do not mention extra content; documents with foreign elements, attributes, '
        'texts and tails added anywhere; the exact list of reported extras compared with the reference; distinct = (shape, edits, outcome)')
CASES = {'quick': 1800, 'thorough': 30000}
MIN = {'parsed: ok': 300, 'parsed: err': 800}
PROFILE = gen.Profile(extras=dict(none=1, forbid=5, ignore=.5), p_opt=.4, p_default=.3,
                      modes=dict(strict=1.5, ordered=1, unordered=1), p_ns=.3)
OPS = ['insert', 'insert', 'attr_add', 'attr_add', 'tail', 'head', 'text', 'dup', 'attr_ns', 'rename']


def case(ctx, rng):
    prof = PROFILE if rng.random() < .7 else PROFILE.but(p_root=.5, p_wrapped=.5)
    standard.run(ctx, rng, prof, values=2, documents=4, ops=OPS, write=False, mutations=(0, 1, 1, 2, 3))
