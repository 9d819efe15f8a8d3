from harness import gen, standard
from harness.spec import inner_types, Mod

RULE = ('random universes whose models mix the three search modes; documents with elements shuffled, swapped, repeated, dropped, '
        'renamed and inserted; outcome compared with a reference reader implementing the modes; distinct = (shape, edits, outcome)')
CASES = {'quick': 1800, 'thorough': 30000}
MIN = {'parsed: ok': 500, 'documents with elements out of order': 100, 'documents with skipped elements': 100}
PROFILE = gen.Profile(
    modes=dict(strict=1, ordered=1.3, unordered=1.5), p_opt=.4, p_default=.3, p_wrapped=.3, p_attr=.1, p_text=.1, fields=(2, 6),
    p_ns=.15, p_computed=.03, p_nonadjacent=.3, p_dup=.1,
    types=dict(prim=5, mod=4, coll=4, tup=1, nt=.5, dct=.5, td=.3, raw=.8, umod=1, tag=.6))
OPS = ['drop', 'dup', 'swap', 'swap', 'shuffle', 'shuffle', 'insert', 'insert', 'rename', 'empty']


def case(ctx, rng):
    prof = PROFILE
    if rng.random() < .3:
        prof = PROFILE.but(extras=dict(none=1, forbid=1))
    if rng.random() < .3:
        prof = prof.but(p_wrapped=.7, p_share=.8)
    if rng.random() < .3:
        prof = prof.but(models=(2, 4), types=dict(mod=4, coll=3, prim=2, umod=1), items=dict(mod=3, prim=1))
    standard.run(ctx, rng, prof, values=2, documents=5, ops=OPS, write=False, mutations=(0, 1, 1, 2, 3, 4))
