import copy
from dataclasses import replace

from harness import docs, flow, gen, standard
from harness.core import Skip
from props import p21

RULE = ('random universes with nested models, collections, wrapped fields and constraints; documents spread over many lines with '
        'several invalid, missing and misplaced values; the multiset of (type, location, message with line, input) and the title of '
        'the error compared with the reference; distinct = (shape, edits, outcome)')
CASES = {'quick': 1800, 'thorough': 30000}
MIN = {'parsed: err': 1500, 'errors with inputs hidden': 150, 'errors with inputs shown': 1000}
PROFILE = gen.Profile(p_constraint=.4, p_hide=.25, models=(2, 4), fields=(2, 6), p_opt=.1, p_default=.1, p_wrapped=.3, p_alias=.3, p_ns=.15,
                      types=dict(prim=5, uprim=.6, mod=4, coll=4, tup=1.5, nt=.7, dct=1, td=1, raw=.4, umod=1, tag=.8), p_root=.25,
                      kinds=tuple(gen.prims.COMMON) + ('ltd', 'short') if 'ltd' in gen.prims.PRIMS else tuple(gen.prims.COMMON))
OPS = ['invalid', 'invalid', 'invalid', 'drop', 'attr_drop', 'text', 'attr_text', 'empty', 'rename']


def case(ctx, rng):
    if rng.random() < .2:
        return validators(ctx, rng)
    standard.run(ctx, rng, PROFILE, values=2, documents=4, ops=OPS, write=False, mutations=(1, 2, 3, 4, 5), eas=.1)


def validators(ctx, rng):
    """Errors raised by the validators of users, of every kind and with any text."""
    U = gen.eager(gen.universe(rng, replace(PROFILE, p_computed=0, p_noxml=0, p_exclude=0)))
    plain = flow.World(ctx, rng, None, U=U)
    try:
        U2 = copy.deepcopy(U)
        p21.instrument(rng, U2)
        w = flow.World(ctx, rng, None, U=U2, extra={'CALL': lambda *args: None, 'CHECK': p21.Log().check})
        try:
            for _ in range(2):
                try:
                    inst = plain.instance()
                except Skip as e:
                    ctx.count('skipped: %s' % e)
                    continue
                base = plain.ref_ser(inst)
                for _ in range(4):
                    doc, done = standard.document(ctx, rng, plain, inst, OPS, rng.choice([0, 1, 2, 3]), base=base)
                    try:
                        r = w.check_parse(doc, docs.style(rng), rng.choice(['bytes', 'tree']))
                    except Skip as e:
                        ctx.count('skipped: %s' % e)
                        continue
                    ctx.cover('v', w.sig, done, r[0])
                    ctx.count('with validators: %s' % r[0])
        finally:
            w.close()
    finally:
        plain.close()
