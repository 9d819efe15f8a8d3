import copy
import zlib

import pydantic as pd

from harness import canon, docs, flow, gen, nodes, refparse, standard
from harness.core import Skip, Violation
from harness.spec import Coll, Mod, Opt, Prim, Raw, deps, inner_types, strip_opt

TECHNIQUE = 'runtime monitoring: validators record every call; call logs and outcomes compared with plain pydantic on the same raw strings'
RULE = ('random universes with logging validators of every mode on fields and models (some reject or change values), field constraints, '
        'defaults and model configuration; the outcome and the multiset of validator calls (class, mode, field, value, identity of the context) '
        'compared with plain pydantic models fed by the reference reader; distinct = (shape with validators, edits, outcome)')
CASES = {'quick': 1600, 'thorough': 25000}
MIN = {'parsed: ok': 500, 'parsed: err': 500, 'validator calls compared': 10000, 'context: empty': 500, 'context: filled': 500}
PROFILE = gen.Profile(p_constraint=.3, p_default=.3, p_computed=0, p_exclude=0, p_noxml=0, p_ns=.1, p_alias=.2, p_inherit=.2,
                      types=dict(prim=7, uprim=1, mod=4, coll=3, tup=1, nt=.5, dct=1, td=.6, raw=.5, umod=1, tag=.8),
                      kinds=tuple(gen.prims.COMMON) + ('bounded', 'upper', 'datetime', 'pattern'))
CONFIG = [('str_strip_whitespace', 'True'), ('str_to_upper', 'True'), ('str_to_lower', 'True'), ('validate_default', 'True'),
          ('frozen', 'True'), ('use_enum_values', 'True'), ('strict', 'True'), ('str_max_length', '4'), ('str_min_length', '1'),
          ('allow_inf_nan', 'False'), ('populate_by_name', 'True'), ('validate_assignment', 'True'), ('hide_input_in_errors', 'True'),
          ('coerce_numbers_to_str', 'True')]
KW = {
    'int': ['gt=0', 'le=100', 'multiple_of=2', 'strict=True', 'ge=-5'], 'posint': ['lt=500', 'multiple_of=3'],
    'float': ['gt=0', 'allow_inf_nan=False', 'lt=1e10'], 'str': ["pattern='^[a-zA-Z]'", 'min_length=2', 'max_length=4'],
    'word': ["pattern='^[a-m]'", 'min_length=3', 'max_length=6'], 'decimal': ['max_digits=5', 'decimal_places=2', 'ge=0'],
    'date': ['gt=dt.date(2000, 1, 1)'],
}


def rejects(name, v, share):
    return zlib.crc32(('%s %s' % (name, canon.canon(v, fields_set=False),)).encode()) % 100 < share


def changes(v):
    return v[:-1] if isinstance(v, str) and len(v) > 1 else v


def instrument(rng, U):
    """Adds constraints, configuration and logging validators to the definitions."""
    n = [0]
    order = list(U.models)
    # pydantic itself calls wrapping model validators once or twice depending on when a class is completed
    deferred = any(order.index(d) > order.index(m.name) for m in U.models.values() for d in deps(m))
    for m in U.models.values():
        frozen_base = any('frozen' in U[b].config for b in m.bases)
        for k, v in rng.sample(CONFIG, rng.choice([0, 0, 1, 2])):
            if not (m.root and k in ('title', 'frozen')) and not (k == 'frozen' and m.bases) and not frozen_base:
                m.config[k] = v
        for f in m.fields:
            t = strip_opt(f.type)
            if isinstance(t, Prim) and t.kind in KW and rng.random() < .35 and f.ent is not None and f.default[0] == 'req':
                k, v = rng.choice(KW[t.kind]).split('=', 1)
                f.extra_kwargs[k], f.type_alias, f.harmless = v, '', ''
            if f.default[0] != 'req' and rng.random() < .2 and (f.ent is not None or True):
                f.extra_kwargs['validate_default'] = 'True'
        own = [f for f in m.fields if not f.discriminator]
        own = [f for f in own if not f.name.startswith('kind')]
        for _ in range(rng.choice([0, 1, 1, 2])):
            if not own:
                break
            fs = rng.sample(own, rng.randint(1, min(2, len(own))))
            n[0] += 1
            mode = rng.choice(['before', 'after', 'wrap', 'before', 'after'])
            names = ', '.join(repr(f.name) for f in fs)
            v = 'v%d_%s' % (n[0], m.name)
            share = rng.choice([0, 0, 10, 30])
            m.body += ['@pd.field_validator(%s, mode=%r)' % (names, mode), '@classmethod']
            if mode == 'wrap':
                m.body += ['def %s(cls, v, handler, info):' % v, '    CALL(%r, cls, info.field_name, v, info)' % v,
                           '    v = handler(v)', '    return CHECK(%r, v, %d)' % (v, share)]
            else:
                m.body += ['def %s(cls, v, info):' % v, '    CALL(%r, cls, info.field_name, v, info)' % v,
                           '    return CHECK(%r, v, %d, %r)' % (v, share, mode == 'before' and rng.random() < .2)]
        r = rng.random()
        n[0] += 1
        v = 'm%d_%s' % (n[0], m.name)
        share = rng.choice([0, 0, 10, 30])
        if r < .2:
            m.body += ["@pd.model_validator(mode='before')", '@classmethod', 'def %s(cls, data, info):' % v,
                       '    CALL(%r, cls, None, data, info)' % v, '    return CHECK(%r, data, %d)' % (v, share)]
        elif r < .45:
            m.body += ["@pd.model_validator(mode='after')", 'def %s(self, info):' % v,
                       '    CALL(%r, type(self), None, self, info)' % v, '    return CHECK(%r, self, %d)' % (v, share)]
        elif r < .6 and not deferred:
            m.body += ["@pd.model_validator(mode='wrap')", '@classmethod', 'def %s(cls, data, handler, info):' % v,
                       '    CALL(%r, cls, None, data, info)' % v, '    return CHECK(%r, handler(data), %d)' % (v, share)]
        elif r < .7 and not any(c is not m and any('model_post_init' in l for l in c.body) for c in U.chain(m)):
            m.body += ['def model_post_init(self, context):', '    CALL(%r, type(self), None, self, None)' % v]


class Context(dict):
    pass


class Log:
    def __init__(self):
        self.entries = []
        self.context = None

    def call(self, name, cls, field, value, info):
        token = None
        if info is not None and (info.context is not None or self.context is not None):
            # the very object handed in, so that validators can leave something there
            token = 'given' if info.context is self.context else 'another: %r' % (info.context,)
        self.entries.append((name, cls.__name__, field, canon.canon(value), token))

    def check(self, name, v, share, change=False):
        if share and rejects(name, v, share):
            k = zlib.crc32(name.encode()) % 3
            if k == 0:
                raise ValueError('rejected by %s {x} {{y}} {} %%s %%(a)s' % name)
            if k == 1:
                raise AssertionError('asserted {error} by %s' % name)
            from pydantic_core import PydanticCustomError
            raise PydanticCustomError('custom_kind', 'custom {what} of ' + name, {'what': 'message'})
        return changes(v) if change else v


def case(ctx, rng):
    # pydantic itself calls wrapping model validators once or twice depending on when a class is completed
    U = gen.eager(gen.universe(rng, PROFILE))
    plain = flow.World(ctx, rng, None, U=U)
    U2 = copy.deepcopy(U)
    instrument(rng, U2)
    log = Log()
    extra = {'CALL': log.call, 'CHECK': log.check}
    try:
        w = flow.World(ctx, rng, None, U=U2, extra=extra)
    finally:
        plain_open = True
    try:
        for _ in range(2):
            try:
                inst = plain.instance()
            except Skip:
                continue
            base = plain.ref_ser(inst)
            for _ in range(4):
                doc, done = standard.document(ctx, rng, plain, inst, ['invalid', 'text', 'attr_text', 'drop', 'attr_drop', 'dup', 'empty'],
                                              rng.choice([0, 0, 1, 2, 3]), base=base)
                try:
                    compare(ctx, rng, w, log, doc, done)
                except Skip as e:
                    ctx.count('skipped: %s' % e)
        ctx.sample(w.src)
    finally:
        plain.close()
        w.close()


def compare(ctx, rng, w, log, doc, done):
    text = nodes.write(doc, docs.style(rng))
    context = rng.choice([lambda: None, dict, Context, lambda: {'token': 1}, lambda: Context(token=1), lambda: {'a': {}, 'b': []}])()
    log.context = context
    ctx.count('context: %s' % ('none' if context is None else 'empty' if not context else 'filled'))
    kw = {'empty_as_string': True} if rng.random() < .2 else {}
    exp = []
    for stable in (False, True):
        log.entries = []
        o, p = refparse.parse(w.U, w.es, doc, lines=ctx.lxml, stable=stable, context=context, **kw)
        if o[0] == 'known':
            raise Skip('known finding %s' % o[1])
        exp.append((flow.outcome(o), log.entries))
        if not p.moved:
            break
    log.entries = []
    entry = rng.choice(['bytes', 'tree'])
    data = text.encode() if entry == 'bytes' else flow.tree_of(w.etree, rng, text.encode())
    try:
        act = w.parse(data, entry, context=context, **kw)
    except Exception as e:
        raise Violation('parsing failed: %s: %s' % (type(e).__name__, str(e)[:500]), source=w.src, document=text)
    calls = log.entries
    got = flow.outcome(act)
    ctx.count('evaluations')
    ctx.count('parsed: %s' % got[0])
    ctx.count('validator calls compared', len(calls))
    ctx.cover(w.sig, tuple(sorted(e[:1] for e in calls)), done, got[0])
    for o, c in exp:
        if o == got and sorted(c, key=repr) == sorted(calls, key=repr):
            break
    else:
        o, c = exp[0]
        if o != got:
            raise Violation('wrong outcome: %s' % flow.explain(o, got), source=w.src, document=text, expected=o, got=got)
        a, b = sorted(c, key=repr), sorted(calls, key=repr)
        missing = [x for x in a if a.count(x) > b.count(x)]
        more = [x for x in b if b.count(x) > a.count(x)]
        raise Violation('validators called differently: missing %s, unexpected %s' % ([(x[:2], a.count(x), b.count(x)) for x in missing[:3]], [(x[:2], a.count(x), b.count(x)) for x in more[:3]]), source=w.src, document=text)
    if act[0] == 'ok':
        # the instance satisfies its definition: pydantic accepts its own values again
        ctx.check(type(act[1]) is w.top, 'another class comes back: %r' % type(act[1]), source=w.src, document=text)
