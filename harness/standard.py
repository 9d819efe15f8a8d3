"""The common workload: random definitions, instances and documents judged by the reference semantics."""

import collections
import copy
import random
from dataclasses import replace

import pydantic as pd

from . import canon, docs, flow, gen, nodes, render
from .core import Skip

OPS = list(flow.INF_OPS)


def document(ctx, rng, w, inst, ops, nmut, base=None):
    """A document near to the one of the instance."""
    doc = (base or w.ref_ser(inst)).copy()
    doc.tail = ''
    done = []
    for _ in range(nmut):
        op = docs.mutate(rng, doc, w.U, ops)
        if op:
            done.append(op)
            ctx.count('mutation: %s' % op)
    if rng.random() < .4:
        nodes.indent(doc)
    doc.tail = ''
    return doc, tuple(done)


def submodels(inst):
    """All model instances reachable from one, itself included, by class; raw elements under None."""
    out, stack, seen = {}, [inst], set()
    raws = out.setdefault(None, [])
    while stack:
        o = stack.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, pd.BaseModel):
            out.setdefault(type(o), []).append(o)
            stack += [v for v in o.__dict__.values()]
        elif isinstance(o, (list, tuple, set, frozenset, collections.deque)):
            stack += list(o)
        elif isinstance(o, dict):
            stack += list(o.values())
        elif canon.is_native(o):
            raws.append(o)
    return out


def reassign(ctx, rng, inst, other):
    """Give some fields of the instance, and of models inside, values of another one; change containers in place."""
    mine, theirs = submodels(inst), submodels(other)
    classes = [c for c in mine if c and c in theirs and c.model_fields]
    done = 0
    if mine[None] and rng.random() < .6:
        raw = rng.choice(mine[None])
        change = rng.randint(0, 2)
        if change == 0 or change == 1 and len(raw):
            raw.text = (raw.text or '') + 'more'
        elif change == 1:
            raw.append(raw.makeelement('more', {}))
        else:
            raw.set('more', str(len(raw.attrib)))
        done += 1
    for _ in range(rng.choice([1, 1, 2, 4])):
        cls = rng.choice(classes) if rng.random() < .5 else type(inst)
        if cls not in classes:
            continue
        a, b = rng.choice(mine[cls]), rng.choice(theirs[cls])
        name = rng.choice(list(cls.model_fields))
        val, old = copy.deepcopy(getattr(b, name)), getattr(a, name)
        if isinstance(old, list) and isinstance(val, list) and rng.random() < .5:
            old[rng.randint(0, len(old)):] = val
        elif isinstance(old, dict) and isinstance(val, dict) and not cls.model_config.get('frozen') and rng.random() < .5:
            old.update(val)
        else:
            try:
                setattr(a, name, val)
            except pd.ValidationError:
                continue
        done += 1
    return done


def run(ctx, rng, profile, values=2, documents=3, ops=OPS, opts=None, p_flags=.2, write=True, read=True, eas=.15,
        mutations=(0, 0, 1, 1, 2, 3), hows=('unicode', 'unicode', 'utf-8', None, 'tree'), entries=('bytes', 'bytes', 'str', 'tree'),
        extra=None, base_flags=(), world=None,
        p_assign=.2):
    w = world or flow.World(ctx, rng, profile)
    opts = replace(opts or gen.ValueOpts(), p_sub=.2)
    try:
        for _ in range(values):
            try:
                inst = w.instance(opts)
            except Skip as e:
                ctx.count('skipped: %s' % e)
                continue
            if write:
                fl = flow.flags(rng, p_flags)
                how = rng.choice(hows)
                exp = w.check_ser(inst, how, **fl)
                ctx.cover('w', w.sig, sorted(fl))
                ctx.sample('%s\n%r %s -> %s' % (w.src, inst, fl, nodes.show(exp)[:400]))
                if rng.random() < p_assign:
                    try:
                        other = w.instance(opts)
                    except Skip:
                        other = None
                    if other is not None and reassign(ctx, rng, inst, other):
                        w.check_ser(inst, how, **fl)
                        ctx.count('instances changed and written again')
                    twin = rng.choice([copy.copy, copy.deepcopy, lambda i: i.model_copy(), lambda i: i.model_copy(deep=True)])(inst)
                    w.check_ser(twin, how, **fl)
                    ctx.count('copies written')
            if extra:
                extra(ctx, rng, w, inst)
            if not read:
                continue
            for _ in range(documents):
                doc, done = document(ctx, rng, w, inst, list(ops), rng.choice(mutations))
                kw = {'empty_as_string': True} if rng.random() < eas else {}
                try:
                    r = w.check_parse(doc, docs.style(rng), rng.choice(entries), **kw)
                except Skip as e:
                    ctx.count('skipped: %s' % e)
                    continue
                ctx.cover('r', w.sig, done, r[0])
        return w
    finally:
        if world is None:
            w.close()
