import importlib.util
import os
import random
import re
import subprocess
import sys

import pydantic as pd

from harness import findings
from harness.core import Violation

TECHNIQUE = 'runtime monitoring: verdicts of mypy with the plugin compared, call by call, with what running the calls reports'
NOTE = ('Held on the definitions and calls generated and counted in the evidence file, checked by the installed mypy and pydantic plugin; field '
        'declarations made in annotations only are left out because the plugin of pydantic does not see their defaults either.')
RULE = ('modules of random models (specifiers, wrapped declarations, aliases, defaults, factories, frozen fields, inheritance, generics, root models, '
        'configuration) with random constructor calls and assignments; one evaluation is one call or assignment judged by both mypy and execution; '
        'distinct = (declaration, given or not, verdict)')
CASES = {'quick': 96, 'thorough': 1200}
SHARDS = 8
BACKENDS = ('lxml',)
COVERAGE = False
MIN = {'calls compared': 15000, 'calls that fail': 5000, 'missing arguments': 4000, 'unexpected arguments': 1500, 'assignments compared': 3000, 'frozen': 600, 'calls with dynamic aliases': 800, 'calls with dynamic aliases that work': 150}

HEAD = '''from typing import Annotated, Any, ClassVar, Dict, Generic, List, Optional, Tuple, TypeVar, Union
import pydantic
from pydantic import ConfigDict, Field, PrivateAttr
import pydantic_xml
import pydantic_xml as px
from pydantic_xml import BaseXmlModel, RootXmlModel, attr, computed_attr, computed_element, element, wrapped
from pydantic_xml.element import SearchMode
from pydantic_xml import element as el
from pydantic_xml.fields import attr as at

V: Any = None


def make() -> int:
    return 3


class Sub(BaseXmlModel, tag='sub'):
    x: int = attr(default=1)


T = TypeVar('T')


'''
TYPES = [('int', '1'), ('str', "'t'"), ('float', '2.5'), ('bool', 'True'), ('Optional[int]', 'None'), ('List[int]', '[1]'), ('Sub', 'Sub()'),
         ('Dict[str, str]', '{}'), ('Tuple[int, str]', "(1, 'a')"), ('Optional[Sub]', 'None'), ('Union[int, str]', '4'), ("'int'", '1')]
VALUES = dict(TYPES, **{'List[Sub]': '[]', 'T': '1'})
DEFAULTS = {'int': '7', 'str': "'d'", 'float': '.5', 'bool': 'False', 'Optional[int]': 'None', 'List[int]': '[]', 'Sub': 'Sub()', 'Dict[str, str]': '{}',
            'Tuple[int, str]': "(0, '')", 'Optional[Sub]': 'None', 'Union[int, str]': '0', "'int'": '7'}
FACTORIES = {'int': 'make', 'List[int]': 'list', 'Dict[str, str]': 'dict', 'Sub': 'Sub', 'str': "lambda: 'x'", 'Optional[int]': 'make', "'int'": 'make'}


class F:
    pass


def spec(rng, f, n):
    """The right hand side of a field."""
    t = f.type
    args = []
    r = rng.random()
    f.how = 'required'
    if r < .3:
        args.append('default=' + DEFAULTS[t])
        f.how = 'default'
    elif r < .45 and t in FACTORIES:
        args.append('default_factory=' + FACTORIES[t])
        f.how = 'factory'
    elif r < .55:
        args.append('default=...')
        f.how = 'ellipsis'
    f.alias = None
    r = rng.random()
    if r < .15:
        args.append("alias='al%d'" % n)
        f.alias = 'al%d' % n
    elif r < .25:
        args.append("validation_alias='va%d'" % n)
        f.alias = 'va%d' % n
    elif r < .3:
        args += ["alias='al%d'" % n, "validation_alias='va%d'" % n]
        f.alias = 'va%d' % n
    if rng.random() < .15:
        args.append("serialization_alias='sa%d'" % n)
    f.frozen = False
    if rng.random() < .2:
        f.frozen = rng.random() < .7
        args.append('frozen=%s' % f.frozen)
    if rng.random() < .15:
        args.append("title='t'")
    if rng.random() < .1:
        args.append("description='default'")
    if rng.random() < .1 and t in ('int', 'str', 'float', 'bool', "'int'"):
        args.append('strict=%s' % (rng.random() < .5))
    if rng.random() < .1:
        args.append('repr=False')
    rng.shuffle(args)
    scalar = t not in ('List[int]', 'Sub', 'Dict[str, str]', 'Tuple[int, str]', 'Optional[Sub]')
    k = rng.random()
    f.route = 'plain'
    f.frozen_in = 'spec'
    if k < .1 and not args and (t in ('Sub', 'Optional[Sub]')):
        return None
    if k < .15 and (scalar is False and t in ('Sub', 'Optional[Sub]', 'Dict[str, str]')):
        f.route = 'Field'
        return 'Field(%s)' % ', '.join(args)
    fn = rng.choice(['element', 'el', 'px.element', 'pydantic_xml.element'])
    if scalar and rng.random() < .5:
        fn = rng.choice(['attr', 'at', 'px.attr', 'pydantic_xml.fields.attr'])
    f.route = 'attr' if 'at' in fn.split('.')[-1][:2] else 'element'
    own = rng.choice([[], ["'n%d'" % n], ["%s='n%d'" % ('name' if f.route == 'attr' else 'tag', n)]])
    if own and rng.random() < .1:
        own = own + (["ns=None"])
    if f.route == 'element' and scalar and rng.random() < .1:
        own = own + ['nillable=True']
    if rng.random() < .6:
        return '%s(%s)' % (fn, ', '.join(own + args))
    # the arguments belong to the inner or to the outer declarations
    depth = rng.choice([1, 1, 2])
    inner = [a for a in args if rng.random() < .5]
    outer = [a for a in args if a not in inner]
    if f.how == 'ellipsis' and any(a.startswith('default=') for a in args):
        inner = [a for a in inner if not a.startswith('default=')]
        outer = [a for a in outer if not a.startswith('default=')]
        f.how = 'required'
    # an alias of both kinds stays together
    if any('alias' in a for a in inner) and any('alias' in a for a in outer):
        inner += [a for a in outer if 'alias' in a]
        outer = [a for a in outer if 'alias' not in a]
    e = '%s(%s)' % (fn, ', '.join(own + inner))
    w = rng.choice(['wrapped', 'px.wrapped', 'pydantic_xml.fields.wrapped'])
    kw = rng.random() < .2
    for i in range(depth):
        last = i == depth - 1
        e = "%s('w%d%d', %s%s)" % (w, n, i, 'entity=' if kw else '', e + ''.join(', ' + a for a in (outer if last else [])))
    f.route = 'wrapped ' + f.route
    return e


def module(rng, prefix, n_models=45):
    out = [HEAD]
    models = []
    n = 0
    for i in range(n_models):
        m = F()
        m.name = '%s%d' % (prefix, i)
        m.fields = {}
        bases = [b for b in models if not b.root and not b.generic and not b.frozen and not b.dynamic]
        m.base = rng.choice(bases) if bases and rng.random() < .25 else None
        m.root = m.base is None and rng.random() < .12
        m.generic = not m.root and m.base is None and rng.random() < .1
        m.frozen = m.by_name = m.forbid = m.dynamic = False
        if m.base:
            m.fields.update(m.base.fields)
            m.by_name, m.forbid = m.base.by_name, m.base.forbid
        kw, cfg = [], []
        if rng.random() < .5:
            kw.append("tag='t%d'" % i)
        if rng.random() < .2:
            kw.append(rng.choice(["search_mode=SearchMode.ORDERED", 'skip_empty=True', "nsmap={'p': 'urn:p'}", "ns='p', nsmap={'p': 'urn:p'}", 'ns_attrs=False']))
        if not m.root:
            if rng.random() < .5 and not m.forbid:
                m.forbid = True
                (kw if rng.random() < .4 else cfg).append("extra='forbid'")
            if rng.random() < .12:
                m.frozen = True
                cfg.append('frozen=True')
            if rng.random() < .15 and not m.by_name:
                m.by_name = True
                cfg.append('populate_by_name=True')
        body = []
        if cfg and any('extra' in k for k in kw):
            kw, cfg = kw + cfg, []
        if cfg:
            body.append('model_config = ConfigDict(%s)' % ', '.join(cfg))
        if rng.random() < .1:
            body.append("klass: ClassVar[int] = 3")
        if rng.random() < .1 and not m.root:
            body.append("_private: int = PrivateAttr(default=1)")
        if m.root:
            f = F()
            f.name, f.n = 'root', n
            f.type = rng.choice(['int', 'str', 'Optional[int]', 'List[int]', 'Sub', 'Dict[str, str]'])
            f.rhs = spec(rng, f, n) if rng.random() < .6 else None
            n += 1
            base = 'RootXmlModel[%s]' % f.type
            if f.rhs is None:
                f.route, f.how, f.alias, f.frozen = 'none', 'required', None, False
                if f.type == 'List[int]':
                    base, f.type = 'RootXmlModel[List[Sub]]', 'List[Sub]'
            else:
                # a root has no aliases and no name of its own
                for a in (r"serialization_alias='\w+'", r"validation_alias='\w+'", r"alias='\w+'"):
                    f.rhs = re.sub(r'(, )?\b' + a, '', f.rhs)
                f.rhs = f.rhs.replace('(, ', '(')
                if not re.search(r"'n\d+'", f.rhs) and f.route != 'Field':
                    f.rhs = re.sub(r'\b(element|attr|el|at)\(', r"\1('n%d', " % n, f.rhs).replace(', )', ')')
                if f.type == 'List[int]':
                    base = 'RootXmlModel'
                body.append('root: %s = %s' % (f.type, f.rhs))
            f.alias = None
            out.append('class %s(%s):' % (m.name, ', '.join([base] + kw)))
            out += ['    ' + l for l in body or ['pass']] + ['', '']
            m.fields['root'] = f
            models.append(m)
            continue
        for _ in range(rng.randint(0 if m.base else 1, 6)):
            f = F()
            n += 1
            f.name = 'f%d' % n
            if m.base and m.base.fields and rng.random() < .25:
                f.name = rng.choice(list(m.base.fields))
            if f.name in m.fields and not (m.base and m.fields[f.name] is m.base.fields.get(f.name)):
                continue
            f.type = rng.choice(TYPES)[0]
            if f.name in m.fields:
                f.type = m.fields[f.name].type
                if f.type == 'T':
                    continue
            f.rhs = spec(rng, f, n)
            if f.rhs is None:
                f.route, f.how, f.alias, f.frozen = 'none', 'required', None, False
                if rng.random() < .4:
                    f.rhs, f.how = DEFAULTS[f.type], 'default'
            if m.generic and rng.random() < .4 and 'strict' not in (f.rhs or '') and f.how in ('required', 'ellipsis') and f.type in ('int', 'str'):
                f.type = 'T'
            f.dynamic = False
            if f.alias and not m.by_name and rng.random() < .12 and not (m.base and f.name in m.base.fields):
                # a name that mypy does not know: a variable or an alias of pydantic
                name = 'NAME%d' % n
                out.append('%s = %r + %r\n\n' % (name, f.alias[:2], f.alias[2:]))
                value = name if rng.random() < .6 or 'validation_alias' not in f.rhs else rng.choice([
                    'pydantic.AliasChoices(%r)' % f.alias, 'pydantic.AliasPath(%r)' % f.alias])
                key = 'validation_alias' if re.search(r'\bvalidation_alias=', f.rhs) else 'alias'
                f.rhs = re.sub(r"\b%s='%s'" % (key, f.alias), '%s=%s' % (key, value), f.rhs)
                f.dynamic = m.dynamic = True
            m.fields[f.name] = f
            body.append('%s: %s%s' % (f.name, f.type, ' = ' + f.rhs if f.rhs else ''))
        if rng.random() < .15:
            dec = rng.choice(['computed_attr', "computed_attr(name='c')", 'computed_element', 'pydantic.computed_field'])
            # a decorator without a call leaves the property visible to mypy
            body += ['@%s  # type: ignore' % dec, '@property', 'def comp%d(self) -> int:' % i, '    return 1']
        base = m.base.name if m.base else 'BaseXmlModel'
        out.append('class %s(%s):' % (m.name, ', '.join([base] + (['Generic[T]'] if m.generic else []) + kw)))
        out += ['    ' + l for l in body or ['pass']] + ['', '']
        models.append(m)
    # the known finding is met in every module
    m = F()
    m.name, m.base, m.root, m.generic, m.frozen, m.by_name, m.forbid, m.dynamic = prefix + 'Root', None, True, False, False, False, False, False
    f = F()
    f.name, f.type, f.how, f.route, f.alias, f.frozen = 'root', 'int', 'default', 'wrapped element', None, False
    m.fields = {'root': f}
    out += ["class %s(RootXmlModel[int]):" % m.name, "    root: int = wrapped('w', element('n', default=1))", '', '']
    calls = [(m, m.name + '()'), (m, m.name + '(2)')]
    models.append(m)
    for m in models[:-1]:
        for _ in range(6):
            given, named = [], []
            callee = m.name + ('[int]' if m.generic and rng.random() < .5 else '')
            for f in m.fields.values():
                if rng.random() < .72:
                    given.append(f)
                    named.append((f.alias if f.alias and not m.by_name else f.name, VALUES[f.type]))
            if rng.random() < .25 and m.forbid:
                named.append(('extra%d' % rng.randint(0, 9), '1'))
            if rng.random() < .12 and not m.by_name and m.forbid:
                # the field name instead of the alias
                named = [(f.name if f.alias and v == VALUES[f.type] and k == f.alias else k, v) for (k, v), f in zip(named, given + [F()] * 9) if hasattr(f, 'name')]
            seen = set()
            named = [(k, v) for k, v in named if not (k in seen or seen.add(k))]
            rng.shuffle(named)
            if m.root and named and rng.random() < .6:
                text = '%s(%s)' % (callee, named[0][1])
            else:
                text = '%s(%s)' % (callee, ', '.join('%s=%s' % kv for kv in named))
            calls.append((m, text))
    lines = '\n'.join(out).split('\n')
    at = {}
    for k, (m, text) in enumerate(calls):
        lines += ['def call%d() -> Any:' % k, '    return %s' % text, '', '']
        at[len(lines) - 2] = ('call', k, m, text)
    sets = []
    for m in models:
        if m.root:
            continue
        for f in m.fields.values():
            # the plugin of pydantic loses what is frozen in a base
            inherited = m.base and m.base.fields.get(f.name) is f and f.frozen
            if rng.random() < .5 and not inherited:
                k = len(sets)
                text = 'm.%s = %s' % (f.name, VALUES[f.type] if f.type != 'T' else 'V')
                sets.append((m, f, text))
                lines += ['def set%d(m: "%s") -> None:' % (k, m.name + ('[Any]' if m.generic else '')), '    ' + text, '', '']
                at[len(lines) - 2] = ('set', k, m, text)
    return '\n'.join(lines), at, models, calls, sets


def load(path):
    name = os.path.basename(path)[:-3]
    s = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(s)
    sys.modules[name] = mod
    s.loader.exec_module(mod)
    return mod


def runtime_call(mod, k):
    try:
        getattr(mod, 'call%d' % k)()
    except pd.ValidationError as e:
        errs = e.errors()
        missing = {str(x['loc'][0]) if x['loc'] else 'root' for x in errs if x['type'] == 'missing'}
        extra = {str(x['loc'][0]) for x in errs if x['type'] == 'extra_forbidden'}
        other = [x['type'] for x in errs if x['type'] not in ('missing', 'extra_forbidden')]
        # a root that is missing
        if any(x['loc'] == () for x in errs):
            missing.add('root')
        return missing, extra, other
    return set(), set(), []


def runtime_set(mod, k, m):
    obj = getattr(mod, m.name).model_construct()
    try:
        getattr(mod, 'set%d' % k)(obj)
    except pd.ValidationError as e:
        return {x['type'] for x in e.errors()} & {'frozen_field', 'frozen_instance'} != set()
    return False


CONFIGS = ['', '[pydantic-mypy]\ninit_typed = True\n', '[pydantic-mypy]\nwarn_required_dynamic_aliases = True\n']


def case(ctx, rng):
    scratch = os.environ.get('VERIF_SCRATCH', '/tmp')
    d = os.path.join(scratch, 'mypy-%d-%s' % (os.getpid(), ctx.case_id))
    os.makedirs(d)
    name = 'mod_%s' % ctx.case_id
    path = os.path.join(d, name + '.py')
    text, at, models, calls, sets = module(rng, 'M')
    with open(path, 'w') as f:
        f.write(text)
    with open(os.path.join(d, 'mypy.ini'), 'w') as f:
        f.write('[mypy]\nplugins = pydantic_xml.mypy\nfollow_imports = silent\nshow_error_codes = True\n' + CONFIGS[rng.randrange(len(CONFIGS))])
    try:
        mod = load(path)
    except Exception as e:
        tb = e.__traceback__
        while tb and tb.tb_frame.f_code.co_filename != path:
            tb = tb.tb_next
        no = tb.tb_lineno if tb else 1
        raise Violation('a module of supported definitions is rejected: %s: %s' % (type(e).__name__, str(e)[:500]),
                        source='\n'.join(text.split('\n')[no - 1:no + 12]))
    out = mypy(d, name, scratch)
    errors = {}
    for l in out.splitlines():
        m = re.match(r'%s\.py:(\d+): error: (.*)$' % name, l)
        if m:
            errors.setdefault(int(m[1]), []).append(m[2])
    lines = text.split('\n')
    for no, msgs in sorted(errors.items()):
        if no not in at:
            if all('dynamic alias' in x for x in msgs):
                ctx.count('reports on dynamic aliases')      # asked for by the configuration
                continue
            ctx.check(not any(re.search(r'\[(call-arg|pydantic-\w+|misc|call-overload)\]', x) for x in msgs),
                      'a definition that works is reported by mypy: %s: %s' % (lines[no - 1].strip(), msgs), source=text)
            ctx.count('other reports on definitions')
    for no, (what, k, m, expr) in at.items():
        msgs = errors.get(no, [])
        ctx.count('evaluations')
        src = '\n'.join(l for l in definition(lines, m)) + '\n\n' + expr
        if what == 'call':
            miss, extra, other = runtime_call(mod, k)
            if other:
                ctx.count('calls with other errors')
                if m.root:
                    continue
            amiss, aextra = set(), set()
            for x in msgs:
                for g in re.findall(r'Missing named arguments? (.*?) for', x):
                    amiss |= set(re.findall(r'"(\w+)"', g))
                g = re.search(r'Missing positional arguments? (.*) in call', x)
                if g:
                    amiss |= set(re.findall(r'"(\w+)"', g[1]))
                aextra |= set(re.findall(r'Unexpected keyword argument "(\w+)"', x))
                if 'Too many' in x or 'Too few' in x:
                    aextra.add(x)
            # a missing argument may be reported under its name or under its alias
            names = {f.alias: f.name for f in m.fields.values() if f.alias}
            miss, amiss = {names.get(x, x) for x in miss}, {names.get(x, x) for x in amiss}
            ctx.count('calls compared')
            ctx.count('calls that fail', bool(miss or extra))
            ctx.count('missing arguments', len(miss))
            ctx.count('unexpected arguments', len(extra))
            if m.dynamic:
                # mypy can not know the names: it lets everything pass but what is missing otherwise
                ctx.count('calls with dynamic aliases')
                ctx.count('calls with dynamic aliases that work', not (miss or extra))
                miss = {x for x in miss if not getattr(m.fields.get(x), 'dynamic', False)}
                extra = set()
            if m.root and not extra and (miss, amiss) != (set(), set()) and m.fields['root'].route.startswith('wrapped') and miss != amiss:
                if (sorted(miss), sorted(amiss)) == ([], ['root']):
                    findings.judge(ctx, 'KF-mypy-root', amiss, miss, {'root'}, expr)
                    continue
            # mypy does not go on to missing arguments once it has seen an unexpected one
            if aextra != extra or miss != amiss and not (extra and not amiss):
                raise Violation('running %s: missing %s, unexpected %s; mypy: missing %s, unexpected %s' % (
                    expr, sorted(miss), sorted(extra), sorted(amiss), sorted(aextra)), source=src, reports=msgs, module=text)
            for f in m.fields.values():
                ctx.cover(f.how, f.route, bool(f.alias), m.by_name, m.forbid, bool(m.base), m.generic, (f.alias or f.name) in miss)
            ctx.sample('%s -> missing %s unexpected %s' % (src[-600:], sorted(miss), sorted(extra)))
        else:
            frozen = runtime_set(mod, k, m)
            read_only = any('read-only' in x for x in msgs)
            ctx.count('assignments compared')
            ctx.count('frozen', frozen)
            ctx.cover('set', expr.split('=')[0], frozen)
            ctx.check(frozen == read_only, 'the assignment %s %s when run, mypy says %s' % (
                expr, 'fails' if frozen else 'works', msgs or 'nothing'), source=src, module=text)
    sys.modules.pop(name, None)


def definition(lines, m):
    out = []
    if m.base:
        out += definition(lines, m.base)
    i = next(k for k, l in enumerate(lines) if l.startswith('class %s(' % m.name))
    while lines[i].strip():
        out.append(lines[i])
        i += 1
    return out


def mypy(d, name, scratch):
    from harness import core
    env = dict(os.environ, PYTHONPATH=core.REPO, MYPYPATH=core.REPO)
    cache = os.path.join(scratch, 'cache-%d' % os.getpid())
    r = subprocess.run([sys.executable, '-m', 'mypy', '--config-file', 'mypy.ini', '--cache-dir', cache, name + '.py'], cwd=d, env=env,
                       capture_output=True, text=True, timeout=400)
    if r.returncode not in (0, 1) or 'INTERNAL ERROR' in r.stderr + r.stdout:
        raise Violation('mypy does not work with the plugin: %s' % (r.stdout + r.stderr)[-1500:])
    return r.stdout
