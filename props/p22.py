import copy

from harness import docs, flow, gen, nodes, refparse, spec, standard
from harness.core import Skip, Violation

TECHNIQUE = 'runtime monitoring: every entry point driven with the same content; outcomes, exceptions and validator contexts compared'
RULE = ('random universes; the same document given as str, as bytes in ten encodings, as tree, as part of a larger tree and with '
        'parser options, in both text modes and with a validation context, to the declared and to other classes, with right, wrong and '
        'missing root names, well-formed or damaged; every output option of the backend through to_xml and by formatting to_xml_tree; '
        'distinct = (shape, encoding or option, outcome)')
CASES = {'quick': 1200, 'thorough': 20000}
MIN = {'parsed: ok': 1000, 'parsed: err': 200, 'parsed: root': 300, 'malformed documents': 300, 'outputs compared': 1000,
       'contexts seen': 1000}
PROFILE = gen.Profile(p_text=.35, p_odd_names=.1)

ENCODINGS = [  # python codec, declared name, byte order mark
    ('utf-8', None, b''), ('utf-8', 'UTF-8', b''), ('utf-8', 'utf-8', b'\xef\xbb\xbf'), ('utf-8', None, b'\xef\xbb\xbf'),
    ('utf-16-le', 'UTF-16', b'\xff\xfe'), ('utf-16-be', 'UTF-16', b'\xfe\xff'), ('utf-16-le', None, b'\xff\xfe'),
    ('iso-8859-1', 'ISO-8859-1', b''), ('us-ascii', 'US-ASCII', b''), ('cp1252', 'windows-1252', b''), ('koi8-r', 'KOI8-R', b''),
]


class Seen(list):
    context = None      # the one given by the caller: validators get this very object


def case(ctx, rng):
    U = gen.universe(rng, PROFILE)
    for m in U.models.values():
        m.body += ["@pd.model_validator(mode='before')", '@classmethod', 'def ctx_%s(cls, data, info):' % m.name,
                   '    CTX(cls.__name__, info.context)', '    return data']
    seen = Seen()
    w = flow.World(ctx, rng, None, U=U, extra={'CTX': lambda n, c: seen.append((n, repr(c), c is seen.context))})
    try:
        for _ in range(2):
            try:
                inst = w.instance(gen.ValueOpts(p_empty=rng.choice([0, .2])))
            except Skip as e:
                ctx.count('skipped: %s' % e)
                continue
            ctx.sample('%s\n%r' % (w.src, inst))
            outputs(ctx, rng, w, inst)
            base = w.ref_ser(inst)
            for _ in range(2):
                doc, done = standard.document(ctx, rng, w, inst, ['root', 'root'] + standard.OPS, rng.choice([0, 0, 1, 1, 2]), base=base)
                try:
                    entries(ctx, rng, w, doc, seen)
                except Skip as e:
                    ctx.count('skipped: %s' % e)
            damaged(ctx, rng, w, base)
    finally:
        w.close()


def entries(ctx, rng, w, doc, seen):
    st = docs.style(rng)
    st.decl = False
    st.cdata = 0
    if any(ord(c) > 127 for c in ''.join(nodes.PREFIXES)):
        st.prefixes = 'fixed'
    text = nodes.write(doc, st)
    kw = {'empty_as_string': True} if rng.random() < .3 else {}
    context = rng.choice([None, {'n': rng.randint(0, 9)}, {'n': {'m': 1}}, {}])
    if context is not None or rng.random() < .3:
        kw['context'] = context
    seen.context = kw.get('context')
    exp, logs = [], []
    for stable in (False, True):
        seen.clear()
        o, p = refparse.parse(w.U, w.es, doc, lines=ctx.lxml, stable=stable, **kw)
        if o[0] == 'known':
            raise Skip('known finding %s' % o[1])
        exp.append(flow.outcome(o))
        logs.append(sorted(seen))
        if not p.moved:
            break
    variants = [('str', text, 'bytes', {})]
    encs = rng.sample(ENCODINGS, 3)
    for codec, name, bom in encs:
        head = '<?xml version="1.0"%s?>' % (' encoding="%s"' % name if name else '') if name or rng.random() < .5 else ''
        try:
            (w.src + ''.join(n.tag for n in doc.walk()) + ''.join(k for n in doc.walk() for k in n.attrib)).encode(codec)
            data = bom + (head + text).encode(codec, 'xmlcharrefreplace')
        except UnicodeError:
            continue
        variants.append(('%s %s %s' % (codec, name, bom), data, 'bytes', {}))
    etree = w.etree
    variants.append(('tree', etree.fromstring(text.encode()), 'tree', {}))
    # text following an element counts as part of it
    outer = '<o:outer xmlns:o="urn:outer" a="1">before<x-x/>%s <y>z</y></o:outer>' % text
    part = next(c for c in etree.fromstring(outer.encode()) if isinstance(c.tag, str) and c.tag != 'x-x')
    variants.append(('part of a tree', part, 'tree', {}))
    if ctx.lxml:
        variants.append(('parser', text.encode(), 'bytes', {'parser': etree.XMLParser(
            remove_comments=rng.random() < .5, remove_pis=rng.random() < .5, huge_tree=True, ns_clean=rng.random() < .5,
            strip_cdata=rng.random() < .5, collect_ids=rng.random() < .5)}))
        variants.append(('base_url', text.encode(), 'bytes', {'base_url': 'http://x.example/'}))
    else:
        variants.append(('parser', text.encode(), 'bytes', {'parser': etree.XMLParser(
            target=etree.TreeBuilder(insert_comments=True, insert_pis=True))}))
        variants.append(('parser kw', text.encode(), 'bytes', {'parser': etree.XMLParser(encoding='utf-8')}))
    for what, data, entry, more in variants:
        seen.clear()
        try:
            act = w.parse(data, entry, **kw, **more)
        except Exception as e:
            raise Violation('%s: parsing failed: %s: %s' % (what, type(e).__name__, str(e)[:500]), source=w.src, document=repr(data))
        got = flow.outcome(act)
        ctx.count('evaluations')
        ctx.count('parsed: %s' % got[0])
        ctx.count('contexts seen', len(seen))
        ctx.count('entry: %s' % what)
        ctx.cover(w.sig, what, sorted(kw), got[0])
        if got not in exp:
            raise Violation('%s: wrong outcome: %s' % (what, flow.explain(exp[0], got)), source=w.src, document=repr(data), options=kw)
        if not any(o == got and sorted(seen) == log for o, log in zip(exp, logs)):
            raise Violation('%s: contexts %s instead of %s' % (what, sorted(seen), logs), source=w.src, document=repr(data))
        if act[0] == 'root':
            from pydantic_xml import ParsingError
            ctx.check(type(act[1]) is ParsingError and str(act[1]), 'not the parsing error of the library: %r' % act[1])
    # other classes of the same module insist on their own name
    other = rng.choice(list(w.U.models.values()))
    if spec.root_elem(w.U, other) != doc.tag:
        act = w.parse(text.encode(), cls=w.ex[other.name], **kw)
        ctx.count('parsed: %s' % act[0])
        ctx.count('evaluations')
        ctx.check(act[0] == 'root', 'a document is accepted as an instance of another class: %s' % (act,), source=w.src, document=text)


def damaged(ctx, rng, w, base):
    """Text that may not be well formed: the backend decides and nothing else."""
    text = nodes.write(base, nodes.PLAIN)
    r = rng.random()
    if r < .25:
        text = text[:rng.randrange(len(text))]
    elif r < .5:
        i = rng.randrange(len(text))
        text = text[:i] + rng.choice(['<', '&', '>', '"', '</x>', '\x01', '<a', '&#0;', '<?xml?>', '&nbsp;']) + text[i:]
    elif r < .75:
        i = rng.randrange(len(text))
        text = text[:i] + text[i + rng.randint(1, 4):]
    else:
        text = rng.choice(['', ' ', 'x', ' ' + text, text + text, text + 'x', '<a', '<?xml version="1.0" encoding="nope"?>' + text,
                           '<?xml version="1.0" encoding="us-ascii"?>\xe9' + text, '<!DOCTYPE a [<!ENTITY e "v">]>' + text])
    data = text.encode() if rng.random() < .6 else text
    more = {'parser': w.etree.XMLParser(recover=True)} if ctx.lxml and rng.random() < .3 else {}

    def attempt(f):
        try:
            return flow.outcome(f())
        except Exception as e:
            return ('exc', type(e).__name__, str(e))

    try:
        tree = w.etree.fromstring(data, **more)
        if tree is None:
            return      # a recovering parser may find nothing at all
        exp = attempt(lambda: w.parse(tree, 'tree'))
    except Exception as e:
        exp = ('exc', type(e).__name__, str(e))
        ctx.count('malformed documents')
    if ctx.lxml and more:
        more = {'parser': w.etree.XMLParser(recover=True)}
    got = attempt(lambda: w.parse(data, 'bytes', **more))
    ctx.count('evaluations')
    ctx.cover(w.sig, 'damaged', exp[:2] if exp[0] == 'exc' else exp[0])
    ctx.check(got == exp, 'from_xml gives %s, parsing a tree %s' % (flow.short(got), flow.short(exp)), source=w.src, document=repr(data))


def outputs(ctx, rng, w, inst):
    exp = w.ref_ser(inst)
    exp.tail = ''
    for _ in range(3):
        fl = flow.flags(rng)
        kw = {}
        if rng.random() < .85:
            kw['encoding'] = rng.choice(['unicode', 'utf-8', 'UTF-8', 'utf-16', 'iso-8859-1', 'us-ascii', 'cp1252'] + ([str] if ctx.lxml else []))
        if rng.random() < .4 and kw.get('encoding') not in ('unicode', str):
            kw['xml_declaration'] = rng.random() < .6
        pretty = False
        if ctx.lxml:
            if rng.random() < .3:
                kw['pretty_print'] = pretty = True
            if rng.random() < .1:
                kw['with_tail'] = False
            if rng.random() < .1 and kw.get('encoding') not in ('unicode', str):
                kw['standalone'] = rng.random() < .5
            if rng.random() < .1:
                kw['method'] = rng.choice(['text', 'html', 'xml', 'c14n'])
            if rng.random() < .1:
                kw['doctype'] = '<!DOCTYPE any>'
        else:
            if rng.random() < .3:
                kw['short_empty_elements'] = rng.random() < .5
            if rng.random() < .1:
                kw['method'] = rng.choice(['text', 'html', 'xml'])
            if rng.random() < .1:
                kw['default_namespace'] = rng.choice(gen.URIS)

        def attempt(f):
            try:
                return f()
            except Exception as e:
                return ('exc', type(e).__name__, str(e))

        try:
            tree = inst.to_xml_tree(**fl)
        except Exception as e:
            raise Violation('serialization failed: %s: %s' % (type(e).__name__, str(e)[:500]), source=w.src, instance=repr(inst), flags=fl)
        a = attempt(lambda: w.etree.tostring(tree, **kw))
        b = attempt(lambda: inst.to_xml(**fl, **kw))
        ctx.count('evaluations')
        ctx.count('outputs compared')
        ctx.cover('out', w.sig, sorted(fl), sorted((k, str(v)) for k, v in kw.items()))
        ctx.check(type(a) is type(b) and a == b, 'to_xml(%s, %s) gives %r, formatting the tree %r' % (fl, kw, b, a), source=w.src, instance=repr(inst))
        got = nodes.from_native(tree, tail=False)
        e = w.ref_ser(inst, **fl) if fl else exp
        e.tail = ''
        ctx.check(got == e, 'wrong document %s: %s' % (fl, nodes.diff(e, got) if got != e else ''), source=w.src, instance=repr(inst))
        if isinstance(b, (str, bytes)) and kw.get('method', 'xml') == 'xml' and not pretty and 'default_namespace' not in kw:
            if kw.get('encoding') in ('unicode', str, 'utf-8', 'UTF-8'):
                n = nodes.parse(b)
                ctx.check(n == e, 'the written document is another one with %s' % kw, source=w.src, instance=repr(inst), document=repr(b))
