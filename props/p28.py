from harness import docs, flow, gen, nodes
from harness.core import Violation
from harness.nodes import Node

TECHNIQUE = 'runtime monitoring: a state machine model of the element runs in lockstep with random call sequences on real elements'
RULE = ('random documents and random sequences of up to 60 calls on readers (directly and inside a field validator), their sub-elements '
        'and snapshots, and of up to 40 calls on writers; every return value compared with the model, the unbound report and the native '
        'form of every handle compared at random moments and at the end; distinct = (calls in order up to 6, modes, result kinds)')
CASES = {'quick': 6000, 'thorough': 100000}
MIN = {'calls compared': 100000, 'snapshots adopted': 500, 'unbound reports compared': 5000, 'native forms compared': 5000,
       'elements found': 10000, 'scripts inside a validator': 500}
MODES = ['strict', 'ordered', 'unordered']
TAGS = ['a', 'b', 'c', '{urn:x}a']
ATTRS = ['k', 'l', '{urn:x}k']
TEXTS = ['', ' ', 't', ' u ', '\n', 'é']
# an unordered search may keep the order of the elements it passes or not, and move what it only looks at or not
VARIANTS = [(s, m) for s in (True, False) for m in (True, False)]


class El:
    """The model."""

    def __init__(self, tag, text='', tail='', attrib=None, children=(), nsmap=None, line=-1, variant=None):
        self.tag, self.text, self.tail, self.attrib, self.children = tag, text, tail, attrib, list(children)
        self.nsmap, self.line, self.pos, self.variant = nsmap, line, 0, variant

    @classmethod
    def of(cls, n, variant, lxml):
        return cls(n.tag, n.text, n.tail, dict(n.attrib), [cls.of(c, variant, lxml) for c in n.children], None,
                   n.line if lxml else -1, variant)

    def snapshot(self):
        e = El(self.tag, self.text, self.tail, dict(self.attrib) if self.attrib is not None else None,
               [c.snapshot() for c in self.children], self.nsmap, self.line, self.variant)
        e.pos = self.pos
        return e

    def adopt(self, o):
        self.__dict__.update(o.__dict__)

    def search(self, tag, mode, behind, step):
        ch = self.children
        if behind and 0 < self.pos <= len(ch) and ch[self.pos - 1].tag == tag:
            return ch[self.pos - 1]
        if mode == 'strict':
            i = self.pos if self.pos < len(ch) and ch[self.pos].tag == tag else None
        else:
            i = next((i for i in range(self.pos, len(ch)) if ch[i].tag == tag), None)
        if i is None:
            return None
        e = ch[i]
        if mode == 'unordered':
            stable, moves = self.variant
            if step or moves:
                if stable:
                    ch.insert(self.pos, ch.pop(i))
                else:
                    ch[self.pos], ch[i] = ch[i], ch[self.pos]
            if step:
                self.pos += 1
        elif step:
            self.pos = i + 1
        return e

    def unbound(self, path=()):
        for t in (self.text, self.tail):
            if t and t.strip():
                yield path, None, t.strip()
        for k, v in (self.attrib or {}).items():
            yield path, k, v
        for c in self.children:
            yield from c.unbound(path + (c.tag,))

    def node(self):
        return Node(self.tag, dict(self.attrib or {}), self.text or '', [c.node() for c in self.children], self.tail or '')

    # the calls

    def do(self, op, a):
        if op == 'tag':
            return self.tag
        if op == 'nsmap':
            return self.nsmap
        if op == 'is_empty':
            return not self.text and not self.tail and not self.attrib and not self.children
        if op == 'get_attrib':
            return (self.attrib or {}).get(a[0])
        if op == 'pop_text':
            v, self.text = self.text, ''
            return v or None
        if op == 'pop_tail':
            v, self.tail = self.tail, ''
            return v or None
        if op == 'pop_attrib':
            return self.attrib.pop(a[0], None) if self.attrib else None
        if op == 'pop_attributes':
            v, self.attrib = self.attrib, None
            return v or None
        if op == 'get_sourceline':
            return self.line
        if op == 'get_unbound':
            return sorted(self.unbound(), key=repr)
        if op == 'to_native':
            return self.node()
        if op == 'step_forward':
            self.pos += 1
            return None
        if op == 'pop_element':
            e = self.search(a[0], a[1], False, True)
            if e is not None and a[2]:
                r = El(e.tag, e.text, e.tail, e.attrib, e.children, e.nsmap, e.line, e.variant)
                e.text, e.tail, e.attrib, e.children, e.pos = '', '', None, [], 0
                return r
            return e
        if op == 'find_element':
            return self.search(*a)
        if op == 'find_sub_element':
            out, e = [], self
            for tag in a[0]:
                e = e.search(tag, a[1], True, True)
                if e is None:
                    break
                out.append(e)
            return out
        if op == 'pop_elements':
            v, self.children, self.pos = self.children, [], 0
            return v
        if op == 'create_snapshot':
            return self.snapshot()
        # writers
        if op == 'set_text':
            self.text = a[0]
        elif op == 'set_attribute':
            if self.attrib is None:
                self.attrib = {}
            self.attrib[a[0]] = a[1]
        elif op == 'set_attributes':
            self.attrib = dict(a[0])
        elif op == 'find_element_or_create':
            e = self.search(a[0], a[1], True, True)
            if e is None:
                e = El(a[0], nsmap=a[2], variant=self.variant)
                self.children.append(e)
                self.pos += 1
            return e
        else:
            raise KeyError(op)


READ = ['tag', 'nsmap', 'is_empty', 'get_attrib', 'pop_text', 'pop_tail', 'pop_attrib', 'pop_attrib', 'pop_attributes', 'get_sourceline',
        'get_unbound', 'to_native', 'pop_element', 'pop_element', 'pop_element', 'pop_element', 'find_element', 'find_element',
        'find_element', 'find_sub_element', 'find_sub_element', 'pop_elements', 'create_snapshot', 'create_snapshot', 'adopt', 'adopt', 'step_forward']


def document(rng, depth=3):
    n = Node(rng.choice(TAGS))
    for k in ATTRS:
        if rng.random() < .4:
            n.attrib[k] = rng.choice(['1', '', ' v '])
    n.text = rng.choice(TEXTS)
    if depth:
        for _ in range(rng.choice([0, 1, 3, 6])):
            c = document(rng, depth - 1)
            c.tail = rng.choice(TEXTS)
            n.children.append(c)
    return n


class Script:
    """Handles of the real elements and, for each admitted behaviour, of the model."""

    def __init__(self, ctx, real, models):
        self.ctx = ctx
        self.real = [real]
        self.models = [[m] for m in models]
        self.snaps = []        # (handle, handle of its snapshot)
        self.dead = set()
        self.trace = []

    def compare(self, op, args, got, wants):
        """got, wants: comparable results; drops the behaviours that are not observed."""
        alive = [i for i, w in enumerate(wants) if w == got]
        self.ctx.count('calls compared')
        if not alive:
            raise Violation('%s%s returned %r instead of %s' % (op, args, got, ' or '.join(sorted({repr(w) for w in wants}))),
                            calls='\n'.join(self.trace), document=self.text)
        if len(alive) < len(self.models):
            self.models = [self.models[i] for i in alive]
        return alive

    def step(self, rng, ops=READ):
        from pydantic_xml.element import SearchMode
        ctx = self.ctx
        op = rng.choice(ops)
        live = [i for i in range(len(self.real)) if i not in self.dead]
        h = rng.choice(live[-4:] + live)
        real = self.real[h]
        mode = rng.choice(MODES)
        tag = rng.choice(TAGS[:3] if rng.random() < .9 else TAGS)
        if op == 'adopt':
            c = [(i, j) for i, j in self.snaps if i not in self.dead and j not in self.dead]
            if not c:
                return
            i, j = rng.choice(c)
            self.trace.append('%d.apply_snapshot(%d)' % (i, j))
            self.real[i].apply_snapshot(self.real[j])
            for m in self.models:
                m[i].adopt(m[j])
            # the snapshot has been given away
            self.dead.add(j)
            ctx.count('snapshots adopted')
            return
        args = ()
        if op in ('get_attrib', 'pop_attrib'):
            args = (rng.choice(ATTRS + ['none']),)
        elif op == 'pop_element':
            args = (tag, mode, rng.random() < .4)
        elif op == 'find_element':
            args = (tag, mode, rng.random() < .5, rng.random() < .5)
        elif op == 'find_sub_element':
            args = (tuple(rng.choice(TAGS[:3]) for _ in range(rng.randint(1, 3))), mode)
        if op == 'step_forward' and (rng.random() < .8 or any(m[h].pos >= len(m[h].children) for m in self.models)):
            return
        if op in ('pop_elements', 'pop_attributes') and rng.random() < .6:
            return
        self.trace.append('%d.%s%s' % (h, op, args))
        if op in ('tag', 'nsmap'):
            res = getattr(real, op)
        elif op == 'pop_element':
            res = real.pop_element(tag, SearchMode(mode), remove=True) if args[2] else real.pop_element(tag, SearchMode(mode))
        elif op == 'find_element':
            res = real.find_element(tag, SearchMode(mode), look_behind=args[2], step_forward=args[3])
        elif op == 'find_sub_element':
            res = real.find_sub_element(list(args[0]), SearchMode(mode))
        else:
            res = getattr(real, op)(*args)
        wants = [m[h].do(op, args) for m in self.models]
        if op in ('pop_element', 'find_element', 'create_snapshot'):
            got = None if res is None else res.tag
            alive = self.compare(op, args, got, [None if w is None else w.tag for w in wants])
            if res is not None:
                ctx.count('elements found' if op != 'create_snapshot' else 'snapshots taken')
                if op == 'create_snapshot':
                    self.snaps.append((h, len(self.real)))
                self.add(res, [wants[i] for i in alive])
        elif op in ('find_sub_element', 'pop_elements'):
            alive = self.compare(op, args, [e.tag for e in res], [[e.tag for e in w] for w in wants])
            for k, e in enumerate(res):
                self.add(e, [wants[i][k] for i in alive])
                ctx.count('elements found')
        else:
            got = res
            if op == 'get_unbound':
                got = sorted(((tuple(e.tag for e in p), a, v) for p, a, v in res), key=repr)
                ctx.count('unbound reports compared')
            elif op == 'to_native':
                got = nodes.from_native(res)
                ctx.count('native forms compared')
            elif op in ('pop_text', 'pop_tail', 'pop_attributes'):
                got = res or None
            self.compare(op, args, got, wants)
        return op, (res is not None)

    def add(self, real, models):
        self.real.append(real)
        for m, e in zip(self.models, models):
            m.append(e)

    def final(self):
        """Everything reachable, as the model says."""
        for op in ('get_unbound', 'to_native'):
            for h in range(len(self.real)):
                if h in self.dead:
                    continue
                self.trace.append('%d.%s()' % (h, op))
                res = getattr(self.real[h], op)()
                if op == 'get_unbound':
                    got = sorted(((tuple(e.tag for e in p), a, v) for p, a, v in res), key=repr)
                    self.ctx.count('unbound reports compared')
                else:
                    got = nodes.from_native(res)
                    self.ctx.count('native forms compared')
                self.compare(op, (), got, [m[h].do(op, ()) for m in self.models])


def reading(ctx, rng, real, doc, text, cover=True):
    s = Script(ctx, real, [El.of(doc, v, ctx.lxml) for v in VARIANTS])
    s.text = text
    kinds = []
    for _ in range(rng.randint(5, 60)):
        k = s.step(rng)
        if k:
            kinds.append(k)
    s.final()
    ctx.count('evaluations')
    ctx.cover('read', tuple(kinds[:6]))
    ctx.sample('%s\n%s' % (text, ' '.join(s.trace)))


def writing(ctx, rng):
    from pydantic_xml.element import SearchMode
    from pydantic_xml.element.native import XmlElement
    real = XmlElement(tag='root', nsmap=None)
    s = Script(ctx, real, [El('root', variant=v) for v in VARIANTS])
    s.text = ''
    tree = {0: []}        # handle -> handles of the children appended last
    kinds = []
    given, kept = [], []
    for _ in range(rng.randint(3, 40)):
        if given and rng.random() < .1:
            i = rng.randrange(len(given))
            given[i]['later'] = '3'
            kept = [dict(g) if g is given[i] else k for g, k in zip(given, kept)]
        h = rng.randrange(len(s.real))
        if h in s.dead:
            continue
        e = s.real[h]
        op = rng.choice(['set_text', 'set_attribute', 'set_attributes', 'append_element', 'append_element', 'find_element_or_create',
                         'find_element_or_create', 'remove_element', 'is_empty', 'get_attrib', 'to_native'])
        kinds.append(op)
        args = ()
        if op == 'set_text':
            args = (rng.choice(TEXTS),)
        elif op == 'set_attribute':
            args = (rng.choice(ATTRS), rng.choice(['', '1']))
        elif op == 'set_attributes':
            # the dictionary stays the caller's
            args = (rng.choice(given) if given and rng.random() < .4 else {k: '2' for k in ATTRS if rng.random() < .5},)
            given.append(args[0])
            kept.append(dict(args[0]))
        elif op == 'get_attrib':
            args = (rng.choice(ATTRS),)
        elif op == 'find_element_or_create':
            args = (rng.choice(TAGS), rng.choice(MODES), rng.choice([None, {}, {'x': 'urn:x'}]))
        elif op == 'append_element':
            args = (rng.choice(TAGS),)
        s.trace.append('%d.%s%s' % (h, op, args))
        if op == 'append_element':
            sub = e.make_element(args[0], None)
            ctx.check(sub.tag == args[0] and sub.is_empty(), 'make_element returned %r' % sub)
            filled = rng.random() < .5
            if filled:
                sub.set_text('x')
            e.append_element(sub)
            out = []
            for m in s.models:
                c = El(args[0], 'x' if filled else '', variant=m[h].variant)
                m[h].children.append(c)
                m[h].pos += 1
                out.append(c)
            s.add(sub, out)
            tree.setdefault(h, []).append(len(s.real) - 1)
            continue
        if op == 'remove_element':
            c = [x for x in tree.get(h, []) if x not in s.dead]
            if not c:
                continue
            # what has been appended last goes first
            k = c[-1]
            e.remove_element(s.real[k])
            for m in s.models:
                m[h].children = [x for x in m[h].children if x is not m[k]]
                m[h].pos -= 1
            s.dead.add(k)
            continue
        if op == 'find_element_or_create':
            res = e.find_element_or_create(args[0], SearchMode(args[1]), args[2])
        else:
            res = getattr(e, op)(*args)
        ctx.check(given == kept, 'a dictionary given to set_attributes has been changed by %s: %s instead of %s' % (op, given, kept), trace=' '.join(s.trace))
        if op in ('set_text', 'set_attribute', 'set_attributes'):
            for m in s.models:
                m[h].do(op, args)
            res = None
            ctx.count('calls compared')
        elif op == 'find_element_or_create':
            wants = [m[h].do(op, args) for m in s.models]
            alive = s.compare(op, args, res.tag, [w.tag for w in wants])
            known = next((i for i, x in enumerate(s.models[0]) if x is wants[alive[0]]), None)
            s.add(res, [wants[i] for i in alive])
            if known is None:
                tree.setdefault(h, []).append(len(s.real) - 1)
            else:
                # the same element under another handle is never removed
                tree.get(h, []) and known in tree[h] and tree[h].remove(known)
        else:
            if op == 'to_native':
                res = nodes.from_native(res)
                ctx.count('native forms compared')
            s.compare(op, args, res, [m[h].do(op, args) for m in s.models])
    s.final()
    ctx.count('evaluations')
    ctx.cover('write', tuple(kinds[:6]))


def case(ctx, rng):
    from pydantic_xml.element.native import XmlElement, etree
    r = rng.random()
    if r < .25:
        writing(ctx, rng)
        return
    doc = document(rng)
    st = docs.style(rng)
    text = nodes.write(doc, st)
    if r < .75:
        reading(ctx, rng, XmlElement.from_native(etree.fromstring(text.encode())), doc, text)
        return
    # the element a validator receives
    from typing import Optional
    from pydantic_xml import BaseXmlModel, element, xml_field_validator
    seen = []

    class M(BaseXmlModel, tag=doc.tag.rsplit('}', 1)[-1], ns='x' if '}' in doc.tag else None, nsmap={'x': 'urn:x'}):
        f: Optional[int] = element(default=None)

        @xml_field_validator('f')
        @classmethod
        def read_f(cls, el, name):
            seen.append(name)
            reading(ctx, rng, el, doc, text)
            return None

    M.from_xml(text.encode())
    ctx.check(seen == ['f'], 'the validator was called %s' % seen)
    ctx.count('scripts inside a validator')
