"""Independent XML infoset: nodes, comparison, reading with the standard library, writing documents with random style."""

import xml.etree.ElementTree as ET

XSI = 'http://www.w3.org/2001/XMLSchema-instance'
NIL = '{%s}nil' % XSI


class Node:
    __slots__ = ('tag', 'attrib', 'text', 'children', 'tail', 'line', 'nsmap')

    def __init__(self, tag, attrib=None, text='', children=None, tail='', nsmap=None):
        self.tag = tag
        self.attrib = dict(attrib or {})
        self.text = text or ''
        self.children = list(children or [])
        self.tail = tail or ''
        self.line = -1
        self.nsmap = nsmap      # the namespaces a reference document is to declare; not compared

    def copy(self):
        n = Node(self.tag, self.attrib, self.text, [c.copy() for c in self.children], self.tail, self.nsmap)
        n.line = self.line
        return n

    def key(self, tail=True):
        return (
            self.tag, tuple(sorted(self.attrib.items())), self.text,
            tuple(c.key() for c in self.children), self.tail if tail else '',
        )

    def __eq__(self, other):
        return isinstance(other, Node) and self.key() == other.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return show(self)

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()

    def size(self):
        return sum(1 for _ in self.walk())


def show(n):
    at = ''.join(' %s=%r' % (k, v) for k, v in n.attrib.items())
    return '<%s%s>%s%s</>%s' % (
        n.tag, at, esc_text(n.text), ''.join(show(c) for c in n.children), esc_text(n.tail),
    )


def diff(a, b, path=''):
    """First difference between the expected node a and the actual node b."""
    path = path + '/' + (a.tag if a is not None else '?')
    if a.tag != b.tag:
        return '%s: tag %r != %r' % (path, a.tag, b.tag)
    if a.attrib != b.attrib:
        return '%s: attributes %r != %r' % (path, a.attrib, b.attrib)
    if a.text != b.text:
        return '%s: text %r != %r' % (path, a.text, b.text)
    for i in range(max(len(a.children), len(b.children))):
        if i >= len(a.children):
            return '%s: unexpected child %d %s' % (path, i, show(b.children[i])[:200])
        if i >= len(b.children):
            return '%s: lost child %d %s' % (path, i, show(a.children[i])[:200])
        d = diff(a.children[i], b.children[i], path + '[%d]' % i)
        if d:
            return d
    if a.tail != b.tail:
        return '%s: tail %r != %r' % (path, a.tail, b.tail)
    return None


def from_native(el, tail=True):
    """Native element (any backend) to Node; comments and processing instructions are dropped, their tails merged."""
    n = Node(el.tag, {_s(k): _s(v) for k, v in el.attrib.items()}, el.text or '', [], (el.tail or '') if tail else '')
    last = None
    for c in el:
        if isinstance(c.tag, str):
            last = from_native(c)
            n.children.append(last)
        else:
            t = c.tail or ''
            if last is None:
                n.text += t
            else:
                last.tail += t
    return n


def _s(v):
    return v.decode() if isinstance(v, bytes) else v


def parse(data):
    """Parses with the standard library, whatever the backend under test is."""
    if isinstance(data, str):
        data = data.encode('utf-8')
    return from_native(ET.fromstring(data))


def to_native(n, etree):
    el = etree.Element(n.tag, dict(n.attrib))
    el.text = n.text or None
    el.tail = n.tail or None
    for c in n.children:
        el.append(to_native(c, etree))
    return el


def esc_text(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def esc_attr(s):
    return (s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')
            .replace('\n', '&#10;').replace('\t', '&#9;'))


def split(tag):
    if tag.startswith('{'):
        uri, local = tag[1:].split('}', 1)
        return uri, local
    return None, tag


class Style:
    """How a document is written. All choices are neutral with respect to its infoset minus comments and PIs."""

    def __init__(self, rng=None, comments=0.0, pis=0.0, cdata=0.0, charrefs=0.0, prefixes='random', attr_shuffle=False,
                 decl=False, lines=False):
        self.rng = rng
        self.comments = comments
        self.pis = pis
        self.cdata = cdata
        self.charrefs = charrefs
        self.prefixes = prefixes
        self.attr_shuffle = attr_shuffle
        self.decl = decl
        self.lines = lines      # thousands of lines before the content of the root element


PLAIN = Style()
PREFIXES = ['p', 'q', 'ns0', 'ns1', 'xs', 'a-b', 'é', 'co', 'x', 'default']


class Writer:
    def __init__(self, style):
        self.st = style
        self.out = []
        self.line = 1
        self.n = 0
        self.comments = 0

    def put(self, s):
        self.out.append(s)
        self.line += s.count('\n')

    def noise(self):
        st = self.st
        if st.rng is None:
            return
        if st.lines and self.line < 10:
            self.comments += 1
            self.put('<!--%s-->' % ('\n' * st.rng.choice([300, 5000, 30000])))
        while st.comments and st.rng.random() < st.comments:
            self.comments += 1
            self.put('<!--%s-->' % st.rng.choice(['c', ' <x/> ', '', 'a\nb', ' <e>1</e> ']))
        while st.pis and st.rng.random() < st.pis:
            self.comments += 1
            self.put('<?%s %s?>' % (st.rng.choice(['pi', 'php', 'e', 'xml-s']), st.rng.choice(['', 'a="b"', '<e/>'])))

    def text(self, s, noise_ok=True):
        st = self.st
        if st.rng is None or not s:
            self.put(esc_text(s))
            if noise_ok:
                self.noise()
            return
        pos = 0
        if noise_ok:
            self.noise()
        while pos < len(s):
            end = pos + st.rng.randint(1, len(s) - pos) if (st.comments or st.cdata or st.pis) else len(s)
            part = s[pos:end]
            pos = end
            if st.cdata and st.rng.random() < st.cdata and ']]>' not in part and not part.endswith(']'):
                self.put('<![CDATA[%s]]>' % part)
            elif st.charrefs and st.rng.random() < st.charrefs:
                self.put(''.join(
                    ('&#%d;' if st.rng.random() < 0.5 else '&#x%X;') % ord(c) if st.rng.random() < 0.5 else esc_text(c)
                    for c in part
                ))
            else:
                self.put(esc_text(part))
            if noise_ok:
                self.noise()

    def fresh(self, scope):
        rng = self.st.rng
        if rng is not None and self.st.prefixes == 'random':
            p = rng.choice(PREFIXES)
            if rng.random() < 0.3:
                p += str(rng.randint(0, 9))
            return p
        while True:
            p = 'n%d' % self.n
            self.n += 1
            if p not in scope:
                return p

    def element(self, n, scope):
        rng = self.st.rng
        scope = dict(scope)
        decls = {}
        uri, local = split(n.tag)
        used = {}

        def prefix_for(uri, attr):
            if uri == 'http://www.w3.org/XML/1998/namespace':
                return 'xml'
            cands = [p for p, u in scope.items() if u == uri and not (attr and p == '')]
            if cands and (rng is None or rng.random() < 0.8):
                p = cands[0] if rng is None else rng.choice(cands)
                used[p] = uri
                return p
            for _ in range(50):
                if not attr and rng is not None and self.st.prefixes == 'random' and rng.random() < 0.4:
                    p = ''
                else:
                    p = self.fresh(scope)
                if p not in used and p not in decls:
                    break
            else:
                k = 0
                while 'zz%d' % k in scope or 'zz%d' % k in decls:
                    k += 1
                p = 'zz%d' % k
            scope[p] = uri
            decls[p] = uri
            used[p] = uri
            return p

        if uri is None:
            if scope.get(''):
                scope[''] = ''
                decls[''] = ''
            used[''] = ''
            name = local
        else:
            p = prefix_for(uri, False)
            name = '%s:%s' % (p, local) if p else local
        attrs = []
        items = list(n.attrib.items())
        if self.st.attr_shuffle and rng is not None:
            rng.shuffle(items)
        for k, v in items:
            u, l = split(k)
            if u is None:
                attrs.append((l, v))
            else:
                attrs.append(('%s:%s' % (prefix_for(u, True), l), v))
        parts = ['%s="%s"' % (k, esc_attr(v)) for k, v in attrs]
        parts += ['xmlns%s="%s"' % (':' + p if p else '', esc_attr(u)) for p, u in decls.items()]
        if self.st.attr_shuffle and rng is not None:
            rng.shuffle(parts)
        head = name + ''.join(' ' + p for p in parts)
        n.line = self.line
        if not n.text and not n.children and (rng is None or rng.random() < 0.5):
            self.put('<%s/>' % head)
        else:
            self.put('<%s>' % head)
            self.text(n.text)
            for c in n.children:
                self.element(c, scope)
            self.put('</%s>' % name)
        if n.tail:
            self.text(n.tail)
        else:
            self.noise()


def write(node, style=PLAIN):
    """Renders the document and stores the line of every start tag in the nodes."""
    w = Writer(style)
    if style.decl:
        w.put('<?xml version="1.0"?>\n')
    tail, node.tail = node.tail, ''
    try:
        # noise around the root element is fine, text is not
        w.element(node, {'xml': 'http://www.w3.org/XML/1998/namespace'})
    finally:
        node.tail = tail
    return ''.join(w.out)


def indent(n, level=0, pad='  '):
    """Adds white space between the children of elements without text of their own."""
    if n.children and not n.text.strip() and all(not c.tail.strip() for c in n.children):
        n.text = '\n' + pad * (level + 1)
        for i, c in enumerate(n.children):
            indent(c, level + 1, pad)
            c.tail = '\n' + pad * (level + 1 if i + 1 < len(n.children) else level)
    return n
