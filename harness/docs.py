"""Documents: from instances, then mutated."""

from . import prims
from .gen import raw_node
from .nodes import NIL, Node, Style, indent, write
from .spec import (NT, TD, Coll, Dct, Mod, Opt, Prim, Raw, Tag, Tup, UMod, UPrim, inner_types)


def style(rng, noise=1.0, indent_ok=True):
    if rng.random() < .25:
        return Style(rng, prefixes=rng.choice(['random', 'fixed']))
    return Style(
        rng,
        comments=rng.choice([0, 0, .15]) * noise,
        pis=rng.choice([0, 0, .1]) * noise,
        cdata=rng.choice([0, .3]),
        charrefs=rng.choice([0, .3]),
        prefixes=rng.choice(['random', 'fixed']),
        attr_shuffle=rng.random() < .5,
        decl=rng.random() < .3,
        lines=rng.random() < .02 * noise,
    )


def some(rng, root, pred=lambda n: True):
    c = [n for n in root.walk() if pred(n)]
    return rng.choice(c) if c else None


def texts(rng, U):
    """A raw text: sometimes valid for some kind."""
    r = rng.random()
    if r < .3:
        return rng.choice(['', ' ', '\n ', 'x', '1', 'true', '-', '2020-01-01'])
    k = rng.choice(prims.COMMON)
    if r < .6:
        return prims.PRIMS[k].valid_raw(rng)
    if r < .8 and prims.PRIMS[k].invalid:
        return rng.choice(prims.PRIMS[k].invalid)
    return prims.text(rng)


def near(rng, text):
    """Almost the same text."""
    return rng.choice([' ' + text + ' ', text + ' ', text.upper(), text.capitalize(), text + text[-1:], text[:-1], text.swapcase()])


def near_name(rng, name):
    """Another name, often almost the same."""
    ns, _, local = name.rpartition('}')
    ns = ns[1:] if ns else ''
    r = rng.random()
    if r < .35 or not local.isascii():
        return rng.choice([local + 'x', '{urn:other}' + local, local, '{http://b.example/}' + local])
    if r < .75:
        local = rng.choice([local.swapcase(), local.upper(), local.lower(), local.capitalize(), local[:-1] or 'x', local + local[-1:], local + '-', local + '.',
                            local[0] + local[1:].replace('_', '-'), local.replace('-', '_'), 'x' + local])
    elif ns:
        ns = rng.choice([ns.upper(), ns + '/', ns[:-1], ns.rstrip('/'), ns.rstrip('#') + '#', ns.capitalize(), ns.replace('http:', 'https:')])
    else:
        return '{%s}%s' % (rng.choice(['urn:other', 'urn:a', 'x']), local)
    return '{%s}%s' % (ns, local) if ns else local


INVALID = ['x y', '', '2020-99-99', '--', '1.5.5', 'maybe', '?']


def mutate(rng, root, U, ops, empty_ok=True):
    """Applies one random mutation in place; returns its name."""
    op = rng.choice(ops)
    parent = some(rng, root, lambda n: n.children)
    if op == 'drop' and parent is not None:
        parent.children.pop(rng.randrange(len(parent.children)))
    elif op == 'dup' and parent is not None:
        i = rng.randrange(len(parent.children))
        parent.children.insert(rng.choice([i, i + 1, rng.randint(0, len(parent.children))]), parent.children[i].copy())
    elif op == 'swap' and parent is not None and len(parent.children) > 1:
        i, j = rng.sample(range(len(parent.children)), 2)
        ch = parent.children
        ch[i], ch[j] = ch[j], ch[i]
    elif op == 'shuffle' and parent is not None and len(parent.children) > 1:
        rng.shuffle(parent.children)
    elif op == 'insert':
        n = some(rng, root)
        n.children.insert(rng.randint(0, len(n.children)), raw_node(rng, 1))
    elif op == 'rename':
        n = some(rng, root, lambda n: n is not root)
        if n is None:
            return None
        n.tag = near_name(rng, n.tag)
    elif op == 'text':
        n = some(rng, root, lambda n: empty_ok or not n.children and n.text)
        if n is None:
            return None
        n.text = texts(rng, U) if rng.random() < .75 else near(rng, n.text)
        if not empty_ok and not n.text:
            n.text = 'x'
    elif op == 'invalid':
        leafs = [n for n in root.walk() if not n.children and n.text]
        if leafs and rng.random() < .7:
            rng.choice(leafs).text = rng.choice([t for t in INVALID if t or empty_ok])
        else:
            n = some(rng, root, lambda n: n.attrib)
            if n is None:
                return None
            n.attrib[rng.choice(list(n.attrib))] = rng.choice(INVALID)
    elif op == 'attr_drop':
        n = some(rng, root, lambda n: n.attrib)
        if n is None:
            return None
        n.attrib.pop(rng.choice(list(n.attrib)))
    elif op == 'attr_add':
        n = some(rng, root)
        n.attrib[rng.choice(['zz', 'a', '{urn:other}a', '{http://a.example/x}id', 'a\u00b7b', '{urn:other}\u540d-1.2'])] = texts(rng, U)
    elif op == 'attr_text':
        n = some(rng, root, lambda n: n.attrib)
        if n is None:
            return None
        k = rng.choice(list(n.attrib))
        n.attrib[k] = texts(rng, U) if rng.random() < .7 else near(rng, n.attrib[k])
    elif op == 'attr_ns':
        n = some(rng, root, lambda n: n.attrib)
        if n is None:
            return None
        k = rng.choice(list(n.attrib))
        v = n.attrib.pop(k)
        local = k.rsplit('}', 1)[-1]
        k = rng.choice([local, '{urn:other}' + local]) if rng.random() < .5 else near_name(rng, k)
        if k.startswith('{http://www.w3.org/'):
            k = local
        n.attrib[k] = v
    elif op == 'tail':
        n = some(rng, root, lambda n: n is not root)
        if n is None:
            return None
        n.tail = rng.choice(['tail', ' \n', prims.text(rng)])
    elif op == 'head':
        n = some(rng, root, lambda n: n.children)
        if n is None:
            return None
        n.text = rng.choice(['head', ' \n', prims.text(rng)])
    elif op == 'nil':
        n = some(rng, root)
        n.attrib[NIL] = rng.choice(['true', 'true', '1', 'false', '0', ' true ', '', 'TRUE', 'True', 'yes', 'nil'])
    elif op == 'root':
        root.tag = rng.choice([root.tag + 'x', '{urn:other}' + root.tag.rsplit('}', 1)[-1], root.tag.rsplit('}', 1)[-1], near_name(rng, root.tag)])
    elif op == 'empty':
        n = some(rng, root, lambda n: n is not root)
        if n is None:
            return None
        n.text, n.children, n.attrib = '', [], {}
    else:
        return None
    return op
