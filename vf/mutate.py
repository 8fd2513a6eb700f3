"""Changes of a document which break exactly one constraint of the model."""
import decimal
import math

from . import gen, lex

BAD_TEXT = {
    'boolean': ['yes', '2', 'TRUE', '', 'truefalse', '-1'],
    'integer': ['1.5', 'x', '', '1e3', '0x10', '1 2', '--1', '1,000'],
    'decimal': ['x', '1e3', '', '1,5', '1.2.3', 'INF', '.'],
    'float': ['x', '1,5', '', '1.2.3', 'Infinity', 'nan', '0x1'],
    'date': ['2016-13-01', '2016-02-30', 'x', '', '01-01-2016', '2016-01-01T00:00:00', '20160101'],
    'dateTime': ['2016-01-01', '2016-13-01T00:00:00Z', 'x', '', '2016-01-01T25:00:00Z', '2016-01-01 00:00:00', '2016-01-01T00:60:00'],
    'time': ['25:00:00', '00:60:00', 'x', '', '12', '2016-01-01T00:00:00Z'],
    'NMTOKEN': ['a b', '', '<'], 'base64Binary': ['=', 'A'], 'duration': ['x', '', '1D', 'P'],
}


def bad_text(rng, simple):
    """A text which is not valid for a simple type, with the constraint it breaks, or None."""
    b, facets = simple.builtin, simple.facets
    if b == 'decimal':
        number = lambda x: float(x) if isinstance(x, decimal.Decimal) else x
        facets = {k: [number(y) for y in x] if isinstance(x, list) else number(x) for k, x in facets.items()}
    family = 'integer' if b in lex.RANGES else 'float' if b in lex.FLOATS else b
    found = []
    if family in BAD_TEXT:
        found.append(('lexical', rng.choice(BAD_TEXT[family])))
    if b in lex.RANGES:
        low, high = lex.RANGES[b]
        found += [('range', str(x)) for x in (None if low is None else low - 1, None if high is None else high + 1) if x is not None]
    if facets and b in lex.STRINGS:
        pool = ['', 'a', 'ab', 'abc', 'x' * 40, 'no such value', 'AB123x', 'LN-KKYX', '1', 'ac', ' a', 'é\U0001f600']
        pool += [x + 'x' for x in facets.get('enumeration', [])] + [x.swapcase() for x in facets.get('enumeration', [])]
        if 'pattern' in facets:
            pool += lex.STRING_PATTERNS[facets['pattern']][2]
        for name, d in (('length', 1), ('length', -1), ('minLength', -1), ('maxLength', 1)):
            if name in facets:
                pool.append('y' * max(0, facets[name] + d))
        for text in rng.sample(pool, len(pool)):
            bad = lex.violated(b, facets, text)
            if bad:
                found.append((bad[0], text))
                if len(found) > 3:
                    break
    elif facets:
        pool = [0, 1, -1, 12345678, -12345678, 55]
        step = 1 if b in lex.RANGES else 0.5
        if b == 'float':
            # Must be seen with single precision as well.
            numbers = [x for value in facets.values() if not isinstance(value, str) for x in (value if isinstance(value, list) else [value])]
            step = max([step, *(abs(x) / 4 for x in numbers if math.isfinite(x))])
        for name in ('minInclusive', 'minExclusive', 'maxInclusive', 'maxExclusive'):
            if name in facets:
                pool += [facets[name], facets[name] - step, facets[name] + step] * 3
        for x in facets.get('enumeration', []):
            pool += [x + step, x - step]
        if 'pattern' in facets:
            pool += lex.NUMBER_PATTERNS[facets['pattern']][2]
        if 'fractionDigits' in facets:
            pool += [1.5, 0.25, 2.125, -0.0625]
        if 'totalDigits' in facets:
            pool += [10 ** facets['totalDigits'], 10 ** facets['totalDigits'] - 1]
        good = [x for x in pool if lex.in_range(b, x)]
        for value in rng.sample(good, len(good)):
            bad = lex.violated(b, facets, value)
            if bad:
                found.append((bad[0], lex.write(None, b, lex.key(b, value), plain=True)))
                if len(found) > 4:
                    break
    if not found:
        return None
    # Facets are more interesting than texts which make no sense at all.
    special = [x for x in found if x[0] != 'lexical']
    return rng.choice(special if special and rng.random() < 0.8 else found)


def sample_child(rng, field, node, options):
    """A further element for a field."""
    child = gen.Node(node.children[0].ns if node.children else None, field.tag, field, field.type)
    if isinstance(field.type, gen.Simple):
        child.leaf = (field.type, field.type.value(rng))
        return child
    return None


def mutations(rng, root, wanted=None):
    """Yield (kind, document) for all kinds which are possible, each at a random place."""
    nodes = list(root.walk())
    candidates = {}

    def add(kind, i, change):
        candidates.setdefault(kind, []).append((i, change))

    for i, node in enumerate(nodes):
        if node.raw is not None or node.nil:
            continue
        if i and not node.field.nillable:
            add('nil', i, make_nil)
        for j, (name, simple, _value) in enumerate(node.attributes):
            bad = bad_text(rng, simple)
            if bad:
                add('attribute-' + bad[0], i, lambda n, j=j, name=name, text=bad[1]: set_attribute(n, j, name, text))
        if node.leaf:
            bad = bad_text(rng, node.leaf[0])
            if bad:
                add(bad[0], i, lambda n, text=bad[1]: set_leaf(n, text))
            add('child-of-simple', i, lambda n: setattr(n, 'raw', '<zz/>'))
            add('unknown-attribute', i, lambda n: n.extra.update(zz='1'))
            continue
        if node.type is None:
            continue
        fields = node.type.all_fields()
        add('unknown-attribute', i, lambda n: n.extra.update(zz='1'))
        add('unknown-element', i, lambda n: insert_unknown(rng, n))
        add('text', i, lambda n: setattr(n, 'text', 'stray text'))
        choice = node.type.indicator == 'Choice'
        elements = [f for f in fields if f.kind in ('element', 'list')]
        for f in fields + [x for group in fields if group.kind == 'attributes' for x in group.type.all_fields()]:
            mine = [k for k, c in enumerate(node.children) if c.field is f]
            if f.kind == 'attribute' and f.min:
                add('missing-attribute', i, lambda n, tag=f.tag: drop_attribute(n, tag))
            if f.kind == 'element' and f.min and mine and not choice:
                add('missing-element', i, lambda n, k=mine[0]: n.children.pop(k))
            if f.kind == 'element' and mine:
                add('repeated-element', i, lambda n, k=mine[0]: n.children.insert(k, n.children[k].copy()))
            if f.kind == 'list' and f.min and len(mine) and not choice:
                add('short-list', i, lambda n, ks=mine, low=f.min: shorten(n, ks, low))
            if f.kind == 'list' and f.max is not None and mine:
                add('long-list', i, lambda n, ks=mine, high=f.max: lengthen(n, ks, high))
            if choice and not mine:
                extra = sample_child(rng, f, node, None)
                if extra is not None and node.children:
                    add('two-branches', i, lambda n, e=extra, at=rng.choice([0, None]): n.children.insert(len(n.children) if at is None else at, e))
        if choice and node.children and all(f.min for f in elements):
            add('no-branch', i, lambda n: n.children.clear())
        for k, c in enumerate(node.children):
            add('wrong-namespace', i, lambda n, k=k: setattr(n.children[k], 'ns', 'urn:wrong' if n.children[k].ns is None or rng.random() < 0.5 else None))
            if node.type.indicator == 'Sequence' and k and node.children[k - 1].field is not c.field:
                add('order', i, lambda n, k=k: swap(n, k))
    kinds = list(candidates)
    rng.shuffle(kinds)
    for kind in kinds:
        if wanted and kind not in wanted:
            continue
        i, change = rng.choice(candidates[kind])
        copy = root.copy()
        target = list(copy.walk())[i]
        change(target)
        yield kind, copy


def make_nil(node):
    node.nil = True
    node.leaf, node.raw = None, ''
    node.attributes, node.children = node.attributes, []


def set_attribute(node, j, name, text):
    node.attributes[j] = (name, gen.Simple('string'), text)


def set_leaf(node, text):
    node.leaf = (gen.Simple('string'), text)


def drop_attribute(node, tag):
    node.attributes = [a for a in node.attributes if a[0] != tag]


def insert_unknown(rng, node):
    ns = node.children[0].ns if node.children else node.ns
    node.children.insert(rng.randint(0, len(node.children)), gen.Node(rng.choice([ns, None, 'urn:zz']), 'zz'))


def shorten(node, ks, low):
    for k in reversed(ks[low - 1:]):
        node.children.pop(k)


def lengthen(node, ks, high):
    last = node.children[ks[-1]]
    for _ in range(high + 1 - len(ks)):
        node.children.insert(ks[-1], last.copy())


def swap(node, k):
    node.children[k - 1], node.children[k] = node.children[k], node.children[k - 1]
