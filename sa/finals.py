"""C10: fields that read to the end of the data are only accepted last."""
from __future__ import annotations

from . import experiments as X
from .suites import case

UNBOUNDED = {
    'char[inf]': 'char[math.inf]', 'unicode[inf]': 'unicode[math.inf]',
    'unicode[inf] with encoding': "unicode[math.inf, 'utf-16-le']",
    'a final custom serializer': "Annotated[int, Opaque('k', final=True)]",
    'a final custom serializer without state': "Annotated[int, Opaque('k', final=True, leaf=True)]",
}
# {u}: the unbounded annotation; classes go before
WRAP = {
    'itself': ('', '{u}'),
    'a tuple ending in it': ('', 'tuple[int8, {u}]'),
    'a tuple of it': ('', 'tuple[{u}]'),
    'nested tuples': ('', 'tuple[char[2], tuple[int16, {u}]]'),
    'a tuple after a string': ('', 'tuple[char[uint8], {u}]'),
    'a case of a union': ('', 'Annotated[Union[int8, {u}], LookbackDecider(lambda o: 0, {{0: int8, 1: {u}}}, None)]'),
    'the first case of a union': ('', 'Annotated[Union[int8, {u}], LookbackDecider(lambda o: 0, {{1: {u}, 0: int8}}, None)]'),
    'a case with a default': ('', 'Annotated[Union[int8, {u}], LookbackDecider(lambda o: 0, {{0: {u}}}, int8)]'),
    'the default of a union': ('', 'Annotated[Union[int8, {u}], LookbackDecider(lambda o: 0, {{0: int8}}, {u})]'),
    'the only case of a union': ('', 'Annotated[Union[int8, {u}], LookbackDecider(lambda o: 0, {{0: {u}}})]'),
    'a look-ahead case': ('', 'Annotated[Union[int8, {u}], LookaheadDecider(uint8, lambda o: 0, {{0: int8, 1: {u}}}, None)]'),
    'a look-ahead default': ('', 'Annotated[Union[int8, {u}], LookaheadDecider(uint8, lambda o: 0, {{0: int8}}, {u})]'),
    'a conditional field': ('', 'Annotated[{u}, Condition(lambda o: True, None)]'),
    'a conditional tuple': ('', 'Annotated[tuple[int8, {u}], Condition(lambda o: True, None)]'),
    'a tuple of a conditional': ('', 'tuple[int8, Annotated[{u}, Condition(lambda o: True, None)]]'),
    'a case that is a tuple': ('', 'Annotated[Union[int8, tuple[int8, {u}]], LookbackDecider(lambda o: 0, {{0: tuple[int8, {u}]}}, int8)]'),
    'a conditional union': ('', 'Annotated[Union[int8, {u}], LookbackDecider(lambda o: 0, {{0: int8}}, {u}), Condition(lambda o: True, None)]'),
    'a nested class': ('class In(Structured):\n    x: int8\n    y: {u}\n', 'In'),
    'a nested class of one field': ('class In(Structured):\n    y: {u}\n', 'In'),
    'a class nested twice': ('class In(Structured):\n    x: int8\n    y: {u}\nclass Mid(Structured):\n    z: char[uint8]\n    w: In\n', 'Mid'),
    'a tuple of a nested class': ('class In(Structured):\n    y: {u}\n', 'tuple[int8, In]'),
    'a case that is a nested class': ('class In(Structured):\n    y: {u}\n',
                                      'Annotated[Union[int8, In], LookbackDecider(lambda o: 0, {{0: int8, 1: In}})]'),
    'a conditional nested class': ('class In(Structured):\n    x: uint8\n    y: {u}\n',
                                   'Annotated[In, Condition(lambda o: True, None)]'),
    'a class inheriting it': ('class Base(Structured):\n    x: int8\n    y: {u}\nclass In(Base):\n    pass\n', 'In'),
    'a specialized generic class': ("class Gen(Generic[T], Structured):\n    x: int8\n    y: T\n"
                                    "class In(Gen[{u}]):\n    pass\n", 'In'),
}
FOLLOW = {
    'int8': 'int8', 'float64': 'float64', 'pad': None, 'char[2]': 'char[2]', 'char[0]': 'char[0]',
    'char[uint8]': 'char[uint8]', 'null_char': 'null_char', 'unicode[uint8]': 'unicode[uint8]',
    'array': 'array[Header[2], int8]', 'array of tuples': 'array[Header[uint8, uint16], tuple[int8, int16]]',
    'tuple': 'tuple[int8, int8]', 'custom': "Annotated[int, Opaque('z')]", 'nested': 'Flat',
    'condition': 'Annotated[int8, Condition(lambda o: True, 0)]',
    'union': 'Annotated[Union[int8, int16], LookbackDecider(lambda o: 0, {0: int8}, int16)]',
    'user type': 'Annotated[Wrapped, SerializeAs(int8)]', 'unbounded': 'char[math.inf]',
}
BEFORE = {'first': [], 'after a number': ['int16'], 'after a string': ['char[uint8]'],
          'after several fields': ['int16', 'char[uint8]', 'int8', "tuple[int8, int8]"]}
HEAD = '''import math
class Flat(Structured):
    q: int8
class Wrapped:
    def __init__(self, value):
        self.value = value
'''


def fields(anns, pre='g'):
    return ''.join(f'    {"_" if a is None else f"{pre}{i}"}: {a or "pad[2]"}\n' for i, a in enumerate(anns))


def outcome(bench, label, src, prop, accept, rule, kinds=None, future=False):
    """Does the definition of client classes fail, as it should?"""
    g = X.load_any(bench, src, future)
    if g.kind == 'undecided':
        v, d = None, g.text()
    elif accept:
        v, d = g.ok, g.text() if not g.ok else ''
    else:
        v = not g.ok and (kinds is None or exc_ok(g, kinds))
        d = 'the definition was accepted' if g.ok else g.text()
    for p in prop.split():
        bench.record(p, label, rule, v, d, src.strip().splitlines()[-1][:100])
    return g


def exc_ok(g, kinds):
    from .harness import exc_is
    return exc_is(g.value, *kinds)


def one(bench, ulabel, u, wlabel, cls, ann, before, follow, blabel):
    src = HEAD + cls.format(u=u) + 'class Subj(Structured):\n' + fields(BEFORE[blabel])
    a = ann.format(u=u)
    label = f'{ulabel} in {wlabel}, {blabel}'
    ok = outcome(bench, label, src + f'    last: {a}\n', 'C10', True, 'a field that reads to the end is accepted last')
    if not ok.ok:
        return
    for f in follow:
        outcome(bench, label, src + f'    last: {a}\n' + fields([FOLLOW[f]], 'h'), 'C10', False,
                f'{f} after a field that reads to the end is refused')


USED = '''class Used(Structured):
{0}try:
    used = Used.create_unpack(b'\\0' * 24)
    used.pack()
    used.pack_into(bytearray(64))
    used.pack_write(io.BytesIO())
    used.unpack_from(b'\\0' * 24)
    Used.create_unpack_read(io.BytesIO(b'\\1' * 24))
    used.with_byte_order(ByteOrder.BE).pack()
except Exception:
    pass
'''


def used(bench, ulabel, u, wlabel, cls, ann, full):
    """What may follow a field does not depend on whether its hint has been used."""
    a = ann.format(u=u)
    for f in list(FOLLOW) if full else ['custom', 'int8', 'char[uint8]']:
        if FOLLOW[f] is None:
            continue
        src = HEAD + 'import io\n' + cls.format(u=u) + USED.format(fields(BEFORE['after a number'] + [a]))
        label = f'{ulabel} in {wlabel}, used before'
        outcome(bench, label, src + 'class Subj(Structured):\n' + fields(['int16', a, FOLLOW[f]]), 'C10', False,
                f'{f} after a field that reads to the end is refused')
        if f == 'custom':
            outcome(bench, label, src + 'class Subj(Structured):\n' + fields(['int16', a]), 'C10', True,
                    'a field that reads to the end is accepted last')
            outcome(bench, label, src + f'class Subj(Structured):\n    a: array[Header[2], {a}]\n', 'C10', False,
                    'an array of items that read to the end is refused')
            outcome(bench, label, src + f'class Subj(Structured):\n    a: tuple[{a}, char[uint8]]\n', 'C10', False,
                    'a field after one that reads to the end is refused inside a tuple')
            outcome(bench, label, src + 'class Subj(Used):\n    z: char[uint8]\n', 'C10', False,
                    'a subclass cannot add fields after an inherited one that reads to the end')


def bounded(bench):
    """Bounded fields stay usable anywhere after they have been used."""
    for f, a in FOLLOW.items():
        if f in ('unbounded', 'array of tuples') or a is None:
            continue
        src = HEAD + 'import io\n' + USED.format(fields([a, 'int8']))
        outcome(bench, f'{f} used before', src + f'class Subj(Structured):\n    a: {a}\n    b: {a}\n    c: int8\n',
                'C10', True, 'bounded fields may be followed by others')
        outcome(bench, f'{f} used before', src + f'class Subj(Structured):\n    a: array[Header[2], {a}]\n    c: int8\n',
                'C10', True, 'bounded items may be in arrays')


case('C10', 'quick', 'reads to the end: bounded fields used before')(bounded)


def register():
    quick_f = ['int8', 'pad', 'custom', 'char[0]', 'condition']
    for wlabel, (cls, ann) in WRAP.items():
        for ulabel, u in UNBOUNDED.items():
            def run(bench, ulabel=ulabel, u=u, wlabel=wlabel, cls=cls, ann=ann, full=False):
                main = wlabel == 'itself' or ulabel == 'char[inf]'
                for b in BEFORE if full or main else ['after a number']:
                    one(bench, ulabel, u, wlabel, cls, ann, b, list(FOLLOW) if full else
                        quick_f if b != 'first' else list(FOLLOW)[:4], b)
            case('C10', 'quick', f'reads to the end: {ulabel} in {wlabel}')(run)

            def again(bench, ulabel=ulabel, u=u, wlabel=wlabel, cls=cls, ann=ann, full=False):
                used(bench, ulabel, u, wlabel, cls, ann, full)
            case('C10', 'quick', f'reads to the end, used before: {ulabel} in {wlabel}')(again)
            case('C10', 'thorough', f'reads to the end, used before, all followers: {ulabel} in {wlabel}')(
                lambda bench, r=again: r(bench, full=True))
            case('C10', 'thorough', f'reads to the end, all positions: {ulabel} in {wlabel}')(
                lambda bench, r=run: r(bench, full=True))

    @case('C10', 'quick', 'reads to the end: definitions')
    def definitions(bench):
        for ul, u in UNBOUNDED.items():
            for h in ('2', 'uint8', 'uint16, uint32', '1', '0', '3, uint8'):
                for w in ('itself', 'a tuple ending in it', 'a case of a union', 'a conditional field',
                          'a nested class', 'a class nested twice', 'the default of a union'):
                    cls, ann = WRAP[w]
                    outcome(bench, f'an array of {w}: {ul}', HEAD + cls.format(u=u) +
                            f'class Subj(Structured):\n    a: array[Header[{h}], {ann.format(u=u)}]\n', 'C10', False,
                            'an array of items that read to the end is refused')
            for t in (f'tuple[{u}, int8]', f'tuple[tuple[int8, {u}], int8]', f'tuple[int8, {u}, {u}]',
                      f"tuple[{u}, Annotated[int, Opaque('z')]]", f'tuple[{u}, char[0]]', f'tuple[{u}, pad[1]]'):
                outcome(bench, f'{ul} inside a tuple', HEAD + f'class Subj(Structured):\n    a: {t}\n', 'C10', False,
                        'a field after one that reads to the end is refused inside a tuple')
            base = HEAD + f'class Base(Structured):\n    x: int8\n    y: {u}\n'
            outcome(bench, f'{ul} inherited', base + 'class Subj(Base):\n    z: int8\n', 'C10', False,
                    'a subclass cannot add fields after an inherited one that reads to the end')
            outcome(bench, f'{ul} inherited', base + 'class Subj(Base):\n    _: pad[1]\n', 'C10', False,
                    'a subclass cannot add padding after an inherited field that reads to the end')
            outcome(bench, f'{ul} inherited', base + 'class Subj(Base):\n    other = 1\n    z: ClassVar[int8]\n    w: str\n',
                    'C10', True, 'a subclass may add attributes that are not serialized')
            outcome(bench, f'{ul} inherited', base + 'class Subj(Base):\n    y: int16\n    z: int8\n', 'C10', True,
                    'overriding the field that reads to the end lifts the restriction')
            outcome(bench, f'{ul} inherited', base + 'class Subj(Base):\n    y: None\n    z: int8\n', 'C10', True,
                    'removing the field that reads to the end lifts the restriction')
            outcome(bench, f'{ul} overriding', HEAD + f'class Base(Structured):\n    x: int8\n    y: int8\n'
                    f'class Subj(Base):\n    x: {u}\n', 'C10', False,
                    'an earlier field cannot be overridden with one that reads to the end')
            outcome(bench, f'{ul} overriding', HEAD + f'class Base(Structured):\n    x: int8\n    y: int8\n'
                    f'class Subj(Base):\n    y: {u}\n', 'C10', True,
                    'the last field can be overridden with one that reads to the end')
            for o in ('LE', 'BE'):
                outcome(bench, f'{ul} after a nested class', HEAD + f'class Subj(Structured, byte_order=ByteOrder.{o}):\n'
                        f'    x: Flat\n    y: {u}\n    z: int8\n', 'C10', False, 'the byte order makes no difference')
        for w in ('itself', 'a tuple ending in it', 'a nested class'):
            cls, ann = WRAP[w]
            outcome(bench, f'a generic field specialized with {w}', HEAD + cls.format(u='char[math.inf]') +
                    f'class Gen(Generic[T], Structured):\n    x: T\n    y: int8\nclass Subj(Gen[{ann.format(u="char[math.inf]")}]):\n    pass\n',
                    'C10', False, 'specializing a field that is not last with one that reads to the end is refused')
        # bounded look-alikes stay usable anywhere
        for f, a in FOLLOW.items():
            if f in ('unbounded', 'pad'):
                continue
            outcome(bench, f'{f} followed by others', HEAD + f'class Subj(Structured):\n    a: {a}\n    b: {a}\n    c: int8\n',
                    'C10', True, 'bounded fields may be followed by others')
            outcome(bench, f'{f} in an array', HEAD + f'class Subj(Structured):\n    a: array[Header[2], {a}]\n    c: int8\n',
                    'C10', True, 'bounded items may be in arrays')
        outcome(bench, 'self followed by a field that reads to the end', HEAD +
                'class Subj(Structured):\n    a: uint8\n    b: Annotated[Self, Condition(lambda o: o.a > 0, None)]\n'
                '    c: char[math.inf]\n', 'C10', False,
                'a recursive field cannot be followed by one that reads to the end')


register()
