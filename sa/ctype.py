"""helpers over clang's canonical type spellings"""
import functools
import re

INT_TYPES = {'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long',
             'unsigned long', 'long long', 'unsigned long long', 'char8_t', 'char16_t', 'char32_t', 'wchar_t',
             '__int128', 'unsigned __int128'}
NARROW = {'unsigned char': 8, 'char': 8, 'signed char': 8, 'unsigned short': 16, 'short': 16}
SIZES = {'bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4,
         'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'double': 8,
         'float': 4}


@functools.lru_cache(None)
def clean(t):
    t = t.strip()
    while True:
        o = t
        for s in ('const ', 'volatile ', 'struct ', 'class '):
            if t.startswith(s):
                t = t[len(s):]
        if t.endswith(' const'):
            t = t[:-6]
        if t.endswith('&&'):
            t = t[:-2].strip()
        elif t.endswith('&'):
            t = t[:-1].strip()
        t = t.strip()
        if t == o:
            return t


def is_ref(t):
    return t.rstrip().endswith('&')


def is_ptr(t):
    t = clean(t)
    return t.endswith('*') or t.endswith('*const') or t.endswith('* const')


def is_array(t):
    return re.search(r'\[\d*\]$', clean(t)) is not None


def const_ref(t):
    t = t.strip()
    return (t.startswith('const ') and is_ref(t)) or t.endswith('const &')


ENUMS = set()


@functools.lru_cache(None)
def kind_of(t):
    t = clean(t)
    if t in ENUMS:
        return 'i'
    if t == 'bool' or t.startswith('std::_Bit_reference'):
        return 'b'
    if t in INT_TYPES:
        return 'i'
    if '__vector_size__' in t and '<' not in t and not is_ref(t) and not is_ptr(t) and not t.rstrip().endswith(']') or t == '__m128i' or t == '__m256i':
        return 'v'
    if t in ('double', 'float', 'long double'):
        return 'f'
    if t.startswith('std::atomic<'):
        return kind_of(targs(t)[0])
    return 'o'


@functools.lru_cache(None)
def targs(t):
    """template arguments of a type spelling"""
    t = clean(t)
    i = t.find('<')
    if i < 0:
        return ()
    out, d, cur = [], 0, ''
    for ch in t[i:]:
        if ch == '<' or ch == '(':
            d += 1
            if d == 1 and ch == '<':
                continue
        elif ch == '>' or ch == ')':
            d -= 1
            if d == 0:
                out.append(cur.strip())
                break
        elif ch == ',' and d == 1:
            out.append(cur.strip())
            cur = ''
            continue
        cur += ch
    return tuple(x for x in out if x)


@functools.lru_cache(None)
def tname(t):
    t = clean(t)
    i = t.find('<')
    return t if i < 0 else t[:i]


SEQ = {'std::vector', 'std::array', 'std::deque', 'std::queue', 'std::initializer_list', 'std::list', 'std::span',
       'folly::Range', 'std::stack'}
STRS = {'std::basic_string', 'std::basic_string_view'}
MAPS = {'std::map', 'std::unordered_map', 'folly::F14FastMap', 'std::multimap', 'folly::F14NodeMap',
        'folly::F14ValueMap'}
SETS = {'std::set', 'std::unordered_set'}
SMART = {'std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::weak_ptr'}


def elem(t):
    t = clean(t)
    if is_array(t):
        m = re.match(r'(.*?)\s*\[(\d*)\](.*)$', t)
        return (m.group(1) + m.group(3)).strip()
    if is_ptr(t):
        return clean(t.rstrip()[:t.rstrip().rindex('*')])
    n = tname(t)
    if n in STRS:
        return 'char'
    a = targs(t)
    if n in MAPS:
        return 'std::pair<const %s, %s>' % (a[0], a[1])
    if a:
        return a[0]
    return '?'


BITS = {'char': (8, True), 'signed char': (8, True), 'int8_t': (8, True), 'unsigned char': (8, False), 'uint8_t': (8, False),
        'short': (16, True), 'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False), 'int32_t': (32, True),
        'uint32_t': (32, False), 'long': (64, True), 'int64_t': (64, True), 'long long': (64, True), 'unsigned long': (64, False),
        'uint64_t': (64, False), 'size_t': (64, False), 'unsigned long long': (64, False)}


def width(t):
    """(bits, signed) of an integer type"""
    return BITS.get(clean(t).replace('std::', ''))
