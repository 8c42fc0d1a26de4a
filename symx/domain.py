"""Character domain of the symbolic executor.

Every symbolic character ranges over D: all 128 ASCII code points plus 128
non-ASCII representatives.  D is sorted by code point, so the 8-bit index of a
character orders the same way as the character itself.
"""
from __future__ import annotations

_NON_ASCII = (
    # controls, separators, spaces, joiners, BOM
    [0x80, 0x85, 0x9F, 0xA0, 0xAD, 0x1680, 0x2000, 0x2003, 0x2009, 0x200B, 0x200C, 0x200D, 0x200E,
     0x2028, 0x2029, 0x202F, 0x205F, 0x2060, 0x3000, 0xFEFF, 0xFFFD, 0xFFFF]
    # latin-1 symbols, letters, superscripts, fractions
    + [0xAA, 0xAB, 0xB0, 0xB1, 0xB2, 0xB3, 0xB4, 0xB5, 0xB7, 0xB9, 0xBA, 0xBB, 0xBC, 0xBD]
    + [0xC0, 0xC4, 0xC6, 0xD7, 0xD8, 0xDF, 0xE0, 0xE4, 0xE6, 0xE9, 0xF7, 0xF8, 0xFF]
    # extended latin, dotted/dotless i, long s, ligatures, titlecase digraph
    + [0x100, 0x101, 0x130, 0x131, 0x152, 0x153, 0x178, 0x17F, 0x1C4, 0x1C5, 0x1C6, 0x1E9E, 0x212A, 0x212B, 0xFB01]
    # modifiers, combining marks
    + [0x2B0, 0x2B9, 0x300, 0x301, 0x308, 0x345, 0x20D0, 0x20DD, 0x0903]
    # greek, cyrillic
    + [0x391, 0x3A3, 0x3B1, 0x3C2, 0x3C3, 0x410, 0x430, 0x42F, 0x44F]
    # digits of other scripts, other numerics
    + [0x660, 0x663, 0x669, 0x966, 0x96F, 0xFF10, 0xFF11, 0xFF19, 0x2070, 0x2074, 0x2153, 0x2160, 0x2170, 0x2460]
    # hebrew, arabic, devanagari, thai, CJK, hangul, kana
    + [0x5D0, 0x627, 0x905, 0xE01, 0x4E2D, 0x6587, 0xAC00, 0x3042, 0x30A2]
    # punctuation that resembles syntax
    + [0x2010, 0x2018, 0x2019, 0x201C, 0x2032, 0x203F, 0x2044, 0x20AC, 0xFF02, 0xFF07, 0xFF04, 0xFF5B, 0xFF5D, 0xFF3F]
    # astral planes
    + [0x10400, 0x10428, 0x1D7CE, 0x1D7D8, 0x1F600, 0x1F468, 0x20000, 0xE0001, 0x10FFFF]
)


def _mk():
    seen = sorted(set(_NON_ASCII))
    assert len(seen) == 128, len(seen)
    return [chr(i) for i in range(128)] + [chr(c) for c in seen]


D = _mk()
assert len(D) == 256 and D == sorted(D), len(D)
INDEX = {c: i for i, c in enumerate(D)}
FULL = (1 << 256) - 1

MARK_BASE = 0xF0000
MARK_MAX = 0xFFFF


def mask_of(chars):
    m = 0
    for c in chars:
        i = INDEX.get(c)
        if i is not None:
            m |= 1 << i
    return m


def mask_where(pred):
    m = 0
    for i, c in enumerate(D):
        if pred(c):
            m |= 1 << i
    return m


def chars_of(mask):
    out = []
    i = 0
    while mask:
        low = (mask & -mask).bit_length() - 1
        out.append(D[low])
        mask &= mask - 1
    return out


_LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
_DIGITS = "0123456789"

CLASSES = {
    "any": FULL,
    "digit": mask_of(_DIGITS),
    "letter": mask_of(_LETTERS),
    "alnum": mask_of(_LETTERS + _DIGITS),
    "identstart": mask_of(_LETTERS + "_"),
    "ident": mask_of(_LETTERS + _DIGITS + "_"),
    "notquote": FULL & ~mask_of("'"),
    # everything except line terminators python's universal newline mode would rewrite
    "nocr": FULL & ~mask_of("\r"),
    "line": FULL & ~mask_of("\r\n"),
    "ascii": (1 << 128) - 1,
    "printable": mask_where(lambda c: " " <= c <= "~"),
}


def mask(spec):
    if isinstance(spec, int):
        return spec
    if spec in CLASSES:
        return CLASSES[spec]
    if spec.startswith("-"):
        # complement of the listed characters
        return FULL & ~mask_of(spec[1:])
    assert spec.startswith("="), spec
    return mask_of(spec[1:])
