"""Hypothesis strategies shared by the property modules (all produce JSON-able data)."""
import re

from hypothesis import strategies as st

import core

INTS, STRS = core.literals()


def _legal(s):
    return all(c in '\t\n\r' or '\x20' <= c <= '\ud7ff' or '\ue000' <= c <= '\ufffd' or c >= '\U00010000'
               for c in s)


STRS = [s for s in STRS if _legal(s)]
SMALL_INTS = sorted(set(i for v in INTS if v <= 70 for i in (v - 1, v, v + 1) if i >= 0))

# XML-legal characters (no surrogates, no C0 controls except tab, LF, CR; no FFFE/FFFF)
any_char = st.one_of(
    st.sampled_from(list('abcXYZ019')),
    st.sampled_from(list(' \t\n  ')),
    st.sampled_from(list('<>&"\'][{}:;/\\.,-_#%')),
    st.sampled_from(['\r', '\x7f', '\x85', '\xa0', '\u2028', '\u200b', '\u0301', '\ufeff', '\u3000',
                     '\U0001F600', '\U00010000', '\U0010FFFD', '\ud7ff', '\ue000', '\ufffd', '\xad']),
    st.characters(min_codepoint=0x20, max_codepoint=0xd7ff),
)

plain_char = st.one_of(st.sampled_from(list('abcdefXYZ0189 _-')),
                       st.sampled_from(list('äöß€"\'&<>:.#')))


def text(max_size=12, min_size=0):
    return st.one_of(
        st.text(any_char, min_size=min_size, max_size=max_size),
        st.text(st.sampled_from(list(' \t\na')), min_size=min_size, max_size=max_size),
        st.sampled_from([s for s in STRS if len(s) >= min_size]),
    )


def word(max_size=8, min_size=1):
    return st.text(plain_char, min_size=min_size, max_size=max_size)


def nonempty(max_size=10):
    return text(max_size, 1).filter(bool)


def name(max_size=8):
    """names of sheets, variables, styles ..."""
    return st.one_of(
        st.sampled_from(['a', 'b', 'Sheet1', 'Sheet2', 'A1', '0', '1', '-1', ' a', 'a ', 'A']),
        st.text(plain_char, min_size=1, max_size=max_size),
        st.text(any_char, min_size=1, max_size=max_size),
        st.sampled_from([s for s in STRS if s.strip()]),
    )


def index(n=6):
    """symbolic index: mapped by the executor to the current size, sometimes out of range"""
    return st.integers(-n, n)


def small(lo=0, hi=6):
    """small integers, biased towards literals of the source"""
    base = st.integers(lo, hi)
    lits = [v for v in SMALL_INTS if lo <= v <= hi]
    return st.one_of(base, st.sampled_from(lits)) if lits else base


def size(lo, hi, big=40):
    """sizes: mostly small, sometimes at literals of the source"""
    lits = [v for v in SMALL_INTS if hi < v <= big]
    if not lits:
        return st.integers(lo, hi)
    return st.one_of(st.integers(lo, hi), st.integers(lo, hi), st.integers(lo, hi), st.sampled_from(lits))


finite = st.floats(allow_nan=False, allow_infinity=False, width=64)
number = st.one_of(st.integers(-5, 5), st.sampled_from([0, 1, -1, 10, 100, 255, 256, 1000, 65536]),
                   st.sampled_from([0.0, -0.0, 0.5, -1.5, 1e300, -1e-300, 0.1, 1e16, 12345.678]),
                   st.integers(-10 ** 18, 10 ** 18), finite)


def ops(op, max_size, min_size=0):
    return st.lists(op, min_size=min_size, max_size=max_size)


def choice(*pairs):
    """weighted choice of strategies: (weight, strategy) ..."""
    pool = []
    for w, s in pairs:
        pool.extend([s] * w)
    return st.sampled_from(range(len(pool))).flatmap(lambda i: pool[i])


def op(name, *args):
    return st.tuples(st.just(name), *args).map(list)
