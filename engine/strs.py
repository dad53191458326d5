"""Strings: regular expressions, trimming, searching, slicing.

Payload of a Str value: Python str (concrete) | z3 String term | Rope (concatenation of parts).
In bytes mode a character of a z3 string stands for one byte of the UTF-8 encoding.
"""
import z3, re
try:
    import re._parser as sre_parse, re._constants as sre_c
except ImportError:
    import sre_parse, sre_constants as sre_c
from val import *
import val

WS = [(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)]
def is_ws(c):
    n = ord(c)
    return any(a <= n <= b for a, b in WS)
ZMAX = 0x2FFFF
RS = z3.ReSort(z3.StringSort())
def re_lit(s): return z3.Re(sval(s))
def re_range(a, b):
    return z3.Range(sval(chr(a)), sval(chr(b)))
def re_union(rs):
    rs = list(rs)
    if not rs: return z3.Empty(RS)
    return rs[0] if len(rs) == 1 else z3.Union(*rs)
def re_cat(rs):
    rs = [r for r in rs]
    if not rs: return re_lit("")
    return rs[0] if len(rs) == 1 else z3.Concat(*rs)
ALL = z3.Full(RS)
def re_any(): return z3.AllChar(RS)

# ---------------------------------------------------------------- character classes (sets of intervals)
def cls_norm(iv):
    iv = sorted(iv); o = []
    for a, b in iv:
        if o and a <= o[-1][1] + 1: o[-1] = (o[-1][0], max(o[-1][1], b))
        else: o.append((a, b))
    return o
def cls_neg(iv, top=0x10FFFF):
    o, p = [], 0
    for a, b in cls_norm(iv):
        if p <= a - 1: o.append((p, a - 1))
        p = b + 1
    if p <= top: o.append((p, top))
    return o
def cls_and(x, y):
    return [(max(a, c), min(b, d)) for a, b in x for c, d in y if max(a, c) <= min(b, d)]
def cls_has(iv, n): return any(a <= n <= b for a, b in iv)

FULL_UTF8 = [False]      # thorough: all scalar values; quick: one- and two-byte encodings
def utf8_top(): return 0x10FFFF if FULL_UTF8[0] else 0x7FF
def enc(c): return [b for b in chr(c).encode("utf-8", "surrogatepass")]
def cls_re(iv, bytes_mode):
    """regular expression of one character of the class"""
    if not bytes_mode:
        out = [re_range(a, min(b, ZMAX)) for a, b in cls_norm(iv) if a <= ZMAX]
        return re_union(out)
    out = []
    for a, b in cls_norm(cls_and(iv, [(0, min(0xD7FF, utf8_top())), (0xE000, 0x10FFFF)] if utf8_top() > 0xD7FF else [(0, utf8_top())])):
        for lo, hi in [(0, 0x7F), (0x80, 0x7FF), (0x800, 0xFFFF), (0x10000, 0x10FFFF)]:
            x, y = max(a, lo), min(b, hi)
            if x <= y: out += u8_ranges(enc(x), enc(y))
    return re_union(out)
def u8_ranges(x, y):
    """RE list for byte sequences between x and y (same length, lexicographic, continuation bytes 80..BF)"""
    if len(x) == 1: return [re_range(x[0], y[0])]
    if x[0] == y[0]:
        return [re_cat([re_lit(chr(x[0])), r]) for r in u8_ranges(x[1:], y[1:])]
    full_lo = [0x80] * (len(x) - 1); full_hi = [0xBF] * (len(x) - 1)
    out = []
    a, b = x[0], y[0]
    if x[1:] != full_lo:
        out += [re_cat([re_lit(chr(a)), r]) for r in u8_ranges(x[1:], full_hi)]; a += 1
    tail = []
    if y[1:] != full_hi:
        tail = [re_cat([re_lit(chr(b)), r]) for r in u8_ranges(full_lo, y[1:])]; b -= 1
    if a <= b:
        out.append(re_cat([re_range(a, b)] + [re_range(0x80, 0xBF)] * (len(x) - 1)))
    return out + tail
_u8 = {}
def utf8_re():
    k = FULL_UTF8[0]
    if k not in _u8: _u8[k] = z3.Star(cls_re([(0, 0x10FFFF)], True))
    return _u8[k]
def ws_re(bm): return cls_re(WS, bm)
def nonws_re(bm): return cls_re(cls_neg(WS), bm)

# ---------------------------------------------------------------- Rust regex -> RE
class BadRegex(Exception): pass
_rx_cache = {}
def rust_regex_ok(p):
    """does the regex crate accept this pattern? (the common syntax only; None: cannot tell)"""
    try:
        parse_rx(p); return True
    except BadRegex: return False
def parse_rx(p):
    # Rust-only differences we refuse to guess about
    try:
        q = p.replace("(?<", "(?P<") if "(?<" in p and "(?<=" not in p and "(?<!" not in p else p
        q = q.replace("\\z", "\\Z")
        return sre_parse.parse(q)
    except re.error as e:
        raise BadRegex(str(e))
DIGITS = None
def rx_class(items):
    neg = False; iv = []
    for op, av in items:
        if op == sre_c.NEGATE: neg = True
        elif op == sre_c.LITERAL: iv.append((av, av))
        elif op == sre_c.RANGE: iv.append(av)
        elif op == sre_c.CATEGORY: iv += rx_cat(av)
        else: raise BadRegex(f"class item {op}")
    return cls_neg(iv) if neg else cls_norm(iv)
_catc = {}
def rx_cat(av):
    if av in _catc: return _catc[av]
    import unicodedata
    def rng(pred):
        o = []
        for n in range(0x110000):
            if 0xD800 <= n <= 0xDFFF: continue
            if pred(n):
                if o and o[-1][1] == n - 1: o[-1][1] = n
                else: o.append([n, n])
        return [tuple(x) for x in o]
    if av == sre_c.CATEGORY_DIGIT: r = rng(lambda n: unicodedata.category(chr(n)) == "Nd")
    elif av == sre_c.CATEGORY_NOT_DIGIT: r = cls_neg(rx_cat(sre_c.CATEGORY_DIGIT))
    elif av == sre_c.CATEGORY_SPACE: r = list(WS)
    elif av == sre_c.CATEGORY_NOT_SPACE: r = cls_neg(WS)
    elif av == sre_c.CATEGORY_WORD:
        r = rng(lambda n: unicodedata.category(chr(n))[0] in "LM" or unicodedata.category(chr(n)) in ("Nd", "Pc", "Nl") or chr(n).isalpha())
    elif av == sre_c.CATEGORY_NOT_WORD: r = cls_neg(rx_cat(sre_c.CATEGORY_WORD))
    else: raise BadRegex(str(av))
    _catc[av] = r
    return r
BEG = lambda: ((sre_c.AT, sre_c.AT_BEGINNING), (sre_c.AT, sre_c.AT_BEGINNING_STRING))
END = lambda: ((sre_c.AT, sre_c.AT_END), (sre_c.AT, sre_c.AT_END_STRING))
def rx_re(seq, bm, start=False, end=False):
    """RE of a parsed sequence; start/end: it begins/ends at the border of the text, where anchors hold"""
    out = []
    seq = list(seq)
    while start and seq and seq[0] in BEG(): seq = seq[1:]
    while end and seq and seq[-1] in END(): seq = seq[:-1]
    for i, (op, av) in enumerate(seq):
        s1, e1 = start and i == 0, end and i == len(seq) - 1
        if op == sre_c.SUBPATTERN: out.append(rx_re(av[3], bm, s1, e1))
        elif op == sre_c.BRANCH: out.append(re_union([rx_re(b, bm, s1, e1) for b in av[1]]))
        elif op == sre_c.LITERAL: out.append(cls_re([(av, av)], bm))
        elif op == sre_c.NOT_LITERAL: out.append(cls_re(cls_neg([(av, av)]), bm))
        elif op == sre_c.ANY: out.append(cls_re(cls_neg([(10, 10)]), bm))
        elif op == sre_c.IN: out.append(cls_re(rx_class(av), bm))
        elif op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
            lo, hi, sub = av
            r = rx_re(sub, bm)
            if hi == sre_c.MAXREPEAT:
                out.append(z3.Star(r) if lo == 0 else (z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))))
            elif (lo, hi) == (0, 1): out.append(z3.Option(r))
            elif hi == 0: out.append(re_lit(""))
            else: out.append(z3.Loop(r, lo, hi))
        else: raise BadRegex(f"{op}")
    return re_cat(out)
def rx_search(seq, bm):
    """RE of the strings in which the pattern is found (anchors honoured at the ends of alternatives)"""
    seq = list(seq)
    if len(seq) == 1 and seq[0][0] == sre_c.BRANCH:
        return re_union([rx_search(b, bm) for b in seq[0][1][1]])
    if len(seq) == 1 and seq[0][0] == sre_c.SUBPATTERN:
        return rx_search(seq[0][1][3], bm)
    begin = end = False
    while seq and seq[0] in ((sre_c.AT, sre_c.AT_BEGINNING), (sre_c.AT, sre_c.AT_BEGINNING_STRING)): begin = True; seq = seq[1:]
    while seq and seq[-1] in ((sre_c.AT, sre_c.AT_END), (sre_c.AT, sre_c.AT_END_STRING)): end = True; seq = seq[:-1]
    r = rx_re(seq, bm, begin, end)
    parts = ([] if begin else [ALL]) + [r] + ([] if end else [ALL])
    return re_cat(parts)
def search_re(p, bm=False):
    k = (p, bm, FULL_UTF8[0])
    if k not in _rx_cache: _rx_cache[k] = rx_search(parse_rx(p), bm)
    return _rx_cache[k]

# membership of the trimmed string: trim(s) in R  <=>  s in WS* (R & NOEDGE) WS*
_tr_cache = {}
def trimmed_re(r, bm=False):
    k = (r.get_id(), bm, FULL_UTF8[0])
    if k not in _tr_cache:
        ws, nws = ws_re(bm), nonws_re(bm)
        edge = z3.Union(re_lit(""), nws, re_cat([nws, ALL, nws]))
        _tr_cache[k] = (re_cat([z3.Star(ws), z3.Intersect(r, edge), z3.Star(ws)]), r)
    return _tr_cache[k][0]

# ---------------------------------------------------------------- byte length of a character-mode string
def blen(x, t):
    """UTF-8 length of t (character mode): an integer tied to t by sound facts"""
    k = ("blen", t.get_id())
    if k in x.memo: return x.memo[k][0]
    b = z3.Int(f"blen!{len(x.memo)}")
    x.memo[k] = (b, t)
    L = z3.Length(t)
    c = lambda a, z: z3.InRe(t, z3.Star(re_range(a, z)))
    x.axiom(z3.And(b >= L, b <= 4 * L))
    x.axiom(c(0, 0x7F) == (b == L))
    x.axiom(z3.Implies(c(0x80, 0x7FF), b == 2 * L))
    x.axiom(z3.Implies(c(0x800, 0xFFFF), b == 3 * L))
    x.axiom(z3.Implies(c(0x10000, ZMAX), b == 4 * L))
    x.axiom(z3.Or(c(0, 0x7F), c(0x80, 0x7FF), c(0x800, 0xFFFF), c(0x10000, ZMAX)))   # bound: one encoding length per string
    return b
