"""ASCII tables: character classes, case maps and digit values, for all 256 bytes and both signednesses of char."""
from harness import *

NAMES = ['CONTROL', 'DIGIT', 'LOWER', 'UPPER', 'HT', 'LF', 'FF', 'CR', 'SPACE', 'OCTAL', 'HEX', 'UNDER', 'PRINT']


def members(n):
    R = lambda a, b: set(range(ord(a), ord(b) + 1))
    return {'CONTROL': set(range(32)) | {127}, 'DIGIT': R('0', '9'), 'LOWER': R('a', 'z'), 'UPPER': R('A', 'Z'), 'HT': {9}, 'LF': {10}, 'FF': {12},
            'CR': {13}, 'SPACE': {32}, 'OCTAL': R('0', '7'), 'HEX': R('0', '9') | R('a', 'f') | R('A', 'F'), 'UNDER': {95}, 'PRINT': set(range(32, 127))}[n]


def run(res, tier):
    bits = build.probe(['charstr.h'], ['CHARSTR_' + n for n in NAMES] + ['CHARSTR_WHITESPACE', 'CHARSTR_ALPHA', 'CHARSTR_ALNUM', 'CHARSTR_ASCII', 'CHARSTR_TAB', 'CHARSTR_NL'])
    val = dict(zip(NAMES, bits))
    ws, al, an, asc, tab, nl = bits[len(NAMES):]
    v = val
    comb = {'WHITESPACE': (ws, v['HT'] | v['LF'] | v['FF'] | v['CR'] | v['SPACE']), 'ALPHA': (al, v['LOWER'] | v['UPPER']), 'ALNUM': (an, v['LOWER'] | v['UPPER'] | v['DIGIT']),
            'ASCII': (asc, v['CONTROL'] | v['PRINT']), 'TAB': (tab, v['HT']), 'NL': (nl, v['LF'])}
    for k, (a, b) in comb.items():
        if a != b: res.viol('post', 'CHARSTR_%s is not the combination it stands for' % k, 'include/charstr.h', 0, 'CHARSTR_' + k)
        else: res.ok('ascii: combined class masks')
    if any(x <= 0 or x & (x - 1) for x in val.values()) or len(set(val.values())) != len(NAMES):
        res.viol('post', 'class bits are not distinct single bits', 'include/charstr.h', 0, 'CHARSTR_*')
    else: res.ok('ascii: class bits distinct', len(NAMES))
    cls = {c: sum(val[n] for n in NAMES if c in members(n)) for c in range(256)}
    for flag in ('-fsigned-char', '-funsigned-char'):
        h = H(['charstr', 'list', 'fsalloc'], defs=(flag,))
        E = h.E
        for f in ('charstr_char_class', 'charstr_lcase_char', 'charstr_ucase_char', 'charstr_digit_value'): h.fn(f)
        lo, hi = (-128, 127) if flag == '-fsigned-char' else (0, 255)
        c = sym('c', lo, hi)
        a = c.t[0][0]

        def pointwise(s, r, w, signed, want, only=None):
            """the returned expression equals want(byte) for every byte value possible in this state"""
            num = s.num
            for env in num.envs({a}):
                b = env[a] & 255
                if only and not only(b): continue
                try: g = eval_lin(num.norm(r), dict(env)) & mask(w)
                except Exception as x: raise Undecided('value not a function of the byte')
                if g != want(b) & mask(w): return 'gives 0x%x instead of 0x%x for byte 0x%02x' % (g, want(b) & mask(w), b)
            return True
        for s, r in h.call(h.state(), 'charstr_char_class', c):
            h.oblige(s, 'charstr_char_class gives exactly the documented classes', lambda s: pointwise(s, r, 64, False, lambda b: cls[b]))
        for s, r in h.call(h.state(), 'charstr_lcase_char', c):
            h.oblige(s, 'charstr_lcase_char changes exactly A-Z', lambda s: pointwise(s, r, 8, True, lambda b: b + 32 if 65 <= b <= 90 else b))
        for s, r in h.call(h.state(), 'charstr_ucase_char', c):
            h.oblige(s, 'charstr_ucase_char changes exactly a-z', lambda s: pointwise(s, r, 8, True, lambda b: b - 32 if 97 <= b <= 122 else b))
        for s, r in h.call(h.state(), 'charstr_digit_value', c):
            h.oblige(s, 'charstr_digit_value gives every hex digit\'s value',
                     lambda s: pointwise(s, r, 32, False, lambda b: int(chr(b), 16), lambda b: chr(b) in '0123456789abcdefABCDEF'))
        res.add(h, 'ascii' + flag)
