"""A small Rust lexer: enough to cut items, match arms and bodies out of a source file without changing a character."""
import re
TOK = re.compile(r'''(?P<ws>\s+)|(?P<lc>//[^\n]*)|(?P<bc>/\*.*?\*/)|(?P<raw>b?r(?P<h>\#*)".*?"(?P=h))|(?P<str>b?"(?:\\.|[^"\\])*")|(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')|(?P<life>'[A-Za-z_]\w*)|(?P<id>(?:r\#)?[A-Za-z_]\w*)|(?P<num>\d[\w]*(?:\.\d[\w]*)?)|(?P<op>=>|->|::|\.\.=|\.\.|&&|\|\||<<=|>>=|[-+*/%^&|=!<>]=|[^\s\w])''', re.S)
class T:
    __slots__ = ('k', 's', 'a', 'b')
    def __init__(s, k, t, a, b): s.k, s.s, s.a, s.b = k, t, a, b
    def __repr__(s): return s.s
def lex(src):
    out, i = [], 0
    while i < len(src):
        m = TOK.match(src, i)
        if not m: raise ValueError(f'lex error at {i}: {src[i:i+30]!r}')
        k = m.lastgroup
        if k == 'h': k = 'raw'
        if k not in ('ws', 'lc', 'bc'): out.append(T(k, m.group(), m.start(), m.end()))
        i = m.end()
    return out
OPEN = {'(': ')', '[': ']', '{': '}'}
def close(toks, i):
    """index of the token closing toks[i]"""
    d = 0
    for j in range(i, len(toks)):
        if toks[j].s in OPEN: d += 1
        elif toks[j].s in (')', ']', '}'):
            d -= 1
            if d == 0: return j
    raise ValueError('unbalanced')
def find_seq(toks, seq, start=0, end=None):
    end = len(toks) if end is None else end
    for i in range(start, end - len(seq) + 1):
        if all(toks[i + k].s == s for k, s in enumerate(seq)): return i
    return -1
def arms(toks, i, j):
    """the arms of a match body between the brace tokens i and j: (pattern tokens, (start, end) char span incl. trailing comma)"""
    out, p = [], i + 1
    while p < j:
        q, d = p, 0
        while not (d == 0 and toks[q].s == '=>'):
            if toks[q].s in OPEN: q = close(toks, q)
            q += 1
            if q >= j: raise ValueError('arm without =>')
        r = q + 1
        if toks[r].s == '{':
            e = close(toks, r)
            if e + 1 < j and toks[e + 1].s == ',': e += 1
            elif e + 1 < j and toks[e + 1].s in ('.', '?'):   # a block followed by a method call is an expression
                e = None
        else: e = None
        if e is None:
            e = r
            while e < j and toks[e].s != ',':
                if toks[e].s in OPEN: e = close(toks, e)
                elif toks[e].s == '::' and toks[e + 1].s == '<':
                    n, e = 1, e + 2
                    while n:
                        if toks[e].s in OPEN: e = close(toks, e)
                        n += (toks[e].s == '<') - (toks[e].s == '>')
                        e += 1
                    continue
                e += 1
            if e >= j: e = j - 1
        out.append((toks[p:q], (toks[p].a, toks[e].b)))
        p = e + 1
    return out
