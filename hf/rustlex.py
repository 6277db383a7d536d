"""A lexer for Rust source text: yields (kind, text, line) for words, literals and punctuation; comments are dropped."""
import re

TOK = re.compile(r'''
 (?P<ws>\s+)
|(?P<lc>//[^\n]*)
|(?P<raw>(?:b|c)?r(?P<h>\#*)".*?"(?P=h))
|(?P<str>(?:b|c)?"(?:\\.|[^"\\])*")
|(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\\n])')
|(?P<life>'[A-Za-z_]\w*)
|(?P<rawid>r\#[A-Za-z_]\w*)
|(?P<word>[A-Za-z_]\w*)
|(?P<num>\d[\w.]*)
|(?P<p>.)
''', re.X | re.S)


def lex(text):
    i, line, n = 0, 1, len(text)
    while i < n:
        if text.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if text.startswith('/*', j):
                    d, j = d + 1, j + 2
                elif text.startswith('*/', j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            line += text.count('\n', i, j)
            i = j
            continue
        m = TOK.match(text, i)
        k = m.lastgroup
        if k == 'h':
            k = 'raw'
        s = m.group(0)
        if k not in ('ws', 'lc'):
            yield k, s, line
        line += s.count('\n')
        i = m.end()
