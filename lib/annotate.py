"""Attach loop-invariant hooks to loops of a C function, textually.

The only change made to the source is an expression evaluated in front of a
loop's condition (for/while) or at the start of its body (do); no token of the
original is removed.  Loops are addressed by function name and ordinal.
"""
import re

class Mismatch(Exception):
    """The annotation does not fit the source (renamed, rewritten...)."""

TOK = re.compile(r'''
  (?P<ws>\s+|\\\n)
 |(?P<com>//[^\n]*|/\*.*?\*/)
 |(?P<pp>^[ \t]*\#(?:[^\n\\]|\\\n|\\.)*)
 |(?P<str>"(?:[^"\\\n]|\\.)*"|'(?:[^'\\\n]|\\.)*')
 |(?P<id>[A-Za-z_]\w*)
 |(?P<num>\.?\d(?:[\w.]|[eE][+-])*)
 |(?P<op><<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|.)
''', re.X | re.S | re.M)

ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=', '++', '--'}
KEYWORDS = {'if', 'else', 'for', 'while', 'do', 'switch', 'case', 'default', 'return', 'goto', 'break', 'continue', 'sizeof'}

def tokenize(text):
    toks, pos = [], 0
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise Mismatch('cannot tokenize at %d' % pos)
        if m.lastgroup not in ('ws', 'com', 'pp'):
            toks.append((m.group(), m.start(), m.end(), m.lastgroup))
        pos = m.end()
    return toks

OPEN = {'(': ')', '{': '}', '[': ']'}

class Src:
    def __init__(self, text):
        self.text = text
        self.t = tokenize(text)

    def match(self, i):
        o = self.t[i][0]
        c = OPEN[o]
        d = 0
        for j in range(i, len(self.t)):
            s = self.t[j][0]
            if s == o:
                d += 1
            elif s == c:
                d -= 1
                if d == 0:
                    return j
        raise Mismatch('unbalanced %s' % o)

    def find_function(self, name):
        depth = 0
        i = 0
        while i < len(self.t):
            s = self.t[i][0]
            if s == '{':
                i = self.match(i) + 1
                continue
            if s == name and i + 1 < len(self.t) and self.t[i + 1][0] == '(':
                j = self.match(i + 1)
                if j + 1 < len(self.t) and self.t[j + 1][0] == '{':
                    return j + 1, self.match(j + 1)
            i += 1
        raise Mismatch('function %s not found' % name)

    def stmt_end(self, i):
        """index of the last token of the statement starting at token i"""
        s = self.t[i][0]
        if s == '{':
            return self.match(i)
        if s in ('for', 'while', 'switch', 'if'):
            j = self.match(i + 1)
            e = self.stmt_end(j + 1)
            if s == 'if' and e + 1 < len(self.t) and self.t[e + 1][0] == 'else':
                e = self.stmt_end(e + 2)
            return e
        if s == 'do':
            e = self.stmt_end(i + 1)
            if self.t[e + 1][0] != 'while':
                raise Mismatch('do without while')
            j = self.match(e + 2)
            return j + 1
        d = 0
        for j in range(i, len(self.t)):
            x = self.t[j][0]
            if x in OPEN:
                d += 1
            elif x in OPEN.values():
                d -= 1
            elif x == ';' and d == 0:
                return j
        raise Mismatch('statement end')

    def loops(self, name):
        b, e = self.find_function(name)
        skip, out = set(), []
        for i in range(b, e):
            s = self.t[i][0]
            if s == 'do':
                be = self.stmt_end(i + 1)
                skip.add(be + 1)
                out.append(('do', i, self.stmt_end(i)))
            elif s == 'for':
                out.append(('for', i, self.stmt_end(i)))
            elif s == 'while' and i not in skip:
                out.append(('while', i, self.stmt_end(i)))
        return out

    def assigned(self, i, e):
        """names assigned (or whose address is taken) in tokens i..e but not declared there"""
        decl, asg = set(), set()
        t = self.t
        for k in range(i, e + 1):
            s, kind = t[k][0], t[k][3]
            if kind != 'id' or s in KEYWORDS:
                continue
            prev = t[k - 1][0]
            pkind = t[k - 1][3]
            nxt = t[k + 1][0] if k + 1 < len(t) else ''
            if prev in ('.', '->'):
                continue
            # declaration:  type name  |  type * name
            if nxt in ('=', ';', ',', '[', ')') or nxt in ASSIGN:
                q = k - 1
                while t[q][0] == '*':
                    q -= 1
                isdecl = (t[q][3] == 'id' and t[q][0] not in KEYWORDS and
                          (q < k - 1 and t[q - 1][0] in ('{', ';', '(', '}', 'const', 'unsigned', 'struct', ':') or q == k - 1))
                if isdecl and nxt != ')':
                    decl.add(s)
                    continue
            if nxt in ASSIGN and prev != '*':
                asg.add(s)
            elif nxt in ASSIGN and prev == '*' and nxt in ('++', '--'):
                asg.add(s)
            elif prev in ('++', '--') and nxt not in ('->', '.', '['):
                asg.add(s)
            elif prev == '&' and nxt != '->' and t[k - 2][0] in ('(', ',', '=', 'return', ')', '?', ':', '{', '&&', '||'):
                asg.add(s)
        return asg - decl

def annotate(text, specs):
    """specs: list of dict(func, loop, text, mods=None, kind=None, only=None)"""
    src = Src(text)
    edits = []
    for sp in specs:
        ls = src.loops(sp['func'])
        if sp.get('count') is not None and len(ls) != sp['count']:
            raise Mismatch('%s has %d loops, expected %d' % (sp['func'], len(ls), sp['count']))
        if sp['loop'] >= len(ls):
            raise Mismatch('%s has no loop %d' % (sp['func'], sp['loop']))
        kind, i, e = ls[sp['loop']]
        if sp.get('mods') is not None:
            start = i
            if kind == 'for':   # the init clause runs before the head
                j = i + 2
                d = 0
                while not (src.t[j][0] == ';' and d == 0):
                    if src.t[j][0] in OPEN: d += 1
                    elif src.t[j][0] in OPEN.values(): d -= 1
                    j += 1
                start = j
            extra = src.assigned(start, e) - set(sp['mods'])
            if extra:
                raise Mismatch('loop %d of %s modifies %s' % (sp['loop'], sp['func'], ', '.join(sorted(extra))))
        tx = sp['text']
        if kind == 'do':
            if src.t[i + 1][0] != '{':
                raise Mismatch('do without block')
            edits.append((src.t[i + 1][2], ' ' + tx + '; '))
        elif kind == 'while':
            j = src.match(i + 1)
            edits.append((src.t[i + 1][2], tx + ', ('))
            edits.append((src.t[j][1], ')'))
        else:
            o = i + 1
            c = src.match(o)
            d, semis = 0, []
            for k in range(o + 1, c):
                x = src.t[k][0]
                if x in OPEN: d += 1
                elif x in OPEN.values(): d -= 1
                elif x == ';' and d == 0: semis.append(k)
            if len(semis) != 2:
                raise Mismatch('for header')
            a, b = semis
            if b == a + 1:
                edits.append((src.t[a][2], ' ' + tx + ', 1'))
            else:
                edits.append((src.t[a][2], ' ' + tx + ', ('))
                edits.append((src.t[b][1], ')'))
    out = text
    for pos, ins in sorted(edits, key=lambda x: -x[0]):
        out = out[:pos] + ins + out[pos:]
    return out

if __name__ == '__main__':
    import sys
    s = Src(open(sys.argv[1]).read())
    for f in sys.argv[2:]:
        for k, (kind, i, e) in enumerate(s.loops(f)):
            print(f, k, kind, 'line', s.text.count('\n', 0, s.t[i][1]) + 1, 'assigns', sorted(s.assigned(i, e)))
