"""Writes a token sequence down in many ways: white space, line endings, comments.
Remembers on which line every token stands and which comments were put in."""

WORD = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')
OPS = set('=!&|<>+-*/%^~')
BITS = ['x', ' ', ' y ', '{', '}', ';', '"', "'", '@', '\\', '/', '*', '//', '/*', 'struct', 'packet P {', '\t', 'é', '漢', '0x', '$', '-', '.', '\x7f', '\\n']


def must_part(a, b):
    """Whether the two tokens need something between them to stay two tokens."""
    if a[-1] in WORD and b[0] in WORD:
        return True
    if a[-1] in OPS and b[0] in OPS:
        return True
    if a == '-' and b[0].isdigit():
        return True
    if a[-1] == '.' or b[0] == '.':
        return a[-1].isdigit() or b[0].isdigit()
    return False


def after_decorators(tokens):
    """Indices of the tokens standing after a decorator, where documentation may stand."""
    out, i, n = set(), 0, len(tokens)
    while i < n:
        if tokens[i] == '@':
            i += 2
            if i < n and tokens[i] == '(':
                depth = 0
                while i < n:
                    depth += (tokens[i] == '(') - (tokens[i] == ')')
                    i += 1
                    if depth == 0:
                        break
            out.add(i)
        else:
            i += 1
    return out


class Layout:
    def __init__(self, rng, comments=0.1, breaks=0.3, docs=0.2, tight=0.3, blank=0.2, eol=None, odd=True, one_line=False, cr=False):
        self.r, self.comments, self.breaks, self.docs, self.tight, self.blank = rng, comments, breaks, docs, tight, blank
        self.eol = eol or rng.choice(['\n', '\n', '\r\n'])
        self.cr = cr                  # lone carriage returns in line comments
        self.one_line = one_line      # line breaks only at the suggested places
        self.bits = BITS if odd else [b for b in BITS if b.isascii()]

    def words(self):
        return ''.join(self.r.choice(self.bits) for _ in range(self.r.choice([0, 1, 3, 8])))

    def line_comment(self):
        w = self.words()
        if w.startswith('/'):
            w = ' ' + w
        if self.cr and self.r.random() < 0.2:
            w += '\r' + (self.words() or 'x')
        return '//' + w

    def block_comment(self, breaks):
        w = self.words()
        if breaks:
            for _ in range(self.r.choice([0, 0, 1, 3])):
                k = self.r.randrange(len(w) + 1)
                w = w[:k] + self.eol + w[k:]
        while '*/' in w:
            w = w.replace('*/', '*')
        w = w.rstrip('*') if self.r.random() < 0.5 else w
        return '/*' + w + '*/'

    def doc_comment(self):
        return '///' + self.words()

    def space(self):
        return self.r.choice([' ', ' ', ' ', '  ', '\t', ' \t ', ' \r'])

    def gap(self, breaks, docs, need):
        """Text between two tokens."""
        r, out = self.r, ''
        if not need and r.random() < self.tight:
            return ''
        for _ in range(1 + (r.random() < 0.1) + (r.random() < 0.1)):
            x = r.random()
            if x < self.comments:
                if docs and r.random() < self.docs:
                    c = self.doc_comment()
                elif breaks and r.random() < 0.5:
                    c = self.line_comment()
                else:
                    c = self.block_comment(breaks)
                self.found.append(c)
                out += (self.space() if r.random() < 0.5 or (out == '' and self.prev[-1:] == '/') else '') + c
                if not c.startswith('/*'):
                    out += ('\r' if self.r.random() < 0.05 else '') + self.eol
            elif breaks and x < self.comments + self.breaks:
                out += self.eol * r.choice([1, 1, 1, 2, 4])
            else:
                out += self.space()
            if breaks and r.random() < self.blank * 0.2:
                out += self.eol
        return out or ' '

    def write(self, tokens):
        """tokens: with '\n' at the suggested breaks.  Returns the text; self.lines[i] is the
        line of tokens[i], self.starts[i] its place in the text, self.found the comments in order."""
        self.found, self.lines, self.starts, self.prev = [], [], [], ''
        out, line, at, k = [], 1, 0, 0
        if self.r.random() < 0.3:
            g = self.gap(True, True, True)
            out.append(g)
            line += g.count('\n')
        at_break = True
        after = after_decorators(tokens)
        for i, t in enumerate(tokens):
            if t == '\n':
                at_break = True
                self.lines.append(line)
                self.starts.append(None)
                continue
            if self.prev:
                breaks = at_break or not self.one_line
                g = self.gap(breaks, at_break or (breaks and i in after), must_part(self.prev, t))
                if at_break and self.one_line and '\n' not in g:
                    g += self.eol
                out.append(g)
                line += g.count('\n')
            at += sum(map(len, out[k:]))
            k = len(out)
            self.starts.append(at)
            out.append(t)
            self.lines.append(line)
            line += t.count('\n')
            self.prev, at_break = t, False
        x = self.r.random()
        if x < 0.6:
            out.append(self.eol)
        elif x < 0.7:
            c = self.line_comment()
            self.found.append(c)
            out.append(' ' + c)
        elif x < 0.8:
            c = self.doc_comment()
            self.found.append(c)
            out.append(' ' + c)
        return ''.join(out)


def comments(text):
    """The comments of a text, in order; line comments without the end of the line."""
    out, i, n = [], 0, len(text)
    while i < n:
        if text[i] == '"':
            j = text.find('"', i + 1)
            i = n if j < 0 else j + 1
        elif text.startswith('//', i):
            j = text.find('\n', i)
            j = n if j < 0 else j
            out.append(text[i:j].rstrip('\r'))
            i = j
        elif text.startswith('/*', i):
            j = text.find('*/', i + 2)
            j = n if j < 0 else j + 2
            out.append(text[i:j])
            i = j
        else:
            i += 1
    return out
