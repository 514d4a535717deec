"""Constant propagation through the repository's shell scripts.

The scripts are straight loops over literal lists.  The text is parsed into commands, loops,
conditionals and functions; the words of every command are folded with the constant values of
the variables, loops over constant lists are unrolled, and the result is the list of argument
words of each command that starts Python.  Anything whose value is not a constant of the script
raises Unknown, and the rules that use the result give no verdict.
"""
import re


class Unknown(Exception):
    pass


OPS = (';;', '&&', '||', '>>', '<<', '((', '))', ';', '&', '|', '>', '<', '(', ')', '\n')


def lex(s):
    """tokens (kind, value, line): kind 'op' or 'w' (a word: list of parts)."""
    out, i, ln = [], 0, 1
    n = len(s)
    while i < n:
        c = s[i]
        if c in ' \t\r':
            i += 1
        elif c == '\\' and i + 1 < n and s[i + 1] == '\n':
            i, ln = i + 2, ln + 1
        elif c == '#':
            while i < n and s[i] != '\n':
                i += 1
        elif c == '\n':
            out.append(('op', ';', ln))
            i, ln = i + 1, ln + 1
        elif s.startswith('((', i) and out and out[-1][1] == [('t', 'for', False)]:
            j = s.find('))', i)
            if j < 0:
                raise Unknown('((')
            out.append(('arith', s[i + 2:j], ln))
            i = j + 2
        elif any(s.startswith(o, i) for o in OPS):
            o = [o for o in OPS if s.startswith(o, i)][0]
            if o in ('((', '))', '<<'):
                if o == '<<':
                    raise Unknown('here document')
                o = o[0]
            out.append(('op', o, ln))
            i += len(o)
        else:
            parts, i, ln2 = word(s, i, ln)
            out.append(('w', parts, ln))
            ln = ln2
    out.append(('op', ';', ln))
    return out


def dollar(s, i, q):
    """an expansion at s[i] == '$'."""
    n = len(s)
    if s.startswith('$((', i):
        j = s.find('))', i)
        if j < 0:
            raise Unknown('$((')
        return ('arith', s[i + 3:j], q), j + 2
    if s.startswith('$(', i):
        d, j = 1, i + 2
        while j < n and d:
            d += {'(': 1, ')': -1}.get(s[j], 0)
            j += 1
        return ('cmd', s[i + 2:j - 1], q), j
    if s.startswith('${', i):
        j = s.find('}', i)
        if j < 0:
            raise Unknown('${')
        return ('v', s[i + 2:j], q), j + 1
    m = re.compile(r'\$(\w+|[@*#?$!])').match(s, i)
    if m:
        nm = m.group(1)
        if nm[0].isdigit():
            nm = nm[0]
            return ('v', nm, q), i + 2
        return ('v', nm, q), m.end()
    if i + 1 < n and s[i + 1] in '"\'' and not q:
        return ('t', '', True), i + 1
    return ('t', '$', q), i + 1


def word(s, i, ln):
    parts = []
    n = len(s)
    while i < n:
        c = s[i]
        if c in ' \t\r\n;&|<>)' or c == '(' and not (parts and parts[-1][0] == 't' and
                                                     parts[-1][1].endswith('=')):
            break
        if c == '(':
            # array assignment: the words up to the matching parenthesis
            d, j = 1, i + 1
            inq = None
            while j < n and d:
                if inq:
                    inq = None if s[j] == inq else inq
                elif s[j] in '"\'':
                    inq = s[j]
                else:
                    d += {'(': 1, ')': -1}.get(s[j], 0)
                ln += s[j] == '\n'
                j += 1
            parts.append(('array', [t[1] for t in lex(s[i + 1:j - 1]) if t[0] == 'w'], False))
            i = j
        elif c == "'":
            j = s.find("'", i + 1)
            if j < 0:
                raise Unknown('quote')
            parts.append(('t', s[i + 1:j], True))
            ln += s.count('\n', i, j)
            i = j + 1
        elif c == '"':
            i += 1
            parts.append(('t', '', True))
            while i < n and s[i] != '"':
                if s[i] == '\\' and i + 1 < n and s[i + 1] in '"\\$`':
                    parts.append(('t', s[i + 1], True))
                    i += 2
                elif s[i] == '$':
                    p, i = dollar(s, i, True)
                    parts.append(p)
                elif s[i] == '`':
                    raise Unknown('`')
                else:
                    ln += s[i] == '\n'
                    parts.append(('t', s[i], True))
                    i += 1
            i += 1
        elif c == '\\' and i + 1 < n:
            if s[i + 1] == '\n':
                ln += 1
            else:
                parts.append(('t', s[i + 1], True))
            i += 2
        elif c == '$':
            p, i = dollar(s, i, False)
            parts.append(p)
        elif c == '`':
            j = s.find('`', i + 1)
            if j < 0:
                raise Unknown('`')
            parts.append(('cmd', s[i + 1:j], False))
            i = j + 1
        else:
            if parts and parts[-1][0] == 't' and not parts[-1][2]:
                parts[-1] = ('t', parts[-1][1] + c, False)
            else:
                parts.append(('t', c, False))
            i += 1
    return parts, i, ln


# ---------------------------------------------------------------------------- parsing
class Parser:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def plain(self):
        """the text of the next token if it is an unquoted plain word."""
        t = self.peek()
        if t and t[0] == 'w' and len(t[1]) == 1 and t[1][0][0] == 't' and not t[1][0][2]:
            return t[1][0][1]
        return None

    def skip(self):
        while self.peek() and self.peek()[0] == 'op' and self.peek()[1] == ';':
            self.i += 1

    def expect(self, w):
        self.skip()
        if self.plain() != w:
            raise Unknown('%s expected' % w)
        self.i += 1

    def block(self, ends):
        out = []
        while True:
            self.skip()
            if self.peek() is None:
                if None in ends:
                    return out
                raise Unknown('unterminated block')
            if self.plain() is not None and self.plain() in ends:
                return out
            out.append(self.statement())

    def statement(self):
        w = self.plain()
        ln = self.peek()[2]
        if w == 'for':
            self.i += 1
            if self.peek()[0] == 'arith':
                head = ('arith', self.peek()[1])
                self.i += 1
            else:
                nm = self.plain()
                self.i += 1
                if self.plain() != 'in' or nm is None:
                    raise Unknown('for')
                self.i += 1
                ws = []
                while self.peek()[0] == 'w':
                    ws.append(self.peek()[1])
                    self.i += 1
                head = ('in', nm, ws)
            self.expect('do')
            b = self.block(('done',))
            self.i += 1
            return ('for', head, b, ln)
        if w == 'if':
            self.i += 1
            arms = []
            while True:
                c = self.block(('then',))
                self.i += 1
                b = self.block(('elif', 'else', 'fi'))
                arms.append((c, b))
                e = self.plain()
                self.i += 1
                if e == 'elif':
                    continue
                other = []
                if e == 'else':
                    other = self.block(('fi',))
                    self.i += 1
                return ('if', arms, other, ln)
        if w in ('while', 'until', 'case', 'select', '[[', 'trap', 'eval'):
            raise Unknown(w)
        if w == '{':
            self.i += 1
            b = self.block(('}',))
            self.i += 1
            return ('group', b, ln)
        if w == 'function' or (w and self.i + 2 < len(self.t) and
                               self.t[self.i + 1][:2] == ('op', '(')):
            if w == 'function':
                self.i += 1
                w = self.plain()
            self.i += 1
            if self.peek()[:2] == ('op', '('):
                self.i += 2
            self.expect('{')
            b = self.block(('}',))
            self.i += 1
            return ('def', w, b, ln)
        ws, chain = [], []
        cond = None
        while True:
            t = self.peek()
            if t is None:
                break
            if t[0] == 'w':
                ws.append(t[1])
                self.i += 1
            elif t[0] == 'op' and t[1] in ('>', '>>', '<'):
                self.i += 1
                if ws and len(ws[-1]) == 1 and ws[-1][0][0] == 't' and ws[-1][0][1].isdigit():
                    ws.pop()
                if self.peek()[:2] == ('op', '&'):
                    self.i += 1
                self.i += 1
            elif t[0] == 'op' and t[1] in (';', '&', '&&', '||', '|'):
                self.i += 1
                chain.append((cond, ws, t[1]))
                if t[1] in (';', '&'):
                    break
                cond, ws = t[1], []
                while self.peek() and self.peek()[:2] == ('op', ';'):
                    self.i += 1
            else:
                raise Unknown(str(t[1]))
        return ('cmd', chain, ln)


# ---------------------------------------------------------------------------- evaluation
class Flow(Exception):
    pass


class Script:
    LIMIT = 20000

    def __init__(self, text):
        self.env, self.arr, self.fns = {}, {}, {}
        self.runs = []
        self.steps = 0
        self.seq(Parser(lex(text)).block((None,)))

    def arith(self, e):
        e = re.sub(r'\$\{(#?\w+(?:\[[@*]\])?)\}', lambda m: self.one('v', m.group(1)), e)
        e = re.sub(r'\$(\d)', lambda m: self.get(m.group(1)), e)
        e = re.sub(r'\$?\b([A-Za-z_]\w*)\b', lambda m: self.get(m.group(1)), e)
        if not re.match(r'^[\d\s+*/%()<>=!-]*$', e) or '**' in e:
            raise Unknown(e)
        try:
            return int(eval(e.replace('/', '//'), {'__builtins__': {}}))
        except (SyntaxError, TypeError, ZeroDivisionError):
            raise Unknown(e)

    def get(self, nm):
        if nm in self.env:
            return self.env[nm]
        if nm in self.arr:
            return self.arr[nm][0] if self.arr[nm] else ''
        raise Unknown('$' + nm)

    def one(self, kind, x):
        r = self.values(kind, x)
        if len(r) != 1:
            return ' '.join(r)
        return r[0]

    def values(self, kind, x):
        """values of an expansion."""
        if kind == 'arith':
            return [str(self.arith(x))]
        if kind == 'cmd':
            ws = x.split()
            if ws and ws[0] == 'seq' and 2 <= len(ws) <= 4:
                a = [int(self.text(w)) for w in ws[1:]]
                lo, st, hi = {1: (1, 1, a[0]), 2: (a[0], 1, a[-1]),
                              3: (a[0], a[1 % len(a)], a[-1])}[len(a)]
                return [str(i) for i in range(lo, hi + (1 if st > 0 else -1), st)]
            if ws and ws[0] == 'echo':
                return [y for w in lex(x) if w[0] == 'w' for y in self.fields(w[1])][1:]
            raise Unknown(x)
        m = re.match(r'^#(\w+)\[[@*]\]$', x)
        if m and m.group(1) in self.arr:
            return [str(len(self.arr[m.group(1)]))]
        m = re.match(r'^(\w+)\[[@*]\]$', x)
        if m:
            if m.group(1) in self.arr:
                return list(self.arr[m.group(1)])
            return [self.get(m.group(1))]
        m = re.match(r'^(\w+)\[(.+)\]$', x)
        if m and m.group(1) in self.arr:
            i = self.arith(m.group(2))
            xs = self.arr[m.group(1)]
            return [xs[i] if -len(xs) <= i < len(xs) else '']
        if x in ('@', '*'):
            return list(self.env.get('@', [])) if '@' in self.env else self.unknown(x)
        m = re.match(r'^!(\w+)\[[@*]\]$', x)
        if m and m.group(1) in self.arr:
            return [str(i) for i in range(len(self.arr[m.group(1)]))]
        m = re.match(r'^(\w+)(%%?|##?)([^*?\[\]$]+)$', x)
        if m:
            v = self.get(m.group(1))
            cut = m.group(3)
            if m.group(2)[0] == '%' and v.endswith(cut):
                v = v[:-len(cut)]
            if m.group(2)[0] == '#' and v.startswith(cut):
                v = v[len(cut):]
            return [v]
        if re.match(r'^\w+$', x):
            return [self.get(x)]
        raise Unknown(x)

    def unknown(self, x):
        raise Unknown(x)

    def text(self, w):
        """the text of a word given as source."""
        p, i, _ = word(w, 0, 1)
        r = self.fields(p)
        if len(r) != 1:
            raise Unknown(w)
        return r[0]

    def fields(self, parts, split=True):
        """the words a word expands to."""
        cur, out = None, []
        for k, x, q in parts:
            if k == 't':
                cur = (cur or '') + x
                continue
            if k == 'array':
                raise Unknown('(')
            vs = self.values(k, x)
            if k == 'v' and not q and split:
                vs = [y for v in vs for y in v.split()]
            elif q and k != 'v' or k == 'v' and x.endswith('[*]') and q or not split:
                vs = [' '.join(vs)]
            for j, v in enumerate(vs):
                if j and cur is not None:
                    out.append(cur)
                    cur = None
                cur = (cur or '') + v
        if cur is not None:
            out.append(cur)
        if any(k == 't' and not q and re.search(r'[*?]', x) for k, x, q in parts):
            raise Unknown('glob')
        res = []
        for w in out:
            res += self.braces(w) if any(k == 't' and not q and '{' in x
                                         for k, x, q in parts) else [w]
        return res

    def braces(self, w):
        m = re.search(r'\{(-?\d+)\.\.(-?\d+)\}', w)
        if m:
            a, b = int(m.group(1)), int(m.group(2))
            return [y for i in range(a, b + (1 if b >= a else -1), 1 if b >= a else -1)
                    for y in self.braces(w[:m.start()] + str(i) + w[m.end():])]
        m = re.search(r'\{([^{}]*,[^{}]*)\}', w)
        if m:
            return [y for x in m.group(1).split(',')
                    for y in self.braces(w[:m.start()] + x + w[m.end():])]
        return [w]

    def test(self, blk):
        """value of a condition."""
        if len(blk) != 1 or blk[0][0] != 'cmd' or len(blk[0][1]) != 1:
            raise Unknown('condition')
        ws = [y for w in blk[0][1][0][1] for y in self.fields(w)]
        if ws and ws[0] in ('[', '[['):
            ws = ws[1:-1]
        elif ws and ws[0] in ('true', 'false'):
            return ws[0] == 'true'
        else:
            raise Unknown('condition')
        if len(ws) == 3:
            a, o, b = ws
            if o in ('=', '=='):
                return a == b
            if o == '!=':
                return a != b
            if o in ('-eq', '-ne', '-lt', '-le', '-gt', '-ge'):
                try:
                    x, y = int(a), int(b)
                except ValueError:
                    raise Unknown(a)
                return {'-eq': x == y, '-ne': x != y, '-lt': x < y, '-le': x <= y,
                        '-gt': x > y, '-ge': x >= y}[o]
        raise Unknown('condition')

    def seq(self, blk):
        for s in blk:
            self.step(s)

    def body(self, b):
        """True to go on with the loop."""
        try:
            self.seq(b)
        except Flow as f:
            k, n = f.args
            if n > 1:
                raise Flow(k, n - 1)
            return k == 'continue'
        return True

    def step(self, s):
        self.steps += 1
        if self.steps > self.LIMIT:
            raise Unknown('too long')
        if s[0] == 'group':
            return self.seq(s[1])
        if s[0] == 'def':
            self.fns[s[1]] = s[2]
            return
        if s[0] == 'if':
            for c, b in s[1]:
                if self.test(c):
                    return self.seq(b)
            return self.seq(s[2])
        if s[0] == 'for':
            h = s[1]
            if h[0] == 'in':
                for v in [y for w in h[2] for y in self.fields(w)]:
                    self.env[h[1]] = v
                    if not self.body(s[2]):
                        break
                return
            p = [x.strip() for x in h[1].split(';')]
            if len(p) != 3:
                raise Unknown('for ((')
            m = re.match(r'^(\w+)\s*=\s*(.+)$', p[0])
            t = re.match(r'^(\w+)(\+\+|--|\s*\+=\s*(.+))$', p[2]) or \
                re.match(r'^()\+\+(\w+)$', p[2])
            if not m or not t:
                raise Unknown('for ((')
            nm = m.group(1)
            if (t.group(1) or t.group(2)) != nm:
                raise Unknown('for ((')
            self.env[nm] = str(self.arith(m.group(2)))
            while self.arith(p[1]):
                if not self.body(s[2]):
                    break
                inc = -1 if t.group(2) == '--' else 1
                if t.group(1) and t.group(2) not in ('++', '--'):
                    inc = self.arith(t.group(3))
                self.env[nm] = str(int(self.env[nm]) + inc)
                self.steps += 1
                if self.steps > self.LIMIT:
                    raise Unknown('too long')
            return
        for cond, ws, _ in s[1]:
            if cond == '||' and ws:
                f = self.peekword(ws)
                if f in ('exit', 'echo', 'true', 'return', ':', 'continue', 'break'):
                    continue
                raise Unknown('||')
            self.command(ws, s[2])

    def peekword(self, ws):
        try:
            return (self.fields(ws[0]) or [''])[0]
        except Unknown:
            return None

    def assign(self, p):
        """handles an assignment word; False if it is none."""
        if not p or p[0][0] != 't' or p[0][2]:
            return False
        m = re.match(r'^(\w+)(\+?)=', p[0][1])
        if not m or m.group(1)[0].isdigit():
            return False
        nm, plus = m.group(1), m.group(2)
        rest = [('t', p[0][1][m.end():], False)] + p[1:]
        if len(rest) == 2 and rest[1][0] == 'array' and rest[0][1] == '':
            try:
                vs = [y for w in rest[1][1] for y in self.fields(w)]
            except Unknown:
                self.arr.pop(nm, None)
                return True
            self.env.pop(nm, None)
            self.arr[nm] = (self.arr.get(nm, []) if plus else []) + vs
            return True
        try:
            v = ''.join(self.fields(rest, split=False))
            if plus:
                v = self.get(nm) + v
        except Unknown:
            self.env.pop(nm, None)
            self.arr.pop(nm, None)
            return True
        self.arr.pop(nm, None)
        self.env[nm] = v
        return True

    def command(self, ws, ln):
        ws = list(ws)
        while ws and self.assign(ws[0]):
            ws.pop(0)
        if not ws:
            return
        head = self.peekword(ws)
        if head in ('export', 'local', 'declare', 'readonly', 'typeset'):
            for w in ws[1:]:
                self.assign(w)
            return
        while head in ('time', 'nohup', 'exec', 'command', 'timeout', 'nice'):
            ws.pop(0)
            while ws and re.match(r'^(-\S+|[\d.]+[smh]?)$', self.peekword(ws) or ''):
                ws.pop(0)
            if not ws:
                return
            head = self.peekword(ws)
        if head is None:
            vs = [y for w in ws for y in self.fields(w)]    # raises Unknown
            head = vs[0] if vs else ''
        if head in ('break', 'continue'):
            k = self.peekword(ws[1:]) if len(ws) > 1 else '1'
            raise Flow(head, int(k))
        if head in ('exit', 'return', 'shift', 'source', '.', 'unset', 'read', 'mapfile',
                    'readarray', 'xargs', 'parallel', 'sh', 'bash'):
            raise Unknown(head)
        if head in self.fns:
            args = [y for w in ws[1:] for y in self.fields(w)]
            old = {k: self.env.get(k) for k in list(self.env) if k == '@' or k.isdigit()}
            for k in old:
                del self.env[k]
            self.env['@'] = args
            for i, a in enumerate(args, 1):
                self.env[str(i)] = a
            self.seq(self.fns[head])
            for k in [k for k in self.env if k == '@' or k.isdigit()]:
                del self.env[k]
            self.env.update(old)
            return
        if re.match(r'^(\S*/)?python[0-9.]*$', head):
            self.runs.append(([y for w in ws[1:] for y in self.fields(w)], ln))


def runs(text):
    """[(words after the interpreter, line)] or None."""
    try:
        return Script(text).runs
    except (Unknown, Flow, ValueError, IndexError, RecursionError, TypeError, KeyError):
        return None
