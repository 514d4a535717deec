"""C++ front end: the native kernel as Python source, from the compiler's syntax tree.

A pointer is a pair (array, offset): `p`, `p__o`.  `&x[e]` moves the offset, `*p` reads
`p[p__o]`, references to array elements are the same.  Scalars whose address is taken live in a
one element list.  A construct outside the subset raises Unsupported and the rules answer
`undecided`.
"""
import json
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

CLANG = ('clang++', 'clang++-18', '/usr/bin/clang++')


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------------------ syntax trees
def decls(path, name):
    """top level declarations of the file whose name contains `name`."""
    for cc in CLANG:
        try:
            r = subprocess.run([cc, '-x', 'c++', '-std=c++17', '-fsyntax-only', '-Xclang',
                                '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + name, path],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        except FileNotFoundError:
            continue
        break
    else:
        raise Unsupported('no clang')
    if r.returncode:
        raise Unsupported('does not compile: ' + r.stderr.decode(errors='replace')[:200])
    s = r.stdout.decode(errors='replace')
    d = json.JSONDecoder()
    i, out = s.find('{'), []
    while i >= 0:
        o, e = d.raw_decode(s, i)
        loc = o.get('loc', {})
        loc = loc.get('expansionLoc', loc)
        if 'includedFrom' not in loc and 'offset' in loc and \
                loc.get('file', path).endswith(os.path.basename(path)):
            out.append(o)
        i = s.find('{', e)
    return out


def strip_comments(src):
    def f(m):
        t = m.group(0)
        return re.sub(r'[^\n]', ' ', t) if t.startswith('/') else t
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'', f, src,
                  flags=re.S)


KEYWORDS = {'if', 'for', 'while', 'switch', 'return', 'catch', 'sizeof', 'else', 'do'}


def load(path):
    with open(path, encoding='utf-8') as f:
        src = f.read()
    code = strip_comments(src)
    names = set(re.findall(r'\b(?:struct|class)\s+(\w+)', code))
    names |= {n for n in re.findall(r'\b(\w+)\s*\([^;{}()]*(?:\([^()]*\)[^;{}()]*)*\)\s*'
                                    r'(?:const|noexcept|\s)*\{', code) if n not in KEYWORDS}
    names |= set(re.findall(r'^(?:static|const|constexpr|inline|\s)+[\w:<>]+\s+(\w+)\s*=',
                            code, flags=re.M))
    if re.search(r'\btemplate\s*<', code):
        raise Unsupported('template')
    seen, out = set(), []
    # the filter matches substrings: a name covers the names that contain it
    todo = [n for n in names if not any(m != n and m in n for m in names)]
    with ThreadPoolExecutor(8) as ex:
        docs = list(ex.map(lambda n: decls(path, n), sorted(todo)))
    for ds in docs:
        for d in ds:
            k = (d.get('kind'), d.get('name'), off(d))
            if k not in seen:
                seen.add(k)
                out.append(d)
    out.sort(key=off)
    spans = [(off(d), end(d)) for d in out]
    out = [d for d in out if not any(a < off(d) < b for a, b in spans)]
    return src, out


def end(d):
    b = d.get('range', {}).get('end', {})
    return b.get('expansionLoc', b).get('offset', 0)


def off(d):
    b = d.get('range', {}).get('begin', {})
    b = b.get('expansionLoc', b)
    return b.get('offset', 0)


def inner(n):
    return [c for c in n.get('inner', []) if c]


def qt(n):
    t = n.get('type') or {}
    return (t.get('desugaredQualType') or t.get('qualType') or '').strip()


def clean(t):
    return re.sub(r'\b(const|volatile|struct|class|restrict|__restrict)\b', '', t).strip()


INTS = {'int', 'long', 'short', 'char', 'unsigned int', 'unsigned long', 'unsigned', 'bool',
        'size_t', 'std::size_t', 'long long', 'unsigned long long', 'ptrdiff_t', 'unsigned char',
        'int32_t', 'int64_t'}
FLTS = {'double', 'float', 'long double'}


def isint(t):
    return clean(t).rstrip('& ') in INTS


def isscalar(t):
    t = clean(t).rstrip('& ').strip()
    return t in INTS or t in FLTS


def isptr(t):
    t = clean(t).rstrip('& ').strip()
    if not t.endswith('*'):
        return False
    e = clean(t[:-1])
    if e in INTS or e in FLTS:
        return True
    raise Unsupported('pointer to ' + e)


def isref(t):
    return clean(t).endswith('&')


def isvec(t):
    return re.match(r'(std::)?(vector|array)\s*<', clean(t)) is not None


TRANSPARENT = {'ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr',
               'CXXBindTemporaryExpr', 'ConstantExpr', 'CStyleCastExpr', 'CXXStaticCastExpr',
               'CXXFunctionalCastExpr', 'CXXDefaultArgExpr', 'SubstNonTypeTemplateParmExpr',
               'FullExpr'}


def strip(n):
    while n.get('kind') in TRANSPARENT and len(inner(n)) == 1:
        n = inner(n)[0]
    return n


def find(n, kinds):
    if n.get('kind') in kinds:
        yield n
    for c in inner(n):
        yield from find(c, kinds)


class Unit:
    """one translation unit as Python source (self.text) with a line map (self.lines)."""

    def __init__(self, path):
        self.path = path
        self.src, ds = load(path)
        self.out, self.lines = [], []
        self.funcs, self.structs, self.globals = {}, {}, {}
        self.emit(0, 'from vclib import vsort, crange, vnew, vdelete', 1)
        seen = set()
        for d in ds:
            if d['kind'] == 'CXXRecordDecl' and d.get('completeDefinition') and d.get('name'):
                self.structs[d['name']] = d
                seen |= {c.get('id') for c in inner(d)}
        for d in ds:
            if d['kind'] == 'FunctionDecl' and any(c['kind'] == 'CompoundStmt'
                                                   for c in inner(d)):
                if d['name'] in self.funcs:
                    raise Unsupported('overloaded ' + d['name'])
                self.funcs[d['name']] = d
            elif d['kind'] in ('FunctionTemplateDecl', 'ClassTemplateDecl', 'NamespaceDecl'):
                raise Unsupported(d['kind'])
        for d in ds:
            if d['kind'] == 'VarDecl':
                self.globals[d['name']] = d
                if not isscalar(qt(d)) or 'const' not in (d.get('type') or {}).get(
                        'qualType', '') and not d.get('constexpr'):
                    raise Unsupported('global ' + d['name'])
                fn = Fn(self, d, None)
                self.emit(0, '%s = %s' % (d['name'], fn.rv(inner(d)[-1])), self.line(d))
        for d in self.structs.values():
            self.struct(d)
        for d in self.funcs.values():
            Fn(self, d, None).function(0)
        self.text = '\n'.join(self.out) + '\n'

    def line(self, n):
        return self.src.count('\n', 0, off(n)) + 1

    def emit(self, ind, text, line):
        self.out.append('    '*ind + text)
        self.lines.append(line)

    def struct(self, d):
        self.emit(0, 'class %s:' % d['name'], self.line(d))
        fields = [c for c in inner(d) if c['kind'] == 'FieldDecl']
        if d.get('bases'):
            raise Unsupported('base class')
        done = False
        for c in inner(d):
            if c['kind'] == 'CXXConstructorDecl' and not c.get('isImplicit'):
                if done:
                    raise Unsupported('several constructors')
                Fn(self, c, d).function(1, fields)
                done = True
            elif c['kind'] == 'CXXMethodDecl' and not c.get('isImplicit'):
                Fn(self, c, d).function(1)
        if not done:
            self.emit(1, 'def __init__(self):', self.line(d))
            fn = Fn(self, d, d)
            fn.ind = 2
            for f in fields:
                fn.field_default(f)
            self.emit(2, 'pass', self.line(d))


class Fn:
    def __init__(self, unit, d, cls):
        self.u, self.d, self.cls = unit, d, cls
        self.names, self.used = {}, {}
        self.boxed = set()
        self.kinds = {}        # decl id -> 'scalar'|'box'|'ptr'|'ref'|'obj'
        self.ind = 0
        self.pre_ok = True
        self.tmp = 0

    # ------------------------------------------------------------------------------ declarations
    def function(self, ind, fields=()):
        d = self.d
        ps = [c for c in inner(d) if c['kind'] == 'ParmVarDecl']
        body = [c for c in inner(d) if c['kind'] == 'CompoundStmt']
        if not body:
            return
        self.scan(d)
        name = d['name']
        if d['kind'] == 'CXXConstructorDecl':
            name = '__init__'
        elif name == 'operator()':
            name = '__call__'
        elif name.startswith('operator'):
            raise Unsupported(name)
        params, pre = (['self'] if self.cls is not None else []), []
        for p in ps:
            self.param(p, params, pre)
        self.rett = clean((d.get('type') or {}).get('qualType', '').split('(')[0])
        self.u.emit(ind, 'def %s(%s):' % (name, ', '.join(params)), self.u.line(d))
        self.ind = ind + 1
        for x in pre:
            self.u.emit(self.ind, x, self.u.line(d))
        if d['kind'] == 'CXXConstructorDecl':
            inits = {}
            for c in inner(d):
                if c['kind'] == 'CXXCtorInitializer':
                    inits[(c.get('anyInit') or {}).get('name')] = inner(c)
            for f in fields:
                if f.get('name') in inits:
                    self.bindfield(f, inits[f['name']][0])
                else:
                    self.field_default(f)
        self.block(body[0])
        self.u.emit(self.ind, 'pass', self.u.line(d))

    def param(self, p, params, pre):
        t = qt(p)
        nm = self.declare(p)
        if isptr(t):
            if isref(t):
                raise Unsupported('reference to a pointer')
            self.kinds[p['id']] = 'ptr'
            params += [nm, nm + '__o']
        elif isref(t) and isscalar(t):
            self.kinds[p['id']] = 'ref'
            params += [nm, nm + '__o']
        elif isscalar(t):
            params.append(nm)
            if p['id'] in self.boxed:
                self.kinds[p['id']] = 'box'
                pre.append('%s = [%s]' % (nm, nm))
            else:
                self.kinds[p['id']] = 'scalar'
        else:
            self.kinds[p['id']] = 'obj'
            params.append(nm)
            if not isref(t) and isvec(t):
                pre.append('%s = list(%s)' % (nm, nm))

    def field_default(self, f):
        t, nm = qt(f), f['name']
        ini = inner(f)
        if ini:
            return self.bindfield(f, ini[-1])
        if isref(t):
            raise Unsupported('reference field')
        if isptr(t):
            self.stmt_('self.%s = None' % nm)
            self.stmt_('self.%s__o = 0' % nm)
        elif isvec(t):
            self.stmt_('self.%s = []' % nm)
        elif isscalar(t):
            self.stmt_('self.%s = None' % nm)
        else:
            raise Unsupported('field of type ' + t)

    def bindfield(self, f, e):
        t, nm = qt(f), f['name']
        if isptr(t):
            a, o = self.ptr(e)
            self.stmt_('self.%s = %s' % (nm, a))
            self.stmt_('self.%s__o = %s' % (nm, o))
        elif isref(t) and isscalar(t):
            a, o = self.ref(e)
            self.stmt_('self.%s = %s' % (nm, a))
            self.stmt_('self.%s__o = %s' % (nm, o))
        else:
            self.stmt_('self.%s = %s' % (nm, self.rv(e)))

    def scan(self, d):
        """scalars whose address is taken or that are bound to a reference."""
        def lv(n):
            n = strip(n)
            if n['kind'] == 'DeclRefExpr':
                self.boxed.add(n['referencedDecl']['id'])
            elif n['kind'] == 'ConditionalOperator':
                for c in inner(n)[1:]:
                    lv(c)
        for n in find(d, {'UnaryOperator'}):
            if n.get('opcode') == '&':
                lv(inner(n)[0])
        for n in find(d, {'CallExpr', 'CXXMemberCallExpr'}):
            cs = inner(n)
            for f, a in zip(self.partypes(cs[0]), cs[1:]):
                if isref(f) and 'const' not in f and isscalar(f):
                    lv(a)
        for n in find(d, {'VarDecl'}):
            if isref(qt(n)) and isscalar(qt(n)) and inner(n):
                lv(inner(n)[-1])

    def partypes(self, callee):
        c = strip(callee)
        if c['kind'] == 'DeclRefExpr':
            nm = c['referencedDecl'].get('name')
            f = self.u.funcs.get(nm)
            if f is not None:
                return [qt(p) for p in inner(f) if p['kind'] == 'ParmVarDecl']
        if c['kind'] == 'MemberExpr':
            for d in self.u.structs.values():
                for m in inner(d):
                    if m.get('id') == c.get('referencedMemberDecl') or \
                            m.get('name') == c.get('name') and m['kind'] == 'CXXMethodDecl':
                        return [qt(p) for p in inner(m) if p['kind'] == 'ParmVarDecl']
        return []

    def declare(self, v):
        nm = v.get('name') or '_p'
        if nm in ('None', 'True', 'False', 'in', 'is', 'not', 'and', 'or', 'def', 'pass', 'from',
                  'lambda', 'with', 'as', 'del', 'list', 'len', 'min', 'max', 'abs', 'int',
                  'float', 'range', 'sorted', 'self'):
            nm += '_'
        k = self.used.get(nm, 0)
        self.used[nm] = k + 1
        if k:
            nm = '%s__%d' % (nm, k + 1)
        self.names[v['id']] = nm
        return nm

    # --------------------------------------------------------------------------------- statements
    def stmt_(self, text, n=None):
        self.u.emit(self.ind, text, self.u.line(n) if n else self.u.line(self.cur or self.d))

    cur = None

    def block(self, n, cont=None):
        cs = inner(n) if n['kind'] == 'CompoundStmt' else [n]
        for c in cs:
            self.stmt(c, cont)

    def body(self, n, cont=None):
        self.ind += 1
        self.block(n, cont)
        self.stmt_('pass')
        self.ind -= 1

    def stmt(self, n, cont=None):
        """cont: lines to run before `continue` (the step of a general for)."""
        self.cur = n if off(n) else self.cur or self.d
        k = n['kind']
        if k in TRANSPARENT and k != 'CompoundStmt':
            return self.stmt(inner(n)[0], cont)
        f = getattr(self, 's_' + k, None)
        if f is not None:
            return f(n, cont)
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            return self.callstmt(n)
        raise Unsupported(k)

    def s_CompoundStmt(self, n, cont):
        self.block(n, cont)

    def s_NullStmt(self, n, cont):
        self.stmt_('pass')

    def s_DeclStmt(self, n, cont):
        for v in inner(n):
            if v['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'UsingDecl',
                             'UsingDirectiveDecl'):
                continue
            if v['kind'] != 'VarDecl' or v.get('storageClass') == 'static':
                raise Unsupported('local ' + v['kind'])
            self.vardecl(v)

    def vardecl(self, v):
        t, ini = qt(v), [c for c in inner(v) if not c['kind'].endswith('Attr')]
        ini = ini[-1] if ini else None
        m = re.match(r'(.*)\[(\d+)\]$', clean(t))
        if m and isscalar(m.group(1)):
            if ini is not None:
                raise Unsupported('array initialiser')
            nm = self.declare(v)
            self.kinds[v['id']] = 'arr'
            return self.stmt_('%s = [0] * %s' % (nm, m.group(2)))
        lam = strip(ini) if ini is not None else None
        if lam is not None and lam['kind'] == 'CXXConstructExpr' and len(inner(lam)) == 1:
            l2 = strip(inner(lam)[0])
            lam = l2 if l2['kind'] == 'LambdaExpr' else lam
        if lam is not None and lam['kind'] == 'LambdaExpr':
            nm = self.declare(v)
            self.kinds[v['id']] = 'obj'
            return self.lam(lam, nm)
        if isptr(t):
            if ini is None:
                a, o = 'None', '0'
            else:
                a, o = self.ptr(ini)
            nm = self.declare(v)
            self.kinds[v['id']] = 'ptr'
            self.stmt_('%s = %s' % (nm, a))
            self.stmt_('%s__o = %s' % (nm, o))
        elif isref(t) and isscalar(t):
            x = strip(ini)
            if 'const' in t and not self.islv(x):
                e = self.rv(ini)
                nm = self.declare(v)
                self.kinds[v['id']] = 'scalar'
                return self.stmt_('%s = %s' % (nm, e))
            a, o = self.ref(ini)
            nm = self.declare(v)
            self.kinds[v['id']] = 'ref'
            self.stmt_('%s = %s' % (nm, a))
            self.stmt_('%s__o = %s' % (nm, o))
        elif isscalar(t):
            e = self.rv(ini) if ini is not None else 'None'
            nm = self.declare(v)
            if v['id'] in self.boxed:
                self.kinds[v['id']] = 'box'
                self.stmt_('%s = [%s]' % (nm, e))
            else:
                self.kinds[v['id']] = 'scalar'
                self.stmt_('%s = %s' % (nm, e))
        elif isvec(t):
            if isref(t):
                e = self.rv(ini)
            else:
                e = self.newvec(ini)
            nm = self.declare(v)
            self.kinds[v['id']] = 'obj'
            self.stmt_('%s = %s' % (nm, e))
        elif clean(t).rstrip('& ') in self.u.structs:
            e = self.rv(ini)
            nm = self.declare(v)
            self.kinds[v['id']] = 'obj'
            self.stmt_('%s = %s' % (nm, e))
        else:
            raise Unsupported('local of type ' + t)

    def newvec(self, ini):
        x = strip(ini) if ini is not None else None
        if x is None:
            return '[]'
        if x['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            a = [c for c in inner(x) if c['kind'] != 'CXXDefaultArgExpr']
            if not a:
                return '[]'
            if len(a) == 1:
                if isvec(qt(strip(a[0]))):
                    return 'list(%s)' % self.rv(a[0])
                return '[0] * %s' % self.rv(a[0])
            if len(a) == 2 and isscalar(qt(a[0])):
                return '[%s] * %s' % (self.rv(a[1]), self.rv(a[0]))
        raise Unsupported('vector initialiser')

    def s_IfStmt(self, n, cont):
        cs = inner(n)
        if n.get('hasInit') or n.get('hasVar'):
            raise Unsupported('if with initialiser')
        c = self.cond(cs[0])
        self.stmt_('if %s:' % c)
        self.body(cs[1], cont)
        if len(cs) > 2:
            self.stmt_('else:')
            self.body(cs[2], cont)

    def s_ReturnStmt(self, n, cont):
        cs = inner(n)
        if not cs:
            return self.stmt_('return')
        if self.rett.endswith('*'):
            a, o = self.ptr(cs[0])
            return self.stmt_('return (%s, %s)' % (a, o))
        if self.rett.endswith('&'):
            if not isscalar(self.rett):
                raise Unsupported('returns a reference')
            a, o = self.ref(cs[0])
            return self.stmt_('return (%s, %s)' % (a, o))
        self.stmt_('return %s' % self.rv(cs[0]))

    def s_BreakStmt(self, n, cont):
        self.stmt_('break')

    def s_ContinueStmt(self, n, cont):
        for x in cont or ():
            self.stmt_(x)
        self.stmt_('continue')

    def s_ForStmt(self, n, cont):
        raw = n.get('inner', [])
        init, _, cnd, inc, bod = raw
        r = self.canonical(init, cnd, inc, bod)
        if r is not None:
            v, rng = r
            if v['id'] in self.boxed:
                raise Unsupported('address of a loop variable')
            nm = self.declare(v)
            self.kinds[v['id']] = 'scalar'
            self.stmt_('for %s in %s:' % (nm, rng))
            return self.body(bod)
        if init:
            self.stmt(init)
        self.stmt_('while %s:' % (self.cond(cnd, False) if cnd else 'True'))
        steps = []
        if inc:
            steps = self.capture(lambda: self.stmt(inc))
        self.body_(bod, steps)

    def capture(self, fn):
        k = len(self.u.out)
        i0, self.ind = self.ind, 0
        fn()
        self.ind = i0
        out = self.u.out[k:]
        del self.u.out[k:], self.u.lines[k:]
        return out

    def body_(self, n, steps):
        self.ind += 1
        self.block(n, steps)
        for x in steps:
            self.stmt_(x)
        self.stmt_('pass')
        self.ind -= 1

    def s_WhileStmt(self, n, cont):
        cs = inner(n)
        if n.get('hasVar'):
            raise Unsupported('while with a declaration')
        self.stmt_('while %s:' % self.cond(cs[0], False))
        self.body(cs[1])

    def s_CXXForRangeStmt(self, n, cont):
        raw = [c for c in n.get('inner', []) if c]
        rng = inner(inner(raw[0])[0])[-1]
        var = inner(raw[-2])[0]
        if isref(qt(var)) and 'const' not in qt(var) or not isscalar(qt(var)):
            raise Unsupported('range for by reference')
        e = self.rv(rng)
        nm = self.declare(var)
        self.kinds[var['id']] = 'scalar'
        self.stmt_('for %s in %s:' % (nm, e))
        self.body(raw[-1])

    def canonical(self, init, cnd, inc, bod):
        """for (int v = a; v OP b; v += c)  ->  range."""
        if not init or init['kind'] != 'DeclStmt' or len(inner(init)) != 1 or not cnd or not inc:
            return None
        v = inner(init)[0]
        if v['kind'] != 'VarDecl' or not isint(qt(v)) or not inner(v):
            return None
        c = strip(cnd)
        if c['kind'] != 'BinaryOperator' or c['opcode'] not in ('<', '<=', '>', '>=', '!='):
            return None
        l, r = [strip(x) for x in inner(c)]
        op = c['opcode']

        def isv(x):
            return x['kind'] == 'DeclRefExpr' and x['referencedDecl']['id'] == v['id']
        if isv(r) and not isv(l):
            l, r = r, l
            op = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '!=': '!='}[op]
        if not isv(l):
            return None
        i = strip(inc)
        step = None
        if i['kind'] == 'UnaryOperator' and i['opcode'] in ('++', '--') and \
                isv(strip(inner(i)[0])):
            step = '1' if i['opcode'] == '++' else '-1'
            snode = None
        elif i['kind'] == 'CompoundAssignOperator' and i['opcode'] in ('+=', '-=') and \
                isv(strip(inner(i)[0])):
            snode = inner(i)[1]
            step = self.rv(snode)
            if i['opcode'] == '-=':
                step = '-(%s)' % step
        elif i['kind'] == 'BinaryOperator' and i['opcode'] == '=' and isv(strip(inner(i)[0])):
            e = strip(inner(i)[1])
            if e['kind'] != 'BinaryOperator' or e['opcode'] not in '+-' or \
                    not isv(strip(inner(e)[0])):
                return None
            snode = inner(e)[1]
            step = self.rv(snode)
            if e['opcode'] == '-':
                step = '-(%s)' % step
        else:
            return None
        reads = {v['id']}
        for x in (r, snode):
            if x is not None:
                for y in find(x, {'DeclRefExpr'}):
                    reads.add(y['referencedDecl']['id'])
                if list(find(x, {'CallExpr', 'ArraySubscriptExpr', 'MemberExpr',
                                 'CXXMemberCallExpr'})):
                    for y in find(x, {'CXXMemberCallExpr'}):
                        if strip(inner(y)[0]).get('name') != 'size':
                            return None
                    if list(find(x, {'CallExpr', 'ArraySubscriptExpr'})):
                        return None
        for y in find(bod, {'BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator'}):
            if y['opcode'] in ('++', '--') or y['opcode'].endswith('=') and \
                    y['opcode'] not in ('==', '!=', '<=', '>='):
                x = strip(inner(y)[0])
                if x['kind'] == 'DeclRefExpr' and x['referencedDecl']['id'] in reads:
                    return None
        for y in find(bod, {'CXXMemberCallExpr'}):
            if strip(inner(y)[0]).get('name') in ('push_back', 'pop_back', 'resize', 'clear'):
                return None
        if self.boxed & reads:
            return None
        a, b = self.rv(inner(v)[-1]), self.rv(r)
        if op == '<':
            return v, 'range(%s, %s, %s)' % (a, b, step)
        if op == '>':
            return v, 'range(%s, %s, %s)' % (a, b, step)
        if op == '<=':
            return v, 'range(%s, (%s) + 1, %s)' % (a, b, step)
        if op == '>=':
            return v, 'range(%s, (%s) - 1, %s)' % (a, b, step)
        return v, 'crange(%s, %s, %s)' % (a, b, step)

    def s_BinaryOperator(self, n, cont):
        op = n['opcode']
        l, r = inner(n)
        if op == ',':
            self.stmt(l)
            return self.stmt(r)
        if op != '=':
            raise Unsupported('expression statement ' + op)
        rs = strip(r)
        if rs['kind'] == 'BinaryOperator' and rs['opcode'] == '=':
            self.stmt(rs)
            r = inner(rs)[0]
        if isptr(qt(l)) and not isref(qt(l)):
            a, o = self.ptr(r)
            la, lo = self.plv(l)
            if la in o:
                raise Unsupported('pointer assignment')
            self.stmt_('%s = %s' % (la, a))
            return self.stmt_('%s = %s' % (lo, o))
        e = self.rv(r)
        self.stmt_('%s = %s' % (self.lv(l), e))

    def s_CompoundAssignOperator(self, n, cont):
        l, r = inner(n)
        op = n['opcode']
        if isptr(qt(l)):
            if op not in ('+=', '-='):
                raise Unsupported('pointer ' + op)
            return self.stmt_('%s %s %s' % (self.plv(l)[1], op, self.rv(r)))
        if op == '/=' and isint(qt(l)):
            op = '//='
        if op not in ('+=', '-=', '*=', '/=', '//=', '%='):
            raise Unsupported(op)
        self.stmt_('%s %s %s' % (self.lv(l), op, self.rv(r)))

    def s_UnaryOperator(self, n, cont):
        if n['opcode'] not in ('++', '--'):
            raise Unsupported('expression statement ' + n['opcode'])
        x = inner(n)[0]
        op = '+=' if n['opcode'] == '++' else '-='
        t = self.plv(x)[1] if isptr(qt(x)) else self.lv(x)
        self.stmt_('%s %s 1' % (t, op))

    def s_CXXDeleteExpr(self, n, cont):
        a, o = self.ptr(inner(n)[0])
        self.stmt_('vdelete(%s, %r)' % (a, bool(n.get('isArray') or n.get('isArrayAsWritten'))))

    # ------------------------------------------------------------------------------------- calls
    def args(self, types, cs):
        out = []
        for k, a in enumerate(cs):
            t = types[k] if k < len(types) else qt(a)
            if isref(t) and isscalar(t):
                if self.islv(strip(a)):
                    x, o = self.ref(a)
                    out += [x, o]
                else:
                    out += ['[%s]' % self.rv(a), '0']
            elif isptr(t):
                x, o = self.ptr(a)
                out += [x, o]
            else:
                x = strip(a)
                if x['kind'] == 'CXXConstructExpr' and not isref(t) and not isvec(t) and \
                        len(inner(x)) == 1 and clean(t) in self.u.structs:
                    raise Unsupported('copy of an object')
                out.append(self.rv(a))
        return out

    def callee(self, n):
        c = strip(inner(n)[0])
        if c['kind'] == 'DeclRefExpr':
            return c['referencedDecl'].get('name'), c
        raise Unsupported('call of ' + c['kind'])

    def call(self, n):
        """a call as an expression."""
        cs = inner(n)
        if n['kind'] == 'CXXMemberCallExpr':
            m = strip(cs[0])
            obj, nm = inner(m)[0], m.get('name')
            if isvec(qt(strip(obj))):
                o = self.rv(obj)
                if nm == 'size':
                    return 'len(%s)' % o
                if nm == 'empty':
                    return '(len(%s) == 0)' % o
                if nm == 'back':
                    return '%s[len(%s) - 1]' % (o, o)
                if nm == 'front':
                    return '%s[0]' % o
                if nm == 'at':
                    return '%s[%s]' % (o, self.rv(cs[1]))
                raise Unsupported('vector.' + str(nm))
            o = 'self' if strip(obj)['kind'] == 'CXXThisExpr' else self.rv(obj)
            return '%s.%s(%s)' % (o, nm, ', '.join(self.args(self.partypes(cs[0]), cs[1:])))
        if n['kind'] == 'CXXOperatorCallExpr':
            f = strip(cs[0])
            nm = (f.get('referencedDecl') or {}).get('name')
            if nm == 'operator[]':
                return '%s[%s]' % (self.rv(cs[1]), self.rv(cs[2]))
            if nm == 'operator()':
                return '%s(%s)' % (self.rv(cs[1]), ', '.join(self.args([], cs[2:])))
            raise Unsupported(str(nm))
        nm, c = self.callee(n)
        a = cs[1:]
        if nm in self.u.funcs:
            return '%s(%s)' % (nm, ', '.join(self.args(self.partypes(cs[0]), a)))
        if nm in ('min', 'max') and len(a) == 2:
            # the value of std::min(a, b) / std::max(a, b), first argument on ties
            return '%s(%s, %s)' % (nm, self.rv(a[0]), self.rv(a[1]))
        if nm in ('fabs', 'abs', 'fabsf') and len(a) == 1:
            return 'abs(%s)' % self.rv(a[0])
        if nm in ('fmin', 'fmax') and len(a) == 2:
            return '%s(%s, %s)' % (nm[1:], self.rv(a[0]), self.rv(a[1]))
        if nm == 'infinity' and not a:
            return "float('inf')"
        if nm in ('max', 'lowest', 'min', 'epsilon') and not a and not isint(qt(n)):
            return {'max': '1.7976931348623157e308', 'lowest': '-1.7976931348623157e308',
                    'min': '2.2250738585072014e-308', 'epsilon': '2.220446049250313e-16'}[nm]
        raise Unsupported('call of ' + str(nm))

    def callstmt(self, n):
        cs = inner(n)
        if n['kind'] == 'CXXMemberCallExpr':
            m = strip(cs[0])
            obj, nm = inner(m)[0], m.get('name')
            if isvec(qt(strip(obj))):
                o = self.rv(obj)
                if nm == 'push_back':
                    return self.stmt_('%s.append(%s)' % (o, self.rv(cs[1])))
                if nm == 'clear':
                    return self.stmt_('%s.clear()' % o)
                if nm == 'reserve':
                    return self.stmt_('pass')
                raise Unsupported('vector.' + str(nm))
            return self.stmt_(self.call(n))
        if n['kind'] == 'CXXOperatorCallExpr':
            f = strip(cs[0])
            if (f.get('referencedDecl') or {}).get('name') == 'operator=' and \
                    isvec(qt(strip(cs[1]))):
                return self.stmt_('%s = list(%s)' % (self.rv(cs[1]), self.rv(cs[2])))
            return self.stmt_(self.call(n))
        nm, c = self.callee(n)
        a = cs[1:]
        if nm in self.u.funcs:
            return self.stmt_(self.call(n))
        if nm == 'swap' and len(a) == 2:
            if isptr(qt(strip(a[0]))):
                x, y = self.plv(a[0]), self.plv(a[1])
                return self.stmt_('%s, %s, %s, %s = %s, %s, %s, %s' % (x + y + y + x))
            x, y = self.lv(a[0]), self.lv(a[1])
            return self.stmt_('%s, %s = %s, %s' % (x, y, y, x))
        if nm in ('sort', 'stable_sort') and len(a) in (2, 3):
            x, o = self.ptr(a[0])
            y, e = self.ptr(a[1])
            if x != y:
                raise Unsupported('sort over two arrays')
            f = self.functor(a[2]) if len(a) == 3 else 'None'
            return self.stmt_('vsort(%s, %s, %s, %s)' % (x, o, e, f))
        if nm in ('iota', 'fill') and len(a) == 3:
            x, o = self.ptr(a[0])
            y, e = self.ptr(a[1])
            v = self.rv(a[2])
            self.tmp += 1
            t = '_t%d' % self.tmp
            self.stmt_('for %s in range(%s, %s):' % (t, o, e))
            self.ind += 1
            self.stmt_('%s[%s] = %s' % (x, t, v if nm == 'fill' else
                                        '(%s) + %s - (%s)' % (v, t, o)))
            self.ind -= 1
            return
        if nm in ('fill_n', 'copy', 'copy_n') and len(a) == 3:
            x, o = self.ptr(a[0])
            self.tmp += 1
            t = '_t%d' % self.tmp
            if nm == 'fill_n':
                n_, src = self.rv(a[1]), self.rv(a[2])
                dst = '%s[(%s) + %s]' % (x, o, t)
            else:
                if nm == 'copy':
                    y, e = self.ptr(a[1])
                    n_ = '(%s) - (%s)' % (e, o)
                else:
                    n_ = self.rv(a[1])
                d, do = self.ptr(a[2])
                src = '%s[(%s) + %s]' % (x, o, t)
                dst = '%s[(%s) + %s]' % (d, do, t)
            self.stmt_('for %s in range(%s):' % (t, n_))
            self.ind += 1
            self.stmt_('%s = %s' % (dst, src))
            self.ind -= 1
            return
        raise Unsupported('call of ' + str(nm))

    def functor(self, n):
        n = strip(n)
        while n['kind'] == 'CXXConstructExpr' and len(inner(n)) == 1:
            n = strip(inner(n)[0])
        if n['kind'] == 'LambdaExpr':
            self.tmp += 1
            nm = '_lam%d' % self.tmp
            self.lam(n, nm)
            return nm
        if n['kind'] == 'UnaryOperator' and n['opcode'] == '&':
            n = strip(inner(n)[0])
        if n['kind'] == 'DeclRefExpr':
            d = n['referencedDecl']
            if d.get('name') in self.u.funcs:
                return d['name']
        if n['kind'] in ('CXXTemporaryObjectExpr', 'CXXConstructExpr') and \
                'greater' in qt(n):
            return '(lambda a, b: a > b)'
        return self.rv(n)

    def lam(self, n, nm):
        rec = [c for c in inner(n) if c['kind'] == 'CXXRecordDecl'][0]
        op = [c for c in inner(rec) if c['kind'] == 'CXXMethodDecl' and
              c['name'] == 'operator()']
        if not op:
            raise Unsupported('generic lambda')
        params, pre = [], []
        for p in inner(op[0]):
            if p['kind'] == 'ParmVarDecl':
                if isref(qt(p)) and isscalar(qt(p)):
                    if 'const' not in qt(p):
                        raise Unsupported('lambda by reference')
                    params.append(self.declare(p))
                    self.kinds[p['id']] = 'scalar'
                else:
                    self.param(p, params, pre)
        self.stmt_('def %s(%s):' % (nm, ', '.join(params)))
        self.ind += 1
        r0 = getattr(self, 'rett', '')
        self.rett = ''
        for x in pre:
            self.stmt_(x)
        self.block([c for c in inner(n) if c['kind'] == 'CompoundStmt'][-1])
        self.stmt_('pass')
        self.rett = r0
        self.ind -= 1

    # -------------------------------------------------------------------------------- expressions
    def cond(self, n, pre=True):
        return self.rv(n)

    def islv(self, x):
        return x['kind'] in ('DeclRefExpr', 'ArraySubscriptExpr', 'MemberExpr') or \
            x['kind'] == 'UnaryOperator' and x['opcode'] == '*' or \
            x['kind'] == 'CXXOperatorCallExpr' and 'operator[]' in str(
                (strip(inner(x)[0]).get('referencedDecl') or {}).get('name'))

    def var(self, n):
        d = n['referencedDecl']
        i = d['id']
        if i in self.names:
            return self.names[i], self.kinds.get(i, 'scalar')
        if d.get('name') in self.u.globals:
            return d['name'], 'scalar'
        if d['kind'] == 'FunctionDecl' and d.get('name') in self.u.funcs:
            return d['name'], 'obj'
        if d['kind'] in ('VarDecl', 'ParmVarDecl'):
            # captured by a lambda: the name of the enclosing function
            for k, v in self.names.items():
                if v.split('__')[0] == d.get('name'):
                    return v, self.kinds.get(k, 'scalar')
        raise Unsupported('name ' + str(d.get('name')))

    def member(self, n):
        b = strip(inner(n)[0])
        if n.get('isArrow') and b['kind'] != 'CXXThisExpr':
            raise Unsupported('->')
        o = 'self' if b['kind'] == 'CXXThisExpr' else self.rv(b)
        return '%s.%s' % (o, n['name'])

    def fieldref(self, n):
        for d in self.u.structs.values():
            for f in inner(d):
                if f['kind'] == 'FieldDecl' and f.get('name') == n['name'] and \
                        (f.get('id') == n.get('referencedMemberDecl') or True):
                    return isref(qt(f)) and isscalar(qt(f))
        return False

    def lv(self, n):
        n = strip(n)
        k = n['kind']
        if k == 'DeclRefExpr':
            nm, kd = self.var(n)
            if kd == 'box':
                return nm + '[0]'
            if kd == 'ref':
                return '%s[%s__o]' % (nm, nm)
            return nm
        if k == 'MemberExpr':
            m = self.member(n)
            return '%s[%s__o]' % (m, m) if self.fieldref(n) else m
        if k in ('ArraySubscriptExpr', 'UnaryOperator', 'CXXOperatorCallExpr',
                 'ConditionalOperator'):
            a, o = self.ref(n)
            return '%s[%s]' % (a, o)
        raise Unsupported('assignment to ' + k)

    def plv(self, n):
        n = strip(n)
        if n['kind'] == 'DeclRefExpr':
            nm, kd = self.var(n)
            if kd != 'ptr':
                raise Unsupported('pointer ' + nm)
            return nm, nm + '__o'
        if n['kind'] == 'MemberExpr':
            m = self.member(n)
            return m, m + '__o'
        raise Unsupported('pointer lvalue ' + n['kind'])

    def ref(self, n):
        """(array, index) of an lvalue."""
        n = strip(n)
        k = n['kind']
        if k == 'DeclRefExpr':
            nm, kd = self.var(n)
            if kd == 'box':
                return nm, '0'
            if kd == 'ref':
                return nm, nm + '__o'
            if kd == 'scalar':
                return '[%s]' % nm, '0'       # const reference to a scalar: its value
            raise Unsupported('reference to ' + nm)
        if k == 'ArraySubscriptExpr':
            b, i = inner(n)
            if isint(qt(b)) and not isint(qt(i)):
                b, i = i, b
            a, o = self.ptr(b)
            e = self.rv(i)
            return a, e if o == '0' else '(%s) + (%s)' % (o, e)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            return self.ptr(inner(n)[0])
        if k == 'CXXOperatorCallExpr':
            cs = inner(n)
            return self.rv(cs[1]), self.rv(cs[2])
        if k == 'MemberExpr':
            m = self.member(n)
            if self.fieldref(n):
                return m, m + '__o'
            return '[%s]' % m, '0'
        if k == 'ConditionalOperator':
            c, a, b = inner(n)
            c = self.rv(c)
            x, y = self.ref(a), self.ref(b)
            return ('(%s if %s else %s)' % (x[0], c, y[0]),
                    '(%s if %s else %s)' % (x[1], c, y[1]))
        if k == 'CallExpr':
            e = self.call(n)
            return '%s[0]' % e, '%s[1]' % e
        raise Unsupported('reference to ' + k)

    def ptr(self, n):
        """(array, offset) of a pointer expression."""
        n = strip(n)
        k = n['kind']
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') or \
                k == 'IntegerLiteral' and n.get('value') == '0':
            return 'None', '0'
        if k == 'DeclRefExpr':
            nm, kd = self.var(n)
            if kd == 'ptr':
                return nm, nm + '__o'
            if kd == 'arr':
                return nm, '0'
            raise Unsupported('pointer ' + nm)
        if k == 'MemberExpr':
            m = self.member(n)
            return m, m + '__o'
        if k == 'UnaryOperator' and n['opcode'] == '&':
            return self.ref(inner(n)[0])
        if k == 'BinaryOperator' and n['opcode'] in '+-':
            a, b = inner(n)
            if isint(qt(a)) and n['opcode'] == '+':
                a, b = b, a
            x, o = self.ptr(a)
            e = self.rv(b)
            if o == '0' and n['opcode'] == '+':
                return x, e
            return x, '(%s) %s (%s)' % (o, n['opcode'], e)
        if k == 'ConditionalOperator':
            c, a, b = inner(n)
            c = self.rv(c)
            x, y = self.ptr(a), self.ptr(b)
            return ('(%s if %s else %s)' % (x[0], c, y[0]),
                    '(%s if %s else %s)' % (x[1], c, y[1]))
        if k == 'CXXNewExpr':
            if not n.get('isArray'):
                raise Unsupported('new')
            cs = inner(n)
            ini = len(cs) > 1
            return 'vnew(%s)' % self.rv(cs[0]), '0'
        if k == 'CallExpr':
            e = self.call(n)
            return '%s[0]' % e, '%s[1]' % e
        if k == 'CXXMemberCallExpr':
            m = strip(inner(n)[0])
            if m.get('name') in ('data', 'begin', 'cbegin'):
                return self.rv(inner(m)[0]), '0'
            if m.get('name') in ('end', 'cend'):
                o = self.rv(inner(m)[0])
                return o, 'len(%s)' % o
        if k in ('CXXOperatorCallExpr',):
            cs = inner(n)
            nm = (strip(cs[0]).get('referencedDecl') or {}).get('name')
            if nm in ('operator+', 'operator-') and len(cs) == 3:
                x, o = self.ptr(cs[1])
                return x, '(%s) %s (%s)' % (o, nm[-1], self.rv(cs[2]))
        if k == 'CXXConstructExpr' and len(inner(n)) == 1:
            return self.ptr(inner(n)[0])
        raise Unsupported('pointer expression ' + k)

    def rv(self, n):
        k = n['kind']
        if k in TRANSPARENT:
            c = inner(n)
            if len(c) != 1:
                raise Unsupported(k)
            ck = n.get('castKind')
            if ck == 'FloatingToIntegral':
                return 'int(%s)' % self.rv(c[0])
            if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
                return '(%s != 0)' % self.rv(c[0])
            if ck == 'PointerToBoolean':
                return '(%s is not None)' % self.ptr(c[0])[0]
            if ck in ('BitCast', 'PointerToIntegral'):
                raise Unsupported(ck)
            if ck == 'IntegralCast' and isint(qt(n)) and qt(strip(c[0])) == 'bool' and \
                    clean(qt(n)) != 'bool':
                return '(1 if %s else 0)' % self.rv(c[0])
            return self.rv(c[0])
        if k == 'IntegerLiteral':
            return n['value']
        if k == 'FloatingLiteral':
            i = off(n)
            m = re.match(r"[0-9.']+(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?", self.u.src[i:])
            b = n.get('range', {}).get('begin', {})
            if 'expansionLoc' in b or not m:
                return repr(float(n['value']))
            return m.group(0).replace("'", '')
        if k == 'CXXBoolLiteralExpr':
            return 'True' if n['value'] else 'False'
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return 'None'
        if k in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr'):
            return self.lv(n)
        if k == 'CXXThisExpr':
            return 'self'
        if k == 'UnaryOperator':
            op = n['opcode']
            if op == '*':
                return self.lv(n)
            x = inner(n)[0]
            if op == '-':
                return '(-%s)' % self.rv(x)
            if op == '+':
                return self.rv(x)
            if op == '!':
                return '(not %s)' % self.rv(x)
            raise Unsupported('operator ' + op)
        if k == 'BinaryOperator':
            op = n['opcode']
            a, b = inner(n)
            if op in ('==', '!=', '<', '>', '<=', '>='):
                if '*' in qt(strip(a)) or '*' in qt(strip(b)):
                    if op not in ('==', '!='):
                        raise Unsupported('pointer comparison')
                    x, y = self.ptr(a), self.ptr(b)
                    if x[0] == 'None':
                        x, y = y, x
                    if y[0] != 'None':
                        raise Unsupported('pointer comparison')
                    return '(%s is %sNone)' % (x[0], '' if op == '==' else 'not ')
                return '(%s %s %s)' % (self.rv(a), op, self.rv(b))
            if op in ('&&', '||'):
                return '(%s %s %s)' % (self.rv(a), {'&&': 'and', '||': 'or'}[op], self.rv(b))
            if op in ('+', '-', '*', '/', '%'):
                if '*' in qt(n):
                    raise Unsupported('pointer arithmetic')
                if op == '/' and isint(qt(n)):
                    op = '//'
                return '(%s %s %s)' % (self.rv(a), op, self.rv(b))
            raise Unsupported('operator ' + op)
        if k == 'ConditionalOperator':
            c, a, b = inner(n)
            return '(%s if %s else %s)' % (self.rv(a), self.rv(c), self.rv(b))
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            if k == 'CXXOperatorCallExpr' and self.islv(n):
                return self.lv(n)
            t = clean(n.get('type', {}).get('qualType', ''))
            if n.get('valueCategory') == 'lvalue' and k == 'CallExpr' and \
                    strip(inner(n)[0]).get('referencedDecl', {}).get('name') in self.u.funcs:
                a, o = self.ref(n)
                return '%s[%s]' % (a, o)
            return self.call(n)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr'):
            cs = inner(n)
            t = clean(qt(n)).rstrip('& ')
            if t in self.u.structs:
                d = self.u.structs[t]
                ctor = [c for c in inner(d) if c['kind'] == 'CXXConstructorDecl' and
                        not c.get('isImplicit')]
                if len(cs) == 1 and clean(qt(strip(cs[0]))).rstrip('& ') == t:
                    x = strip(cs[0])
                    if x['kind'] in ('CXXTemporaryObjectExpr', 'CXXConstructExpr', 'CallExpr'):
                        return self.rv(x)
                    raise Unsupported('copy of an object')
                if k == 'InitListExpr' or (cs and not ctor):
                    fields = [f for f in inner(d) if f['kind'] == 'FieldDecl']
                    if ctor or len(fields) != len(cs):
                        raise Unsupported('initialiser list')
                    self.tmp += 1
                    t1 = '_o%d' % self.tmp
                    self.stmt_('%s = %s()' % (t1, t))
                    for f, e in zip(fields, cs):
                        if isptr(qt(f)):
                            a, o = self.ptr(e)
                            self.stmt_('%s.%s = %s' % (t1, f['name'], a))
                            self.stmt_('%s.%s__o = %s' % (t1, f['name'], o))
                        else:
                            self.stmt_('%s.%s = %s' % (t1, f['name'], self.rv(e)))
                    return t1
                types = []
                if ctor:
                    types = [qt(p) for p in inner(ctor[0]) if p['kind'] == 'ParmVarDecl']
                return '%s(%s)' % (t, ', '.join(self.args(types, cs)))
            if isvec(t):
                return self.newvec(n)
            if len(cs) == 1:
                return self.rv(cs[0])
        if k == 'LambdaExpr':
            return self.functor(n)
        raise Unsupported(k)


# ------------------------------------------------------------------------------------- cython
def pyx(src):
    """Cython source -> Python source of the same line structure."""
    out, skip = [], None
    for ln in src.split('\n'):
        ind = len(ln) - len(ln.lstrip())
        s = ln.strip()
        if skip is not None:
            if not s or ind > skip:
                out.append('')
                continue
            skip = None
        if re.match(r'cdef\s+extern\b', s):
            skip = ind
            out.append('')
            continue
        if re.match(r'(from\s+\S+\s+)?cimport\b', s):
            out.append('')
            continue
        m = re.match(r'(?:cpdef|cdef|def)\s+(?:[\w.]+(?:\s*\[[^\]]*\])?\s+)*?(\w+)\s*\((.*)\)'
                     r'[^:()]*:\s*(.*)$', s)
        if m and not re.match(r'cdef[^(]*=', s):
            ps = []
            depth, cur = 0, ''
            for ch in m.group(2) + ',':
                depth += ch in '[(' 
                depth -= ch in '])'
                if ch == ',' and depth == 0:
                    if cur.strip():
                        ps.append(cur.strip())
                    cur = ''
                else:
                    cur += ch
            qs = []
            for p in ps:
                b, eq, dv = p.partition('=')
                b = b.split(':')[0] if ':' in b and '[' not in b else b
                nm = re.findall(r'\w+', b)[-1] if '[' not in b.split()[-1] else None
                if nm is None:
                    raise Unsupported('cython parameter ' + p)
                qs.append(nm + (eq + dv))
            out.append(' '*ind + 'def %s(%s): %s' % (m.group(1), ', '.join(qs), m.group(3)))
            continue
        m = re.match(r'cdef\s+(.*)$', s)
        if m:
            b = m.group(1)
            m2 = re.match(r'([^=]*?)(\w+)\s*=(?!=)\s*(.*)$', b)
            if m2:
                out.append(' '*ind + '%s = %s' % (m2.group(2), expr(m2.group(3))))
            else:
                out.append(' '*ind + 'pass')
            continue
        if re.match(r'with\s+(no)?gil\s*:', s):
            out.append(' '*ind + 'if True:')
            continue
        out.append(' '*ind + expr(s))
    return '\n'.join(out)


def expr(s):
    s = re.sub(r'<\s*[\w ]+\**\s*>\s*(?=[\w(&])', '', s)
    while True:
        m = re.search(r'(?<![\w)\]])\s*&\s*(\w+)\s*\[', s)
        m = m or re.search(r'(?<=[(,=])\s*&\s*(\w+)\s*\[', s)
        if not m:
            return s
        i = m.end()
        d = 1
        while i < len(s) and d:
            d += s[i] in '[('
            d -= s[i] in '])'
            i += 1
        s = s[:m.start()] + ' caddr(%s, %s)' % (m.group(1), s[m.end():i-1]) + s[i:]
