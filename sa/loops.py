"""Loops that walk a sequence step by step, written as the for loop they are.

The interpreter summarises a for loop over all elements of an unknown
collection.  A loop that draws the elements with next() or an index does the
same work, so it is rewritten before the analysis.  A loop is only rewritten
when the iterator or index is used for nothing else, and the sequence is not
changed in the body."""

import ast


def same(a, b):
    return ast.dump(a) == ast.dump(b)


def name(n):
    return n.id if isinstance(n, ast.Name) else None


def names(nodes, ctx=None):
    out = []
    for n in nodes if isinstance(nodes, list) else [nodes]:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx)):
                out.append(x.id)
    return out


def call(n, f, nargs):
    return isinstance(n, ast.Call) and name(n.func) == f and len(n.args) == nargs and not n.keywords \
        and not any(isinstance(a, ast.Starred) for a in n.args)


def own(stmts, kind):
    """Statements of a kind that belong to the loop with this body."""
    out = []
    for s in stmts:
        if isinstance(s, kind):
            out.append(s)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        if isinstance(s, (ast.For, ast.While)):
            out += own(s.orelse, kind)
            continue
        for f in ('body', 'orelse', 'finalbody'):
            out += own(getattr(s, f, []), kind)
        for h in getattr(s, 'handlers', []):
            out += own(h.body, kind)
        for c in getattr(s, 'cases', []):
            out += own(c.body, kind)
    return out


class Swap(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, n):
        return self.new if n is self.old else self.generic_visit(n)


def drawn(body):
    """(target, iterator name, remaining body) of a body that starts by drawing."""
    if not body:
        return None
    b = body[0]
    if isinstance(b, ast.Try) and len(b.handlers) == 1 and len(b.body) == 1 and not b.finalbody:
        h = b.handlers[0]
        if name(h.type) != 'StopIteration' or len(h.body) != 1 or not isinstance(h.body[0], ast.Break):
            return None
        a = b.body[0]
        if isinstance(a, ast.Assign) and len(a.targets) == 1 and call(a.value, 'next', 1) and name(a.value.args[0]):
            return a.targets[0], a.value.args[0].id, b.orelse + body[1:]
        if isinstance(a, (ast.Assign, ast.Expr, ast.AnnAssign)):
            draws = [n for n in ast.walk(a) if call(n, 'next', 1) and name(n.args[0])]
            if len(draws) == 1 and not any(isinstance(n, (ast.Lambda, ast.comprehension, ast.IfExp, ast.BoolOp)) for n in ast.walk(a)):
                d, it = draws[0], draws[0].args[0].id
                x = f'<drawn from {it}>'
                return ast.Name(x, ast.Store()), it, [Swap(d, ast.copy_location(ast.Name(x, ast.Load()), d)).visit(a)] + b.orelse + body[1:]
        return None
    if isinstance(b, ast.Assign) and len(b.targets) == 1 and name(b.targets[0]) and call(b.value, 'next', 2) and len(body) > 1:
        it, end = b.value.args
        c = body[1]
        if name(it) and name(end) and isinstance(c, ast.If) and len(c.body) == 1 and isinstance(c.body[0], ast.Break) \
                and isinstance(c.test, ast.Compare) and len(c.test.ops) == 1 and isinstance(c.test.ops[0], ast.Is) \
                and {name(c.test.left), name(c.test.comparators[0])} == {b.targets[0].id, end.id}:
            return b.targets[0], it.id, c.orelse + body[2:]
    return None


def walrus(test):
    """(target, iterator) of  while (x := next(it, END)) is not END."""
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], ast.IsNot) and isinstance(test.left, ast.NamedExpr):
        n = test.left
        if call(n.value, 'next', 2) and name(n.value.args[0]) and name(n.value.args[1]) and same(n.value.args[1], test.comparators[0]):
            return n.target, n.value.args[0].id
    return None


class Uses(ast.NodeTransformer):
    """seq[i] -> x; counts the other uses of i and changes of seq."""

    def __init__(self, seq, i, x):
        self.seq, self.i, self.x = seq, i, x
        self.loads = self.other = self.bad = 0

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load) and same(n.value, self.seq) and name(n.slice) == self.i:
            self.loads += 1
            return ast.copy_location(ast.Name(self.x, ast.Load()), n)
        if not isinstance(n.ctx, ast.Load) and same(n.value, self.seq):
            self.bad += 1
        return self.generic_visit(n)

    def visit_Name(self, n):
        if n.id == self.i:
            if isinstance(n.ctx, ast.Load):
                self.other += 1
            else:
                self.bad += 1
        if isinstance(self.seq, ast.Name) and n.id == self.seq.id:
            # the whole sequence is used or replaced
            self.bad += not isinstance(n.ctx, ast.Load)
        return n

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and same(n.func.value, self.seq):
            self.bad += 1
        return self.generic_visit(n)


def plain(seq):
    while isinstance(seq, ast.Attribute):
        seq = seq.value
    return isinstance(seq, ast.Name)


class Loops(ast.NodeTransformer):
    n = 0

    def fresh(self):
        Loops.n += 1
        return f'<element {Loops.n}>'

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list):
                setattr(node, f, self.stmts(b))
        return node

    def stmts(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.While):
                s = self.iterator(s, out) or self.index(s, out) or self.taken(s, out) or s
            elif isinstance(s, ast.For):
                self.filled(s, out)
                m = self.inplace(s)
                if m is not None:
                    out += m
                    continue
                s = self.ranged(s) or s
            out.append(s)
        return out

    def iterator(self, s, before):
        w = walrus(s.test)
        if w is not None:
            target, it, body, orelse = *w, s.body, s.orelse
        elif isinstance(s.test, ast.Constant) and s.test.value and not s.orelse:
            d = drawn(s.body)
            if d is None:
                return None
            target, it, body = d
            # the code after the loop also runs when the elements end
            orelse = []
        else:
            return None
        if it in names(body) or it in names(target):
            return None
        src = ast.Name(it, ast.Load())
        return self.make(s, target, src, body, orelse)

    def make(self, s, target, src, body, orelse):
        f = ast.For(target=target, iter=src, body=body or [ast.Pass()], orelse=orelse, type_comment=None)
        ast.copy_location(f, s)
        return ast.fix_missing_locations(f)

    def index(self, s, before):
        """i = 0; while i < len(seq): ... seq[i] ...; i += 1"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and before and s.body):
            return None
        l, r = t.left, t.comparators[0]
        if isinstance(t.ops[0], ast.Gt):
            l, r = r, l
        elif not isinstance(t.ops[0], (ast.Lt, ast.NotEq)):
            return None
        i = name(l)
        before = before[-3:]
        for k, b in enumerate(before):
            # the length computed before the loop
            if name(r) and isinstance(b, ast.Assign) and len(b.targets) == 1 and name(b.targets[0]) == r.id and r.id not in names(s.body + before[k + 1:]):
                r = b.value
                before = before[:k] + before[k + 1:]
                break
        if i is None or not call(r, 'len', 1) or not plain(r.args[0]) or not before:
            return None
        seq = r.args[0]
        first = before[-1]
        if not (isinstance(first, ast.Assign) and len(first.targets) == 1 and name(first.targets[0]) == i
                and isinstance(first.value, ast.Constant) and first.value.value == 0 and type(first.value.value) is int):
            return None
        steps = [k for k, b in enumerate(s.body) if isinstance(b, ast.AugAssign) and name(b.target) == i
                 and isinstance(b.op, ast.Add) and isinstance(b.value, ast.Constant) and b.value.value == 1]
        if len(steps) != 1:
            return None
        k = steps[0]
        rest = s.body[:k] + s.body[k + 1:]
        if i in names(s.body[k + 1:]) or own(s.body[:k], ast.Continue):
            return None
        return self.indexed(s, i, seq, rest, s.orelse)

    def taken(self, s, before):
        """todo = list(...); while todo: x = todo.pop(0); ..."""
        todo = s.test
        if isinstance(todo, ast.Compare) and len(todo.ops) == 1 and isinstance(todo.ops[0], (ast.Gt, ast.NotEq)) and isinstance(todo.comparators[0], ast.Constant) \
                and todo.comparators[0].value == 0 and call(todo.left, 'len', 1):
            todo = todo.left.args[0]
        q = name(todo)
        if q is None or not s.body or s.orelse or own(s.body, ast.Break) or q in names(s.body[1:]):
            return None
        b = s.body[0]
        if not (isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute)
                and name(b.value.func.value) == q and not b.value.keywords and q not in names(b.targets[0])):
            return None
        how, args = b.value.func.attr, b.value.args
        zero = len(args) == 1 and isinstance(args[0], ast.Constant) and args[0].value == 0 and type(args[0].value) is int
        if how == 'popleft' and not args or how == 'pop' and zero:
            src = ast.Name(q, ast.Load())
        elif how == 'pop' and not args:
            src = ast.Call(ast.Name('reversed', ast.Load()), [ast.Name(q, ast.Load())], [])
        else:
            return None
        fresh = [x for x in before[-3:] if isinstance(x, ast.Assign) and len(x.targets) == 1 and name(x.targets[0]) == q]
        if not fresh or not (isinstance(fresh[-1].value, (ast.List, ast.ListComp)) or isinstance(fresh[-1].value, ast.Call)
                             and (name(fresh[-1].value.func) or getattr(fresh[-1].value.func, 'attr', None)) in ('list', 'sorted', 'deque')):
            return None
        done = ast.Expr(ast.Call(ast.Attribute(ast.Name(q, ast.Load()), 'clear', ast.Load()), [], []))
        ast.copy_location(done, s)
        return self.make(s, b.targets[0], src, s.body[1:], [ast.fix_missing_locations(done)])

    def filled(self, s, before):
        """out = [None] * len(seq); for i in range(len(seq)): ...; out[i] = x"""
        last = s.body[-1]
        if not (isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Subscript)):
            return
        out, i = name(last.targets[0].value), name(last.targets[0].slice)
        if isinstance(s.target, ast.Tuple) and s.target.elts and call(s.iter, 'enumerate', 1):
            index, seq = name(s.target.elts[0]), s.iter.args[0]
        elif call(s.iter, 'range', 1) and call(s.iter.args[0], 'len', 1):
            index, seq = name(s.target), s.iter.args[0].args[0]
        else:
            return
        if out is None or i is None or i != index or out in names(s.body[:-1]) or out in names(last.value) or i in names(s.body, ast.Store) \
                or own(s.body, (ast.Break, ast.Continue)) or not plain(seq):
            return
        for k in range(len(before) - 1, max(-1, len(before) - 4), -1):
            b = before[k]
            if isinstance(b, ast.Assign) and len(b.targets) == 1 and name(b.targets[0]) == out:
                v = b.value
                if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult) and isinstance(v.left, ast.List) and len(v.left.elts) == 1 \
                        and isinstance(v.left.elts[0], ast.Constant) and call(v.right, 'len', 1) and same(v.right.args[0], seq) \
                        or isinstance(v, ast.ListComp) and isinstance(v.elt, ast.Constant) and len(v.generators) == 1 and not v.generators[0].ifs \
                        and same(v.generators[0].iter, seq):
                    b.value = ast.copy_location(ast.List([], ast.Load()), v)
                    put = ast.Expr(ast.Call(ast.Attribute(ast.Name(out, ast.Load()), 'append', ast.Load()), [last.value], []))
                    ast.copy_location(put, last)
                    s.body[-1] = ast.fix_missing_locations(put)
                return
            if out in names(b):
                return

    def inplace(self, s):
        """for i, x in enumerate(seq): ...; seq[i] = y"""
        last = s.body[-1]
        if not (isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Subscript)) or s.orelse:
            return None
        out, i = name(last.targets[0].value), name(last.targets[0].slice)
        if out is None or i is None or own(s.body, (ast.Break, ast.Continue)) or i in names(s.body, ast.Store):
            return None
        x = None
        if isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and name(s.target.elts[0]) == i and call(s.iter, 'enumerate', 1) and name(s.iter.args[0]) == out:
            x = s.target.elts[1]
        elif name(s.target) == i and call(s.iter, 'range', 1) and call(s.iter.args[0], 'len', 1) and name(s.iter.args[0].args[0]) == out:
            x = ast.Name(self.fresh(), ast.Store())
        if not isinstance(x, ast.Name):
            return None
        u = Uses(ast.Name(out, ast.Load()), i, x.id)
        body = ast.parse(ast.unparse(ast.fix_missing_locations(ast.Module(s.body[:-1] + [ast.Expr(last.value)], [])))).body
        body = [u.visit(b) for b in body]
        if u.bad or out in names(body):
            return None
        tmp = self.fresh()
        for b in body:
            for n in ast.walk(b):
                ast.copy_location(n, last)
        body[-1] = ast.Expr(ast.Call(ast.Attribute(ast.Name(tmp, ast.Load()), 'append', ast.Load()), [body[-1].value], []))
        first = ast.Assign([ast.Name(tmp, ast.Store())], ast.List([], ast.Load()))
        tgt = ast.Tuple([ast.Name(i, ast.Store()), x], ast.Store())
        src = ast.Call(ast.Name('enumerate', ast.Load()), [ast.Name(out, ast.Load())], [])
        done = ast.Assign([ast.Subscript(ast.Name(out, ast.Load()), ast.Slice(), ast.Store())], ast.Name(tmp, ast.Load()))
        for n in (first, done):
            ast.fix_missing_locations(ast.copy_location(n, s))
        return [first, self.make(s, tgt, src, body, []), done]

    def ranged(self, s):
        """for i in range(len(seq)): ... seq[i] ..."""
        i = name(s.target)
        if i is None or not call(s.iter, 'range', 1) or not call(s.iter.args[0], 'len', 1) or not plain(s.iter.args[0].args[0]):
            return None
        return self.indexed(s, i, s.iter.args[0].args[0], s.body, s.orelse)

    def indexed(self, s, i, seq, body, orelse):
        x = self.fresh()
        probe = Uses(seq, i, x)
        copy = ast.parse(ast.unparse(ast.fix_missing_locations(ast.Module(list(body), [])))).body
        for b in copy:
            probe.visit(b)
        if not probe.loads or probe.bad:
            return None
        u = Uses(seq, i, x)
        body = [u.visit(b) for b in body]
        el = ast.Name(x, ast.Store())
        if not u.other:
            return self.make(s, el, seq, body, orelse)
        tgt = ast.Tuple([ast.Name(i, ast.Store()), el], ast.Store())
        src = ast.Call(ast.Name('enumerate', ast.Load()), [seq], [])
        return self.make(s, tgt, src, body, orelse)


def rewrite(tree):
    return Loops().visit(tree)
