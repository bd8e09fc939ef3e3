"""Dataflow over the GIMPLE that g++ leaves after its tree optimizations (-fdump-tree-optimized).

Values are linear forms over symbols.  A sum that involves a symbol called large carries a fresh rounding error.
"""
import re
from fractions import Fraction


class Unsupported(Exception):
    pass


class Lin(dict):
    """symbol -> coefficient, '' is the constant"""
    def clean(self):
        return Lin((k, v) for k, v in self.items() if v)


def lin_add(a, b, s=1):
    r = Lin(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return r.clean()


class Ptr:
    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and (self.obj, self.off) == (o.obj, o.off)


class Function:
    def __init__(self, name, params, blocks, first):
        self.name, self.params, self.blocks, self.first = name, params, blocks, first


def split_args(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "(<[":
            depth += 1
        if c in ")>]":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def parse(text):
    """all functions of a dump"""
    fns = []
    for chunk in re.split(r"^;; Function ", text, flags=re.M)[1:]:
        name = chunk[:chunk.index(" (_Z")] if " (_Z" in chunk.split("\n")[0] else chunk.split(" (")[0]
        lines = chunk.split("\n")
        try:
            open_at = lines.index("{")
        except ValueError:
            continue
        sig = lines[open_at - 1]
        at = sig.find(name + " (")
        params = []
        if at >= 0:
            for p in split_args(sig[at + len(name) + 2:].rstrip(")")):
                m = re.search(r"([\w$.]+)$", p)
                params.append((m.group(1) if m else "", p))
        blocks, order, cur = {}, [], None
        for l in lines[open_at + 1:]:
            if l == "}":
                break
            m = re.match(r"\s*<bb (\d+)>", l)
            if m:
                cur = int(m.group(1))
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None or not l.strip():
                continue
            l = l.strip()
            if l.startswith("<L") or l.startswith("//") or re.match(r"^[\w<>]+ \[.*\]:$", l):
                continue
            blocks[cur].append(l)
        nxt = {b: order[i + 1] if i + 1 < len(order) else None for i, b in enumerate(order)}
        f = Function(name, params, blocks, order[0])
        f.next = nxt
        fns.append(f)
    return fns


class Machine:
    """follows every path of a function; states are copied where a comparison is not decided"""
    def __init__(self, fns, large, layout):
        self.fns, self.large, self.layout = fns, large, layout # layout: offset of a member by name
        self.errors = 0
        self.ops = 0
        self.limit = 200000

    def fresh(self):
        self.errors += 1
        return "eps%d" % self.errors

    def rounded(self, v):
        self.ops += 1
        v = v.clean()
        if not v or set(v) == {""} or (len(v) == 1 and abs(list(v.values())[0]) == 1):
            return v
        if any(k in self.large for k in v):
            v[self.fresh()] = Fraction(1)
        return v

    def member(self, name, s):
        m = re.match(r"^(\w+)(?:\[(\d+)\])?$", name)
        if m.group(1) not in self.layout:
            raise Unsupported("member " + s)
        return self.layout[m.group(1)] + int(m.group(2) or 0) * self.layout["#size"]

    # -- operands
    @staticmethod
    def look(name, default, env):
        """an SSA name; (D) marks the value a parameter comes with"""
        if default:
            name = re.sub(r"_\d+$", "", name)
        return env.get(name)

    def place(self, s, env, mem):
        """(object, key) of a memory reference, or None"""
        m = re.match(r"^\*([\w$.]+)(\(D\))?$", s)
        if m:
            p = self.look(m.group(1), m.group(2), env)
            if not isinstance(p, Ptr):
                raise Unsupported("pointer " + s)
            return p.obj, p.off
        m = re.match(r"^([\w$.]+)(\(D\))?->(\w+(?:\[\d+\])?)$", s)
        if m:
            p = self.look(m.group(1), m.group(2), env)
            if not isinstance(p, Ptr):
                raise Unsupported("pointer " + s)
            return p.obj, p.off + self.member(m.group(3), s)
        m = re.match(r"^MEM(?: <[^>]*>)? \[\(.*?\)(&?)([\w$.]+)(\(D\))?(?: \+ (-?\d+)B?)?\](?:\.(\w+(?:\[\d+\])?))?$", s) or \
            re.match(r"^MEM(?: <[^>]*>)?\[\(.*?\)(&?)([\w$.]+)(\(D\))?(?: \+ (-?\d+)B?)?\](?:\.(\w+(?:\[\d+\])?))?$", s)
        if m:
            p = Ptr((env["#frame"], m.group(2)), 0) if m.group(1) else self.look(m.group(2), m.group(3), env)
            if not isinstance(p, Ptr):
                raise Unsupported("pointer " + s)
            off = p.off + int(m.group(4) or 0)
            if m.group(5):
                off += self.member(m.group(5), s)
            return p.obj, off
        m = re.match(r"^(D\.\d+|[A-Za-z_]\w*)\.(\w+(?:\[\d+\])?)$", s)
        if m:
            return (env["#frame"], m.group(1)), self.member(m.group(2), s)
        return None

    def value(self, s, env, mem):
        s = s.strip()
        m = re.match(r"^([\w$.]+?)(\(D\))?$", s)
        if m and self.look(m.group(1), m.group(2), env) is not None:
            return self.look(m.group(1), m.group(2), env)
        if re.match(r"^-?\d+(\.\d+)?(e[+-]?\d+)?$", s):
            return Lin({"": Fraction(s)}).clean()
        m = re.match(r"^&([\w$.]+)$", s)
        if m:
            return Ptr((env["#frame"], m.group(1)), 0)
        m = re.match(r"^\{ ?(.*?) ?\}$", s)
        if m:
            return ("vec", [self.value(x, env, mem) for x in split_args(m.group(1))])
        p = self.place(s, env, mem)
        v = self.vector(s)
        if p and v:
            lanes = [mem.get((p[0], p[1] + i * v[1])) for i in range(v[0])]
            if None in lanes:
                raise Unsupported("value of " + s)
            return ("vec", lanes)
        if p is None and re.match(r"^(D\.\d+|[A-Za-z_]\w*)$", s):
            if ((env["#frame"], s), "scalar") in mem:
                return mem[((env["#frame"], s), "scalar")]
            return ("struct", (env["#frame"], s))
        if p is None:
            raise Unsupported("operand " + s)
        if p in mem:
            return mem[p]
        if any(k[0] == p[0] for k in mem) and p[1] == 0 and s.startswith("*"):
            return ("struct", p[0])
        raise Unsupported("value of " + s)

    @staticmethod
    def vector(s):
        m = re.match(r"^MEM <(?:const )?vector\((\d+)\) (float|double|long double)>", s)
        return (int(m.group(1)), {"float": 4, "double": 8, "long double": 16}[m.group(2)]) if m else None

    def arith(self, op, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "vec":
            return ("vec", [self.arith(op, x, y) for x, y in zip(a[1], b[1])])
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            raise Unsupported("operands of " + op)
        if op == "*":
            return self.product(a, b)
        return self.rounded(lin_add(a, b, 1 if op == "+" else -1))

    def expr(self, s, env, mem):
        m = re.match(r"^\.REDUC_PLUS \((.*)\)$", s)
        if m:
            v = self.value(m.group(1), env, mem)[1]
            r = v[0]
            for x in v[1:]:
                r = self.arith("+", r, x)
            return r
        m = re.match(r"^BIT_FIELD_REF <(\S+), (\d+), (\d+)>$", s)
        if m:
            v = self.value(m.group(1), env, mem)
            return v[1][int(m.group(3)) // int(m.group(2))]
        m = re.match(r"^\((?:float|double|long double|const \w+ \*|\w+ \*|long int|unsigned long|sizetype|long unsigned int|int)\) (.*)$", s)
        if m:
            return self.value(m.group(1), env, mem)
        m = re.match(r"^-([A-Za-z_].*)$", s)
        if m:
            v = self.value(m.group(1), env, mem)
            return lin_add(Lin(), v, -1)
        m = re.match(r"^\.(FMA|FMS|FNMA|FNMS) \((.*)\)$", s)
        if m:
            a, b, c = [self.value(x, env, mem) for x in split_args(m.group(2))]
            p = self.product(a, b)
            if m.group(1).startswith("FN"):
                p = lin_add(Lin(), p, -1)
            return self.rounded(lin_add(p, c, -1 if m.group(1).endswith("S") else 1))
        m = re.match(r"^ABS_EXPR <(.*)>$", s)
        if m:
            self.value(m.group(1), env, mem)
            return ("opaque",)
        m = re.match(r"^(\S.*?) ([-+*]) (\S.*)$", s)
        if m and "[" not in m.group(1) or m and m.group(1).count("[") == m.group(1).count("]"):
            a, b = self.value(m.group(1), env, mem), self.value(m.group(3), env, mem)
            if isinstance(a, Ptr):
                if m.group(2) != "+" or not isinstance(b, Lin) or set(b) - {""}:
                    raise Unsupported("address " + s)
                return Ptr(a.obj, a.off + int(b.get("", 0)))
            return self.arith(m.group(2), a, b)
        return self.value(s, env, mem)

    def product(self, a, b):
        for x, y in ((a, b), (b, a)):
            if not set(x) - {""}:
                return Lin((k, v * x.get("", 0)) for k, v in y.items()).clean()
        raise Unsupported("product")

    def compare(self, s, env, mem):
        """True, False or None"""
        m = re.match(r"^(\S+) (==|!=|<|>|<=|>=|u[<>]=?|u==|unge|unlt) (\S+)$", s)
        if not m:
            raise Unsupported("condition " + s)
        a, b = self.value(m.group(1), env, mem), self.value(m.group(3), env, mem)
        op = m.group(2)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            x, y = a.off, b.off
        elif isinstance(a, Lin) and isinstance(b, Lin) and not set(lin_add(a, b, -1)) - {""}:
            x, y = lin_add(a, b, -1).get("", 0), 0
        else:
            return None
        return {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}.get(op)

    # -- control
    def call(self, name, args, mem, depth):
        cands = [f for f in self.fns if f.name == name and len(f.params) == len(args)]
        if len(cands) > 1:
            def fits(f):
                return all(isinstance(a, Ptr) == ("*" in p[1] or "&" in p[1]) for a, p in zip(args, f.params))
            cands = [f for f in cands if fits(f)]
        if len(cands) != 1:
            raise Unsupported("call of %s (%d arguments): %d candidates" % (name, len(args), len(cands)))
        return self.run(cands[0], args, mem, depth + 1)

    def run(self, f, args, mem, depth=0):
        """[(result, memory)] over all paths"""
        if depth > 20:
            raise Unsupported("call depth")
        self.frames = getattr(self, "frames", 0) + 1
        env = {"#frame": self.frames}
        for (p, _), a in zip(f.params, args):
            env[p] = a
        results = []
        work = [(f.first, None, 0, env, dict(mem))]
        while work:
            bb, prev, i, env, mem = work.pop()
            while True:
                self.limit -= 1
                if self.limit < 0:
                    raise Unsupported("too many steps")
                code = f.blocks[bb]
                if i >= len(code):
                    nb = f.next[bb]
                    if nb is None:
                        raise Unsupported("end of " + f.name)
                    bb, prev, i = nb, bb, 0
                    continue
                if i == 0: # phis read the values of the edge together
                    new = {}
                    while i < len(code) and code[i].startswith("# "):
                        m = re.match(r"^# (\S+) = PHI <(.*)>$", code[i])
                        if m and not m.group(1).startswith(".MEM"):
                            for a in split_args(m.group(2)):
                                q = re.match(r"^(.*)\((\d+)\)$", a)
                                if q and int(q.group(2)) == prev:
                                    new[m.group(1)] = self.ssa(q.group(1), env, mem)
                        i += 1
                    env.update(new)
                    if i:
                        continue
                l = code[i]
                i += 1
                if "{CLOBBER" in l or l.startswith("# DEBUG") or l.startswith("# VUSE"):
                    continue
                m = re.match(r"^return(?: (.*))?;$", l)
                if m:
                    results.append((self.ssa(m.group(1), env, mem) if m.group(1) else None, mem))
                    break
                m = re.match(r"^goto <bb (\d+)>;", l)
                if m:
                    bb, prev, i = int(m.group(1)), bb, 0
                    continue
                m = re.match(r"^if \((.*)\)$", l)
                if m:
                    t = int(re.search(r"<bb (\d+)>", code[i]).group(1))
                    e = int(re.search(r"<bb (\d+)>", code[i + 2]).group(1))
                    d = self.compare(m.group(1), env, mem)
                    if d is None:
                        work.append((e, bb, 0, dict(env), dict(mem)))
                        d = True
                    bb, prev, i = (t if d else e), bb, 0
                    continue
                l = l.replace(" ={v} ", " = ", 1) # volatile
                m = re.match(r"^(.*?) = (.*);$", l)
                lhs, rhs = (m.group(1), m.group(2)) if m else (None, l.rstrip(";"))
                q = re.match(r"^([\w:<>~$., ]*[\w)>](?:\(\)|==|!=)?(?:\.[\w.]+)?) \((.*)\)$", rhs)
                if q and (any(f2.name == q.group(1) for f2 in self.fns)):
                    outs = self.call(q.group(1), [self.ssa(a, env, mem) for a in split_args(q.group(2))], mem, depth)
                    for res, mm in outs[1:]:
                        e2 = dict(env)
                        m2 = dict(mm)
                        if lhs:
                            self.assign(lhs, res, e2, m2)
                        work.append((bb, prev, i, e2, m2))
                    res, mm = outs[0]
                    mem = dict(mm)
                    if lhs:
                        self.assign(lhs, res, env, mem)
                    continue
                if not m:
                    raise Unsupported(l)
                c = re.match(r"^(\S+ (?:==|!=|<|>|<=|>=) \S+) \? (\S+) : (\S+)$", rhs)
                if c:
                    d = self.compare(c.group(1), env, mem)
                    if d is None:
                        e2, m2 = dict(env), dict(mem)
                        self.assign(lhs, self.value(c.group(3), env, mem), e2, m2)
                        work.append((bb, prev, i, e2, m2))
                        d = True
                    self.assign(lhs, self.value(c.group(2 if d else 3), env, mem), env, mem)
                    continue
                self.assign(lhs, self.expr(rhs, env, mem), env, mem)
        return results

    def ssa(self, s, env, mem):
        return self.expr(s.strip(), env, mem)

    def assign(self, lhs, v, env, mem):
        if isinstance(v, tuple) and v[0] == "struct":
            m = re.match(r"^\*([\w$.]+)(\(D\))?$", lhs)
            p = self.look(m.group(1), m.group(2), env) if m else None
            dst = p.obj if isinstance(p, Ptr) else (env["#frame"], lhs)
            for (o, k), x in list(mem.items()):
                if o == v[1]:
                    mem[(dst, k)] = x
            return
        if re.match(r"^[\w$.]+_\d+$", lhs) or re.match(r"^_\d+$", lhs):
            env[lhs] = v
            return
        p = self.place(lhs, env, mem)
        if p is None and re.match(r"^[A-Za-z_]\w*$", lhs) and isinstance(v, Lin):
            p = ((env["#frame"], lhs), "scalar")
        if p is None:
            raise Unsupported("assignment to " + lhs)
        w = self.vector(lhs)
        if w and isinstance(v, tuple) and v[0] == "vec":
            for i, x in enumerate(v[1]):
                mem[(p[0], p[1] + i * w[1])] = x
            return
        mem[p] = v
