#!/usr/bin/env python3
"""P28_programs.py SEED OUTDIR FILES PER_FILE: writes FILES sources with PER_FILE random well-formed client programs each
(FILES "=N": only source N of the sequence).

A program declares operands (all storages, element types, bases, layouts), builds one expression of up to DEPTH levels over
them and checks every sub-expression bottom-up (value, element type, compile-time size, basis, layout, the temporary made from it)
against plain loops over long double, then stores the whole expression in a destination of another random type.
All values are small integers (or halves, quarters, ...), bounded while generating so every intermediate is exact in float."""
import random, sys, os

RANK = {"int": 0, "long": 1, "float": 2, "double": 3}
ELEMS = list(RANK)
LIM = 2.0 ** 23
RT_MAX = 20          # largest run-time extent


def common(*e):
    return max(e, key=lambda x: RANK[x])


class Retry(Exception):
    pass


class Dim:
    def __init__(self, expr, static):
        self.expr, self.static = expr, static
        self.hi = static if static else RT_MAX


class Node:
    def __init__(self, kind, elem, text, model, mx, fr, **kw):
        self.kind, self.elem, self.text, self.model, self.mx, self.fr = kind, elem, text, model, mx, fr
        self.known = True
        self.b = self.l = None
        self.__dict__.update(kw)


class Prog:
    def __init__(self, rnd):
        self.r, self.n, self.out, self.leaves, self.dims = rnd, 0, [], [], []
        self.ints = rnd.random() < 0.15
        for k in range(3):
            if rnd.random() < 0.6:
                v = rnd.choice([1, 2, 2, 3, 3, 3, 4, 5])
                self.dims.append(Dim(str(v), v))
            else:
                nm = "n%d" % k
                self.out.append("const int %s = g.sz(1, 4);" % nm)
                self.dims.append(Dim(nm, None))

    def new(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def dim(self):
        return self.r.choice(self.dims)

    def elem(self):
        return self.r.choice(ELEMS)

    # ------------------------------------------------------------ checking
    def emit(self, nd, modelexpr, check=True):
        if nd.mx * 2.0 ** nd.fr > LIM:
            raise Retry
        m = self.new("m")
        self.out.append("const auto %s = %s;" % (m, modelexpr))
        nd.model = m
        if check:
            self.check(nd)
        if nd.kind in "vmq" and self.r.random() < 0.18:
            t = self.new("t")
            if self.r.random() < 0.5 and self.tempable(nd):
                self.out.append("cml::temporary_of_t<decltype(%s)> %s(%s);" % (nd.text, t, nd.text))
            else:
                self.out.append("auto %s = %s;" % (t, nd.text))
            nd.text = t if self.r.random() < 0.6 else "std::as_const(%s)" % t
        return nd

    @staticmethod
    def tempable(nd):
        return nd.kind != "m" or (nd.b != "a" and nd.l != "a")

    def check(self, nd):
        txt = nd.text.replace("std::as_const", "as_const").replace("cml::", "")
        if nd.kind == "v":
            self.out.append('ckv<%s, %d>(%s, %s, "%s");' % (nd.elem, nd.d.static if nd.known else -1, nd.text, nd.model, txt))
        elif nd.kind == "m":
            self.out.append("ckm<%s, %d, %d, %s, %s>(%s, %s, \"%s\");" % (
                nd.elem, nd.d.static if nd.known else -1, nd.e.static if nd.known else -1,
                BAS[nd.b], LAY[nd.l], nd.text, nd.model, txt))
        elif nd.kind == "q":
            self.out.append('ckq<%s, %s, %s>(%s, %s, "%s");' % (nd.elem, nd.order, nd.cross, nd.text, nd.model, txt))
        else:
            self.out.append('cks<%s>(%s, %s, "%s");' % (nd.elem, nd.text, nd.model, txt))

    # ------------------------------------------------------------ leaves
    def frac(self, e):
        """fractional bits of the operand's values"""
        return self.r.choice([0, 0, 1, 2]) if RANK[e] >= 2 else 0

    def form(self, x, own):
        c = self.r.random()
        if own and c < 0.2:
            return x + ".tmp()"
        return x + (".cr()" if c < 0.5 else ".v")

    def vleaf(self, d):
        old = [l for l in self.leaves if l[0] == "v" and l[1].d.expr == d.expr]
        if old and self.r.random() < 0.4:
            _, nd, x, own = self.r.choice(old)
            return Node("v", nd.elem, self.form(x, own), nd.model, nd.mx, nd.fr, d=d, known=nd.known)
        e = self.elem()
        st = self.r.choice("FFDDXYck" if d.static else "DDDYk")
        ty = {"F": "fixed<%s>" % d.expr, "D": "dynamic<>", "X": "external<%s>" % d.expr, "Y": "external<>",
              "c": "external<%s>" % d.expr, "k": "external<>"}[st]
        x = self.new("x")
        mx, fr = self.r.choice([2, 3, 3, 9]), self.frac(e)
        self.out.append('VLeaf<cml::vector<%s%s, %s>> %s(g, %s, %d, %d, "%s");' % ("const " if st in "ck" else "", e, ty, x, d.expr, mx, fr, x))
        nd = Node("v", e, None, x + ".m", mx, fr, d=d, known=st in "FXc")
        own = st in "FD"
        self.leaves.append(("v", nd, x, own))
        return Node("v", e, self.form(x, own), nd.model, mx, fr, d=d, known=nd.known)

    def mleaf(self, d, e, b, l):
        old = [z for z in self.leaves if z[0] == "m" and z[1].d.expr == d.expr and z[1].e.expr == e.expr
               and b in (None, z[1].b) and l in (None, z[1].l)]
        if old and self.r.random() < 0.4:
            _, nd, x, own = self.r.choice(old)
            return Node("m", nd.elem, self.form(x, own), nd.model, nd.mx, nd.fr, d=d, e=e, known=nd.known, b=nd.b, l=nd.l)
        el = self.elem()
        b = b or self.r.choice("rc")
        l = l or self.r.choice("rc")
        st = self.r.choice("FFDDXY" if d.static and e.static else "DDY")
        ty = {"F": "fixed<%s, %s>" % (d.expr, e.expr), "D": "dynamic<>", "X": "external<%s, %s>" % (d.expr, e.expr), "Y": "external<>"}[st]
        x = self.new("x")
        mx, fr = self.r.choice([2, 3, 3, 9]), self.frac(el)
        self.out.append('MLeaf<cml::matrix<%s, %s, %s, %s>> %s(g, %s, %s, %d, %d, "%s");' % (el, ty, BAS[b], LAY[l], x, d.expr, e.expr, mx, fr, x))
        nd = Node("m", el, None, x + ".m", mx, fr, d=d, e=e, known=st in "FX", b=b, l=l)
        own = st in "FD"
        self.leaves.append(("m", nd, x, own))
        return Node("m", el, self.form(x, own), nd.model, mx, fr, d=d, e=e, known=nd.known, b=b, l=l)

    def qleaf(self, o, c):
        e = self.elem()
        st = self.r.choice(["fixed<>", "fixed<>"])
        x = self.new("x")
        mx, fr = self.r.choice([2, 3, 9]), self.frac(e)
        self.out.append('QLeaf<cml::quaternion<%s, %s, %s, %s>> %s(g, %d, %d, "%s");' % (e, st, o, c, x, mx, fr, x))
        self.leaves.append(("q", Node("q", e, None, x + ".m", mx, fr, order=o, cross=c), x, True))
        return Node("q", e, self.form(x, True), x + ".m", mx, fr, order=o, cross=c)

    def sleaf(self):
        e = self.elem()
        if self.r.random() < 0.3:
            v = self.r.choice([-2, -1, 2, 3])
            txt = {"int": "%d", "long": "%dL", "float": "%d.f", "double": "%d."}[e] % v
            return Node("s", e, txt, "%d.L" % v, abs(v), 0)
        x = self.new("s")
        fr = self.frac(e)
        self.out.append('SLeaf<%s> %s(g, 3, %d, "%s");' % (e, x, fr, x))
        return Node("s", e, x + ".v", x + ".m", 3, fr)

    def divisor(self):
        e = self.elem()
        x = self.new("s")
        self.out.append('PLeaf<%s> %s(g, "%s");' % (e, x, x))
        return Node("s", e, x + ".v", x + ".m", 4, 2)

    # ------------------------------------------------------------ combinators
    def un(self, a, txt, model, **kw):
        f = dict(kind=a.kind, elem=a.elem, mx=a.mx, fr=a.fr)
        for k in ("d", "e", "known", "b", "l", "order", "cross"):
            if hasattr(a, k):
                f[k] = getattr(a, k)
        f.update(kw)
        nd = Node(text=txt, model=None, **f)
        return self.emit(nd, model)

    def pair(self, a, b):
        f = dict(elem=common(a.elem, b.elem), known=a.known or b.known)
        if a.kind == "m":
            f["b"], f["l"] = prom(a.b, b.b), prom(a.l, b.l)
        return f

    def elementwise(self, mk, depth):
        """operations any vector or matrix has; mk(depth) makes an operand of the shape"""
        k = self.r.randrange(8)
        if k == 0:
            a = mk(depth - 1)
            return self.un(a, "(-%s)" % a.text, "neg(%s)" % a.model)
        if k == 1:
            a = mk(depth - 1)
            return self.un(a, "(+%s)" % a.text, "(%s)" % a.model)
        if k in (2, 3):
            a, b = mk(depth - 1), mk(depth - 1)
            o = self.r.choice("+-")
            return self.un(a, "(%s %s %s)" % (a.text, o, b.text), "lin(%s, %s1, %s)" % (a.model, o, b.model),
                           mx=a.mx + b.mx, fr=max(a.fr, b.fr), **self.pair(a, b))
        if k == 4:
            a, b = mk(depth - 1), mk(depth - 1)
            return self.un(a, "cml::hadamard(%s, %s)" % (a.text, b.text), "had(%s, %s)" % (a.model, b.model),
                           mx=a.mx * b.mx, fr=a.fr + b.fr, **self.pair(a, b))
        a = mk(depth - 1)
        if k == 5:
            s = self.divisor()
            e = common(a.elem, s.elem)
            i = RANK[e] < 2
            if i:
                s.fr = 0
            return self.un(a, "(%s / %s)" % (a.text, s.text), "quo(%s, %s, %s)" % (a.model, s.model, "true" if i else "false"),
                           elem=e, mx=a.mx, fr=0 if i else a.fr + 2)
        s = self.scalar(depth - 1)
        txt = "(%s * %s)" % ((a.text, s.text) if k == 6 else (s.text, a.text))
        return self.un(a, txt, "scale(%s, %s)" % (a.model, s.model), elem=common(a.elem, s.elem), mx=a.mx * s.mx, fr=a.fr + s.fr)

    def index(self, d):
        i = self.new("i")
        self.out.append("const int %s = (int)g.below(%s);" % (i, d.expr))
        return i

    def vec(self, d, depth):
        if depth <= 0 or self.r.random() < 0.12:
            return self.vleaf(d)
        ops = ["elem"] * 4 + ["mv", "vm", "row", "col", "sub"]
        if d.static == 3:
            ops += ["cross", "cross", "imag"]
        k = self.r.choice(ops)
        if k == "elem":
            return self.elementwise(lambda dp: self.vec(d, dp), depth)
        if k == "sub":
            big = Dim(str(d.static + 1), d.static + 1) if d.static else Dim("(%s + 1)" % d.expr, None)
            a = self.vec(big, depth - 1)
            i = self.index(big)
            return self.un(a, "cml::subvector(%s, %s)" % (a.text, i), "without(%s, %s)" % (a.model, i), d=d)
        if k == "cross":
            a, b = self.vec(d, depth - 1), self.vec(d, depth - 1)
            f = self.pair(a, b)
            return self.un(a, "cml::cross(%s, %s)" % (a.text, b.text), "rcross(%s, %s)" % (a.model, b.model), mx=2 * a.mx * b.mx, fr=a.fr + b.fr, **f)
        if k == "imag":
            q = self.quat(depth - 1)
            return self.emit(Node("v", q.elem, "cml::imaginary(%s)" % q.text, None, q.mx, q.fr, d=d, known=True), "imag(%s)" % q.model)
        k2 = self.dim()
        if k == "row" or k == "col":
            m = self.mat(k2, d, depth - 1, None, None) if k == "row" else self.mat(d, k2, depth - 1, None, None)
            i = self.index(k2)
            return self.emit(Node("v", m.elem, "cml::%s(%s, %s)" % (k, m.text, i), None, m.mx, m.fr, d=d, known=m.known),
                             "%sof(%s, %s)" % (k, m.model, i))
        v = self.vec(k2, depth - 1)
        m = self.mat(d, k2, depth - 1, None, None) if k == "mv" else self.mat(k2, d, depth - 1, None, None)
        txt = "(%s * %s)" % ((m.text, v.text) if k == "mv" else (v.text, m.text))
        return self.emit(Node("v", common(v.elem, m.elem), txt, None, v.mx * m.mx * k2.hi, v.fr + m.fr, d=d, known=m.known),
                         "mv(%s, %s)" % (m.model, v.model) if k == "mv" else "mv(%s.tr(), %s)" % (m.model, v.model))

    def mat(self, d, e, depth, b, l):
        if depth <= 0 or self.r.random() < 0.12:
            return self.mleaf(d, e, b, l)
        k = self.r.choice(["elem"] * 4 + ["prod", "prod", "tr", "tr", "outer"])
        if k == "elem":
            return self.elementwise(lambda dp: self.mat(d, e, dp, b, l), depth)
        if k == "tr":
            a = self.mat(e, d, depth - 1, b, l)
            return self.un(a, "cml::transpose(%s)" % a.text, "%s.tr()" % a.model, d=d, e=e)
        if k == "outer":
            if b or l:
                raise Retry      # an outer product has no basis or layout of its own
            u, v = self.vec(d, depth - 1), self.vec(e, depth - 1)
            if u.known != v.known:
                raise Retry
            return self.emit(Node("m", common(u.elem, v.elem), "cml::outer(%s, %s)" % (u.text, v.text), None, u.mx * v.mx, u.fr + v.fr,
                                  d=d, e=e, known=u.known, b="a", l="a"), "outer(%s, %s)" % (u.model, v.model))
        b2, l2 = b or self.r.choice("rc"), l or self.r.choice("rc")
        k2 = self.dim()
        x, y = self.mat(d, k2, depth - 1, b2, l2), self.mat(k2, e, depth - 1, b2, l2)
        return self.emit(Node("m", common(x.elem, y.elem), "(%s * %s)" % (x.text, y.text), None, x.mx * y.mx * k2.hi, x.fr + y.fr,
                              d=d, e=e, known=x.known and y.known, b=prom(x.b, y.b), l=prom(x.l, y.l)), "mul(%s, %s)" % (x.model, y.model))

    def quat(self, depth, o=None, c=None):
        o = o or self.r.choice(["imaginary_first", "real_first"])
        c = c or self.r.choice(["positive_cross", "negative_cross"])
        if depth <= 0 or self.r.random() < 0.12:
            return self.qleaf(o, c)
        k = self.r.randrange(8)
        if k == 5:
            a = self.quat(depth - 1, o, c)
            s = self.divisor()
            e = common(a.elem, s.elem)
            i = RANK[e] < 2
            return self.un(a, "(%s / %s)" % (a.text, s.text), "quo(%s, %s, %s)" % (a.model, s.model, "true" if i else "false"),
                           elem=e, mx=a.mx, fr=0 if i else a.fr + 2)
        a = self.quat(depth - 1, o, c)
        if k == 0:
            return self.un(a, "(-%s)" % a.text, "neg(%s)" % a.model)
        if k == 1:
            return self.un(a, "cml::conjugate(%s)" % a.text, "conj(%s)" % a.model)
        if k in (6, 7):
            s = self.scalar(depth - 1)
            return self.un(a, "(%s * %s)" % ((a.text, s.text) if k == 6 else (s.text, a.text)), "scale(%s, %s)" % (a.model, s.model),
                           elem=common(a.elem, s.elem), mx=a.mx * s.mx, fr=a.fr + s.fr)
        b = self.quat(depth - 1, o, c)
        el = common(a.elem, b.elem)
        if k in (2, 3):
            p = self.r.choice("+-")
            return self.un(a, "(%s %s %s)" % (a.text, p, b.text), "lin(%s, %s1, %s)" % (a.model, p, b.model), elem=el, mx=a.mx + b.mx, fr=max(a.fr, b.fr))
        x, y = (a, b) if c == "positive_cross" else (b, a)
        return self.un(a, "(%s * %s)" % (a.text, b.text), "ham(%s, %s)" % (x.model, y.model), elem=el, mx=4 * a.mx * b.mx, fr=a.fr + b.fr)

    SCALARS = ["dot", "at", "mat", "len2", "trace", "det", "perp", "triple", "qdot", "real", "arith"]

    def scalar(self, depth, k=None):
        if k is None and (depth <= 0 or self.r.random() < 0.4):
            return self.sleaf()
        k = k or self.r.choice(self.SCALARS)
        d = self.dim()
        if k == "arith":
            a, b = self.scalar(depth - 1), self.scalar(depth - 1)
            return self.emit(Node("s", common(a.elem, b.elem), "(%s - %s)" % (a.text, b.text), None, a.mx + b.mx, max(a.fr, b.fr)), "(%s - %s)" % (a.model, b.model))
        if k in ("dot", "perp"):
            if k == "perp":
                d = Dim("2", 2)
            a, b = self.vec(d, depth - 1), self.vec(d, depth - 1)
            f = "dot" if k == "dot" else "perp_dot"
            return self.emit(Node("s", common(a.elem, b.elem), "cml::%s(%s, %s)" % (f, a.text, b.text), None, d.hi * a.mx * b.mx, a.fr + b.fr),
                             "r%s(%s, %s)" % (f, a.model, b.model))
        if k == "at":
            a = self.vec(d, depth - 1)
            i = self.index(d)
            return self.emit(Node("s", a.elem, "(%s)[%s]" % (a.text, i), None, a.mx, a.fr), "%s[%s]" % (a.model, i))
        if k == "mat":
            e = self.dim()
            a = self.mat(d, e, depth - 1, None, None)
            i, j = self.index(d), self.index(e)
            return self.emit(Node("s", a.elem, "(%s)(%s, %s)" % (a.text, i, j), None, a.mx, a.fr), "%s(%s, %s)" % (a.model, i, j))
        if k == "len2":
            a = self.vec(d, depth - 1)
            txt = "(%s).length_squared()" if self.r.random() < .5 else "cml::length_squared(%s)"
            return self.emit(Node("s", a.elem, txt % a.text, None, d.hi * a.mx ** 2, 2 * a.fr), "rdot(%s, %s)" % (a.model, a.model))
        if k == "trace":
            a = self.mat(d, d, depth - 1, None, None)
            return self.emit(Node("s", a.elem, "cml::trace(%s)" % a.text, None, d.hi * a.mx, a.fr), "rtrace(%s)" % a.model)
        if k == "det":
            n = self.r.choice([2, 3])
            a = self.mat(Dim(str(n), n), Dim(str(n), n), depth - 1, self.r.choice("rc"), self.r.choice("rc"))
            return self.emit(Node("s", a.elem, "cml::determinant(%s)" % a.text, None, (2 if n == 2 else 6) * a.mx ** n, n * a.fr), "rdet(%s)" % a.model)
        if k == "triple":
            d = Dim("3", 3)
            a, b, c = self.vec(d, depth - 1), self.vec(d, depth - 1), self.vec(d, depth - 1)
            return self.emit(Node("s", common(a.elem, b.elem, c.elem), "cml::triple_product(%s, %s, %s)" % (a.text, b.text, c.text), None,
                                  6 * a.mx * b.mx * c.mx, a.fr + b.fr + c.fr), "rdot(%s, rcross(%s, %s))" % (a.model, b.model, c.model))
        a = self.quat(depth - 1)
        if k == "real":
            txt = "(%s).real()" if self.r.random() < .5 else "cml::real(%s)"
            return self.emit(Node("s", a.elem, txt % a.text, None, a.mx, a.fr), "%s.w" % a.model)
        b = self.quat(depth - 1, a.order, a.cross)
        return self.emit(Node("s", common(a.elem, b.elem), "cml::dot(%s, %s)" % (a.text, b.text), None, 4 * a.mx * b.mx, a.fr + b.fr), "bx::dot(%s, %s)" % (a.model, b.model))

    # ------------------------------------------------------------ destinations
    def store(self, nd):
        txt = nd.text.replace("std::as_const", "as_const").replace("cml::", "")
        el = self.elem()
        if nd.kind == "v":
            st = self.r.choice("FDXY" if nd.d.static else "DY")
            ty = {"F": "fixed<%s>" % nd.d.expr, "D": "dynamic<>", "X": "external<%s>" % nd.d.expr, "Y": "external<>"}[st]
            self.out.append('storev<cml::vector<%s, %s>>(g, %s, %s, "%s");' % (el, ty, nd.text, nd.model, txt))
        elif nd.kind == "m":
            st = self.r.choice("FDXY" if nd.d.static and nd.e.static else "DY")
            ty = {"F": "fixed<%s, %s>" % (nd.d.expr, nd.e.expr), "D": "dynamic<>", "X": "external<%s, %s>" % (nd.d.expr, nd.e.expr), "Y": "external<>"}[st]
            self.out.append('storem<cml::matrix<%s, %s, %s, %s>>(g, %s, %s, "%s");' % (
                el, ty, BAS[self.r.choice("rc")], LAY[self.r.choice("rc")], nd.text, nd.model, txt))
        elif nd.kind == "q":
            self.out.append('storeq<cml::quaternion<%s, fixed<>, %s, %s>>(g, %s, %s, "%s");' % (el, nd.order, nd.cross, nd.text, nd.model, txt))


    def use(self, nd):
        """functions of an expression give what they give for its value"""
        txt = nd.text.replace("std::as_const", "as_const").replace("cml::", "")
        real = RANK[nd.elem] >= 2
        if nd.kind == "v":
            n = nd.d.static
            fs = ["f_print", "f_manhattan"]
            if real:
                fs += ["f_length", "f_normalize", "f_project"]
                if n == 2:
                    fs += ["f_angle2", "f_translation2", "f_align2", "f_polar"] * 2
                if n == 3:
                    fs += ["f_angle", "f_rotate", "f_axis_angle", "f_euler", "f_translation", "f_look_at", "f_align", "f_spherical", "f_transform", "f_extreme"]
            for f in self.r.sample(fs, min(2, len(fs))):
                self.out.append('usev<%s>(%s, %s, "%s", "%s");' % (f, nd.text, nd.model, f, txt))
        elif nd.kind == "m":
            fs = ["f_print"]
            r, c = nd.d.static, nd.e.static
            if self.tempable(nd) and real:
                if nd.d.expr == nd.e.expr:
                    fs += ["m_inverse", "m_lu", "m_det", "m_solve", "m_lusolve"]
                    if r == 3:
                        fs += ["m_rot", "m_euler", "m_vector3", "m_transform2"]
                    if r == 4:
                        fs += ["m_transform"] * 3
            for f in self.r.sample(fs, min(2, len(fs))):
                k = nd.known or (r and c and self.r.random() < .5)
                if f != "f_print" or self.tempable(nd):
                    self.out.append('usem<%s, %s, %s>(%s, %s, "%s", "%s");' % (f, r if k else -1, c if k else -1, nd.text, nd.model, f, txt))
        elif nd.kind == "q" and real:
            for f in self.r.sample(["f_print", "q_scalars", "q_normalize", "q_log", "q_inverse", "q_matrix", "q_axis"], 2):
                self.out.append('useq<%s>(%s, %s, "%s", "%s");' % (f, nd.text, nd.model, f, txt))


BAS = {"r": "cml::row_basis", "c": "cml::col_basis", "a": "cml::any_basis"}
LAY = {"r": "cml::row_major", "c": "cml::col_major", "a": "cml::any_major"}


def prom(a, b):
    return a if a == b or b == "a" else b if a == "a" else "a"


def program(rnd):
    while True:
        p = Prog(rnd)
        depth = rnd.choice([2, 3, 3, 4])
        try:
            k = rnd.choice("vvvmmmqs")
            if k == "v":
                nd = p.vec(p.dim(), depth)
            elif k == "m":
                nd = p.mat(p.dim(), p.dim(), depth, None, None)
            elif k == "q":
                nd = p.quat(depth)
            else:
                nd = p.scalar(depth + 1)
        except Retry:
            continue
        if p.n < 6 or len(p.out) > 60:
            continue
        try:                    # small ones besides, so that every kind meets many combinations of operands
            for _ in range(2):
                p.scalar(rnd.choice([1, 1, 2]), rnd.choice(["triple", "triple", "perp", "dot", "det", "qdot", "len2", "mat"]))
            m = p.mat(p.dim(), p.dim(), 1, None, None)
            rc = rnd.choice(["row", "col"])
            i = p.index(m.d if rc == "row" else m.e)
            p.emit(Node("v", m.elem, "cml::%s(%s, %s)" % (rc, m.text, i), None, m.mx, m.fr, d=m.e if rc == "row" else m.d, known=m.known),
                   "%sof(%s, %s)" % (rc, m.model, i))
        except Retry:
            continue
        p.store(nd)
        p.use(nd)
        for _, _, x, _ in p.leaves:
            p.out.append("%s.intact();" % x)
        p.out.insert(0, 'g.note([&](auto& o) { o << "%s"; });' % nd.text.replace("std::as_const", "as_const").replace("cml::", ""))
        return nd, p


def main():
    seed, out, nf, per = int(sys.argv[1]), sys.argv[2], sys.argv[3], int(sys.argv[4])
    os.makedirs(out, exist_ok=True)
    for f in [int(nf[1:])] if nf[0] == "=" else range(int(nf)):
        rnd = random.Random("P28-%d-%d" % (seed, f))
        s = ['#include "P28_common.h"', ""]
        for k in range(per):
            nd, p = program(rnd)
            s.append("static void p%d_%d(Gen& g) {" % (f, k))
            s += ["  " + l for l in p.out]
            s.append("}")
            s.append('INST("program_%d_%d_%d", 40, p%d_%d)' % (seed, f, k, f, k))
        with open(os.path.join(out, "P28_%03d.cpp" % f), "w") as fh:
            fh.write("\n".join(s) + "\n")


if __name__ == "__main__":
    main()
