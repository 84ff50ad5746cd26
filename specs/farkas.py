"""Contract for farkas_lemma_affine (C09), lib/constraints.c: multipliers that certify the affine form are never lost."""
from fm import *
from matrix import Mat

# FKROW(i): row i of the identity  phi = sum of multipliers * faces, over (unknowns, multipliers, constant)
FKROW = z3.Function("FKROW", AAI, AAI, AAI, AAI, I, I, I, AI)
DNC = z3.Function("DNC", I, AI)         # the point left when so many columns remain
NMF = z3.Function("NMF", AAI, AAI, AAI, I, I)      # number of multipliers
PROJ = z3.Function("PROJ", AI, I, I, AI)
m_ = z3.Int("fkm")


class FK:
    """The system of multipliers for a domain and an affine form, in terms of the arguments."""

    def __init__(self, v, dom, phi):
        self.a, self.p, self.v = Cst(v, dom), Mat(v, phi), v
        self.nm = NMF(*([v.key(k) for k in ("c.i64", "c.i32", "c.p.i64.o")] + [self.a.c]))              # one multiplier per face, and the constant one
        self.off = self.p.nc - 1
        self.nc = self.p.nc + self.nm

    def row(self, i):
        return FKROW(*([self.v.key(k) for k in ("c.i64", "c.i32", "c.p.i64.b", "c.p.i64.o")] + [self.a.c, self.p.m, i]))

    def face(self, m, i):
        a = self.a
        return If(m < a.nr, a.at(m, i), If(m < self.nm - 1, -sumeq(a, a.nr, i), If(i == a.nc - 1, IV(1), IV(0))))

    def entry(self, i, j):
        return If(j < self.off, self.p.at(i, j), If(j < self.off + self.nm, -self.face(j - self.off, i), self.p.at(i, self.off)))

    def row_def(self):
        e = EO(self.row(r_), IV(0), j_)
        return ("@def", self.nm == nrow(self.a) + 1), ("@def", forall([r_, j_], Implies(And(0 <= r_, r_ < self.a.nc, 0 <= j_, j_ < self.nc), e == self.entry(r_, j_)), [e]))

    def cert(self, X=XG):
        """X: unknowns, then non-negative multipliers that make the identity hold, then the scale of the constants."""
        return And(forall([r_], Implies(And(0 <= r_, r_ < self.a.nc), SPO(self.row(r_), IV(0), X, self.nc) == 0), [self.row(r_)]), forall([m_], Implies(And(self.off <= m_, m_ < self.off + self.nm), X[m_] >= 0), [X[m_]]))

    def proj(self, X=XG):
        return PROJ(X, self.off, self.nm)

    def proj_def(self, X=XG):
        e = self.proj(X)[j_]
        return ("@def", forall([j_], e == If(j_ < self.off, X[j_], X[j_ + self.nm]), [e]))




def fk_inv(lvl):
    def inv(L):
        K_ = FK(L.pre, L["dom"], L["phi"])
        q, f = Cst(L.st, L.v("idom")), Cst(L.st, L.v("farkas"))
        a, nm, off, nc = K_.a, K_.nm, K_.off, K_.nc
        v = L.st
        base = [K_.row_def()[0]] + [("faces: " + l, g) for l, g in q.wf()] + q.fresh_from(L.pre) + [("system: " + l, g) for l, g in f.wf()] + f.fresh_from(L.pre) + [
            ("apart", And(f.c != q.c, f.buf != q.buf, f.val != q.val, f.eqb != q.eqb)),
            ("faces are the rows of the domain and the constant one", And(q.nr == nm, q.nc == a.nc, forall([m_, j_], Implies(And(0 <= m_, m_ < nm, 0 <= j_, j_ < a.nc), q.at(m_, j_) == K_.face(m_, j_)), [q.at(m_, j_)])))]
        if lvl == 4:
            D = DNC(f.nc)
            k = f.nc - 1
            cert = K_.cert()
            hit = Implies(cert, allhold(f, D))
            return base[:0] + [("faces: " + l, g) for l, g in q.wf()] + q.fresh_from(L.pre) + [("system: " + l, g) for l, g in f.wf()] + f.fresh_from(L.pre) + [("apart", And(f.c != q.c, f.buf != q.buf, f.val != q.val, f.eqb != q.eqb)), ("faces", And(q.nr == nm, q.nc == a.nc))] + [
                *K_.row_def(), ("@def", DNC(nc) == XG),
                ("@def", forall([r_], sameo(rb_(f), f.ro(r_), K_.row(r_), IV(0), XG, nc), [f.ro(r_)])), ("@def", forall([r_], unito(rb_(f), f.ro(r_), off + r_ - a.nc, XG, nc), [f.ro(r_)])),
                ("columns left", And(f.nc == nc - L.i, 0 <= L.i, L.i <= nm)),
                ("the point left has the unknowns", And(forall([j_], Implies(And(0 <= j_, j_ < off), D[j_] == XG[j_]), [D[j_]]), D[f.nc - 1] == XG[nc - 1])),
                ("the point left is a solution", hit)]
        base += [("shape", And(f.nr == a.nc + nm, f.nc == nc, L.v("farkas_offset") == off))]
        rows = lambda upto: ("rows so far", forall([r_, j_], Implies(And(0 <= r_, r_ < upto, 0 <= j_, j_ < nc), f.at(r_, j_) == K_.entry(r_, j_)), [f.at(r_, j_)]))
        rest = lambda frm: ("other rows are zero", forall([r_, j_], Implies(And(frm <= r_, r_ < a.nc + nm, 0 <= j_, j_ < nc), f.at(r_, j_) == 0), [f.at(r_, j_)]))
        kinds = lambda upto: ("kinds so far", forall([r_], Implies(And(0 <= r_, r_ < a.nc + nm), f.eq(r_) == If(r_ < upto, IV(1), IV(0))), [f.eq(r_)]))
        if lvl == 0:
            return base + [rows(L.i), rest(L.i), kinds(L.i), ("i", And(0 <= L.i, L.i <= a.nc))]
        if lvl in (1, 2):
            i = L.up()
            done = (j_ < L.i) if lvl == 1 else (j_ < off + L.i)
            return base + [rows(i), rest(i + 1), kinds(i + 1), ("i", And(0 <= i, i < a.nc)), ("j", And(0 <= L.i, L.i <= (off if lvl == 1 else nm))),
                           ("this row", forall([r_, j_], Implies(And(r_ == i, 0 <= j_, j_ < nc), f.at(r_, j_) == If(done, K_.entry(i, j_), 0)), [f.at(r_, j_)]))]
        return base + [rows(a.nc), rest(a.nc + L.i), kinds(a.nc), ("j", And(0 <= L.i, L.i <= nm)),
                       ("multipliers so far", forall([r_, j_], Implies(And(a.nc <= r_, r_ < a.nc + L.i, 0 <= j_, j_ < nc), f.at(r_, j_) == If(j_ == off + r_ - a.nc, IV(1), IV(0))), [f.at(r_, j_)]))]
    return inv


def fk_best(c):
    f = Cst(c.cpre, c.call[0])
    return [("@def", DNC(f.nc - 1) == DROP(DNC(f.nc), c.ret)), ("@def", drop_def(DNC(f.nc), c.ret))]


def fk_ens(c):
    K_, b = FK(c.pre, c["dom"], c["phi"]), Cst(c.post, c.ret)
    W = K_.proj()
    return b.wf() + b.fresh_from(c.pre) + [("one column per unknown, and the constant", b.nc == K_.p.nc), K_.row_def()[0], K_.proj_def(),
        ("@def", forall([r_], samepo(rb_(b), b.ro(r_), DNC(K_.p.nc), W, K_.p.nc), [b.ro(r_)])),
        ("unknowns certified by some multipliers satisfy the result", Implies(K_.cert(), allhold(b, W)))]


contract("farkas_lemma_affine", props=("C04", "C09"), nloops=5,
         requires=lambda c: (lambda a, p: cwf(c, "dom") + p.wf() + [("one row per dimension of the domain", And(p.nr == a.nc, a.nc >= 1, p.nc >= 1)), ("@size", And(a.nr <= 30000, a.nc <= 30000, p.nc <= 30000))])(Cst(c.pre, c["dom"]), Mat(c.pre, c["phi"])),
         ensures=fk_ens, loops={k: fk_inv(k) for k in range(5)}, hints={"pluto_constraints_best_elim_candidate": fk_best}, points=lambda d, c: [DNC(Cst(c.pre, c["cst"]).nc)])
