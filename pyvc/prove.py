"""Discharge of one obligation: facts |= goal."""
import time
from .terms import *
from . import smt
from .norm import Norm, is_zero, clear, Limit

LOG = []


class Budget(Exception):
    pass


class Prover:
    def __init__(self, seconds=20.0):
        self.deadline = time.time() + seconds
        self.used = set()
        self.fail = None
        self.cache = {}

    def tick(self):
        if time.time() > self.deadline:
            raise Budget()

    def prove(self, facts, goal):
        """'proved' or None (with self.fail the residue)"""
        try:
            return self.go(withnormal(list(facts)), tt(goal), 0)
        except Budget:
            self.fail = "time budget"
            return None
        except (Limit, TooBig) as e:
            self.fail = str(e)
            return None

    # ---------------------------------------------------------------- booleans
    def go(self, facts, goal, depth, normed=False, orig=None):
        self.tick()
        if not normed and depth == 0 and goal.op in ("ge0", "not", "or"):
            facts, goal, _ = self.substfacts(facts, goal)
        if goal is TRUE:
            self.used.add("syntactic")
            return True
        if goal in facts:
            self.used.add("syntactic")
            return True
        if goal.op == "and":
            return all(self.go(facts, g, depth) for g in goal.args)
        if goal.op == "forall":
            v, lo, hi, body = open_(goal, fresh("sk", "I"))
            return self.go(facts + [ge(v, lo), lt(v, hi)], body, depth)
        if goal.op == "eq0":
            return self.eq(facts, goal.args[0], depth)
        if goal.op == "eqL":
            return self.eqL(facts, goal, depth)
        if goal is FALSE:
            r = smt.check(facts, 2000) == "unsat"
            if r:
                self.used.add("z3")
            else:
                self.fail = "reachable"
            return r
        if smt.check(facts + [not_(goal)], 2000) == "unsat":
            self.used.add("z3")
            return True
        if not normed:
            g = Norm(facts).simp(goal)
            if g is TRUE:
                self.used.add("normaliser")
                return True
            if g is not goal and g is not FALSE:
                self.used.add("normaliser")
                return self.go(facts, g, depth, True, goal)
        lem = self.lemmas(facts, goal)
        if lem and smt.check(facts + lem + [not_(goal)], 2000) == "unsat":
            self.used.add("z3")
            return True
        if goal.op in ("ge0", "not"):
            rich = self.enriched(facts, goal)
            if rich is not facts and smt.check(rich + [not_(goal)], 1500) == "unsat":
                self.used.update(("normaliser", "z3"))
                return True
        if goal.op == "or":
            parts = list(goal.args)
            # an equation proved under the negation of the others
            main = [p for p in parts if p.op in ("eq0", "forall", "and", "eqL")]
            for p in main[:4]:
                fs = facts + [not_(q) for q in parts if q is not p]
                if smt.check(fs, 500) == "unsat":
                    self.used.add("z3")
                    return True
                if p.op != "and" and self.go(fs, p, depth + 1):
                    return True
        if orig is not None and orig.op in ("ge0", "not") and self.splitcands(goal):
            return self.split(facts, orig, depth, goal)
        return self.split(facts, goal, depth)

    def lemmas(self, facts, t):
        """bounds of products and sums of bounded terms"""
        out, S = [], []
        for s in sorted(subterms(t), key=key):
            if helper(s):
                continue
            if s.op == "prod":
                b, lo, hi, body = s.args
                k = fresh("sk", "I")
                fs = facts + [ge(k, lo), lt(k, hi)]
                x = subst(body, {b: k})
                if smt.check(fs + [lt(x, ZERO)], 500) == "unsat":
                    out.append(ge(s, ZERO))
                    if smt.check(fs + [le(x, ZERO)], 500) == "unsat":
                        out.append(gt(s, ZERO))
                    if smt.check(fs + [gt(x, ONE)], 500) == "unsat":
                        out.append(le(s, ONE))
            elif s.op == "app" and s.args[0] == "exp":
                out.append(gt(s, ZERO))
                logs = [le(x, ZERO) for x in subterms(s.args[1]) if x.op == "app" and x.args[0] == "log" and smt.decide(facts, le(x.args[1], ONE)) is True]
                if logs and smt.check(facts + logs + [gt(s.args[1], ZERO)], 500) == "unsat":
                    out.append(le(s, ONE))
            elif s.op == "app" and s.args[0] == "S":
                L, e = s.args[1], s.args[2]
                if smt.decide(facts, ge(e, ZERO)) is not True:
                    continue
                k = fresh("sk", "I")
                x = subst(L.args[2], {L.args[0][0]: k})
                fs = facts + [ge(k, ZERO), lt(k, e)]
                sub_ = [l for l in self.lemmas(fs, x)] if height(x) > 0 else []
                if smt.check(fs + sub_ + [lt(x, ZERO)], 500) == "unsat":
                    out.append(ge(s, ZERO))
                    S.append((L, e, s))
                    if any(y.op == "ind" for y in subterms(x)) and smt.decide(facts, ge(e, ONE)) is True:
                        out.append(ge(s, Norm(facts, 1).simp(subst(L.args[2], {L.args[0][0]: sub(e, ONE)}))))
                if smt.check(fs + sub_ + [gt(x, ONE)], 500) == "unsat":
                    out.append(le(s, e))
        # an entry of a sum of nonnegative terms is at most the sum
        tot = [s for f in facts if f.op in ("eq0", "ge0") for s in subterms(f) if s.op == "app" and s.args[0] == "S" or s.op == "sum"]
        seen = set()
        for s in tot + [s for s in subterms(t) if s.op == "app" and s.args[0] == "S"]:
            if s in seen or helper(s):
                continue
            seen.add(s)
            if s.op == "sum":
                b, lo, hi, body = s.args
            else:
                L, hi = s.args[1], s.args[2]
                b, lo, body = L.args[0][0], ZERO, L.args[2]
            if body.op != "app":
                continue
            k = fresh("sk", "I")
            x = subst(body, {b: k})
            if smt.check(facts + [ge(k, lo), lt(k, hi), lt(x, ZERO)], 500) != "unsat":
                continue
            for e in sorted(subterms(t), key=key):
                if e.op == "app" and e.args[0] == body.args[0] and not helper(e) and e is not s:
                    i = match1(body, e, b)
                    if i is not None and smt.decide(facts, and_(ge(i, lo), lt(i, hi))) is True:
                        out.append(le(e, s))
        for i, (L, e, s) in enumerate(S):
            for L2, e2, s2 in S[i + 1:]:
                if L2 is L:
                    if smt.decide(facts, le(e, e2)) is True:
                        out.append(le(s, s2))
                        out.append(or_(eq(e, e2), le(add(s, subst(L.args[2], {L.args[0][0]: e})), s2)))
                    elif smt.decide(facts, le(e2, e)) is True:
                        out.append(le(s2, s))
                        out.append(or_(eq(e2, e), le(add(s2, subst(L.args[2], {L.args[0][0]: e2})), s)))
        return out

    def enriched(self, facts, t=None):
        """the facts about sums and products in normal form, with bounds of their parts"""
        k = (tuple(facts), t)
        if k in self.cache:
            return self.cache[k]
        new = []
        n = Norm(facts, 1)
        for f in facts:
            if f.op in ("forall", "exists") or not any(s.op in ("sum", "prod") for s in subterms(f)):
                continue
            try:
                g = normfact(n, f)
            except Limit:
                continue
            if g is not f and g is not TRUE:
                new.append(g)
        out = facts
        if new:
            terms = new + ([t] if t is not None else []) + [f for f in facts if f.op in ("ge0", "eq0", "not", "or")]
            ls = []
            seen = set()
            big = mk("tuple", tuple(terms), "B")
            for l in self.lemmas(facts, big):
                if l not in seen and l is not TRUE:
                    seen.add(l)
                    ls.append(l)
            ls += self.scaled(facts + new, big, ls)
            out = facts + new + ls
        self.cache[k] = out
        return out

    def scaled(self, facts, t, ls):
        """inequalities divided by the positive denominators that occur"""
        invs, monos = [], []
        for s in subterms(t):
            if s.op == "poly" and not helper(s):
                for m, _ in s.args:
                    for a, e in m:
                        if e < 0 and (a, e) not in invs:
                            invs.append((a, e))
                    if len(m) > 1 and any(e < 0 for a, e in m) and m not in monos:
                        monos.append(m)
        out = []
        for a, e in sorted(invs, key=lambda x: key(x[0]))[:4]:
            if smt.decide(facts, gt(a, ZERO)) is not True:
                continue
            f = from_pd({((a, e),): Fraction(1)})
            for l in ls:
                ps = l.args if l.op == "or" else (l,)
                if ps[-1].op == "ge0" and ps[-1].args[0].sort == "R":
                    out.append(or_(*ps[:-1], ge(mul(ps[-1].args[0], f), ZERO)))
            for m in monos:
                if (a, e) in m and all(b is a or smt.decide(facts, ge(b, ZERO)) is True for b, _ in m):
                    out.append(ge(from_pd({m: Fraction(1)}), ZERO))
        return out

    def splitcands(self, t):
        out, quant = [], []
        for s in subterms(t):
            if s.op == "ind":
                c = s.args[0]
                if helper(c):
                    continue
                if c.op in ("exists", "forall"):
                    if c not in quant:
                        quant.append(c)
                elif c not in out:
                    out.append(c)
        return out or quant

    def literals(self, goal, out):
        if goal.op in ("or", "and", "not"):
            for a in goal.args:
                self.literals(a, out)
        elif goal.op in ("ge0", "eq0") and goal.args[0].sort == "I" and not helper(goal) and goal not in out:
            out.append(goal)
        return out

    def smallrange(self, facts, t):
        """an integer variable of t with at most four possible values: [values]"""
        lo, hi = {}, {}
        for f in facts:
            p, sg = None, 1
            if f.op == "ge0" and f.args[0].sort == "I":
                p = f.args[0]
            elif f.op == "not" and f.args[0].op == "ge0" and f.args[0].args[0].sort == "I":
                p = sub(neg(f.args[0].args[0]), ONE)
            if p is None:
                continue
            d = pd(p)
            c = d.get((), 0)
            rest = {m: k for m, k in d.items() if m != ()}
            if len(rest) != 1:
                continue
            (m, k), = rest.items()
            if len(m) != 1 or m[0][1] != 1 or m[0][0].op != "var" or abs(k) != 1:
                continue
            v = m[0][0]
            if k == 1:
                lo[v] = max(lo.get(v, -c), -c)
            else:
                hi[v] = min(hi.get(v, c), c)
        for v in sorted(fv(t), key=lambda x: x.args[0]):
            if v in lo and v in hi and hi[v] - lo[v] <= 3:
                return v, [const(x) for x in range(int(lo[v]), int(hi[v]) + 1)]
        return None

    def smallends(self, facts, t):
        """the end of a range of t that can take few values only"""
        seen = []
        for s in sorted(subterms(t), key=key):
            e = s.args[2] if s.op == "app" and s.args[0] == "S" else s.args[2] if s.op == "prod" else None
            if e is None or e.op == "const" or e in seen or helper(e):
                continue
            seen.append(e)
            if smt.decide(facts, and_(ge(e, const(-1)), le(e, const(2)))) is True:
                return e, [-1, 0, 1, 2]
        return None

    def split(self, facts, goal, depth, t=None):
        if depth > 12:
            self.fail = show(goal, 1500)
            return False
        r = self.smallrange(facts, goal)
        if r is not None:
            v, vals = r
            self.used.add("cases")
            for x in vals:
                fs = [subst(f, {v: x}) for f in facts]
                if FALSE in fs or smt.check(fs, 500) == "unsat":
                    continue
                if not self.go([f for f in fs if f is not TRUE], subst_raw(goal, v, x), depth + 1):
                    return False
            return True
        if goal.op in ("or", "and", "not"):
            ls = self.literals(goal, [])
            if ls:
                c = sorted(ls, key=lambda x: (len(key(x)), key(x)))[0]
                for f, val in ((c, TRUE), (not_(c), FALSE)):
                    fs = facts + [f]
                    if smt.check(fs, 500) == "unsat":
                        continue
                    if not self.go(fs, replace(goal, lambda s: val if s is c else None), depth + 1):
                        return False
                return True
        cs = self.splitcands(t if t is not None else goal)
        if not cs:
            r = self.smallends(facts, t if t is not None else goal)
            if r is not None:
                e, vals = r
                self.used.add("cases")
                for x in vals:
                    fs = facts + [eq(e, const(x))]
                    if FALSE in fs or smt.check(fs, 500) == "unsat":
                        continue
                    fs, g, _ = self.substfacts(fs, goal)
                    if not self.go(fs, g, depth + 1):
                        return False
                return True
            self.fail = show(goal, 1500)
            return False
        c = sorted(cs, key=lambda x: (len(key(x)), key(x)))[0]
        quant = c.op in ("exists", "forall")
        if quant and t is not None and goal.op == "eq0":
            goal = eq0_raw(t)
        for f in (c, not_(c)):
            fs = facts + [f]
            if smt.check(fs, 500) == "unsat":
                self.used.add("z3")
                continue
            if not self.go(fs, replace(goal, lambda s: (TRUE if f is c else FALSE) if s is c else None) if quant else goal, depth + 1):
                return False
        return True

    def eqL(self, facts, goal, depth):
        a, b = goal.args
        if a.op == "lam" and b.op == "lam" and len(a.args[0]) == len(b.args[0]):
            vs, d1, b1 = open_lam(a, tuple(fresh("sk", "I") for _ in a.args[0]))
            _, d2, b2 = open_lam(b, vs)
            for x, y in zip(d1, d2):
                if not self.go(facts, eq(x, y), depth):
                    return False
            fs = facts + [f for v, d in zip(vs, d1) for f in (ge(v, ZERO), lt(v, d))]
            return self.go(fs, eq(b1, b2), depth)
        n = Norm(facts)
        x, y = n.simp(a), n.simp(b)
        if x is y:
            self.used.add("normaliser")
            return True
        if smt.check(facts + [not_(goal)], 1000) == "unsat":
            self.used.add("z3")
            return True
        self.fail = show(goal, 1500)
        return False

    # --------------------------------------------------------------- equations
    def eq(self, facts, t, depth):
        self.tick()
        if t is ZERO:
            self.used.add("syntactic")
            return True
        t0 = t
        # equations among the facts
        facts, t, _ = self.substfacts(facts, t)
        t0 = t
        n = Norm(facts)
        r = n.simp(t)
        if is_zero(r):
            self.used.add("normaliser")
            return True
        # a second round: products created by the first may simplify again
        r2 = Norm(facts).simp(clear(r)) if r is not t else r
        if is_zero(r2):
            self.used.add("normaliser")
            return True
        u = self.prods(facts, self.unify(facts, self.instances(facts, r2)))
        if u is not r2:
            u = clear(Norm(facts).simp(u))
            if is_zero(u):
                self.used.update(("normaliser", "z3"))
                return True
        if height(u) == 0 or len(pd(u)) < 40:
            if smt.check(facts + [not_(eq0(u))], 1500) == "unsat":
                self.used.update(("normaliser", "z3"))
                return True
        if smt.check(facts, 500) == "unsat":
            self.used.add("z3")
            return True
        rich = self.enriched(facts, u)
        if rich is not facts and smt.check(rich + [not_(eq0(u))], 1500) == "unsat":
            self.used.update(("normaliser", "z3"))
            return True
        if depth == 0 and self.termwise(facts, t0):
            self.used.add("termwise")
            return True
        if self.splitcands(u) or self.smallrange(facts, u) or self.smallends(facts, u):
            return self.split(facts, eq0_raw(t0), depth, u)
        # integer case splits: equalities between indices
        c = self.indexsplit(facts, u)
        if c is not None and depth <= 6:
            for f in (c, not_(c)):
                if smt.check(facts + [f], 500) == "unsat":
                    continue
                if not self.eq(facts + [f], u, depth + 1):
                    return False
            return True
        self.fail = show(u, 3000) + " || facts: " + "; ".join(show(f, 120) for f in facts[-8:])
        return False

    def termwise(self, facts, t):
        """sums over one range that agree term by term"""
        rng, parts = None, []
        for m, c in pd(t).items():
            if len(m) != 1 or m[0][1] != 1 or m[0][0].op != "sum":
                return False
            b, lo, hi, body = m[0][0].args
            if rng is not None and rng != (lo, hi):
                return False
            rng = lo, hi
            parts.append((c, b, body))
        if len(parts) < 2:
            return False
        k = fresh("sk", "I")
        d = add(*[mul(const(c), subst(body, {b: k})) for c, b, body in parts])
        ok = self.eq(facts + [ge(k, rng[0]), lt(k, rng[1])], d, 1)
        self.fail = None
        return ok

    def substfacts(self, facts, t):
        done = {}
        ges = {}
        for f in facts:
            if f.op == "ge0" and f.args[0].sort == "I":
                ges[f.args[0]] = f
            elif f.op == "not" and f.args[0].op == "ge0" and f.args[0].args[0].sort == "I":
                ges[sub(neg(f.args[0].args[0]), ONE)] = f
        for g in list(ges):
            n = neg(g)
            if n in ges and g in ges and n is not g:
                drop = (ges.pop(g), ges.pop(n))
                facts = [f for f in facts if f not in drop] + [eq0(g)]
        for _ in range(6):
            hit = None
            for f in facts:
                if f.op != "eq0":
                    continue
                p = pd(f.args[0])
                for v in sorted(fv(f), key=lambda x: x.args[0]):
                    if v.sort == "I" or v.sort == "R":
                        m = ((v, Fraction(1)),)
                        c = p.get(m)
                        if c is None or (v.sort == "I" and abs(c) != 1):
                            continue
                        rest = from_pd({k: x for k, x in p.items() if k != m})
                        if v in fv(rest):
                            continue
                        e = mul(const(-1 / c), rest)
                        if v.sort == "I" and e.sort != "I":
                            continue
                        if v.args[0].startswith("sk!") or e.op in ("const", "var") or True:
                            hit = (f, v, e)
                            break
                if hit:
                    break
            if not hit:
                break
            f, v, e = hit
            facts = [x for x in facts if x is not f]
            new = []
            for x in facts:
                y = subst(x, {v: e})
                if y is FALSE:
                    new = [FALSE]
                    break
                if y is not TRUE:
                    new.append(y)
            facts = new
            t = subst(t, {v: e})
            done[v] = e
        return facts, t, done

    def instances(self, facts, t):
        """rewrite bodies of sums with universally quantified equations"""
        rules = []
        for f in facts:
            if f.op != "forall":
                continue
            v, lo, hi, body = open_(f)
            n = Norm(facts + [ge(v, lo), lt(v, hi)], 1)
            if body.op == "eq0":
                p = pd(n.simp(body.args[0]))
            else:
                ab = iff(body)
                if ab is None:
                    continue
                p = pd(sub(n.simp(ind(ab[0])), n.simp(ind(ab[1]))))
            lhs = [(m, c) for m, c in p.items() if len(m) == 1 and m[0][1] == 1 and v in fv(m[0][0])]
            lhs = [(m, c) for m, c in lhs if all(not any(a is m[0][0] or m[0][0] in subterms(a) for a, _ in m2) for m2 in p if m2 is not m)]
            if not lhs:
                continue
            m, c = max(lhs, key=lambda x: (len(key(x[0][0][0])), key(x[0][0][0])))
            rhs = mul(const(-1 / c), from_pd({k: x for k, x in p.items() if k != m}))
            rules.append((v, lo, hi, m[0][0], rhs))
        if not rules:
            return t

        def rw(s):
            if s.op == "app" and s.args[0] == "S":
                L, e = s.args[1], s.args[2]
                (b,), _, body = L.args
                for v, lo, hi, lhs, rhs in rules:
                    if lo is not ZERO:
                        continue
                    pat = subst(lhs, {v: b})
                    hit = [m for m in pd(body) if any(a is pat for a, _ in m)]
                    if not hit or fv(e) & {x for x in fv(e) if x.args[0].startswith(("nb", "_b"))}:
                        continue
                    if smt.decide(facts, and_(ge(e, ZERO), le(e, hi)), 400) is not True:
                        continue
                    nb = replace(body, lambda x: subst(rhs, {v: b}) if x is pat else None)
                    w = fresh("sk", "I")
                    return binder_("sum", w, ZERO, e, subst(nb, {b: w}))
            return None
        r = replace(t, rw)
        return Norm(facts).simp(r) if r is not t else t

    def indexterms(self, t):
        pos = {}
        for s in subterms(t):
            if s.op == "app":
                for k, a in enumerate(s.args[1:]):
                    if isinstance(a, T) and a.sort == "I" and a.op != "const":
                        if any(v.args[0].startswith(("nb", "_b", "nu", "nf", "ns", "nw")) for v in fv(a)):
                            continue
                        sig = (s.args[0], k, s.args[1] if s.args[0] == "S" and k == 1 else None)
                        pos.setdefault(sig, [])
                        if a not in pos[sig]:
                            pos[sig].append(a)
                    elif isinstance(a, T) and a.op == "const" and s.args[0] not in ("draw", "hvF", "hvN", "undef"):
                        sig = (s.args[0], k, None)
                        pos.setdefault(sig, [])
                        if a not in pos[sig]:
                            pos[sig].append(a)
            elif s.op in ("prod", "sum", "maxb", "argmax"):
                a = s.args[2]
                if not any(v.args[0].startswith(("nb", "_b", "nu", "nf", "ns", "nw")) for v in fv(a)):
                    sig = (s.op, 2, s.args[3])
                    pos.setdefault(sig, [])
                    if a not in pos[sig]:
                        pos[sig].append(a)
        return pos

    def unify(self, facts, t):
        """replace provably equal indices by one representative"""
        rep = {}
        for sig, xs in self.indexterms(t).items():
            xs = sorted(xs, key=lambda x: (x.op != "const", len(key(x)), key(x)))[:8]
            for i, a in enumerate(xs):
                if a in rep:
                    continue
                for b in xs[i + 1:]:
                    if b in rep or b.op == "const":
                        continue
                    d = sub(a, b)
                    if d.op == "const":
                        continue
                    if smt.decide(facts, eq0(d), 400) is True:
                        rep[b] = a
        if not rep:
            return t
        return replace(t, lambda s: rep.get(s) if s in rep else None)

    def prods(self, facts, t):
        """products over the same body: one common range"""
        groups = {}
        for s in subterms(t):
            if s.op == "prod" and not any(v.args[0].startswith(("nb", "_b", "nu", "nf", "ns", "nw")) for v in fv(s)):
                groups.setdefault(s.args[3], []).append(s)
        rep = {}
        for body, ps in groups.items():
            if len(ps) < 2:
                continue
            los = sorted({p.args[1] for p in ps}, key=lambda x: (x.op != "const", x.args[0] if x.op == "const" else 0))
            his = sorted({p.args[2] for p in ps}, key=key)
            # highest constant lower end
            if all(x.op == "const" for x in los):
                top = los[-1]
            else:
                top = None
            for p in ps:
                b, lo, hi, _ = p.args
                pre, lo2, hi2 = [], lo, hi
                if top is not None and lo is not top and cval(top) - cval(lo) <= 4 and smt.decide(facts, ge(hi, top)) is True:
                    for k in range(int(cval(lo)), int(cval(top))):
                        pre.append(subst(body, {b: const(k)}))
                    lo2 = top
                best = hi
                for h in his:
                    d = sub(best, h)
                    if d.op == "const" and 0 < cval(d) <= 6 and smt.decide(facts, ge(h, lo2)) is True:
                        best = h
                d = sub(hi, best)
                for k in range(int(cval(d))):
                    pre.append(subst(body, {b: add(best, const(k))}))
                hi2 = best
                if pre:
                    rep[p] = mul(binder_("prod", *_open2(p, lo2, hi2)), *pre)
        if not rep:
            return t
        return replace(t, lambda s: rep.get(s))

    def indexsplit(self, facts, t):
        for sig, xs in sorted(self.indexterms(t).items(), key=lambda kv: str(kv[0])):
            xs = sorted(xs, key=lambda x: (x.op != "const", len(key(x)), key(x)))[:5]
            for i, a in enumerate(xs):
                for b in xs[i + 1:]:
                    d = sub(a, b)
                    if d.op == "const":
                        continue
                    if smt.decide(facts, eq0(d), 300) is None:
                        return eq0(d)
        return None


NORMAL = {}


def withnormal(facts):
    """the facts, and those about sums once more in normal form"""
    out = []
    for i, f in enumerate(facts):
        out.append(f)
        if f.op == "forall" and any(s.op in ("sum", "prod") for s in subterms(f)):
            k = tuple(facts[:i + 1])
            if k not in NORMAL:
                g = None
                try:
                    w = fresh("sk", "I")
                    v, lo, hi, body = open_(f, w)
                    n = Norm(facts[:i] + [ge(w, lo), lt(w, hi)], 1)
                    b = normfact(n, body)
                    if b is not body:
                        g = binder_("forall", w, lo, hi, b)
                except (Limit, TooBig):
                    pass
                NORMAL[k] = g
            if NORMAL[k] is not None:
                out.append(NORMAL[k])
    return out


def iff(f):
    """(A, B) of a formula A <=> B"""
    if f.op != "or" or len(f.args) != 2 or any(a.op != "and" or len(a.args) != 2 for a in f.args):
        return None
    (a, b), y = f.args[0].args, f.args[1].args
    return (a, b) if not_(a) in y and not_(b) in y else None


def normfact(n, f):
    """a fact with its sums in normal form"""
    if f.op in ("and", "or"):
        return (and_ if f.op == "and" else or_)(*[normfact(n, g) for g in f.args])
    if f.op == "not":
        return not_(normfact(n, f.args[0]))
    if f.op == "ge0":
        return ge(n.simp(f.args[0]), ZERO)
    if f.op == "eq0":
        return eq0(n.simp(f.args[0]))
    return f


def match1(pat, t, b):
    """the value of b for which pat becomes t"""
    if pat is b:
        return t
    if pat.op != t.op or len(pat.args) != len(t.args):
        return None
    v = None
    for x, y in zip(pat.args, t.args):
        if isinstance(x, T) and isinstance(y, T):
            if x is y:
                continue
            r = match1(x, y, b)
            if r is None or v is not None and v is not r:
                return None
            v = r
        elif x != y:
            return None
    return v if v is not None and subst(pat, {b: v}) is t else None


def _open2(p, lo, hi):
    v, _, _, body = open_(p)
    return v, lo, hi, body


def eq0_raw(t):
    return eq0(t) if t.op == "const" else mk("eq0", (t,), "B")


HELP = ("nb", "_b", "nu", "nf", "ns", "nw")


def helper(t):
    return any(v.args[0].startswith(HELP) for v in fv(t))


def subst_raw(t, v, x):
    r = subst(t.args[0], {v: x}) if t.op == "eq0" else subst(t, {v: x})
    return eq0_raw(r) if t.op == "eq0" else r
