---------------------------------- MODULE Kzg ----------------------------------
(* Polynomial commitments with a trapdoor, in the exponent: a commitment is      *)
(* known by its discrete logarithm, so that committing to P is P(tau) and the    *)
(* pairing test of a proof is an equation of scalars.  K is the scalar field, an *)
(* opening o claims that oracle o.i takes the value o.y at o.x.                  *)
EXTENDS Poly
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE SequencesExt
KSum(K, n, f(_)) == FoldLeft(LAMBDA s, i : TwAdd(K, s, f(i)), TwZero(K), [i \in 1..n |-> i])
KPSum(K, n, f(_)) == FoldLeft(LAMBDA s, i : PoAdd(K, s, f(i)), << >>, [i \in 1..n |-> i])
KPw(K, a, i) == TwPow(K, a, BFromInt(i))
KVan(K, xs, z) == FoldLeft(LAMBDA s, x : TwMul(K, s, TwSub(K, z, x)), TwOne(K), xs)
KDrop(xs, i) == SubSeq(xs, 1, i - 1) \o SubSeq(xs, i + 1, Len(xs))
\* the value at z of the polynomial that is 1 at xs[i] and 0 at the others
KLag(K, xs, i, z) == TwMul(K, KVan(K, KDrop(xs, i), z), TwInv(K, KVan(K, KDrop(xs, i), xs[i])))
\* the polynomial of least degree through the points << xs[i], ys[i] >>
KInterp(K, xs, ys) ==
  KPSum(K, Len(xs), LAMBDA i : PoScale(K, PoRoots(K, KDrop(xs, i)), TwMul(K, ys[i], TwInv(K, KVan(K, KDrop(xs, i), xs[i])))))
KConst(K, c) == PoTrim(K, << c >>)
\* the elements of s without repetitions, in the order of first appearance
KUniq(s) == FoldLeft(LAMBDA acc, x : IF \E j \in DOMAIN acc : acc[j] = x THEN acc ELSE Append(acc, x), << >>, s)
KXs(os) == KUniq([k \in DOMAIN os |-> os[k].x])
-----------------------------------------------------------------------------
(* GWC: one witness for every point *)
GwAt(os, x) == SelectSeq(os, LAMBDA o : o.x = x)
GwWitness(K, Ps, os, v, x) ==
  LET gs == GwAt(os, x)
      num == KPSum(K, Len(gs), LAMBDA j : PoScale(K, PoSub(K, Ps[gs[j].i], KConst(K, gs[j].y)), KPw(K, v, j - 1)))
  IN PoDivMod(K, num, << TwNeg(K, x), TwOne(K) >>)[1]
GwProve(K, Ps, os, v) == LET xs == KXs(os) IN TLCEval([g \in 1..Len(xs) |-> TLCEval(GwWitness(K, Ps, os, v, xs[g]))])
\* cs: logarithms of the commitments, ws: of the witnesses
GwAccepts(K, tau, cs, os, v, u, ws) ==
  LET xs == KXs(os)
      lhs == KSum(K, Len(xs), LAMBDA g : TwMul(K, KPw(K, u, g - 1), TwAdd(K, TwMul(K, xs[g], ws[g]),
                   LET gs == GwAt(os, xs[g]) IN KSum(K, Len(gs), LAMBDA j : TwMul(K, KPw(K, v, j - 1), TwSub(K, cs[gs[j].i], gs[j].y))))))
      rhs == TwMul(K, tau, KSum(K, Len(xs), LAMBDA g : TwMul(K, KPw(K, u, g - 1), ws[g])))
  IN lhs = rhs
-----------------------------------------------------------------------------
(* SHPlonk: oracles opened at the same set of points share a quotient *)
ShOracles(os) == KUniq([k \in DOMAIN os |-> os[k].i])
ShPts(os, i) == { os[k].x : k \in { k \in DOMAIN os : os[k].i = i } }
ShSets(os) == KUniq([k \in 1..Len(ShOracles(os)) |-> ShPts(os, ShOracles(os)[k])])
ShIn(os, S) == SelectSeq(ShOracles(os), LAMBDA i : ShPts(os, i) = S)
\* a set of points in some order: nothing below depends on which
ShSeq(os, S) == SelectSeq(KXs(os), LAMBDA x : x \in S)
ShVal(os, i, x) == os[CHOOSE k \in DOMAIN os : /\ os[k].i = i
                                              /\ os[k].x = x
                                              /\ \A j \in 1..(k - 1) : ~(os[j].i = i /\ os[j].x = x)].y
ShR(K, os, i, xs) == KInterp(K, xs, [k \in DOMAIN xs |-> ShVal(os, i, xs[k])])
\* no oracle is claimed to take two values at a point
ShConsistent(os) == \A j, k \in DOMAIN os : (os[j].i = os[k].i /\ os[j].x = os[k].x) => os[j].y = os[k].y
ShHead(K, Ps, os, y, v) ==
  LET gs == ShSets(os)
      H(g) == LET xs == ShSeq(os, gs[g])
                  is == ShIn(os, gs[g])
              IN PoDivMod(K, KPSum(K, Len(is), LAMBDA j : PoScale(K, PoSub(K, Ps[is[j]], ShR(K, os, is[j], xs)), KPw(K, y, j - 1))), PoRoots(K, xs))[1]
  IN KPSum(K, Len(gs), LAMBDA g : PoScale(K, H(g), KPw(K, v, g - 1)))
\* the value at z of the vanishing polynomial of the points outside S
ShRest(K, os, S, z) == KVan(K, SelectSeq(KXs(os), LAMBDA x : x \notin S), z)
ShQuot(K, Ps, os, y, v, u, H) ==
  LET gs == ShSets(os)
      L(g) == LET xs == ShSeq(os, gs[g])
                  is == ShIn(os, gs[g])
              IN PoScale(K, KPSum(K, Len(is), LAMBDA j : PoScale(K, PoSub(K, Ps[is[j]], KConst(K, PoEval(K, ShR(K, os, is[j], xs), u))), KPw(K, y, j - 1))),
                         ShRest(K, os, gs[g], u))
      all == PoSub(K, KPSum(K, Len(gs), LAMBDA g : PoScale(K, L(g), KPw(K, v, g - 1))), PoScale(K, H, KVan(K, KXs(os), u)))
  IN PoScale(K, PoDivMod(K, all, << TwNeg(K, u), TwOne(K) >>)[1], TwInv(K, ShRest(K, os, gs[1], u)))
ShAccepts(K, tau, cs, os, y, v, u, h, q) ==
  LET gs == ShSets(os)
      n0 == TwInv(K, ShRest(K, os, gs[1], u))
      L(g) == LET xs == ShSeq(os, gs[g])
                  is == ShIn(os, gs[g])
              IN TwMul(K, KSum(K, Len(is), LAMBDA j : TwMul(K, KPw(K, y, j - 1), TwSub(K, cs[is[j]], PoEval(K, ShR(K, os, is[j], xs), u)))),
                       TwMul(K, n0, ShRest(K, os, gs[g], u)))
      side == TwAdd(K, TwSub(K, KSum(K, Len(gs), LAMBDA g : TwMul(K, KPw(K, v, g - 1), L(g))),
                              TwMul(K, KVan(K, ShSeq(os, gs[1]), u), h)), TwMul(K, u, q))
  IN ShConsistent(os) /\ TwMul(K, tau, q) = side
=============================================================================
