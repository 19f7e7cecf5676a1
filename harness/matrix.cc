// Histories of dense and sparse matrices.
#include "third_party/eigen3/Eigen/LU"
#include "third_party/eigen3/Eigen/SparseCore"
#include "vh/extutil.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/baby_bear/packed_baby_bear4.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/matrix/matrix_operations.h"
#include "tachyon/math/matrix/matrix_types.h"
#include "tachyon/math/matrix/matrix_utils.h"
#include "tachyon/math/matrix/prime_field_num_traits.h"
#include "tachyon/math/matrix/sparse/sparse_matrix.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "vh/f12289.h"
using namespace vh;
using namespace tachyon::math;
template <typename F> using CM = ColMajorMatrix<F>;
template <typename F> using RM = RowMajorMatrix<F>;
template <typename D> std::string MS(const Eigen::MatrixBase<D>& m) {
  std::string s = "[";
  for (Eigen::Index i = 0; i < m.rows(); ++i) { if (i) s += ","; s += "["; for (Eigen::Index j = 0; j < m.cols(); ++j) { if (j) s += ","; s += EL(typename D::Scalar(m(i, j))); } s += "]"; }
  return s + "]";
}
template <typename F>
struct M {
  static std::vector<F> RandV(size_t n) { std::vector<F> v; int mode = Rn(3); for (size_t i = 0; i < n; ++i) v.push_back(mode == 0 && Rn(3) ? F::Zero() : RandE<F>()); return v; }
  template <typename X> static X RandM(size_t r, size_t c) { X m(r, c); bool sp = Rn(2); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(i, j) = sp && Rn(3) ? F::Zero() : RandE<F>(); return m; }
  static std::string V(const Vector<F>& v) { std::vector<F> x; for (Eigen::Index i = 0; i < v.size(); ++i) x.push_back(v[i]); return ELs(x); }
  static std::string V(const RowVector<F>& v) { std::vector<F> x; for (Eigen::Index i = 0; i < v.size(); ++i) x.push_back(v[i]); return ELs(x); }
  template <typename X> void Dense() {
    size_t r = Rn(5) + 1, c = Rn(5) + 1, k = Rn(5) + 1;
    X m = RandM<X>(r, c);
    switch (Rn(7)) {
      case 0: { Vector<F> v = RandM<Vector<F>>(c, 1), o; switch (Rn(4)) { case 0: o = MulMatVec(m, v); break; case 1: o = MulMatVecSerial(m, v); break; case 2: o = m * v; break; case 3: { Matrix<F> two(c, 2); two.col(0) = v; two.col(1) = v; o = Rn(2) ? MulMatVec(m, two.col(1)) : MulMatVecSerial(m, two.col(1)); break; } }
        Ev e("MatVec"); e.raw("m", MS(m)).raw("x", V(v)).raw("v", V(o)); break; }
      case 1: { RowVector<F> v = RandM<RowVector<F>>(1, c); Vector<F> o; const RowVector<F>& b = v; o = Rn(2) ? MulMatVec(m, b) : MulMatVecSerial(m, b); Ev e("MatVec"); e.raw("m", MS(m)).raw("x", V(v)).raw("v", V(o)); break; }
      case 2: { X n = RandM<X>(c, k); Matrix<F> o; switch (Rn(3)) { case 0: o = MulMatMat(m, n); break; case 1: o = MulMatMatSerial(m, n); break; case 2: o = m * n; break; } Ev e("MatMat"); e.raw("m", MS(m)).raw("n", MS(n)).raw("v", MS(o)); break; }
      case 3: { Vector<F> v = RandM<Vector<F>>(c, 1); Matrix<F> o; if (Rn(2)) { o = MakeCirculant(v); Ev e("Circ"); e.raw("x", V(v)).raw("v", MS(o)); } else { RowVector<F> w = v.transpose(); o = MakeCirculant(w); Ev e("Circ"); e.raw("x", V(v)).raw("v", MS(o)); } break; }
      case 4: { Eigen::Index n = Rn(r) + 1; auto s = SplitMat(n, m); Ev e("Split"); e.i("n", n).raw("m", MS(m)).raw("v", Seq(s, [](const auto& b) { return MS(b); })); break; }
      case 5: { Inv(); break; }
      case 6: Copy(m); break;
    }
  }
  // Eigen as installed here cannot divide in these fields, so no inverses.
  template <typename X> static void InvOut(const X& m) { Ev e("Det"); e.raw("m", MS(m)).raw("v", EL(F(m.determinant()))); }
  void Inv() {
    switch (Rn(3)) {
      case 0: InvOut(Matrix<F, 2, 2>(RandM<Matrix<F, 2, 2>>(2, 2))); break;
      case 1: InvOut(Matrix<F, 3, 3>(RandM<Matrix<F, 3, 3>>(3, 3))); break;
      case 2: InvOut(Matrix<F, 4, 4>(RandM<Matrix<F, 4, 4>>(4, 4))); break;
    }
  }
  template <typename X> static void CopyTo(const std::string& ms, const tachyon::base::Buffer& b0, const tachyon::base::Uint8VectorBuffer& b, size_t r, size_t c, X& o, int fr, int fc) {
    tachyon::base::ReadOnlyBuffer rb(b.buffer(), b.buffer_offset());
    bool ok = rb.Read(&o);
    Ev e("Copy"); e.raw("m", ms).i("r", r).i("c", c).i("fr", fr).i("fc", fc).b("ok", ok).i("left", b.buffer_offset() - rb.buffer_offset()).raw("v", ok ? MS(o) : "[]");
  }
  template <typename X> void Copy(const X& m) {
    tachyon::base::Uint8VectorBuffer b;
    size_t est = tachyon::base::EstimateSize(m);
    if (!b.Grow(est) || !b.Write(m) || !b.Done()) { Ev e("CopyWrite"); e.i("est", est); return; }
    std::string ms = MS(m);
    switch (Rn(4)) {
      case 0: { X o; CopyTo(ms, b, b, m.rows(), m.cols(), o, 0, 0); break; }
      case 1: { X o = RandM<X>(2, 7); CopyTo(ms, b, b, m.rows(), m.cols(), o, 0, 0); break; }
      case 2: { if constexpr (X::IsRowMajor) { RowMajorMatrix<F, 3, Eigen::Dynamic> o; CopyTo(ms, b, b, m.rows(), m.cols(), o, 3, 0); } else { ColMajorMatrix<F, 3, 3> o; CopyTo(ms, b, b, m.rows(), m.cols(), o, 3, 3); } break; }
      case 3: { if constexpr (X::IsRowMajor) { RowMajorMatrix<F, Eigen::Dynamic, 2> o; CopyTo(ms, b, b, m.rows(), m.cols(), o, 0, 2); } else { ColMajorMatrix<F, Eigen::Dynamic, 4> o; CopyTo(ms, b, b, m.rows(), m.cols(), o, 0, 4); } break; }
    }
  }
  void Rev() {
    size_t r = size_t{1} << Rn(5), c = Rn(4) + 1; RM<F> m = RandM<RM<F>>(r, c); if (Rn(10) == 0) m.resize(0, 3);
    std::string s = MS(m); ReverseMatrixIndexBits(m); Ev e("Rev"); e.raw("m", s).raw("v", MS(m));
  }
  static std::string I(const std::vector<size_t>& v) { return Seq(v, [](size_t x) { return std::to_string(x); }); }
  void EllEv(const std::string& ms, const ELLSparseMatrix<F>& x, const char* how) {
    Ev e("Ell"); e.raw("m", ms).s("how", how).raw("data", Seq(x.GetData(), [](const auto& r) { return ELs(r); })).raw("idx", Seq(x.GetColumnIndices(), I)).i("rows", x.MaxRows()).i("cols", x.MaxCols()).i("nz", x.NonZeros()).b("sorted", x.IsSorted());
  }
  void CsrEv(const std::string& ms, const CSRSparseMatrix<F>& x, const char* how) {
    Ev e("Csr"); e.raw("m", ms).s("how", how).raw("data", ELs(x.GetData())).raw("idx", I(x.GetColumnIndices())).raw("ptr", I(x.row_ptrs())).i("rows", x.MaxRows()).i("cols", x.MaxCols()).i("nz", x.NonZeros()).b("sorted", x.IsSorted());
  }
  void Sparse() {
    size_t r = Rn(5) + 1, c = Rn(5) + 1;
    CM<F> m = RandM<CM<F>>(r, c); if (Rn(8) == 0) m.setConstant(F::Zero()); if (Rn(4) == 0) m.row(Rn(r)).setConstant(F::Zero()); if (Rn(4) == 0) m.col(c - 1).setConstant(F::Zero());
    std::string ms = MS(m);
    std::vector<Eigen::Triplet<F>> ts; for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) if (!m(i, j).IsZero()) ts.push_back({int(i), int(j), m(i, j)});
    std::shuffle(ts.begin(), ts.end(), T().rng);
    Eigen::SparseMatrix<F> ec(r, c); ec.setFromTriplets(ts.begin(), ts.end());
    Eigen::SparseMatrix<F, Eigen::RowMajor> er(r, c); er.setFromTriplets(ts.begin(), ts.end());
    ELLSparseMatrix<F> ell; CSRSparseMatrix<F> csr;
    switch (Rn(4)) {
      case 0: ell = ELLSparseMatrix<F>::FromEigenSparseMatrix(ec); csr = CSRSparseMatrix<F>::FromELL(ell); EllEv(ms, ell, "col"); break;
      case 1: ell = ELLSparseMatrix<F>::FromEigenSparseMatrix(er); csr = ell.ToCSR(); EllEv(ms, ell, "row"); break;
      case 2: csr = Rn(2) ? CSRSparseMatrix<F>::FromEigenSparseMatrix(ec) : CSRSparseMatrix<F>::FromEigenSparseMatrix(er); ell = Rn(2) ? csr.ToELL() : ELLSparseMatrix<F>::FromCSR(csr); CsrEv(ms, csr, "eigen"); break;
      case 3: { // rows in any order inside, then sorted
        std::vector<typename ELLSparseMatrix<F>::Elements> l(r); for (auto& t : ts) l[t.row()].push_back({size_t(t.col()), t.value()});
        typename CSRSparseMatrix<F>::Elements ce; std::vector<size_t> ptr{0}; bool sorted = true;
        for (auto& row : l) { for (size_t i = 0; i + 1 < row.size(); ++i) if (row[i + 1].index < row[i].index) sorted = false; for (auto& x : row) ce.push_back({x.index, x.value}); ptr.push_back(ce.size()); }
        ell = ELLSparseMatrix<F>(l); csr = CSRSparseMatrix<F>(ce, ptr);
        { Ev e("Sorted"); e.b("is", sorted).b("ell", ell.IsSorted()).b("csr", csr.IsSorted()); }
        ell.Sort(); csr.Sort(); break; }
    }
    EllEv(ms, ell, "end"); CsrEv(ms, csr, "end");
    { CM<F> d(ell.ToEigenSparseMatrix()), d2(csr.ToEigenSparseMatrix()); Ev e("Dense"); e.raw("m", ms).raw("v", MS(d)).raw("w", MS(d2)).i("r", d.rows()).i("c", d.cols()); }
    CM<F> m2 = m; bool diff = Rn(2); if (diff) { F& x = m2(Rn(r), Rn(c)); x = x.IsZero() ? F::One() : Rn(2) ? F::Zero() : x + x; }
    Eigen::SparseMatrix<F> e2(r, c); std::vector<Eigen::Triplet<F>> t2; for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) if (!m2(i, j).IsZero()) t2.push_back({int(i), int(j), m2(i, j)}); e2.setFromTriplets(t2.begin(), t2.end());
    auto ell2 = ELLSparseMatrix<F>::FromEigenSparseMatrix(e2); auto csr2 = CSRSparseMatrix<F>::FromEigenSparseMatrix(e2);
    Ev e("Same"); e.raw("m", ms).raw("n", MS(m2)).b("ell", ell == ell2).b("csr", csr == csr2).b("nell", ell != ell2).b("ncsr", csr != csr2);
  }
  void Step() { switch (Rn(8)) { case 0: case 1: Dense<CM<F>>(); break; case 2: case 3: Dense<RM<F>>(); break; case 4: Rev(); break; default: Sparse(); } }
  static void Run(const char* name, int n) {
    T().Shard(name);
    { Ev e("Field"); e.raw("p", ModL<F>()).raw("ext", "[" + ExtLevels<F>() + "]"); }
    M k; for (int i = 0; i < n; ++i) k.Step();
  }
};
template <typename PF> std::string PL(const std::vector<PF>& v) { return Seq(v, [](const PF& p) { std::string s = "["; for (size_t i = 0; i < PF::N; ++i) { if (i) s += ","; s += EL(p[i]); } return s + "]"; }); }
void Packed(const char* name, int n) {
  T().Shard(name);
  using F = BabyBear; using E = BabyBear4; using PF = PackedBabyBear;
  { Ev e("Field"); e.raw("p", ModL<E>()).raw("ext", "[" + ExtLevels<E>() + "]"); }
  for (int i = 0; i < n; ++i) {
    size_t r = Rn(12) + 1, c = Rn(3) ? Rn(20) + 1 : Rn(4) * 8 + 8;
    if (Rn(6) == 0) r = 17 + Rn(20);
    RM<F> m = M<F>::RandM<RM<F>>(r, c);
    switch (Rn(4)) {
      case 0: { size_t q = Rn(r); Ev e("PackH"); e.i("n", PF::N).raw("x", MS(m.row(q))).raw("v", PL(PackRowHorizontallyPadded(m.row(q)))); break; }
      case 1: { size_t q = Rn(r); Ev e("PackV"); e.i("n", PF::N).i("r", q).raw("m", MS(m)).raw("v", PL(PackRowVertically<PF>(m, q))); break; }
      case 2: { size_t k = Rn(4) + 1; RM<E> x = M<E>::RandM<RM<E>>(r, k); size_t q = Rn(r); Ev e("PackVE"); e.i("n", PF::N).i("r", q).raw("m", MS(x)).raw("v", PL(PackRowVertically<PF>(x, q))); break; }
      case 3: { E b = RandE<E>(); auto v = DotExtPowers<E>(m, b); Ev e("Dot"); e.raw("m", MS(m)).raw("b", EL(b)).raw("v", ELs(v)); break; }
    }
  }
}
int main(int argc, char** argv) {
  T().Init(argc, argv);
  int k = T().thorough() ? 8 : 1;
  GF7::Init(); bn254::Fr::Init(); vhf::F12289::Init(); BabyBear4::Init(); PackedBabyBear::Init(); PackedBabyBear4::Init();
  M<GF7>::Run("gf7", 500 * k); M<vhf::F12289>::Run("f12289", 400 * k); M<bn254::Fr>::Run("bn254", 120 * k); M<BabyBear>::Run("babybear", 200 * k);
  Packed("packed", 120 * k);
}
