// Histories of Merkle commitments.
#include "vh/mmcsutil.h"
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h"
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/simple_binary_merkle_tree_storage.h"
using namespace vh;
template <typename F> RowMajorMatrix<F> RandM(size_t r, size_t c) { RowMajorMatrix<F> m(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(i, j) = RandE<F>(); return m; }
template <typename F> void AlterF(F& x) { if constexpr (kIsExt<F>) x[Rn(4)] += BB(1 + Rn(5)); else x += BB(1 + Rn(5)); }
template <typename F, typename Mmcs> void Claims(const Mmcs& mm, const Digest& root, const std::vector<Dimensions>& dims, size_t i, const std::vector<std::vector<F>>& vals, const std::vector<Digest>& path, size_t rows) {
  for (int k = 0; k < 4; ++k) {
    Digest r = root; size_t ii = i; auto v = vals; auto p = path; auto d = dims;
    switch (k == 0 ? 99 : Rn(12)) {
      case 0: r[Rn(kOut)] += BB::One(); break;
      case 1: ii = i ^ (size_t{1} << Rn(7)); break;
      case 2: ii = i + (size_t{1} << path.size()); break;
      case 3: case 4: { auto& w = v[Rn(v.size())]; if (!w.empty()) AlterF(w[Rn(w.size())]); break; }
      case 5: case 6: if (!p.empty()) p[Rn(p.size())][Rn(kOut)] += BB::One(); break;
      case 7: if (!p.empty()) { if (Rn(2)) p.pop_back(); else p.erase(p.begin()); } break;
      case 8: p.push_back(Rn(2) || p.empty() ? Digest{} : p.back()); break;
      case 9: if (v.size() > 1) { size_t a = Rn(v.size() - 1); if (Rn(2)) { v[a + 1].insert(v[a + 1].begin(), v[a].back()); v[a].pop_back(); } else std::swap(v[a], v[a + 1]); } break;
      case 10: { auto& w = v[Rn(v.size())]; if (Rn(2)) w.push_back(F::Zero()); else w.pop_back(); break; }
      case 11: if (p.size() > 1) std::swap(p[0], p[1]); else if (v.size() > 1) v.pop_back(); break;
    }
    bool ok = mm.VerifyOpeningProof(r, d, ii, v, p);
    Ev("Verify").i("i", ii).raw("root", VL(r)).raw("vals", RowsL(v)).raw("path", DigsL(p)).b("ok", ok);
  }
}
template <typename F, typename Mmcs> void Multi(const std::string& name, const Mmcs& mm, int n) {
  T().Shard(name); ParamsB();
  for (int c = 0; c < n; ++c) {
    size_t top = 1 + Rn(c % 6 == 0 ? 70 : 20), k = 1 + Rn(4);
    std::map<size_t, size_t> at;  // padded height -> height
    std::vector<RowMajorMatrix<F>> ms; std::vector<Dimensions> dims;
    for (size_t j = 0; j < k; ++j) {
      size_t h = (j == 0 || Rn(3) == 0) ? top : 1 + Rn(top); size_t pad = absl::bit_ceil(h);
      h = at.emplace(pad, h).first->second;
      size_t w = 1 + Rn(Rn(4) ? 3 : 19);
      ms.push_back(RandM<F>(h, w)); dims.push_back(Dimensions(Rn(4) ? w : w, h));
    }
    for (size_t j = k - 1; j > 0; --j) { size_t x = Rn(j + 1); std::swap(ms[j], ms[x]); std::swap(dims[j], dims[x]); }
    Digest root; TreeOf<F> tree; bool ok;
    auto copy = ms;
    std::string s = Seq(ms, [](const RowMajorMatrix<F>& m) { return MatL(m); });
    if (Rn(2)) ok = mm.CommitOwned(std::move(copy), &root, &tree);
    else { std::vector<Eigen::Map<const RowMajorMatrix<F>>> v; for (auto& m : ms) v.push_back(Eigen::Map<const RowMajorMatrix<F>>(m.data(), m.rows(), m.cols())); ok = mm.Commit(std::move(v), &root, &tree); }
    Ev("Commit").raw("ms", s).b("ok", ok).raw("root", VL(root));
    Ev("Tree").raw("ms", Seq(mm.GetMatrices(tree), [](const auto& m) { return MatL(m); })).raw("layers", Seq(tree.digest_layers(), [](const std::vector<Digest>& d) { return DigsL(d); }));
    size_t rows = 0; for (auto& m : ms) rows = std::max<size_t>(rows, m.rows());
    for (int q = 0; q < 4; ++q) {
      size_t i = Rn(8) ? Rn(rows) : Rn(2 * rows + 1);
      std::vector<std::vector<F>> vals; std::vector<Digest> path;
      bool o = mm.CreateOpeningProof(i, tree, &vals, &path);
      Ev("Open").i("i", i).b("ok", o).raw("vals", o ? RowsL(vals) : "[]").raw("path", o ? DigsL(path) : "[]");
      if (o) Claims<F>(mm, root, dims, i, vals, path, rows);
    }
  }
}
// a list of leaves
using Leaf = std::vector<BB>;
class BHash : public crypto::BinaryMerkleHasher<Leaf, Digest> {
 public:
  Digest ComputeLeafHash(const Leaf& leaf) const override { return h_.Hash(leaf); }
  Digest ComputeParentHash(const Digest& l, const Digest& r) const override { std::array<Digest, 2> a = {l, r}; return c_.Compress(a); }
  HashB h_; CompB c_;
};
std::string PathL(const crypto::BinaryMerkleProof<Digest>& p) { return Seq(p.paths, [](const crypto::BinaryMerklePath<Digest>& x) { return std::string("[") + (x.left ? "true" : "false") + "," + VL(x.hash) + "]"; }); }
void Binary(const std::string& name, int n) {
  T().Shard(name); ParamsB();
  constexpr size_t kMax = 64;
  BHash h;
  for (int c = 0; c < n; ++c) {
    crypto::SimpleBinaryMerkleTreeStorage<Digest> st;
    crypto::BinaryMerkleTree<Leaf, Digest, kMax> tree(&st, &h);
    tree.set_leaves_size_for_parallelization(size_t{1} << (1 + Rn(6)));
    for (int again = 1 + Rn(3); again > 0; --again) {
      size_t k = Rn(5) ? size_t{1} << Rn(7) : Rn(4) ? 1 + Rn(70) : 128;
      std::vector<Leaf> ls(k); for (auto& x : ls) { x.resize(Rn(12)); for (auto& y : x) y = RandE<BB>(); }
      if (Rn(4) == 0 && k > 2) ls[Rn(k)] = ls[Rn(k)];
      Digest root{}; bool ok = tree.Commit(ls, &root);
      Ev("BCommit").raw("ls", Seq(ls, [](const Leaf& x) { return VL(x); })).i("max", kMax).b("ok", ok).raw("root", VL(root));
      if (!ok) break;
      for (int q = 0; q < 4; ++q) {
        size_t i = Rn(8) ? Rn(k) : Rn(3 * k);
        crypto::BinaryMerkleProof<Digest> p; bool o = tree.CreateOpeningProof(i, &p);
        Ev("BOpen").i("i", i).b("ok", o).raw("path", o ? PathL(p) : "[]");
        if (!o) continue;
        for (int a = 0; a < 3; ++a) {
          Digest r = root, leaf = h.ComputeLeafHash(ls[i]); auto p2 = p;
          switch (a == 0 ? 99 : Rn(5)) {
            case 0: r[Rn(kOut)] += BB::One(); break;
            case 1: leaf[Rn(kOut)] += BB::One(); break;
            case 2: leaf = h.ComputeLeafHash(ls[Rn(k)]); break;
            case 3: if (!p2.paths.empty()) { auto& e = p2.paths[Rn(p2.paths.size())]; e.left = !e.left; } break;
            case 4: if (!p2.paths.empty()) p2.paths[Rn(p2.paths.size())].hash[Rn(kOut)] += BB::One(); break;
          }
          bool v = tree.VerifyOpeningProof(r, leaf, p2);
          Ev("BVerify").raw("root", VL(r)).raw("leaf", VL(leaf)).raw("path", PathL(p2)).b("ok", v);
        }
      }
    }
  }
}
int main(int argc, char** argv) { T().Init(argc, argv);
  BB::Init(); PB::Init(); BB4::Init(); PackedBabyBear4::Init();
  int m = T().thorough() ? 8 : 1;
  MmcsOf<BB> mm; MmcsOf<BB4> inner; crypto::ExtensionFieldMerkleTreeMMCS<BB4, MmcsOf<BB4>> em(MmcsOf<BB4>{});
  for (int k = 0; k < 4 * m; ++k) {
    std::string s = std::to_string(k);
    Multi<BB>("prime" + s, mm, 8);
    Multi<BB4>("ext" + s, em, 6);
    Binary("binary" + s, 8);
  }
}
