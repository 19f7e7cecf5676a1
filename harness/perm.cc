// Histories of copy constraints: cycles, refused copies, permutation
// polynomials and the chunks of columns handed to the permutation argument.
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <exception>
#include <functional>
#include <vector>

#include "vh/f12289.h"
#include "vh/fieldutil.h"
#include "vh/tr.h"
#include "vh/vgoldi.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/plonk/permutation/permutation_assembly.h"
#include "tachyon/zk/plonk/permutation/permutation_table_store.h"
#include "tachyon/zk/plonk/permutation/permutation_utils.h"
using namespace vh;
namespace M = tachyon::math;
using namespace tachyon::zk::plonk;
using tachyon::zk::RowIndex;
static bool Dies(const std::function<void()>& f) {
  T().Flush();
  pid_t pid = fork();
  if (pid == 0) {
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGTERM, SIGTRAP}) signal(s, SIG_DFL);
    std::set_terminate(nullptr);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 2);
    f();
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return WIFSIGNALED(st);
}
static std::string C(const Label& l) { return "[" + std::to_string(l.col + 1) + "," + std::to_string(l.row + 1) + "]"; }
static AnyColumnKey Key(int t, size_t i) {
  if (t == 0) return FixedColumnKey(i);
  if (t == 1) return AdviceColumnKey(i);
  if (t == 2) return AdviceColumnKey(i, kSecondPhase);
  return InstanceColumnKey(i);
}
template <typename F>
static void Run(int steps, int histories) {
  constexpr size_t kMax = 63;
  using D = M::UnivariateEvaluationDomain<F, kMax>;
  using Evals = M::UnivariateEvaluations<F, kMax>;
  for (int h = 0; h < histories; ++h) {
    size_t cols = 1 + Rn(5), rows = size_t{1} << Rn(5);
    std::vector<AnyColumnKey> keys;
    while (keys.size() < cols) {
      AnyColumnKey k = Key(Rn(4), Rn(4));
      bool dup = false;
      for (auto& x : keys) dup |= x == k;
      if (!dup) keys.push_back(k);
    }
    // The argument keeps one entry per column however often it is added.
    PermutationArgument arg;
    for (size_t i = 0; i < cols; ++i) { arg.AddColumn(keys[i]); if (Rn(2)) arg.AddColumn(keys[Rn(i + 1)]); }
    CycleStore store(cols, rows);
    PermutationAssembly as = Rn(2) ? PermutationAssembly(arg, rows) : PermutationAssembly(keys, rows);
    Ev("Begin").raw("p", L(Modulus<F>())).i("cols", cols).i("rows", rows).i("argcols", arg.columns().size()).i("deg", arg.RequiredDegree());
    std::vector<Label> used;
    auto cell = [&] {
      if (!used.empty() && Rn(2)) return used[Rn(used.size())];
      return Label(Rn(cols), Rn(3) ? Rn(rows) : (Rn(2) ? rows - 1 : 0));
    };
    for (int s = 0; s < steps; ++s) {
      T().Doing("perm");
      int k = Rn(12);
      if (k < 6) {
        Label a = cell(), b = Rn(12) == 0 ? a : cell();
        bool merged = store.MergeCycle(a, b);
        as.Copy(keys[a.col], a.row, keys[b.col], b.row);
        used.push_back(a); used.push_back(b);
        Ev("Copy").raw("a", C(a)).raw("b", C(b)).b("merged", merged).b("same", store.mapping() == as.cycle_store().mapping());
      } else if (k < 9) {
        Label a = cell(), b = cell();
        const CycleStore& st = Rn(2) ? store : as.cycle_store();
        std::vector<Label> walk;
        Label l = a;
        for (size_t i = 0; i <= cols * rows; ++i) { walk.push_back(l); l = st.GetNextLabel(l); if (l == a) break; }
        Ev("Ask").raw("a", C(a)).raw("b", C(b)).raw("base", C(st.GetCycleBase(a))).i("size", st.GetCycleSize(a)).b("same", st.CheckSameCycle(a, b)).raw("walk", Seq(walk, C)).b("back", l == a).raw("all", Seq(st.GetAllLabels(a), C));
      } else if (k == 9) {
        // rows and columns that do not exist
        Label a = cell();
        RowIndex bad = Rn(2) ? rows : rows + 1 + Rn(3);
        AnyColumnKey other = keys[0];
        bool known = true;
        while (known) { other = Key(Rn(4), Rn(6)); known = false; for (auto& x : keys) known |= x == other; }
        int w = Rn(4);
        bool died = Dies([&] {
          if (w == 0) as.Copy(keys[a.col], bad, keys[a.col], a.row);
          else if (w == 1) as.Copy(keys[a.col], a.row, keys[a.col], bad);
          else if (w == 2) as.Copy(other, a.row, keys[a.col], a.row);
          else as.Copy(keys[a.col], a.row, other, a.row);
        });
        Ev("Bad").i("w", w).b("refused", died);
      } else if (k == 10) {
        auto d = M::UnivariateEvaluationDomainFactory<F, kMax>::Create(rows);
        auto un = UnpermutedTable<Evals>::Construct(cols, rows, d.get());
        auto ps = as.GeneratePermutations<Evals>(d.get());
        std::vector<std::vector<F>> u, v;
        for (size_t i = 0; i < un.table().size(); ++i) u.push_back(un.table()[i].evaluations());
        for (auto& p : ps) v.push_back(p.evaluations());
        Ev("Poly").raw("w", FL(d->group_gen())).raw("un", Seq(u, [](const std::vector<F>& x) { return FLs(x); })).raw("ps", Seq(v, [](const std::vector<F>& x) { return FLs(x); }));
        size_t chunk = 1 + Rn(4), nch = (cols + chunk - 1) / chunk;
        // every column marked so that the chunks show which columns they hold
        std::vector<Evals> f, a, n;
        for (int t = 0; t < 6; ++t) { f.push_back(Evals(std::vector<F>{F(100 + t)})); a.push_back(Evals(std::vector<F>{F(200 + t)})); n.push_back(Evals(std::vector<F>{F(300 + t)})); }
        RefTable<Evals> tab(f, a, n);
        PermutedTable<Evals> pt(&ps);
        PermutationTableStore<Evals> ts(keys, tab, pt, un, chunk);
        std::vector<int> mark, sizes;
        for (auto& x : keys) mark.push_back((x.type() == ColumnType::kFixed ? 100 : x.type() == ColumnType::kAdvice ? 200 : 300) + x.index());
        std::string got = "[", gp = "[", gu = "[";
        for (size_t c = 0; c < nch; ++c) {
          sizes.push_back(ts.GetChunkSize(c));
          auto val = ts.GetValueColumns(c), p2 = ts.GetPermutedColumns(c), u2 = ts.GetUnpermutedColumns(c);
          std::vector<int> m;
          for (auto& r : val) m.push_back(static_cast<int>(static_cast<unsigned>((*r)[0].ToBigInt()[0])));
          got += (c ? "," : "") + Ints(m);
          auto one = [](const tachyon::base::Ref<const Evals>& r) { return FLs((*r).evaluations()); };
          gp += (c ? "," : "") + Seq(p2, one); gu += (c ? "," : "") + Seq(u2, one);
        }
        Ev("Chunks").i("chunk", chunk).ints("mark", mark).ints("sizes", sizes).raw("got", got + "]").raw("gp", gp + "]").raw("gu", gu + "]").raw("ps", Seq(v, [](const std::vector<F>& x) { return FLs(x); })).raw("un", Seq(u, [](const std::vector<F>& x) { return FLs(x); }));
        Label q = cell();
        Ev("At").raw("a", C(q)).raw("p", FL(pt[q])).raw("u", FL(un[q])).raw("ps", FL(ps[q.col][q.row])).raw("us", FL(un.table()[q.col][q.row]));
      } else {
        size_t nc = Rn(4), g = Rn(4), q = Rn(5);
        Ev("Count").i("nc", nc).i("g", g).i("q", q).i("evals", GetNumPermutationEvals(nc, g)).i("opens", GetNumPermutationOpenings(nc, g, q)).i("deg", 3 + q).i("len", ComputePermutationChunkLength(3 + q));
      }
    }
  }
}
int main(int argc, char** argv) {
  T().Init(argc, argv);
  bool th = T().thorough();
  M::vhf::F12289::Init(); M::vhf::VGoldi::Init(); M::bn254::Fr::Init();
  T().Shard("goldi"); Run<M::vhf::VGoldi>(50, th ? 60 : 12);
  T().Shard("goldi2"); Run<M::vhf::VGoldi>(120, th ? 40 : 8);
  T().Shard("fr"); Run<M::bn254::Fr>(40, th ? 40 : 8);
}
