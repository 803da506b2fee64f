// F01: operations of containers which run out of memory.
#define OOM_MAIN
#include "oom.h"
#include "vp.h"
#include <bcl/Diagnostic.h>
#include <bcl/Equation.h>
#include <bcl/marray.h>
#include <bcl/transparent_queue.h>
#include <deque>

namespace {
int Cells[32];
typedef bcl::TransparentQueue<int> TQ;
typedef std::deque<int *> Queue;
void same(vp::Case &c, const TQ &Q, const Queue &M, const char *What) {
  VP_CHECK(c, Q.size() == M.size() && Q.empty() == M.empty(), What, vp::fmt("%zu elements instead of %zu", Q.size(), M.size()));
  if (!M.empty()) VP_CHECK(c, Q.front() == M.front() && Q.back() == M.back(), What, "the first or the last element");
}
}

// A failed operation has no effect: nothing is lost, nothing is added, whatever
// follows.
VP_FAMILY("F01.queue", 8000, 150000) {
  auto &R = c.R;
  TQ Q[2]; Queue M[2];
  std::string In;
  size_t N = 3 + R.size(40);
  while (N--) {
    int A = (int)R.below(2), B = 1 - A; long Fail = R.chance(1, 2) ? (long)R.below(4) : 1000; bool All = R.chance(1, 2);
    int *V = Cells + R.below(32); const char *What = "";
    oom::Result F{false, false};
    switch (R.below(8)) {
    case 0: case 1: case 2:
      In += vp::fmt("push%d(%d)/%ld ", A, (int)(V - Cells), Fail); c.input(In);
      F = oom::run(Fail, All, [&] { if (V - Cells < 16) Q[A].push(V); else Q[A].emplace(V); });
      if (!F.Thrown) M[A].push_back(V);
      What = "push"; c.count(F.Failed && F.Thrown ? "failed_pushes" : "pushes"); break;
    case 3: {
      In += vp::fmt("pop%d ", A); c.input(In);
      int *P = Q[A].pop(), *E = M[A].empty() ? nullptr : M[A].front();
      if (!M[A].empty()) M[A].pop_front();
      VP_CHECK(c, P == E, "pop", "another element"); break;
    }
    case 4: {
      In += vp::fmt("copy%d/%ld ", A, Fail); c.input(In);
      F = oom::run(Fail, All, [&] { TQ C(Q[A]); oom::Armed = false; same(c, C, M[A], "copy"); });
      if (F.Thrown) c.count("failed_copies");
      What = "copy"; break;
    }
    case 5:
      In += vp::fmt("assign%d/%ld ", A, Fail); c.input(In);
      F = oom::run(Fail, All, [&] { Q[B] = Q[A]; });
      if (!F.Thrown) M[B] = M[A]; else c.count("failed_assignments");
      What = "assignment"; break;
    case 6: {
      In += vp::fmt("compare/%ld ", Fail); c.input(In);
      bool Less = false, Eq = false;
      F = oom::run(Fail, All, [&] { Less = Q[A] < Q[B]; Eq = Q[A] == Q[B]; });
      if (!F.Thrown) VP_CHECK(c, Less == (M[A] < M[B]) && Eq == (M[A] == M[B]), "compare", "");
      What = "comparison"; break;
    }
    default: {
      In += vp::fmt("move%d/%ld ", A, Fail); c.input(In);
      F = oom::run(Fail, All, [&] { Q[A].swap(Q[B]); });
      VP_CHECK(c, !F.Thrown, "swap", "an exchange fails"); M[A].swap(M[B]); What = "swap";
    }
    }
    for (int I = 0; I < 2; ++I) same(c, Q[I], M[I], What);
  }
  for (int I = 0; I < 2; ++I) { while (!M[I].empty()) { VP_CHECK(c, Q[I].pop() == M[I].front(), "drain", "another element"); M[I].pop_front(); } VP_CHECK(c, Q[I].empty() && !Q[I].pop(), "drain", "something is left"); }
  c.distinct(In); c.sample(In);
}

VP_FAMILY("F01.diagnostic", 6000, 100000) {
  auto &R = c.R;
  std::string Kind = "kind" + std::string(R.size(60), 'k'), In;
  for (long N = 0;; ++N) { // constructor
    bool Ok = false;
    auto F = oom::run(N, true, [&] { bcl::Diagnostic D(Kind.c_str()); oom::Armed = false; Ok = Kind == D.getKind(); });
    VP_CHECK(c, F.Thrown || Ok, "constructor", ""); if (!F.Failed) break;
    c.count("failed_constructors");
  }
  bcl::Diagnostic D(Kind.c_str()); std::vector<std::string> M; size_t Internal = 0;
  size_t N = 2 + R.size(30);
  while (N--) {
    long Fail = R.chance(1, 2) ? (long)R.below(3) : 1000;
    std::string S(R.size(200), (char)('a' + R.below(26))); size_t Code = R.below(1000), Pos = R.below(100000);
    oom::Result F{false, false};
    if (R.chance(1, 12)) { In += "clear "; c.input(In); F = oom::run(0, true, [&] { D.clear(); }); M.clear(); Internal = 0; VP_CHECK(c, !F.Thrown, "clear", "fails"); }
    else {
      In += vp::fmt("insert%zu/%ld ", S.size(), Fail); c.input(In);
      bool Ok = false;
      F = oom::run(Fail, R.chance(1, 2), [&] { Ok = D.insert(Code, "%s", Pos, S.c_str()); });
      // An insertion fails by an exception, or it is counted as an internal error.
      if (Ok) M.push_back(vp::fmt("%s C%zu(%zu): ", Kind.c_str(), Code, Pos) + S);
      else { VP_CHECK(c, F.Failed, "insert", "fails without a reason"); c.count("failed_insertions"); if (!F.Thrown) ++Internal; }
    }
    VP_CHECK(c, D.size() == M.size() && D.empty() == M.empty() && D.internal_size() == Internal, "size", vp::fmt("%zu messages and %zu internal errors instead of %zu and %zu", D.size(), D.internal_size(), M.size(), Internal));
    size_t I = 0; for (auto *S2 : D) { VP_CHECK(c, I < M.size() && M[I] == S2, "message", S2); ++I; }
    VP_CHECK(c, I == M.size() && Kind == D.getKind(), "messages", "");
  }
  c.distinct(In + Kind); c.sample(In);
}

namespace {
struct Info {
  template<class T> T get(const std::string &) const { return T(1); }
  std::string parameterColumn() { return "t" + std::to_string(Next++); }
  std::string parameterColumn(const std::string &X) { return "t-" + X; }
  bool isParameter(const std::string &X) const { return X[0] == 't'; }
  std::string name(const std::string &X) const { return X; }
  int Next = 0;
};
}
VP_FAMILY("F01.system", 4000, 80000) {
  auto &R = c.R;
  typedef milp::AMonom<std::string, long long> Mon;
  typedef milp::BinomialSystem<std::string, long long, 0, 0, 0> S;
  S X; std::vector<std::array<long long, 3>> M; std::string In;
  // Names are long: they are allocated, too.
  auto name = [](size_t I) { return "a variable with a long name, number " + std::to_string(I); };
  std::vector<long long> Hidden; for (int I = 0; I < 40; ++I) Hidden.push_back(R.range(-20, 20));
  size_t N = 1 + R.below(20);
  for (size_t I = 0; I < N; ++I) {
    long Fail = R.chance(1, 2) ? (long)R.below(9) : 1000;
    long long A = R.range(1, 9), B = R.range(1, 9); while (std::__gcd(A, B) != 1) B = R.range(1, 9);
    long long C = A * Hidden[2 * I] + B * Hidden[2 * I + 1];
    In += vp::fmt("%lld %lld %lld/%ld ", A, B, C, Fail); c.input(In);
    Mon L(name(2 * I), A), Rt(name(2 * I + 1), B);
    auto F = oom::run(Fail, R.chance(1, 2), [&] { X.push_back(L, Rt, C); });
    if (!F.Thrown) M.push_back({A, B, C}); else c.count("failed_equations");
    size_t K = 0; for (auto &E : X) { VP_CHECK(c, K < M.size() && E.LHS.Value == M[K][0] && E.RHS.Value == M[K][1] && E.Constant == M[K][2], "equations", vp::fmt("equation %zu", K)); ++K; }
    VP_CHECK(c, K == M.size() && X.size() == M.size(), "size", vp::fmt("%zu equations, %zu are counted instead of %zu", K, X.size(), M.size()));
  }
  Info I; X.instantiate(I);
  VP_CHECK(c, X.instantiated_size() == M.size(), "instantiated", "");
  long Fail = R.chance(1, 2) ? (long)R.below(60) : 100000; size_t Solved = 0;
  auto F = oom::run(Fail, R.chance(1, 2), [&] { Solved = X.solve(I); });
  if (F.Thrown) c.count("failed_solutions");
  else { VP_CHECK(c, Solved == M.size() && X.getSolution().size() == 2 * M.size(), "solution", ""); c.count("solved"); }
  c.distinct(In); c.sample(In);
}

VP_FAMILY("F01.array", 4000, 60000) {
  auto &R = c.R;
  struct Elem { std::string S = "an element which is allocated itself"; };
  std::array<std::size_t, 2> D{1 + R.below(5), 1 + R.below(5)};
  std::string In = vp::fmt("%zux%zu", D[0], D[1]); c.input(In);
  for (long N = 0;; ++N) {
    auto F = oom::run(N, R.chance(1, 2), [&] {
      bcl::marray<Elem, 2> A(D), B(std::array<std::size_t, 2>{1, 1});
      B = std::move(A);
      bcl::marray<Elem, 2> C(std::move(B));
      oom::Armed = false;
      VP_CHECK(c, C[D[0] - 1][D[1] - 1].S.size() == 36, "element", "");
    });
    if (!F.Failed) break;
    VP_CHECK(c, F.Thrown, "array", "a failure is not reported"); c.count("failed_arrays");
  }
  c.distinct(In); c.sample(In);
}
VP_MAIN
