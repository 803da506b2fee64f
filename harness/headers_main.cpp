// H01: all headers together: units which include them in different orders,
// made by different compilers and settings, work on the same objects.
#include "headers.h"
#include <algorithm>
#include <dirent.h>
#include <unistd.h>
namespace hd { const char Cells[64] = {0}; }
using namespace hd;
static std::vector<Unit> &sorted() {
  static bool Once = (std::sort(units().begin(), units().end(), [](const Unit &A, const Unit &B) { return std::string(A.First) < B.First; }), true); (void)Once;
  return units();
}
static int threads() {
  int N = 0;
  if (DIR *D = opendir("/proc/self/task")) { while (auto *E = readdir(D)) if (E->d_name[0] != '.') ++N; closedir(D); }
  return N;
}
// Handlers of connections end in threads of their own.
struct Ends {
  int N = threads();
  ~Ends() { double Until = vp::now() + 20; while (threads() > N && vp::now() < Until) usleep(100); }
};
VP_FAMILY("H01.entities", 60, 60) {
  auto &U = sorted(); VP_CHECK(c, U.size() >= 3, "harness", "units");
  auto &X = U[c.Index % U.size()];
  auto E = X.Entities(), Of = U[0].Entities(), Again = X.Entities();
  c.input(X.First);
  VP_CHECK(c, E == Again, "changes", X.First);
  std::map<std::string, std::string> Ids;
  for (auto &P : E) {
    VP_CHECK(c, Of.count(P.first) && Of[P.first] == P.second, "differs", P.first + ": " + P.second + " in " + X.First + ", " + Of[P.first] + " in " + U[0].First);
    if (P.first.compare(0, 3, "id ") == 0) { auto I = Ids.emplace(P.second, P.first); VP_CHECK(c, I.second, "not-distinct", P.first + " and " + I.first->second); c.count("attributes"); }
    c.count("entities");
  }
  c.member("units", c.Index % U.size()); c.distinct(X.First); c.sample(std::string(X.First) + vp::fmt(": %zu entities", E.size()));
}
VP_FAMILY("H01.objects", 60000, 600000) {
  // An object on which many units work in turn is what it is if one unit does all the work.
  auto &U = sorted(); auto &R = c.R;
  size_t K = R.below(U[0].Kinds.size()), Home = R.below(U.size()), First = R.below(U.size());
  uint64_t Seed = R.next(); vp::Rng A(Seed), B(Seed);
  std::string In = std::string(U[0].Kinds[K].Name) + " alone in " + U[Home].First + ", made in " + U[First].First; c.input(In);
  std::unique_ptr<Ends> End; if (std::string(U[0].Kinds[K].Name) == "connection") End.reset(new Ends);
  struct Hold { void *P; void (*F)(void *); ~Hold() { if (P) F(P); } };
  void *PX = U[First].Kinds[K].Create(A); Hold X{PX, U[R.below(U.size())].Kinds[K].Destroy};
  Hold Y{U[Home].Kinds[K].Create(B), U[Home].Kinds[K].Destroy};
  for (size_t N = 1 + R.below(8); N-- > 0;) {
    size_t I = R.below(U.size()), J = R.below(U.size());
    In += std::string(", changed in ") + U[I].First + ", read in " + U[J].First; c.input(In);
    U[I].Kinds[K].Change(X.P, A); U[Home].Kinds[K].Change(Y.P, B);
    std::string SX = U[J].Kinds[K].Show(X.P), SY = U[Home].Kinds[K].Show(Y.P);
    VP_CHECK(c, SX == SY, "differs", SX + " instead of " + SY);
    c.count("handed_over"); c.member("pairs_of_units", I * 1000 + J); c.distinct(vp::fmt("%zu ", K) + SX); c.sample(In + ": " + SX);
  }
  c.member("kinds", K);
}
VP_MAIN
