// Declarations of traits for T01..T03 and what they mean, read off the
// declarations independently of the library.
#include "vp.h"
#include <bcl/trait.h>
#include <bcl/cell.h>
#include <list>
#include <sstream>
#include <unordered_map>

namespace {
typedef bcl::TraitKey Key;
const int MaxTrait = 64;

// Something that may describe a trait: knows what it was made for and whether
// it is still alive.
struct Description {
  static std::set<const Description *> &live() { static VP_TLS std::set<const Description *> S; return S; }
  static long &destroyed() { static VP_TLS long D; return D; }
  int Of = -1; long Serial = 0; std::unique_ptr<int> Heap{new int(0)};
  Description() { live().insert(this); }
  Description(const Description &) = delete;
  ~Description() { live().erase(this); ++destroyed(); }
};
template<int I> struct Tr : Description { static constexpr int Id = I; static std::string name() { return "trait" + std::to_string(I); } };
// Traits described by something of another type.
template<int I> struct Other : Description { char Pad[16 + I]; };
template<int I> struct Num { int Of; long Serial; };

template<int... I> using U = bcl::TraitUnion<Tr<I>...>;
template<class... A> using Alt = bcl::TraitAlternative<A...>;

typedef std::vector<std::vector<int>> Group; // alternatives, each a set of compatible traits
template<class T> struct Refl { static Group get() { return {{T::Id}}; } };
template<class... T> struct Refl<bcl::TraitUnion<T...>> { static Group get() { return {{T::Id...}}; } };
template<class... A> struct Refl<bcl::TraitAlternative<A...>> {
  static Group get() { Group G; for (auto &X : std::vector<Group>{Refl<A>::get()...}) G.insert(G.end(), X.begin(), X.end()); return G; }
};
typedef std::set<int> Set;
std::string show(const Set &S) { std::string R = "{"; for (int I : S) R += " " + std::to_string(I); return R + " }"; }

struct Decl {
  std::vector<Group> Groups;
  Set All;
  std::vector<int> Ids;
  int group(int T) const { for (size_t G = 0; G < Groups.size(); ++G) for (auto &A : Groups[G]) for (int X : A) if (X == T) return (int)G; return -1; }
  bool knows(int T) const { return All.count(T) != 0; }
  bool conflict(int A, int B) const {
    int G = group(A);
    if (G < 0 || G != group(B)) return false;
    for (auto &Alt : Groups[G]) { bool HasA = false, HasB = false; for (int X : Alt) { HasA |= X == A; HasB |= X == B; } if (HasA && HasB) return false; }
    return true;
  }
  Set members(int T) const { Set R; for (auto &A : Groups[group(T)]) R.insert(A.begin(), A.end()); return R; }
  void set(Set &S, int T) const { for (auto I = S.begin(); I != S.end();) if (conflict(*I, T)) I = S.erase(I); else ++I; S.insert(T); }
  void unset(Set &S, int T) const { S.erase(T); }
  bool compatible(std::vector<int> Ts) const { for (int A : Ts) for (int B : Ts) if (conflict(A, B)) return false; return true; }
};
template<class D> struct DeclOf;
template<class... G> struct DeclOf<bcl::TraitDescriptor<G...>> {
  static Decl make() {
    Decl D; D.Groups = {Refl<G>::get()...};
    for (auto &X : D.Groups) for (auto &A : X) D.All.insert(A.begin(), A.end());
    D.Ids.assign(D.All.begin(), D.All.end());
    return D;
  }
};

// The declarations.
template<int... I> using T_ = bcl::TraitDescriptor<Tr<I>...>;
typedef bcl::TraitDescriptor<Tr<0>, Alt<U<1, 2>, U<1, 3>>> DExample;
typedef T_<0, 1, 2, 3, 4> DSingles;
typedef bcl::TraitDescriptor<Alt<Tr<0>, Tr<1>, Tr<2>, Tr<3>>, Tr<4>, Alt<Tr<5>, U<6, 7>>> DAlternatives;
typedef bcl::TraitDescriptor<U<0, 1, 2>, Alt<U<3>, U<4, 5>>, Tr<6>> DUnions;
typedef bcl::TraitDescriptor<Alt<U<0, 1>, U<1, 2>, U<2, 3>, U<3, 0>>, Tr<4>, Alt<Tr<5>, U<6, 7, 5>, U<8, 6>>> DOverlap;
typedef bcl::TraitDescriptor<Tr<9>> DOne;
typedef bcl::TraitDescriptor<Alt<U<3, 1>, Tr<2>, U<1, 5, 7>>, Alt<Tr<0>, Tr<8>>, Tr<6>, Tr<4>> DMixed;

// A function with a state of its own, which must be that of the object given by reference.
struct Ids { std::vector<int> *Out; size_t N = 0; template<class T> void operator()() { ++N; Out->push_back(T::Id); } void end() { if (N != Out->size()) Out->push_back(-1); } };
// A function given as a temporary.
struct Collect { std::vector<int> &Out; template<class T> void operator()() { Out.push_back(T::Id); } };
Set once(vp::Case &c, const std::vector<int> &V, const char *What) {
  Set S(V.begin(), V.end());
  VP_CHECK(c, S.size() == V.size(), What, "visits a trait twice");
  return S;
}
}
