// P04: operations on lists of types, for all short lists.
#include "vp.h"
#include <bcl/cell.h>
#include <bcl/tagged.h>
#include <bcl/utility.h>
#include <algorithm>

namespace {
template<int I> struct X { typedef int ValueType; static constexpr int Id = I; };
typedef std::vector<int> V;
std::string show(const V &A) { std::string S = "<"; for (int I : A) S += std::to_string(I) + ","; return S + ">"; }

template<class L> struct IdsOf;
template<class... T> struct IdsOf<bcl::TypeList<T...>> { static V get() { return {T::Id...}; } };
template<class... T> struct IdsOf<bcl::StaticMap<T...>> { static V get() { return {T::Id...}; } };
template<class... T> struct Other {};
template<class... T> struct IdsOf<Other<T...>> { static V get() { return {T::Id...}; } };
struct Visit { V &Out; size_t N = 0; template<class T> void operator()() { ++N; Out.push_back(T::Id); } };

// The N-th list of length L over three types.
constexpr int pow3(int N) { return N ? 3 * pow3(N - 1) : 1; }
template<int Code, int Len, class... T> struct Make { typedef typename Make<Code / 3, Len - 1, X<Code % 3>, T...>::Type Type; };
template<int Code, class... T> struct Make<Code, 0, T...> { typedef bcl::TypeList<T...> Type; };
// Index over all lists by length.
template<int I, int Len = 0, bool Here = (I < pow3(Len))> struct Nth { typedef typename Nth<I - pow3(Len), Len + 1>::Type Type; };
template<int I, int Len> struct Nth<I, Len, true> { typedef typename Make<I, Len>::Type Type; };
constexpr int count(int MaxLen) { return MaxLen < 0 ? 0 : pow3(MaxLen) + count(MaxLen - 1); }

struct Unary { V L; size_t Size; bool Has[4]; int Index[3]; V Visited, VisitedTemp, NoDup, Removed[4], Forwarded, ForwardedAgain; bool Contained[4]; size_t SizeOf; };
template<class L> struct Index { static void get(Unary &) {} };
template<class... T> struct FreeFns;
template<class... T> struct FreeFns<bcl::TypeList<T...>> {
  template<int I> static int index() { if constexpr (bcl::is_contained<X<I>, T...>::value) return (int)bcl::index_of<X<I>, T...>(); else return -1; }
  template<int I> static int member() { if constexpr (bcl::is_contained<X<I>, T...>::value) return (int)bcl::TypeList<T...>::template index_of<X<I>>(); else return -1; }
  static size_t size() { return bcl::size_of<T...>(); }
  template<int I> static bool has() { return bcl::is_contained<X<I>, T...>::value; }
};
template<class L> Unary unary() {
  typedef FreeFns<L> F;
  Unary U; U.L = IdsOf<L>::get(); U.Size = L::size_of(); U.SizeOf = F::size();
  U.Has[0] = bcl::IsTypeExist<X<0>, L>::value; U.Has[1] = bcl::IsTypeExist<X<1>, L>::value; U.Has[2] = bcl::IsTypeExist<X<2>, L>::value; U.Has[3] = bcl::IsTypeExist<X<3>, L>::value;
  U.Contained[0] = F::template has<0>(); U.Contained[1] = F::template has<1>(); U.Contained[2] = F::template has<2>(); U.Contained[3] = F::template has<3>();
  int A[] = {F::template index<0>(), F::template index<1>(), F::template index<2>()}, B[] = {F::template member<0>(), F::template member<1>(), F::template member<2>()};
  for (int I = 0; I < 3; ++I) U.Index[I] = A[I] == B[I] ? A[I] : -2;
  Visit Vis{U.Visited}; L::for_each_type(Vis); if (Vis.N != U.Visited.size()) U.Visited.push_back(-1); // the state of a function is its own
  L::for_each_type(Visit{U.VisitedTemp});
  U.NoDup = IdsOf<typename bcl::RemoveDuplicate<L>::Type>::get();
  U.Removed[0] = IdsOf<typename bcl::RemoveFromTypeList<X<0>, L>::Type>::get(); U.Removed[1] = IdsOf<typename bcl::RemoveFromTypeList<X<1>, L>::Type>::get();
  U.Removed[2] = IdsOf<typename bcl::RemoveFromTypeList<X<2>, L>::Type>::get(); U.Removed[3] = IdsOf<typename bcl::RemoveFromTypeList<X<3>, L>::Type>::get();
  U.Forwarded = IdsOf<typename bcl::ForwardTypeList<Other, L>::Type>::get();
  U.ForwardedAgain = IdsOf<typename bcl::ForwardTypeList<bcl::TypeList, L>::Type>::get();
  return U;
}
template<int... I> std::vector<Unary> unaries(std::integer_sequence<int, I...>) { return {unary<typename Nth<I>::Type>()...}; }
struct Binary { V L, R, Merge, Intersect; };
template<class L, class R> Binary binary() { return {IdsOf<L>::get(), IdsOf<R>::get(), IdsOf<typename bcl::MergeTypeLists<L, R>::Type>::get(), IdsOf<typename bcl::IntersectTypeLists<L, R>::Type>::get()}; }
template<int R, int... I> void binaries(std::vector<Binary> &Out, std::integer_sequence<int, I...>) { (Out.push_back(binary<typename Nth<I>::Type, typename Nth<R>::Type>()), ...); }
template<int... R> void binariesAll(std::vector<Binary> &Out, std::integer_sequence<int, R...>) { (binaries<R>(Out, std::make_integer_sequence<int, count(3)>()), ...); }
}

#if PART == 0
VP_FAMILY("P04.lists", (uint64_t)count(4), (uint64_t)count(4)) {
  static auto *All = new std::vector<Unary>(unaries(std::make_integer_sequence<int, count(4)>()));
  if (c.Index >= All->size()) return;
  const Unary &U = (*All)[c.Index];
  const V &L = U.L; c.input(show(L));
  VP_CHECK(c, U.Size == L.size() && U.SizeOf == L.size(), "size", vp::fmt("%zu and %zu", U.Size, U.SizeOf));
  for (int I = 0; I < 4; ++I) {
    bool H = std::count(L.begin(), L.end(), I) != 0;
    VP_CHECK(c, U.Has[I] == H && U.Contained[I] == H, "member", vp::fmt("%d", I));
    if (I < 3) VP_CHECK(c, U.Index[I] == (H ? std::find(L.begin(), L.end(), I) - L.begin() : -1), "index", vp::fmt("index of %d is %d", I, U.Index[I]));
    V W; for (int E : L) if (E != I) W.push_back(E);
    VP_CHECK(c, U.Removed[I] == W, "remove", vp::fmt("%d: ", I) + show(U.Removed[I]));
  }
  VP_CHECK(c, U.Visited == L && U.VisitedTemp == L, "visit", show(U.Visited) + show(U.VisitedTemp));
  V N; for (size_t I = 0; I < L.size(); ++I) if (!std::count(L.begin() + I + 1, L.end(), L[I])) N.push_back(L[I]);
  VP_CHECK(c, U.NoDup == N, "duplicates", show(U.NoDup) + " instead of " + show(N));
  VP_CHECK(c, U.Forwarded == L && U.ForwardedAgain == L, "forward", show(U.Forwarded));
  c.count("lists"); c.distinct(show(L)); c.sample(show(L));
}
VP_MAIN
#elif PART == 1
VP_FAMILY("P04.pairs", (uint64_t)(count(3) * count(2)), (uint64_t)(count(3) * count(2))) {
  static auto *All = [] { auto *O = new std::vector<Binary>; binariesAll(*O, std::make_integer_sequence<int, count(2)>()); return O; }();
  if (c.Index >= All->size()) return;
  const Binary &B = (*All)[c.Index]; c.input(show(B.L) + show(B.R));
  V M = B.L; M.insert(M.end(), B.R.begin(), B.R.end());
  VP_CHECK(c, B.Merge == M, "merge", show(B.Merge));
  V I; for (int E : B.L) if (std::count(B.R.begin(), B.R.end(), E)) I.push_back(E);
  VP_CHECK(c, B.Intersect == I, "intersect", show(B.Intersect));
  c.count("pairs"); c.distinct(show(B.L) + show(B.R)); c.sample(show(B.L) + show(B.R));
}
#elif PART == 2
// Collections of cells: all partitions of up to six keys into two maps, in several orders.
namespace {
struct Cells { V L, R, Merge, RevL, RevR, RevMerge; bool Exist[8]; bool Cell[8]; V Ctor, TypeMapOrder; };
template<class C, int I> bool cellOk() { // the found cell begins with the key, an absent one is empty
  typedef bcl::IsCellExist<C, X<I>> E; V F = IdsOf<typename E::Cell>::get();
  return E::value ? !F.empty() && F[0] == I : F.empty();
}
template<class T> struct Same { typedef T CellKey; };
template<class M> struct ForwardKeys; template<class... K> struct ForwardKeys<bcl::StaticMap<K...>> { typedef typename bcl::StaticMapConstructor<Same, K...>::Type Type; };
// (cells of a base class are maps themselves)
template<class L, class R> Cells cells() {
  typedef typename bcl::MergeCell<L, R>::Result M;
  Cells C; C.L = IdsOf<L>::get(); C.R = IdsOf<R>::get(); C.Merge = IdsOf<M>::get();
  C.RevL = IdsOf<typename bcl::ReverseCell<L>::Result>::get(); C.RevR = IdsOf<typename bcl::ReverseCell<R>::Result>::get(); C.RevMerge = IdsOf<typename bcl::ReverseCell<M>::Result>::get();
  C.Ctor = IdsOf<typename ForwardKeys<M>::Type>::get();
  int K = 0; (void)K;
  bool E[] = {bcl::IsCellExist<M, X<0>>::value, bcl::IsCellExist<M, X<1>>::value, bcl::IsCellExist<M, X<2>>::value, bcl::IsCellExist<M, X<3>>::value, bcl::IsCellExist<M, X<4>>::value, bcl::IsCellExist<M, X<5>>::value, bcl::IsCellExist<M, X<6>>::value, bcl::IsCellExist<L, X<0>>::value};
  bool F[] = {cellOk<M, 0>(), cellOk<M, 1>(), cellOk<M, 2>(), cellOk<M, 3>(), cellOk<M, 4>(), cellOk<M, 5>(), cellOk<M, 6>(), cellOk<L, 0>()};
  std::copy(E, E + 8, C.Exist); std::copy(F, F + 8, C.Cell);
  return C;
}
// Rotation R of the keys 0..N-1 (times a unit), the first K of which go to the left map.
template<int N, int Mul, int Rot, class S> struct Row;
template<int N, int Mul, int Rot, int... I> struct Row<N, Mul, Rot, std::integer_sequence<int, I...>> { typedef bcl::StaticMap<X<(I * Mul + Rot) % N>...> Type; };
template<int From, class S> struct Shift; template<int From, int... I> struct Shift<From, std::integer_sequence<int, I...>> { typedef std::integer_sequence<int, (I + From)...> Type; };
template<int N, int Mul, int Rot, int K> Cells part() {
  typedef typename Row<N ? N : 1, Mul, Rot, std::make_integer_sequence<int, K>>::Type L;
  typedef typename Row<N ? N : 1, Mul, Rot, typename Shift<K, std::make_integer_sequence<int, N - K>>::Type>::Type R;
  return cells<L, R>();
}
template<int N, int Mul, int Rot, int... K> void splits(std::vector<Cells> &O, std::integer_sequence<int, K...>) { (O.push_back(part<N, Mul, Rot, K>()), ...); }
template<int N, int Mul> void rots(std::vector<Cells> &O) { splits<N, Mul, 0>(O, std::make_integer_sequence<int, N + 1>()); if (N > 1) splits<N, Mul, 1>(O, std::make_integer_sequence<int, N + 1>()); if (N > 2) splits<N, Mul, 2>(O, std::make_integer_sequence<int, N + 1>()); }
std::vector<Cells> *allCells() {
  auto *O = new std::vector<Cells>;
  rots<0, 1>(*O); rots<1, 1>(*O); rots<2, 1>(*O); rots<3, 1>(*O); rots<3, 2>(*O); rots<4, 1>(*O); rots<4, 3>(*O); rots<5, 1>(*O); rots<5, 2>(*O); rots<5, 3>(*O); rots<6, 1>(*O); rots<6, 5>(*O);
  return O;
}
}
VP_FAMILY("P04.cells", 200, 200) {
  static auto *All = allCells();
  if (c.Index >= All->size()) return;
  const Cells &C = (*All)[c.Index]; c.input(show(C.L) + show(C.R));
  V M = C.L; M.insert(M.end(), C.R.begin(), C.R.end());
  auto rev = [](V A) { std::reverse(A.begin(), A.end()); return A; };
  VP_CHECK(c, C.Merge == M, "merge-cells", show(C.Merge));
  VP_CHECK(c, C.RevL == rev(C.L) && C.RevR == rev(C.R) && C.RevMerge == rev(M), "reverse-cells", show(C.RevL) + show(C.RevR) + show(C.RevMerge));
  VP_CHECK(c, C.Ctor == M, "construct-cells", show(C.Ctor));
  for (int I = 0; I < 8; ++I) { const V &W = I < 7 ? M : C.L; VP_CHECK(c, C.Exist[I] == (std::count(W.begin(), W.end(), I % 7) != 0) && C.Cell[I], "exist-cells", vp::fmt("%d", I)); }
  c.count("collections"); c.distinct(show(C.L) + show(C.R)); c.sample(show(C.L) + show(C.R));
}
#endif
