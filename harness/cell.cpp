// P01: static maps. P02: functors that transfer data between cells.
#include "vp.h"
#include <bcl/cell.h>
#include <type_traits>

namespace {
// Values of different types; each can be drawn, shown and recognised.
struct Big { int A[20]; bool operator==(const Big &R) const { return !memcmp(A, R.A, sizeof A); } };
template<int I> struct VT;
template<> struct VT<0> { typedef int Type; };
template<> struct VT<1> { typedef std::string Type; };
template<> struct VT<2> { typedef double Type; };
template<> struct VT<3> { typedef int Type; };
template<> struct VT<4> { typedef char Type; };
template<> struct VT<5> { typedef std::vector<int> Type; };
template<> struct VT<6> { typedef Big Type; };
template<> struct VT<7> { typedef std::string Type; };
template<> struct VT<8> { typedef std::shared_ptr<int> Type; };
template<> struct VT<9> { typedef unsigned long long Type; };
template<int I> struct K { typedef typename VT<I>::Type ValueType; static const int Id = I; };
template<int I> const int K<I>::Id;

std::string show(int X) { return std::to_string(X); }
std::string show(char X) { return std::to_string((int)X); }
std::string show(unsigned long long X) { return std::to_string(X); }
std::string show(double X) { return vp::fmt("%.17g", X); }
std::string show(const std::string &X) { return X; }
std::string show(const std::vector<int> &X) { std::string S = "v"; for (int E : X) S += vp::fmt("%d,", E); return S; }
std::string show(const Big &X) { return vp::fmt("big%d,%d", X.A[0], X.A[19]); }
std::string show(const std::shared_ptr<int> &X) { return X ? vp::fmt("ptr%d", *X) : "null"; }
void draw(vp::Rng &R, int &X) { X = (int)R.next(); }
void draw(vp::Rng &R, char &X) { X = (char)R.next(); }
void draw(vp::Rng &R, unsigned long long &X) { X = R.next(); }
void draw(vp::Rng &R, double &X) { X = (double)(int)R.next() / 7; }
void draw(vp::Rng &R, std::string &X) { X = std::string(R.below(40), 'a' + (char)R.below(26)); }
void draw(vp::Rng &R, std::vector<int> &X) { X.assign(R.below(5), (int)R.below(1000)); }
void draw(vp::Rng &R, Big &X) { for (int &A : X.A) A = (int)R.below(1000); }
void draw(vp::Rng &R, std::shared_ptr<int> &X) { X = std::make_shared<int>((int)R.below(1000)); }
template<class T> T make(vp::Rng &R) { T X; draw(R, X); return X; }

typedef std::vector<std::pair<int, const void *>> Seen; // keys (or types) and addresses of values, in order
struct Reader { // takes cells
  Seen &S; int N = 0; // a function with a state of its own
  template<class C> void operator()(C *X) { ++N; S.push_back({C::CellKey::Id, (const void *)&X->template value<typename C::CellKey>()}); }
};
struct ConstReader { Seen &S; template<class C> void operator()(C *X) const { S.push_back({C::CellKey::Id, (const void *)&X->template value<typename C::CellKey>()}); } };
struct Writer { vp::Rng &R; std::vector<std::string> &Out; template<class C> void operator()(C *X) { auto &V = X->template value<typename C::CellKey>(); draw(R, V); Out.push_back(show(V)); } };
struct KeyReader { std::vector<int> &S; int N = 0; template<class C> void operator()() { ++N; S.push_back(C::CellKey::Id); } };

// M is a map with keys I...
template<class M, int... I> struct Map {
  static constexpr int N = sizeof...(I);
  typedef std::vector<std::string> Texts;
  static const std::vector<int> &ids() { static std::vector<int> V{I...}; return V; }
  static Texts read(M &X) { return {show(X.template value<K<I>>())...}; }
  static Texts readConst(const M &X) { return {show(X.template value<K<I>>())...}; }
  static Texts index(M &X) { return {show(X[K<I>()])...}; }
  static Texts indexConst(const M &X) { return {show(X[K<I>()])...}; }
  static std::vector<const void *> addresses(const M &X) { return {(const void *)&X.template value<K<I>>()...}; }
  static std::vector<size_t> sizes() { return {sizeof(typename K<I>::ValueType)...}; }
  static std::string write(vp::Rng &R, M &X, int Pos, bool Index) {
    std::string S; int P = 0;
    ((P++ == Pos ? (Index ? draw(R, X[K<I>()]) : draw(R, X.template value<K<I>>()), S = show(X.template value<K<I>>()), 0) : 0), ...);
    return S;
  }
  static void check(vp::Case &c, M &X, const Texts &Want, const char *What) {
    const M &CX = X;
    VP_CHECK(c, read(X) == Want && readConst(CX) == Want && index(X) == Want && indexConst(CX) == Want, "value", What);
    auto A = addresses(CX); auto Z = sizes();
    for (int P = 0; P < N; ++P) for (int Q = 0; Q < N; ++Q) if (P != Q) { const char *B = (const char *)A[P], *D = (const char *)A[Q]; VP_CHECK(c, B + Z[P] <= D || D + Z[Q] <= B, "overlap", vp::fmt("values of %d and %d", ids()[P], ids()[Q])); }
    Seen Expected; for (int P = 0; P < N; ++P) Expected.push_back({ids()[P], A[P]});
    for (int Mode = 0; Mode < 6; ++Mode) {
      Seen S; Reader F{S}; const ConstReader CF{S};
      switch (Mode) {
      case 0: X.for_each(F); break;
      case 1: CX.for_each(F); break;
      case 2: X.for_each(Reader{S}); break;
      case 3: CX.for_each(Reader{S}); break;
      case 4: X.for_each(CF); break;
      case 5: CX.for_each(CF); break;
      }
      VP_CHECK(c, F.N == (Mode < 2 ? N : 0), "visit-state", vp::fmt("%s: the function given by reference has seen %d cells of %d", What, F.N, N));
      VP_CHECK(c, S == Expected, "visit", vp::fmt("%s: %zu cells visited instead of %d, or another order", What, S.size(), N));
    }
    c.count("values", N);
  }
  static void history(vp::Case &c, const char *Name) {
    auto &R = c.R;
    std::string In = Name; c.input(In);
    VP_CHECK(c, M::empty() == (N == 0), "empty", Name);
    std::vector<int> Ks; KeyReader KF{Ks};
    if (R.chance(1, 2)) { M::for_each_key(KF); VP_CHECK(c, KF.N == N, "visit-state", "keys"); } else M::for_each_key(KeyReader{Ks});
    VP_CHECK(c, Ks == ids(), "keys", vp::fmt("%zu keys are visited, or in another order", Ks.size()));
    std::tuple<typename K<I>::ValueType...> V{make<typename K<I>::ValueType>(R)...};
    Texts Want; std::apply([&](auto &...X) { (Want.push_back(show(X)), ...); }, V);
    auto VC = V;
    std::unique_ptr<M> P;
    int How = (int)R.below(N ? 3 : 1);
    if constexpr (N > 0) {
      if (How == 1) std::apply([&](auto &...X) { P.reset(new M(X...)); }, V);
      else if (How == 2) std::apply([&](auto &...X) { P.reset(new M(std::move(X)...)); }, V);
      if (How == 1) VP_CHECK(c, V == VC, "constructor", "arguments are changed");
    }
    if (!P) { P.reset(new M()); Want.clear(); if constexpr (N > 0) { Writer W{R, Want}; P->for_each(W); } }
    In += vp::fmt(" constructed %d:", How);
    check(c, *P, Want, "constructed");
    c.count(How == 0 ? "default_constructed" : How == 1 ? "copied_arguments" : "moved_arguments");
    if constexpr (N > 1) { // fewer arguments initialise the first cells
      auto A = make<typename std::tuple_element<0, decltype(V)>::type>(R); M Y(A);
      VP_CHECK(c, read(Y)[0] == show(A), "constructor", "a single argument");
    }
    for (size_t S = R.size(10); S-- > 0 && N;) {
      int Pos = (int)R.below(N); Want[Pos] = write(R, *P, Pos, R.chance(1, 2));
      In += vp::fmt(" %d", ids()[Pos]); c.input(In);
      check(c, *P, Want, "written");
      if (R.chance(1, 3)) {
        M Y(*P); const M CP(*P); M Z(CP); check(c, Y, Want, "copy"); check(c, Z, Want, "copy of a constant");
        auto W2 = Want; Pos = (int)R.below(N); W2[Pos] = write(R, Y, Pos, true); check(c, Y, W2, "changed copy"); check(c, *P, Want, "original of a copy");
        Z = Y; check(c, Z, W2, "assigned"); M Q(std::move(Y)); check(c, Q, W2, "moved"); M T; T = std::move(Q); check(c, T, W2, "move assigned");
        c.count("copies");
      }
    }
    for (int X : Ks) In += vp::fmt(" k%d", X);
    for (auto &X : Want) In += "=" + X;
    c.distinct(In); c.sample(In); c.count("maps");
  }
};
template<int... I> using SM = Map<bcl::StaticMap<K<I>...>, I...>;
// The map constructed from a list of types with a constructor of keys of one's own.
template<class T> struct Identity { typedef T CellKey; };
template<int... I> using CM = Map<typename bcl::StaticMapConstructor<Identity, K<I>...>::Type, I...>;

// Maps of types.
template<class T> struct TypeId; template<> struct TypeId<int> { static const int V = 0; }; template<> struct TypeId<std::string> { static const int V = 1; };
template<> struct TypeId<double> { static const int V = 2; }; template<> struct TypeId<char> { static const int V = 4; }; template<> struct TypeId<std::vector<int>> { static const int V = 5; };
template<> struct TypeId<Big> { static const int V = 6; }; template<> struct TypeId<unsigned long long> { static const int V = 9; };
struct TReader { Seen &S; int N = 0; template<class T> void operator()(T &X) { ++N; S.push_back({+TypeId<typename std::remove_const<T>::type>::V, &X}); } };
struct TKeys { std::vector<int> &S; int N = 0; template<class T> void operator()() { ++N; S.push_back(+TypeId<T>::V); } };
template<class... T> void types(vp::Case &c, const char *Name) {
  typedef bcl::StaticTypeMap<T...> M; typedef std::vector<std::string> Texts; constexpr int N = sizeof...(T);
  auto &R = c.R; std::string In = Name; c.input(In);
  const std::vector<int> Ids{+TypeId<T>::V...};
  std::vector<int> Ks; TKeys KF{Ks};
  if (R.chance(1, 2)) { M::for_each_key(KF); VP_CHECK(c, KF.N == N, "visit-state", "types"); } else M::for_each_key(TKeys{Ks});
  VP_CHECK(c, Ks == Ids, "keys", "another order of types");
  std::tuple<T...> V{make<T>(R)...}; Texts Want; std::apply([&](auto &...X) { (Want.push_back(show(X)), ...); }, V);
  std::unique_ptr<M> P; int How = (int)R.below(3);
  if (How == 0) { P.reset(new M()); ((P->template value<T>() = std::get<T>(V)), ...); }
  else if (How == 1) std::apply([&](auto &...X) { P.reset(new M(X...)); }, V);
  else std::apply([&](auto &...X) { P.reset(new M(std::move(X)...)); }, V);
  auto check = [&](M &X, const char *What) {
    const M &CX = X;
    VP_CHECK(c, (Texts{show(X.template value<T>())...}) == Want && (Texts{show(CX.template value<T>())...}) == Want, "value", What);
    VP_CHECK(c, (Texts{show(X[T()])...}) == Want && (Texts{show(CX[T()])...}) == Want, "value", What);
    Seen E{{+TypeId<T>::V, &CX.template value<T>()}...};
    for (int Mode = 0; Mode < 4; ++Mode) {
      Seen S; TReader F{S};
      if (Mode == 0) X.for_each(F); else if (Mode == 1) CX.for_each(F); else if (Mode == 2) X.for_each(TReader{S}); else CX.for_each(TReader{S});
      VP_CHECK(c, F.N == (Mode < 2 ? N : 0), "visit-state", What);
      VP_CHECK(c, S == E, "visit", What);
    }
    c.count("values", N);
  };
  check(*P, "constructed");
  for (size_t S = R.size(8); S-- > 0;) {
    int Pos = (int)R.below(N), Q = 0;
    ((Q == Pos ? (R.chance(1, 2) ? draw(R, P->template value<T>()) : draw(R, (*P)[T()]), Want[Q] = show(P->template value<T>()), ++Q) : ++Q), ...);
    check(*P, "written");
    if (R.chance(1, 3)) { M Y(*P); const M CP(*P); M Z(CP); check(Y, "copy"); check(Z, "copy of a constant"); M W; W = Z; check(W, "assigned"); M X(std::move(Y)); check(X, "moved"); c.count("copies"); }
  }
  for (auto &X : Want) In += "=" + X;
  c.distinct(In); c.count("type_maps");
}
}

#if PART == 0
VP_FAMILY("P01.keys", 3000, 60000) {
  switch (c.R.below(8)) {
  case 0: SM<0>::history(c, "0"); break;
  case 1: SM<1>::history(c, "1"); break;
  case 2: SM<0, 1>::history(c, "0,1"); break;
  case 3: SM<1, 0>::history(c, "1,0"); break;
  case 4: SM<0, 3>::history(c, "0,3"); break;
  case 5: SM<4, 6, 2, 0, 5>::history(c, "4,6,2,0,5"); break;
  case 6: SM<9, 8, 7, 6, 5, 4, 3, 2, 1, 0>::history(c, "all"); break;
  case 7: SM<7, 1, 8>::history(c, "7,1,8"); break;
  }
}
VP_FAMILY("P01.constructed", 2000, 40000) {
  switch (c.R.below(3)) {
  case 0: CM<0, 3>::history(c, "ctor 0,3"); break;
  case 1: CM<4, 0, 9, 1>::history(c, "ctor 4,0,9,1"); break;
  case 2: CM<1, 5, 7>::history(c, "ctor 1,5,7"); break;
  }
}
VP_FAMILY("P01.types", 2000, 40000) {
  switch (c.R.below(5)) {
  case 0: types<int>(c, "int"); break;
  case 1: types<int, double, std::string>(c, "int,double,string"); break;
  case 2: types<std::string, std::vector<int>, char, Big>(c, "string,vector,char,Big"); break;
  case 3: types<double, int>(c, "double,int"); break;
  case 4: types<char, int, unsigned long long, double>(c, "char,int,ull,double"); break;
  }
}
VP_FAMILY("P01.empty", 1, 1) {
  typedef bcl::StaticMap<> M; M X; const M CX; Seen S; std::vector<int> Ks;
  VP_CHECK(c, M::empty(), "empty", "");
  X.for_each(Reader{S}); CX.for_each(Reader{S}); M::for_each_key(KeyReader{Ks}); M::for_each_key(KeyReader{Ks});
  Reader F{S}; KeyReader KF{Ks}; X.for_each(F); CX.for_each(F); M::for_each_key(KF);
  VP_CHECK(c, S.empty() && Ks.empty(), "visit", "the empty map is visited"); c.distinct(1);
}
VP_MAIN
#else
// P02
namespace {
// A value which counts what is done to it.
struct Tracer {
  static VP_TLS long Copies, Moves, Live;
  std::string V; bool Moved = false;
  Tracer() { ++Live; }
  explicit Tracer(std::string S) : V(std::move(S)) { ++Live; }
  Tracer(const Tracer &F) : V(F.V) { ++Copies; ++Live; }
  Tracer(Tracer &&F) : V(std::move(F.V)) { F.V.clear(); F.Moved = true; ++Moves; ++Live; }
  Tracer &operator=(const Tracer &F) { V = F.V; Moved = false; ++Copies; return *this; }
  Tracer &operator=(Tracer &&F) { if (this != &F) { V = std::move(F.V); F.V.clear(); F.Moved = true; Moved = false; } ++Moves; return *this; }
  ~Tracer() { --Live; }
};
VP_TLS long Tracer::Copies, Tracer::Moves, Tracer::Live;
template<int I> struct T { typedef Tracer ValueType; static const int Id = I; };
template<int... I> struct Keys { typedef bcl::StaticMap<T<I>...> Map; static std::vector<int> ids() { return {I...}; }
  static Tracer &at(Map &M, int Id) { Tracer *P = nullptr; ((Id == I ? (P = &M.template value<T<I>>(), 0) : 0), ...); return *P; } };
template<class F, class G> void transfer(vp::Case &c, const char *Name) {
  typedef typename F::Map From; typedef typename G::Map To;
  auto &R = c.R;
  std::vector<int> FI = F::ids(), TI = G::ids(), Common;
  for (int X : FI) if (std::count(TI.begin(), TI.end(), X)) Common.push_back(X);
  {
    From Src; To Dst; std::map<int, std::string> SV, DV; std::string In = Name;
    for (int X : FI) { SV[X] = std::string(R.below(30), 's') + std::to_string(R.below(1000)); F::at(Src, X).V = SV[X]; In += " " + SV[X]; }
    for (int X : TI) { DV[X] = std::string(R.below(30), 'd') + std::to_string(R.below(1000)); G::at(Dst, X).V = DV[X]; In += " " + DV[X]; }
    int Mode = (int)R.below(4); bool Temp = R.chance(1, 2);
    const char *Modes[] = {"copy to", "copy from", "move to", "move from"};
    c.input(vp::fmt("%s %s%s", Modes[Mode], Name, Temp ? " (temporary)" : ""));
    Tracer::Copies = Tracer::Moves = 0;
    if (Mode == 0) { const From &CS = Src; bcl::CopyToCellFunctor<From> Fn(&CS); if (Temp) Dst.for_each(bcl::CopyToCellFunctor<From>(&CS)); else Dst.for_each(Fn); }
    else if (Mode == 1) { const From &CS = Src; bcl::CopyFromCellFunctor<To> Fn(&Dst); if (Temp) CS.for_each(bcl::CopyFromCellFunctor<To>(&Dst)); else if (R.chance(1, 2)) CS.for_each(Fn); else Src.for_each(Fn); }
    else if (Mode == 2) { bcl::MoveToCellFunctor<From> Fn(&Src); if (Temp) Dst.for_each(bcl::MoveToCellFunctor<From>(&Src)); else Dst.for_each(Fn); }
    else { bcl::MoveFromCellFunctor<To> Fn(&Dst); if (Temp) Src.for_each(bcl::MoveFromCellFunctor<To>(&Dst)); else Src.for_each(Fn); }
    long N = (long)Common.size();
    if (Mode < 2) VP_CHECK(c, Tracer::Copies == N && Tracer::Moves == 0, "copies", vp::fmt("%ld copies and %ld moves for %ld common keys", Tracer::Copies, Tracer::Moves, N));
    else VP_CHECK(c, Tracer::Copies == 0 && Tracer::Moves == N, "moves", vp::fmt("%ld copies and %ld moves for %ld common keys", Tracer::Copies, Tracer::Moves, N));
    for (int X : TI) { bool Cm = std::count(Common.begin(), Common.end(), X) != 0; VP_CHECK(c, G::at(Dst, X).V == (Cm ? SV[X] : DV[X]), "target", vp::fmt("value of %d", X)); }
    for (int X : FI) { bool Gone = Mode >= 2 && std::count(Common.begin(), Common.end(), X); VP_CHECK(c, F::at(Src, X).Moved == Gone && (Gone || F::at(Src, X).V == SV[X]), "source", vp::fmt("value of %d", X)); }
    c.count(Modes[Mode][0] == 'c' ? "copies" : "moves"); c.count("common_keys", N); c.distinct(In + Modes[Mode]); c.sample(In);
  }
  VP_CHECK(c, Tracer::Live == 0, "balance", vp::fmt("%ld values are alive", Tracer::Live));
}
typedef Keys<0> K0; typedef Keys<1> K1; typedef Keys<0, 1, 2> K012; typedef Keys<2, 1, 0> K210; typedef Keys<3, 4> K34; typedef Keys<5, 1, 6, 0, 7, 2> K516072; typedef Keys<7, 6, 5, 4, 3, 2, 1, 0> KAll; typedef Keys<2, 9> K29;
}
VP_FAMILY("P02.transfer", 4000, 100000) {
  switch (c.R.below(12)) {
  case 0: transfer<K0, K0>(c, "0,0"); break;
  case 1: transfer<K0, K1>(c, "0,1"); break;
  case 2: transfer<K012, K210>(c, "012,210"); break;
  case 3: transfer<K012, K34>(c, "012,34"); break;
  case 4: transfer<K516072, K012>(c, "516072,012"); break;
  case 5: transfer<K012, K516072>(c, "012,516072"); break;
  case 6: transfer<KAll, K29>(c, "all,29"); break;
  case 7: transfer<K29, KAll>(c, "29,all"); break;
  case 8: transfer<KAll, KAll>(c, "all,all"); break;
  case 9: transfer<K34, KAll>(c, "34,all"); break;
  case 10: transfer<K1, K210>(c, "1,210"); break;
  case 11: transfer<K210, K0>(c, "210,0"); break;
  }
}
// Initialisation and clearing of pointers among other values.
namespace {
struct PA { typedef Tracer *ValueType; }; struct PB { typedef int ValueType; }; struct PC { typedef Tracer *ValueType; }; struct PD { typedef std::string *ValueType; }; struct PE { typedef std::shared_ptr<int> ValueType; }; struct PF { typedef const Tracer *ValueType; }; struct PG { typedef Tracer ValueType; };
template<class M> void pointers(vp::Case &c, const char *Name) {
  auto &R = c.R;
  {
    M X; X.template value<PB>() = 77; X.template value<PE>() = std::make_shared<int>(5); X.template value<PG>().V = "value"; auto Keep = X.template value<PE>();
    Tracer Outside; X.template value<PA>() = &Outside; X.template value<PC>() = &Outside; X.template value<PD>() = nullptr; X.template value<PF>() = &Outside;
    bool Temp = R.chance(1, 2); c.input(Name);
    bcl::InitCellFunctor I; if (Temp) X.for_each(bcl::InitCellFunctor()); else X.for_each(I);
    VP_CHECK(c, !X.template value<PA>() && !X.template value<PC>() && !X.template value<PD>() && !X.template value<PF>(), "init", "a pointer is not null");
    VP_CHECK(c, X.template value<PB>() == 77 && X.template value<PE>() == Keep && X.template value<PG>().V == "value" && Tracer::Live == 2, "init", "another value is changed");
    unsigned Which = (unsigned)R.below(16);
    if (Which & 1) X.template value<PA>() = new Tracer("a"); if (Which & 2) X.template value<PC>() = new Tracer("c"); if (Which & 4) X.template value<PD>() = new std::string(50, 'x'); if (Which & 8) X.template value<PF>() = new Tracer("f");
    c.input(vp::fmt("%s %u", Name, Which));
    bcl::ClearCellFunctor C; if (Temp) X.for_each(C); else X.for_each(bcl::ClearCellFunctor());
    VP_CHECK(c, Tracer::Live == 2, "clear", vp::fmt("%ld objects are left", Tracer::Live - 2));
    VP_CHECK(c, X.template value<PB>() == 77 && X.template value<PE>() == Keep && X.template value<PG>().V == "value", "clear", "another value is changed");
    c.distinct(vp::fmt("%s%u", Name, Which)); c.count("cleared");
  }
}
}
VP_FAMILY("P02.pointers", 400, 2000) {
  if (c.R.chance(1, 2)) pointers<bcl::StaticMap<PA, PB, PC, PD, PE, PF, PG>>(c, "abcdefg"); else pointers<bcl::StaticMap<PG, PF, PE, PD, PB, PC, PA>>(c, "gfedbca");
}
#endif
