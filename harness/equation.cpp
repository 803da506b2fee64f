// E01: solutions of binomial systems; E02: instantiation; E03: extended Euclid.
#include <bcl/Equation.h> // relies on no other header
#include "vp.h"
#include <map>
#include <numeric>
#include <set>
#include <sstream>

namespace {
typedef __int128 Big;
typedef std::vector<Big> Vec;
std::string show(Big X) { bool N = X < 0; unsigned __int128 V = N ? -(unsigned __int128)X : (unsigned __int128)X; std::string S; do S += (char)('0' + (int)(V % 10)); while (V /= 10); if (N) S += '-'; return {S.rbegin(), S.rend()}; }

// Variables: numbers or objects which can only be compared.
struct Column { int Id; bool operator==(const Column &O) const { return Id == O.Id; } bool operator!=(const Column &O) const { return Id != O.Id; } bool operator<(const Column &O) const { return Id < O.Id; } };
template<class C> struct Col;
template<> struct Col<int> { static int make(int I) { return I; } static int id(int C) { return C; } };
template<> struct Col<unsigned> { static unsigned make(int I) { return (unsigned)I; } static int id(unsigned C) { return (int)C; } };
template<> struct Col<Column> { static Column make(int I) { return Column{I}; } static int id(const Column &C) { return C.Id; } };
template<> struct Col<std::string> { static std::string make(int I) { return "v" + std::to_string(I); } static int id(const std::string &C) { return std::stoi(C.substr(1)); } };

// Original variables have numbers below 100, guards are at 200.., computed
// variables at 300.., parameters at 1000...
template<class C, class V> struct Info {
  std::map<int, bool> Guards; std::map<int, V> Computed; int Next = 1000; std::map<int, int> Attached; mutable long Reads = 0;
  template<class T> T get(const C &X) const { ++Reads; int I = Col<C>::id(X); if constexpr (std::is_same<T, bool>::value) { if (!Guards.count(I)) abort(); return Guards.at(I); } else { static_assert(std::is_same<T, V>::value, ""); if (!Computed.count(I)) abort(); return Computed.at(I); } }
  C parameterColumn() { return Col<C>::make(Next++); }
  C parameterColumn(const C &X) { Attached[Next] = Col<C>::id(X); return Col<C>::make(Next++); }
  bool isParameter(const C &X) const { return Col<C>::id(X) >= 1000; }
  std::string name(const C &X) const { return "x" + std::to_string(Col<C>::id(X)); }
};

struct Eq { int L; long long A; int R; long long B; long long C; };
std::string show(const Eq &E) { return vp::fmt("%lld x%d + %lld x%d = %lld; ", E.A, E.L, E.B, E.R, E.C); }

// All integer solutions of a system of linear equations: X0 + combinations of
// Basis. The matrix is brought to a column echelon form by unimodular
// operations, U collects them.
struct Lattice { bool Solvable; Vec X0; std::vector<Vec> Basis; };
Lattice lattice(const std::vector<Eq> &Es, size_t M, size_t N) {
  std::vector<Vec> A(M, Vec(N)), U(N, Vec(N)); for (size_t I = 0; I < M; ++I) { A[I][(size_t)Es[I].L] += Es[I].A; A[I][(size_t)Es[I].R] += Es[I].B; } for (size_t I = 0; I < N; ++I) U[I][I] = 1;
  auto sub = [&](size_t To, size_t From, Big Q) { for (auto &Row : A) Row[To] -= Q * Row[From]; for (auto &Row : U) Row[To] -= Q * Row[From]; };
  auto swap = [&](size_t P, size_t Q) { for (auto &Row : A) std::swap(Row[P], Row[Q]); for (auto &Row : U) std::swap(Row[P], Row[Q]); };
  Vec Y(N); size_t P = 0; Lattice Out{true, Vec(N), {}};
  for (size_t I = 0; I < M; ++I) {
    for (size_t J = P + 1; J < N && P < N; ++J) while (A[I][J] != 0) { Big Q = A[I][P] / A[I][J]; sub(P, J, Q); swap(P, J); }
    Big Rest = Es[I].C; for (size_t J = 0; J < P; ++J) Rest -= A[I][J] * Y[J];
    if (P < N && A[I][P] != 0) { if (Rest % A[I][P] != 0) { Out.Solvable = false; return Out; } Y[P] = Rest / A[I][P]; ++P; }
    else if (Rest != 0) { Out.Solvable = false; return Out; }
  }
  for (size_t I = 0; I < N; ++I) for (size_t J = 0; J < P; ++J) Out.X0[I] += U[I][J] * Y[J];
  for (size_t J = P; J < N; ++J) { Vec B(N); for (size_t I = 0; I < N; ++I) B[I] = U[I][J]; Out.Basis.push_back(B); }
  return Out;
}

// Systems of N variables: chains, stars, trees and graphs with cycles.
std::vector<Eq> graph(vp::Rng &R, size_t N, size_t M, int Shape, long long Max, std::vector<long long> *Hidden) {
  std::vector<Eq> Es; auto coef = [&] { long long A; do A = R.range(-Max, Max); while (A == 0 && !R.chance(1, 6)); return A; };
  if (Hidden) { Hidden->clear(); for (size_t I = 0; I < N; ++I) Hidden->push_back(R.range(-60, 60)); }
  for (size_t I = 0; I < M; ++I) {
    Eq E; switch (Shape) {
    case 0: E.L = (int)(I % N); E.R = (int)((I + 1) % N); break; // chain, a cycle at last
    case 1: E.L = 0; E.R = (int)(1 + I % (N > 1 ? N - 1 : 1)) % (int)N; break; // star
    case 2: E.R = (int)((I + 1) % N); E.L = E.R ? (int)R.below((size_t)E.R) : 0; break; // tree
    default: E.L = (int)R.below(N); E.R = (int)R.below(N); }
    if (R.chance(1, 2)) std::swap(E.L, E.R);
    E.A = coef(); E.B = coef(); E.C = Hidden ? E.A * (*Hidden)[(size_t)E.L] + E.B * (*Hidden)[(size_t)E.R] : R.range(-40, 40); Es.push_back(E);
  }
  for (size_t I = Es.size(); I > 1; --I) std::swap(Es[I - 1], Es[R.below(I)]);
  return Es;
}

template<class C, class V, bool IsSolvable, bool Log> void solving(vp::Case &c, const char *Types) {
  auto &R = c.R; size_t N = 1 + R.below(6), M = 1 + R.below(5); int Shape = (int)R.below(4); bool Real = IsSolvable || R.chance(1, 3); std::vector<long long> Hidden;
  long long Max = sizeof(V) < 8 ? (M <= 2 ? 5 : 2) : M <= 3 ? 12 : 4; auto Es = graph(R, N, M, Shape, Max, Real ? &Hidden : nullptr);
  std::string In = vp::fmt("%s %d variables: ", Types, (int)N); for (auto &E : Es) In += show(E); c.input(In); c.distinct(In); c.sample(In);
  typedef milp::BinomialSystem<C, V, 2, 2, 2> S; typedef milp::AMonom<C, V> Mon; S X; Info<C, V> I; I.Computed[300] = (V)R.range(-5, 5); I.Guards[200] = true; I.Guards[201] = false;
  std::vector<Eq> Off; if (R.chance(1, 3)) Off = graph(R, N, 1 + R.below(2), 3, Max, nullptr); // equations to be left out
  std::vector<std::pair<Eq, bool>> All; for (auto &E : Es) All.push_back({E, true}); for (auto &E : Off) All.push_back({E, false}); if (!Off.empty()) for (size_t K = All.size(); K > 1; --K) std::swap(All[K - 1], All[R.below(K)]);
  for (auto &E : All) { V K = (V)E.first.C; bool Computed = R.chance(1, 5); if (Computed) K = (V)(K - 3 * I.Computed[300]); X.push_back(Mon(Col<C>::make(E.first.L), (V)E.first.A), Mon(Col<C>::make(E.first.R), (V)E.first.B), K); if (Computed) X.back().addComputedMonom(Mon(Col<C>::make(300), 3)); if (!E.second) X.back().addGuard(Col<C>::make(201)); else if (R.chance(1, 5)) X.back().addGuard(Col<C>::make(200)); }
  X.instantiate(I); std::vector<Eq> Order; // in the order of solving
  for (auto It = X.instantiated_begin(); It != X.instantiated_end(); ++It) Order.push_back({Col<C>::id(It->LHS.Column), (long long)It->LHS.Value, Col<C>::id(It->RHS.Column), (long long)It->RHS.Value, (long long)It->Constant});
  VP_CHECK(c, Order.size() == Es.size() && X.instantiated_size() == Es.size(), "instantiated", "");
  std::ostringstream OS; size_t Solved; if constexpr (Log) Solved = X.template solve<Info<C, V>, IsSolvable>(I, OS); else Solved = X.template solve<Info<C, V>, IsSolvable>(I);
  size_t Want = 0; while (Want < Order.size() && lattice(Order, Want + 1, N).Solvable) ++Want;
  if (Real) VP_CHECK(c, Want == M, "harness", "the oracle finds a solvable system unsolvable");
  VP_CHECK(c, Solved == Want, "solved", vp::fmt("%d equations of %d are solved instead of %d", (int)Solved, (int)M, (int)Want)); c.count(Want == M ? "solvable" : "unsolvable");
  Lattice L = lattice(Order, Want, N);
  // The general solution.
  struct Sol { bool Found = false; int T = 0; Big K = 0, D = 0; }; std::vector<Sol> Sols(N); std::set<int> Params;
  for (auto &E : X.getSolution()) {
    int A = Col<C>::id(E.LHS.Column), T = Col<C>::id(E.RHS.Column); std::string Text = vp::fmt("%s x%d + %s x%d = %s", show((Big)E.LHS.Value).c_str(), A, show((Big)E.RHS.Value).c_str(), T, show((Big)E.Constant).c_str());
    VP_CHECK(c, A >= 0 && A < (int)N && E.LHS.Value == 1, "form", "not a solution of a variable: " + Text); VP_CHECK(c, I.isParameter(E.RHS.Column) && T < I.Next, "form", "not an expression of a parameter: " + Text);
    VP_CHECK(c, !Sols[(size_t)A].Found, "form", "second solution of a variable: " + Text); Sols[(size_t)A] = {true, T, (Big)E.RHS.Value, (Big)E.Constant}; Params.insert(T); In += Text + "; ";
  }
  c.input(In);
  for (int Try = 0; Try < 6; ++Try) { // any parameters give a solution
    std::map<int, Big> T; for (int P : Params) T[P] = Try ? (Big)R.range(-1000, 1000) : 0; Vec Val(N); for (size_t K = 0; K < N; ++K) Val[K] = Sols[K].Found ? Sols[K].D - Sols[K].K * T[Sols[K].T] : (Big)R.range(-50, 50);
    for (size_t K = 0; K < Want; ++K) { auto &E = Order[K]; VP_CHECK(c, E.A * Val[(size_t)E.L] + E.B * Val[(size_t)E.R] == E.C, "wrong", "parameters give no solution of " + show(E)); } c.count("instances");
  }
  for (int Try = 0; Try < 6; ++Try) { // any solution is given by some parameters
    Vec Val = L.X0; if (Try) for (auto &B : L.Basis) { Big Q = R.range(-9, 9); for (size_t K = 0; K < N; ++K) Val[K] += Q * B[K]; } if (Try == 5 && Real) for (size_t K = 0; K < N; ++K) Val[K] = Hidden[K];
    std::map<int, Big> T; for (int Pass = 0; Pass < 2; ++Pass) for (size_t K = 0; K < N; ++K) { auto &P = Sols[K]; if (!P.Found) continue; Big D = P.D - Val[K]; // == K * T
      if (P.K == 0) { VP_CHECK(c, D == 0, "lost", vp::fmt("x%d = %s in a solution", (int)K, show(Val[K]).c_str())); continue; }
      VP_CHECK(c, D % P.K == 0, "lost", vp::fmt("x%d = %s in a solution", (int)K, show(Val[K]).c_str())); if (!T.count(P.T)) T[P.T] = D / P.K; VP_CHECK(c, T[P.T] == D / P.K, "lost", vp::fmt("x%d = %s in a solution", (int)K, show(Val[K]).c_str())); }
    c.count("solutions_found");
  }
  if (Log && !OS.str().empty()) c.count("logged");
  if (X.getSolution().empty()) return;
  std::ostringstream P; X.printSolution(I, P); size_t Lines = 0; for (auto &E : X.getSolution()) { std::ostringstream L1; S::printEquation(E, I, L1); VP_CHECK(c, P.str().find(L1.str() + "\n") != std::string::npos, "print", L1.str()); ++Lines; } c.count("printed", (long)Lines);
  // Other forms of the solution.
  bool OneParam = Params.size() == 1; for (auto &E : X.getSolution()) OneParam &= E.RHS.Value != 0; auto Was = X.getSolution(); Big Prod = 1; for (auto &E : Was) Prod *= E.RHS.Value < 0 ? -(Big)E.RHS.Value : (Big)E.RHS.Value;
  bool Reverse = OneParam && R.chance(1, 2); I.Attached.clear();
  if (Reverse) {
    if (Prod > (Big)std::numeric_limits<V>::max() / 100000 || Prod < 0) return; X.reverseSolution(I); auto &Now = X.getSolution(); VP_CHECK(c, Now.size() == Was.size(), "reverse", "number of equations");
    // y + c x = d: the same value of y in each equation for each instance of x.
    for (int Try = 0; Try < 4; ++Try) { Big T = R.range(-100, 100), Y0 = 0; for (size_t K = 0; K < Now.size(); ++K) { auto &E = Now[K]; VP_CHECK(c, E.LHS.Value == 1 && E.RHS.Column == Was[K].LHS.Column && I.isParameter(E.LHS.Column) && I.Attached.count(Col<C>::id(E.LHS.Column)) && I.Attached[Col<C>::id(E.LHS.Column)] == Col<C>::id(Was[K].RHS.Column), "reverse", "columns"); Big Xv = (Big)Was[K].Constant - (Big)Was[K].RHS.Value * T, Y = (Big)E.Constant - (Big)E.RHS.Value * Xv; if (!K) Y0 = Y; VP_CHECK(c, Y == Y0 && E.RHS.Value != 0, "reverse", vp::fmt("equation %d gives %s instead of %s", (int)K, show(Y).c_str(), show(Y0).c_str())); } }
    c.count("reversed");
  } else {
    X.solutioWithPositiveConstant(I); auto &Now = X.getSolution(); VP_CHECK(c, Now.size() == Was.size(), "positive", "number of equations"); bool Neg = false; for (auto &E : Was) Neg |= E.Constant < 0; Big Shift = (Big)Now[0].Constant - (Big)Was[0].Constant;
    for (size_t K = 0; K < Now.size(); ++K) { auto &E = Now[K]; VP_CHECK(c, E.Constant >= 0 && (Big)E.Constant - (Big)Was[K].Constant == Shift && E.LHS.Value == 1 && E.RHS.Column == Was[K].RHS.Column && E.RHS.Value == Was[K].RHS.Value, "positive", vp::fmt("equation %d", (int)K)); VP_CHECK(c, Neg ? I.isParameter(E.LHS.Column) && I.Attached.count(Col<C>::id(E.LHS.Column)) && I.Attached[Col<C>::id(E.LHS.Column)] == Col<C>::id(Was[K].LHS.Column) : E.LHS.Column == Was[K].LHS.Column && Shift == 0, "positive", "column"); }
    c.count(Neg ? "shifted" : "already_positive");
  }
}

template<class C, class V> void instantiation(vp::Case &c, const char *Types) {
  auto &R = c.R; typedef milp::BinomialSystem<C, V, 3, 2, 4> S; typedef milp::AMonom<C, V> Mon; S X; Info<C, V> I; size_t N = R.size(8); for (int G = 200; G < 206; ++G) I.Guards[G] = R.chance(2, 3); for (int G = 206; G < 210; ++G) I.Guards[G] = R.chance(1, 3); for (int K = 300; K < 305; ++K) I.Computed[K] = (V)R.range(-20, 20);
  struct Row { Eq E; std::vector<int> G, IG; std::vector<std::pair<int, long long>> M; bool On = true; Big Sum = 0; }; std::vector<Row> Rows; std::string In = vp::fmt("%s ", Types); for (auto &G : I.Guards) In += G.second ? '1' : '0';
  VP_CHECK(c, X.size() == 0 && !X.isInstantiated(), "counts", "a new system");
  for (size_t K = 0; K < N; ++K) {
    Row W; W.E = {(int)R.below(20), R.range(-9, 9), (int)R.below(20), R.range(-9, 9), R.range(-100, 100)}; X.push_back(Mon(Col<C>::make(W.E.L), (V)W.E.A), Mon(Col<C>::make(W.E.R), (V)W.E.B), (V)W.E.C); In += show(W.E); auto &B = X.back(); W.Sum = W.E.C;
    for (size_t Q = R.below(4); Q-- > 0;) { int G = 200 + (int)R.below(10); W.G.push_back(G); B.addGuard(Col<C>::make(G)); W.On &= I.Guards[G]; In += vp::fmt("g%d ", G); }
    for (size_t Q = R.below(3); Q-- > 0;) { int G = 200 + (int)R.below(10); W.IG.push_back(G); B.addInverseGuard(Col<C>::make(G)); W.On &= !I.Guards[G]; In += vp::fmt("!g%d ", G); }
    for (size_t Q = R.below(5); Q-- > 0;) { int P = 300 + (int)R.below(5); long long F = R.range(-9, 9); W.M.push_back({P, F}); B.addComputedMonom(Mon(Col<C>::make(P), (V)F)); W.Sum += (Big)F * (Big)I.Computed[P]; In += vp::fmt("%lld*m%d ", F, P); }
    VP_CHECK(c, B.guard_size() == W.G.size() && B.inverse_size() == W.IG.size() && B.computed_size() == W.M.size(), "sizes", "of the last equation"); Rows.push_back(W); VP_CHECK(c, X.size() == Rows.size(), "counts", "size");
  }
  c.input(In); c.distinct(In); c.sample(In);
  // Texts of equations with all they have.
  auto text = [&](const Eq &E, Big Sum, const std::vector<int> &G, const std::vector<int> &IG, const std::vector<std::pair<int, long long>> &M) { std::string T = vp::fmt("%lld x%d + %lld x%d = %s", E.A, E.L, E.B, E.R, show(Sum).c_str()); for (int K : G) T += vp::fmt(" g%d", K); for (int K : IG) T += vp::fmt(" !g%d", K); for (auto &K : M) T += vp::fmt(" %lld*m%d", K.second, K.first); return T; };
  auto real = [&](auto &W) { std::vector<int> G, IG; std::vector<std::pair<int, long long>> M; for (auto &K : W.guards()) G.push_back(Col<C>::id(K)); for (auto &K : W.inverse_guards()) IG.push_back(Col<C>::id(K)); for (auto &K : W.computed_monoms()) M.push_back({Col<C>::id(K.Column), (long long)K.Value});
    VP_CHECK(c, W.guard_size() == G.size() && W.inverse_size() == IG.size() && W.computed_size() == M.size() && (size_t)(W.guard_end() - W.guard_begin()) == G.size() && (size_t)(W.inverse_end() - W.inverse_begin()) == IG.size() && (size_t)(W.computed_end() - W.computed_begin()) == M.size(), "sizes", "");
    return text({Col<C>::id(W.LHS.Column), (long long)W.LHS.Value, Col<C>::id(W.RHS.Column), (long long)W.RHS.Value, 0}, (Big)W.Constant, G, IG, M); };
  typedef std::multiset<std::string> Texts; const S &CX = X; Texts Before, Want, All, On, Off;
  for (auto &W : Rows) Before.insert(text(W.E, W.E.C, W.G, W.IG, W.M)); for (auto &W : X) All.insert(real(W)); VP_CHECK(c, All == Before, "equations", "before instantiation"); All.clear(); for (auto &W : CX) All.insert(real(W)); VP_CHECK(c, All == Before, "equations", "constant, before instantiation");
  auto Guards = I.Guards; X.instantiate(I); VP_CHECK(c, X.isInstantiated() && X.size() == N, "counts", "after instantiation");
  Texts WantOff; for (auto &W : Rows) if (W.On) Want.insert(text(W.E, W.Sum, W.G, W.IG, W.M)); else WantOff.insert(text(W.E, W.E.C, W.G, W.IG, W.M));
  VP_CHECK(c, X.instantiated_size() == Want.size() && CX.instantiated_size() == Want.size(), "counts", vp::fmt("%d equations are instantiated instead of %d", (int)X.instantiated_size(), (int)Want.size()));
  for (auto It = X.instantiated_begin(); It != X.instantiated_end(); ++It) On.insert(real(*It)); VP_CHECK(c, On == Want, "instantiated", ""); On.clear(); for (auto It = CX.instantiated_begin(); It != CX.instantiated_end(); ++It) On.insert(real(*It)); VP_CHECK(c, On == Want, "instantiated", "constant");
  All.clear(); for (auto &W : X) All.insert(real(W)); Texts Both = Want; Both.insert(WantOff.begin(), WantOff.end()); VP_CHECK(c, All == Both, "equations", "after instantiation");
  std::ostringstream OS; X.printInstantiated(I, OS); std::string P = OS.str(); size_t D = P.find("discarded"); VP_CHECK(c, D != std::string::npos, "print", "no discarded equations");
  auto lines = [](const std::string &T) { Texts L; std::istringstream IS(T); for (std::string S1; std::getline(IS, S1);) { size_t B = S1.find(" |"); if (B != std::string::npos) L.insert(S1.substr(0, B)); } return L; }; Texts WOn, WOff; for (auto &W : Rows) (W.On ? WOn : WOff).insert(text(W.E, W.On ? W.Sum : (Big)W.E.C, {}, {}, {}));
  VP_CHECK(c, lines(P.substr(0, D)) == WOn && lines(P.substr(D)) == WOff, "print", P);
  // Left out of solving: all that remains is solved when nothing restricts it.
  c.count("on", (long)Want.size()); c.count("off", (long)WantOff.size()); c.count("systems"); if (Want.empty()) c.count("none_on");
}

template<class T> void euclid(vp::Case &c, const char *Name) {
  auto &R = c.R; auto draw = [&]() -> T { T X; switch (R.below(6)) { case 0: X = (T)R.next(); break; case 1: X = (T)(R.next() >> R.below(64)); break; case 2: X = (T)(std::numeric_limits<T>::max() - (T)R.below(4)); break; case 3: X = (T)(std::numeric_limits<T>::min() + 1 + (T)R.below(4)); break; case 4: X = (T)((T)1 << R.below(sizeof(T) * 8 - 1)); break; default: X = (T)R.range(-30, 30); } return X == std::numeric_limits<T>::min() ? (T)(X + 1) : X; };
  T L = draw(), Q = draw(); if (R.chance(1, 4)) { T F = (T)R.range(1, 50); Q = (T)(L / F * (T)R.range(-1, 1) ); } else if (R.chance(1, 5)) { Q = (T)(1 + R.below(1000)); L = (T)(Q * (T)R.range(-30, 30)); if (L == std::numeric_limits<T>::min()) L = 0; } else if (R.chance(1, 6)) { T A = 0, B = 1; for (size_t K = R.below(sizeof(T) * 11); K-- > 0 && B <= std::numeric_limits<T>::max() - A;) { T N = (T)(A + B); A = B; B = N; } L = B; Q = A; if (R.chance(1, 2)) L = (T)-L; if (R.chance(1, 2)) std::swap(L, Q); }
  std::string In = vp::fmt("%s %s, %s", Name, show((Big)L).c_str(), show((Big)Q).c_str()); c.input(In); c.distinct(In); c.sample(In);
  std::tuple<T, T, T> X = milp::euclidGCD<T>(L, Q); Big A = L < 0 ? -(Big)L : (Big)L, B = Q < 0 ? -(Big)Q : (Big)Q, G = A, H = B; while (H) { Big M = G % H; G = H; H = M; }
  std::string Got = show((Big)std::get<0>(X)) + " = " + show((Big)std::get<1>(X)) + " * " + show((Big)L) + " + " + show((Big)std::get<2>(X)) + " * " + show((Big)Q);
  VP_CHECK(c, (Big)std::get<0>(X) == G, "gcd", Got + ", gcd is " + show(G)); VP_CHECK(c, (Big)std::get<1>(X) * L + (Big)std::get<2>(X) * Q == G, "bezout", Got);
  auto mag = [](Big V) { return V < 0 ? -V : V; }; if (G) VP_CHECK(c, mag(std::get<1>(X)) <= std::max<Big>(1, B / G) && mag(std::get<2>(X)) <= std::max<Big>(1, A / G), "large", Got);
  c.count("pairs"); c.count(A == 0 || B == 0 ? "zero" : L < 0 || Q < 0 ? "negative" : "positive");
}
}
VP_FAMILY("E01.solvable", 12000, 300000) {
  switch (c.R.below(5)) { case 0: solving<int, long long, true, false>(c, "int,int64"); break; case 1: solving<Column, long long, true, true>(c, "object,int64"); break; case 2: solving<std::string, long long, true, false>(c, "string,int64"); break; case 3: solving<unsigned, int, true, false>(c, "unsigned,int"); break; case 4: solving<int, long long, false, false>(c, "int,int64 perhaps"); break; }
}
VP_FAMILY("E01.perhaps", 8000, 200000) { switch (c.R.below(3)) { case 0: solving<int, long long, false, true>(c, "int,int64 perhaps"); break; case 1: solving<Column, long long, false, false>(c, "object,int64 perhaps"); break; case 2: solving<unsigned, int, false, false>(c, "unsigned,int perhaps"); break; } }
VP_FAMILY("E02.systems", 10000, 250000) { switch (c.R.below(4)) { case 0: instantiation<int, long long>(c, "int,int64"); break; case 1: instantiation<Column, long long>(c, "object,int64"); break; case 2: instantiation<std::string, int>(c, "string,int"); break; case 3: instantiation<unsigned, int>(c, "unsigned,int"); break; } }
VP_FAMILY("E02.empty", 1, 1) { milp::BinomialSystem<int, int, 0, 0, 0> X; Info<int, int> I; X.push_back({1, 2}, {2, 3}, 4); VP_CHECK(c, X.back().guard_size() == 0 && X.back().inverse_size() == 0 && X.back().computed_size() == 0 && X.back().guard_begin() == X.back().guard_end(), "sizes", ""); X.instantiate(I); VP_CHECK(c, X.instantiated_size() == 1 && X.instantiated_begin()->Constant == 4, "instantiated", "no guards"); c.distinct(1); c.count("empty"); }
VP_FAMILY("E03.pairs", 60000, 3000000) { switch (c.R.below(3)) { case 0: euclid<int>(c, "int"); break; case 1: euclid<long>(c, "long"); break; case 2: euclid<long long>(c, "long long"); break; } }
VP_MAIN
