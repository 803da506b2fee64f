// Generated by tools/gen_json_arity.py.
struct S1;
#if 0 % PARTS == PART
JSON_OBJECT_BEGIN(S1)
JSON_OBJECT_PAIR(S1, F1, double)
  S1() {}
  S1(std::nullptr_t, double X0) : JSON_INIT(S1, X0) {}
JSON_OBJECT_END(S1)
JSON_DEFAULT_TRAITS(::, S1)
namespace jm { template<> struct Fields<S1> { static constexpr bool HasPtr = false; static constexpr int count() { return 1; }
  static constexpr bool IsRoot = false; static const char *name() { return "S1"; }
  static S1 make(const std::vector<std::string> &V) { return S1(nullptr, of<double>(V[0])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<double>("F1", X[S1::F1]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S1::F1]); } }; }
#endif
struct S2;
#if 1 % PARTS == PART
JSON_OBJECT_BEGIN(S2)
JSON_OBJECT_PAIR_2(S2, F1, bool, F2, char)
  S2() {}
  S2(std::nullptr_t, bool X0, char X1) : JSON_INIT(S2, X0, X1) {}
JSON_OBJECT_END(S2)
JSON_DEFAULT_TRAITS(::, S2)
namespace jm { template<> struct Fields<S2> { static constexpr bool HasPtr = false; static constexpr int count() { return 2; }
  static constexpr bool IsRoot = false; static const char *name() { return "S2"; }
  static S2 make(const std::vector<std::string> &V) { return S2(nullptr, of<bool>(V[0]), of<char>(V[1])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<bool>("F1", X[S2::F1]); f.template operator()<char>("F2", X[S2::F2]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S2::F1]); f("F2", X[S2::F2]); } }; }
#endif
struct S3;
#if 2 % PARTS == PART
JSON_OBJECT_BEGIN(S3)
JSON_OBJECT_PAIR_3(S3, F1, long long, F2, float, F3, double)
  S3() {}
  S3(std::nullptr_t, long long X0, float X1, double X2) : JSON_INIT(S3, X0, X1, X2) {}
JSON_OBJECT_END(S3)
JSON_DEFAULT_TRAITS(::, S3)
namespace jm { template<> struct Fields<S3> { static constexpr bool HasPtr = false; static constexpr int count() { return 3; }
  static constexpr bool IsRoot = false; static const char *name() { return "S3"; }
  static S3 make(const std::vector<std::string> &V) { return S3(nullptr, of<long long>(V[0]), of<float>(V[1]), of<double>(V[2])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<long long>("F1", X[S3::F1]); f.template operator()<float>("F2", X[S3::F2]); f.template operator()<double>("F3", X[S3::F3]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S3::F1]); f("F2", X[S3::F2]); f("F3", X[S3::F3]); } }; }
#endif
struct S4;
#if 3 % PARTS == PART
JSON_OBJECT_BEGIN(S4)
JSON_OBJECT_PAIR_4(S4, F1, unsigned, F2, unsigned long, F3, bool, F4, char)
  S4() {}
  S4(std::nullptr_t, unsigned X0, unsigned long X1, bool X2, char X3) : JSON_INIT(S4, X0, X1, X2, X3) {}
JSON_OBJECT_END(S4)
JSON_DEFAULT_TRAITS(::, S4)
namespace jm { template<> struct Fields<S4> { static constexpr bool HasPtr = false; static constexpr int count() { return 4; }
  static constexpr bool IsRoot = false; static const char *name() { return "S4"; }
  static S4 make(const std::vector<std::string> &V) { return S4(nullptr, of<unsigned>(V[0]), of<unsigned long>(V[1]), of<bool>(V[2]), of<char>(V[3])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<unsigned>("F1", X[S4::F1]); f.template operator()<unsigned long>("F2", X[S4::F2]); f.template operator()<bool>("F3", X[S4::F3]); f.template operator()<char>("F4", X[S4::F4]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S4::F1]); f("F2", X[S4::F2]); f("F3", X[S4::F3]); f("F4", X[S4::F4]); } }; }
#endif
struct S5;
#if 4 % PARTS == PART
JSON_OBJECT_BEGIN(S5)
JSON_OBJECT_PAIR_5(S5, F1, char, F2, int, F3, long long, F4, float, F5, double)
  S5() {}
  S5(std::nullptr_t, char X0, int X1, long long X2, float X3, double X4) : JSON_INIT(S5, X0, X1, X2, X3, X4) {}
JSON_OBJECT_END(S5)
JSON_DEFAULT_TRAITS(::, S5)
namespace jm { template<> struct Fields<S5> { static constexpr bool HasPtr = false; static constexpr int count() { return 5; }
  static constexpr bool IsRoot = false; static const char *name() { return "S5"; }
  static S5 make(const std::vector<std::string> &V) { return S5(nullptr, of<char>(V[0]), of<int>(V[1]), of<long long>(V[2]), of<float>(V[3]), of<double>(V[4])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<char>("F1", X[S5::F1]); f.template operator()<int>("F2", X[S5::F2]); f.template operator()<long long>("F3", X[S5::F3]); f.template operator()<float>("F4", X[S5::F4]); f.template operator()<double>("F5", X[S5::F5]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S5::F1]); f("F2", X[S5::F2]); f("F3", X[S5::F3]); f("F4", X[S5::F4]); f("F5", X[S5::F5]); } }; }
#endif
struct S6;
#if 5 % PARTS == PART
JSON_OBJECT_BEGIN(S6)
JSON_OBJECT_PAIR_6(S6, F1, float, F2, double, F3, unsigned, F4, unsigned long, F5, bool, F6, char)
  S6() {}
  S6(std::nullptr_t, float X0, double X1, unsigned X2, unsigned long X3, bool X4, char X5) : JSON_INIT(S6, X0, X1, X2, X3, X4, X5) {}
JSON_OBJECT_END(S6)
JSON_DEFAULT_TRAITS(::, S6)
namespace jm { template<> struct Fields<S6> { static constexpr bool HasPtr = false; static constexpr int count() { return 6; }
  static constexpr bool IsRoot = false; static const char *name() { return "S6"; }
  static S6 make(const std::vector<std::string> &V) { return S6(nullptr, of<float>(V[0]), of<double>(V[1]), of<unsigned>(V[2]), of<unsigned long>(V[3]), of<bool>(V[4]), of<char>(V[5])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<float>("F1", X[S6::F1]); f.template operator()<double>("F2", X[S6::F2]); f.template operator()<unsigned>("F3", X[S6::F3]); f.template operator()<unsigned long>("F4", X[S6::F4]); f.template operator()<bool>("F5", X[S6::F5]); f.template operator()<char>("F6", X[S6::F6]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S6::F1]); f("F2", X[S6::F2]); f("F3", X[S6::F3]); f("F4", X[S6::F4]); f("F5", X[S6::F5]); f("F6", X[S6::F6]); } }; }
#endif
struct S7;
#if 6 % PARTS == PART
JSON_OBJECT_BEGIN(S7)
JSON_OBJECT_PAIR_7(S7, F1, unsigned long, F2, bool, F3, char, F4, int, F5, long long, F6, float, F7, double)
  S7() {}
  S7(std::nullptr_t, unsigned long X0, bool X1, char X2, int X3, long long X4, float X5, double X6) : JSON_INIT(S7, X0, X1, X2, X3, X4, X5, X6) {}
JSON_OBJECT_END(S7)
JSON_DEFAULT_TRAITS(::, S7)
namespace jm { template<> struct Fields<S7> { static constexpr bool HasPtr = false; static constexpr int count() { return 7; }
  static constexpr bool IsRoot = false; static const char *name() { return "S7"; }
  static S7 make(const std::vector<std::string> &V) { return S7(nullptr, of<unsigned long>(V[0]), of<bool>(V[1]), of<char>(V[2]), of<int>(V[3]), of<long long>(V[4]), of<float>(V[5]), of<double>(V[6])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<unsigned long>("F1", X[S7::F1]); f.template operator()<bool>("F2", X[S7::F2]); f.template operator()<char>("F3", X[S7::F3]); f.template operator()<int>("F4", X[S7::F4]); f.template operator()<long long>("F5", X[S7::F5]); f.template operator()<float>("F6", X[S7::F6]); f.template operator()<double>("F7", X[S7::F7]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S7::F1]); f("F2", X[S7::F2]); f("F3", X[S7::F3]); f("F4", X[S7::F4]); f("F5", X[S7::F5]); f("F6", X[S7::F6]); f("F7", X[S7::F7]); } }; }
#endif
struct S8;
#if 7 % PARTS == PART
JSON_OBJECT_BEGIN(S8)
JSON_OBJECT_PAIR_8(S8, F1, int, F2, long long, F3, float, F4, double, F5, unsigned, F6, unsigned long, F7, bool, F8, char)
  S8() {}
  S8(std::nullptr_t, int X0, long long X1, float X2, double X3, unsigned X4, unsigned long X5, bool X6, char X7) : JSON_INIT(S8, X0, X1, X2, X3, X4, X5, X6, X7) {}
JSON_OBJECT_END(S8)
JSON_DEFAULT_TRAITS(::, S8)
namespace jm { template<> struct Fields<S8> { static constexpr bool HasPtr = false; static constexpr int count() { return 8; }
  static constexpr bool IsRoot = false; static const char *name() { return "S8"; }
  static S8 make(const std::vector<std::string> &V) { return S8(nullptr, of<int>(V[0]), of<long long>(V[1]), of<float>(V[2]), of<double>(V[3]), of<unsigned>(V[4]), of<unsigned long>(V[5]), of<bool>(V[6]), of<char>(V[7])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<int>("F1", X[S8::F1]); f.template operator()<long long>("F2", X[S8::F2]); f.template operator()<float>("F3", X[S8::F3]); f.template operator()<double>("F4", X[S8::F4]); f.template operator()<unsigned>("F5", X[S8::F5]); f.template operator()<unsigned long>("F6", X[S8::F6]); f.template operator()<bool>("F7", X[S8::F7]); f.template operator()<char>("F8", X[S8::F8]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S8::F1]); f("F2", X[S8::F2]); f("F3", X[S8::F3]); f("F4", X[S8::F4]); f("F5", X[S8::F5]); f("F6", X[S8::F6]); f("F7", X[S8::F7]); f("F8", X[S8::F8]); } }; }
#endif
struct S9;
#if 8 % PARTS == PART
JSON_OBJECT_BEGIN(S9)
JSON_OBJECT_PAIR_9(S9, F1, double, F2, unsigned, F3, unsigned long, F4, bool, F5, char, F6, int, F7, long long, F8, float, F9, double)
  S9() {}
  S9(std::nullptr_t, double X0, unsigned X1, unsigned long X2, bool X3, char X4, int X5, long long X6, float X7, double X8) : JSON_INIT(S9, X0, X1, X2, X3, X4, X5, X6, X7, X8) {}
JSON_OBJECT_END(S9)
JSON_DEFAULT_TRAITS(::, S9)
namespace jm { template<> struct Fields<S9> { static constexpr bool HasPtr = false; static constexpr int count() { return 9; }
  static constexpr bool IsRoot = false; static const char *name() { return "S9"; }
  static S9 make(const std::vector<std::string> &V) { return S9(nullptr, of<double>(V[0]), of<unsigned>(V[1]), of<unsigned long>(V[2]), of<bool>(V[3]), of<char>(V[4]), of<int>(V[5]), of<long long>(V[6]), of<float>(V[7]), of<double>(V[8])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<double>("F1", X[S9::F1]); f.template operator()<unsigned>("F2", X[S9::F2]); f.template operator()<unsigned long>("F3", X[S9::F3]); f.template operator()<bool>("F4", X[S9::F4]); f.template operator()<char>("F5", X[S9::F5]); f.template operator()<int>("F6", X[S9::F6]); f.template operator()<long long>("F7", X[S9::F7]); f.template operator()<float>("F8", X[S9::F8]); f.template operator()<double>("F9", X[S9::F9]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S9::F1]); f("F2", X[S9::F2]); f("F3", X[S9::F3]); f("F4", X[S9::F4]); f("F5", X[S9::F5]); f("F6", X[S9::F6]); f("F7", X[S9::F7]); f("F8", X[S9::F8]); f("F9", X[S9::F9]); } }; }
#endif
struct S10;
#if 9 % PARTS == PART
JSON_OBJECT_BEGIN(S10)
JSON_OBJECT_PAIR_10(S10, F1, bool, F2, char, F3, int, F4, long long, F5, float, F6, double, F7, unsigned, F8, unsigned long, F9, bool, F10, char)
  S10() {}
  S10(std::nullptr_t, bool X0, char X1, int X2, long long X3, float X4, double X5, unsigned X6, unsigned long X7, bool X8, char X9) : JSON_INIT(S10, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9) {}
JSON_OBJECT_END(S10)
JSON_DEFAULT_TRAITS(::, S10)
namespace jm { template<> struct Fields<S10> { static constexpr bool HasPtr = false; static constexpr int count() { return 10; }
  static constexpr bool IsRoot = false; static const char *name() { return "S10"; }
  static S10 make(const std::vector<std::string> &V) { return S10(nullptr, of<bool>(V[0]), of<char>(V[1]), of<int>(V[2]), of<long long>(V[3]), of<float>(V[4]), of<double>(V[5]), of<unsigned>(V[6]), of<unsigned long>(V[7]), of<bool>(V[8]), of<char>(V[9])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<bool>("F1", X[S10::F1]); f.template operator()<char>("F2", X[S10::F2]); f.template operator()<int>("F3", X[S10::F3]); f.template operator()<long long>("F4", X[S10::F4]); f.template operator()<float>("F5", X[S10::F5]); f.template operator()<double>("F6", X[S10::F6]); f.template operator()<unsigned>("F7", X[S10::F7]); f.template operator()<unsigned long>("F8", X[S10::F8]); f.template operator()<bool>("F9", X[S10::F9]); f.template operator()<char>("F10", X[S10::F10]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S10::F1]); f("F2", X[S10::F2]); f("F3", X[S10::F3]); f("F4", X[S10::F4]); f("F5", X[S10::F5]); f("F6", X[S10::F6]); f("F7", X[S10::F7]); f("F8", X[S10::F8]); f("F9", X[S10::F9]); f("F10", X[S10::F10]); } }; }
#endif
struct S11;
#if 10 % PARTS == PART
JSON_OBJECT_BEGIN(S11)
JSON_OBJECT_PAIR_11(S11, F1, long long, F2, float, F3, double, F4, unsigned, F5, unsigned long, F6, bool, F7, char, F8, int, F9, long long, F10, float, F11, double)
  S11() {}
  S11(std::nullptr_t, long long X0, float X1, double X2, unsigned X3, unsigned long X4, bool X5, char X6, int X7, long long X8, float X9, double X10) : JSON_INIT(S11, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10) {}
JSON_OBJECT_END(S11)
JSON_DEFAULT_TRAITS(::, S11)
namespace jm { template<> struct Fields<S11> { static constexpr bool HasPtr = false; static constexpr int count() { return 11; }
  static constexpr bool IsRoot = false; static const char *name() { return "S11"; }
  static S11 make(const std::vector<std::string> &V) { return S11(nullptr, of<long long>(V[0]), of<float>(V[1]), of<double>(V[2]), of<unsigned>(V[3]), of<unsigned long>(V[4]), of<bool>(V[5]), of<char>(V[6]), of<int>(V[7]), of<long long>(V[8]), of<float>(V[9]), of<double>(V[10])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<long long>("F1", X[S11::F1]); f.template operator()<float>("F2", X[S11::F2]); f.template operator()<double>("F3", X[S11::F3]); f.template operator()<unsigned>("F4", X[S11::F4]); f.template operator()<unsigned long>("F5", X[S11::F5]); f.template operator()<bool>("F6", X[S11::F6]); f.template operator()<char>("F7", X[S11::F7]); f.template operator()<int>("F8", X[S11::F8]); f.template operator()<long long>("F9", X[S11::F9]); f.template operator()<float>("F10", X[S11::F10]); f.template operator()<double>("F11", X[S11::F11]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S11::F1]); f("F2", X[S11::F2]); f("F3", X[S11::F3]); f("F4", X[S11::F4]); f("F5", X[S11::F5]); f("F6", X[S11::F6]); f("F7", X[S11::F7]); f("F8", X[S11::F8]); f("F9", X[S11::F9]); f("F10", X[S11::F10]); f("F11", X[S11::F11]); } }; }
#endif
struct S12;
#if 11 % PARTS == PART
JSON_OBJECT_BEGIN(S12)
JSON_OBJECT_PAIR_12(S12, F1, unsigned, F2, unsigned long, F3, bool, F4, char, F5, int, F6, long long, F7, float, F8, double, F9, unsigned, F10, unsigned long, F11, bool, F12, char)
  S12() {}
  S12(std::nullptr_t, unsigned X0, unsigned long X1, bool X2, char X3, int X4, long long X5, float X6, double X7, unsigned X8, unsigned long X9, bool X10, char X11) : JSON_INIT(S12, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11) {}
JSON_OBJECT_END(S12)
JSON_DEFAULT_TRAITS(::, S12)
namespace jm { template<> struct Fields<S12> { static constexpr bool HasPtr = false; static constexpr int count() { return 12; }
  static constexpr bool IsRoot = false; static const char *name() { return "S12"; }
  static S12 make(const std::vector<std::string> &V) { return S12(nullptr, of<unsigned>(V[0]), of<unsigned long>(V[1]), of<bool>(V[2]), of<char>(V[3]), of<int>(V[4]), of<long long>(V[5]), of<float>(V[6]), of<double>(V[7]), of<unsigned>(V[8]), of<unsigned long>(V[9]), of<bool>(V[10]), of<char>(V[11])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<unsigned>("F1", X[S12::F1]); f.template operator()<unsigned long>("F2", X[S12::F2]); f.template operator()<bool>("F3", X[S12::F3]); f.template operator()<char>("F4", X[S12::F4]); f.template operator()<int>("F5", X[S12::F5]); f.template operator()<long long>("F6", X[S12::F6]); f.template operator()<float>("F7", X[S12::F7]); f.template operator()<double>("F8", X[S12::F8]); f.template operator()<unsigned>("F9", X[S12::F9]); f.template operator()<unsigned long>("F10", X[S12::F10]); f.template operator()<bool>("F11", X[S12::F11]); f.template operator()<char>("F12", X[S12::F12]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S12::F1]); f("F2", X[S12::F2]); f("F3", X[S12::F3]); f("F4", X[S12::F4]); f("F5", X[S12::F5]); f("F6", X[S12::F6]); f("F7", X[S12::F7]); f("F8", X[S12::F8]); f("F9", X[S12::F9]); f("F10", X[S12::F10]); f("F11", X[S12::F11]); f("F12", X[S12::F12]); } }; }
#endif
struct S13;
#if 12 % PARTS == PART
JSON_OBJECT_BEGIN(S13)
JSON_OBJECT_PAIR_13(S13, F1, char, F2, int, F3, long long, F4, float, F5, double, F6, unsigned, F7, unsigned long, F8, bool, F9, char, F10, int, F11, long long, F12, float, F13, double)
  S13() {}
  S13(std::nullptr_t, char X0, int X1, long long X2, float X3, double X4, unsigned X5, unsigned long X6, bool X7, char X8, int X9, long long X10, float X11, double X12) : JSON_INIT(S13, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12) {}
JSON_OBJECT_END(S13)
JSON_DEFAULT_TRAITS(::, S13)
namespace jm { template<> struct Fields<S13> { static constexpr bool HasPtr = false; static constexpr int count() { return 13; }
  static constexpr bool IsRoot = false; static const char *name() { return "S13"; }
  static S13 make(const std::vector<std::string> &V) { return S13(nullptr, of<char>(V[0]), of<int>(V[1]), of<long long>(V[2]), of<float>(V[3]), of<double>(V[4]), of<unsigned>(V[5]), of<unsigned long>(V[6]), of<bool>(V[7]), of<char>(V[8]), of<int>(V[9]), of<long long>(V[10]), of<float>(V[11]), of<double>(V[12])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<char>("F1", X[S13::F1]); f.template operator()<int>("F2", X[S13::F2]); f.template operator()<long long>("F3", X[S13::F3]); f.template operator()<float>("F4", X[S13::F4]); f.template operator()<double>("F5", X[S13::F5]); f.template operator()<unsigned>("F6", X[S13::F6]); f.template operator()<unsigned long>("F7", X[S13::F7]); f.template operator()<bool>("F8", X[S13::F8]); f.template operator()<char>("F9", X[S13::F9]); f.template operator()<int>("F10", X[S13::F10]); f.template operator()<long long>("F11", X[S13::F11]); f.template operator()<float>("F12", X[S13::F12]); f.template operator()<double>("F13", X[S13::F13]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S13::F1]); f("F2", X[S13::F2]); f("F3", X[S13::F3]); f("F4", X[S13::F4]); f("F5", X[S13::F5]); f("F6", X[S13::F6]); f("F7", X[S13::F7]); f("F8", X[S13::F8]); f("F9", X[S13::F9]); f("F10", X[S13::F10]); f("F11", X[S13::F11]); f("F12", X[S13::F12]); f("F13", X[S13::F13]); } }; }
#endif
struct S14;
#if 13 % PARTS == PART
JSON_OBJECT_BEGIN(S14)
JSON_OBJECT_PAIR_14(S14, F1, float, F2, double, F3, unsigned, F4, unsigned long, F5, bool, F6, char, F7, int, F8, long long, F9, float, F10, double, F11, unsigned, F12, unsigned long, F13, bool, F14, char)
  S14() {}
  S14(std::nullptr_t, float X0, double X1, unsigned X2, unsigned long X3, bool X4, char X5, int X6, long long X7, float X8, double X9, unsigned X10, unsigned long X11, bool X12, char X13) : JSON_INIT(S14, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13) {}
JSON_OBJECT_END(S14)
JSON_DEFAULT_TRAITS(::, S14)
namespace jm { template<> struct Fields<S14> { static constexpr bool HasPtr = false; static constexpr int count() { return 14; }
  static constexpr bool IsRoot = false; static const char *name() { return "S14"; }
  static S14 make(const std::vector<std::string> &V) { return S14(nullptr, of<float>(V[0]), of<double>(V[1]), of<unsigned>(V[2]), of<unsigned long>(V[3]), of<bool>(V[4]), of<char>(V[5]), of<int>(V[6]), of<long long>(V[7]), of<float>(V[8]), of<double>(V[9]), of<unsigned>(V[10]), of<unsigned long>(V[11]), of<bool>(V[12]), of<char>(V[13])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<float>("F1", X[S14::F1]); f.template operator()<double>("F2", X[S14::F2]); f.template operator()<unsigned>("F3", X[S14::F3]); f.template operator()<unsigned long>("F4", X[S14::F4]); f.template operator()<bool>("F5", X[S14::F5]); f.template operator()<char>("F6", X[S14::F6]); f.template operator()<int>("F7", X[S14::F7]); f.template operator()<long long>("F8", X[S14::F8]); f.template operator()<float>("F9", X[S14::F9]); f.template operator()<double>("F10", X[S14::F10]); f.template operator()<unsigned>("F11", X[S14::F11]); f.template operator()<unsigned long>("F12", X[S14::F12]); f.template operator()<bool>("F13", X[S14::F13]); f.template operator()<char>("F14", X[S14::F14]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S14::F1]); f("F2", X[S14::F2]); f("F3", X[S14::F3]); f("F4", X[S14::F4]); f("F5", X[S14::F5]); f("F6", X[S14::F6]); f("F7", X[S14::F7]); f("F8", X[S14::F8]); f("F9", X[S14::F9]); f("F10", X[S14::F10]); f("F11", X[S14::F11]); f("F12", X[S14::F12]); f("F13", X[S14::F13]); f("F14", X[S14::F14]); } }; }
#endif
struct S15;
#if 14 % PARTS == PART
JSON_OBJECT_BEGIN(S15)
JSON_OBJECT_PAIR_15(S15, F1, unsigned long, F2, bool, F3, char, F4, int, F5, long long, F6, float, F7, double, F8, unsigned, F9, unsigned long, F10, bool, F11, char, F12, int, F13, long long, F14, float, F15, double)
  S15() {}
  S15(std::nullptr_t, unsigned long X0, bool X1, char X2, int X3, long long X4, float X5, double X6, unsigned X7, unsigned long X8, bool X9, char X10, int X11, long long X12, float X13, double X14) : JSON_INIT(S15, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14) {}
JSON_OBJECT_END(S15)
JSON_DEFAULT_TRAITS(::, S15)
namespace jm { template<> struct Fields<S15> { static constexpr bool HasPtr = false; static constexpr int count() { return 15; }
  static constexpr bool IsRoot = false; static const char *name() { return "S15"; }
  static S15 make(const std::vector<std::string> &V) { return S15(nullptr, of<unsigned long>(V[0]), of<bool>(V[1]), of<char>(V[2]), of<int>(V[3]), of<long long>(V[4]), of<float>(V[5]), of<double>(V[6]), of<unsigned>(V[7]), of<unsigned long>(V[8]), of<bool>(V[9]), of<char>(V[10]), of<int>(V[11]), of<long long>(V[12]), of<float>(V[13]), of<double>(V[14])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<unsigned long>("F1", X[S15::F1]); f.template operator()<bool>("F2", X[S15::F2]); f.template operator()<char>("F3", X[S15::F3]); f.template operator()<int>("F4", X[S15::F4]); f.template operator()<long long>("F5", X[S15::F5]); f.template operator()<float>("F6", X[S15::F6]); f.template operator()<double>("F7", X[S15::F7]); f.template operator()<unsigned>("F8", X[S15::F8]); f.template operator()<unsigned long>("F9", X[S15::F9]); f.template operator()<bool>("F10", X[S15::F10]); f.template operator()<char>("F11", X[S15::F11]); f.template operator()<int>("F12", X[S15::F12]); f.template operator()<long long>("F13", X[S15::F13]); f.template operator()<float>("F14", X[S15::F14]); f.template operator()<double>("F15", X[S15::F15]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S15::F1]); f("F2", X[S15::F2]); f("F3", X[S15::F3]); f("F4", X[S15::F4]); f("F5", X[S15::F5]); f("F6", X[S15::F6]); f("F7", X[S15::F7]); f("F8", X[S15::F8]); f("F9", X[S15::F9]); f("F10", X[S15::F10]); f("F11", X[S15::F11]); f("F12", X[S15::F12]); f("F13", X[S15::F13]); f("F14", X[S15::F14]); f("F15", X[S15::F15]); } }; }
#endif
struct S16;
#if 15 % PARTS == PART
JSON_OBJECT_BEGIN(S16)
JSON_OBJECT_PAIR_16(S16, F1, int, F2, long long, F3, float, F4, double, F5, unsigned, F6, unsigned long, F7, bool, F8, char, F9, int, F10, long long, F11, float, F12, double, F13, unsigned, F14, unsigned long, F15, bool, F16, char)
  S16() {}
  S16(std::nullptr_t, int X0, long long X1, float X2, double X3, unsigned X4, unsigned long X5, bool X6, char X7, int X8, long long X9, float X10, double X11, unsigned X12, unsigned long X13, bool X14, char X15) : JSON_INIT(S16, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15) {}
JSON_OBJECT_END(S16)
JSON_DEFAULT_TRAITS(::, S16)
namespace jm { template<> struct Fields<S16> { static constexpr bool HasPtr = false; static constexpr int count() { return 16; }
  static constexpr bool IsRoot = false; static const char *name() { return "S16"; }
  static S16 make(const std::vector<std::string> &V) { return S16(nullptr, of<int>(V[0]), of<long long>(V[1]), of<float>(V[2]), of<double>(V[3]), of<unsigned>(V[4]), of<unsigned long>(V[5]), of<bool>(V[6]), of<char>(V[7]), of<int>(V[8]), of<long long>(V[9]), of<float>(V[10]), of<double>(V[11]), of<unsigned>(V[12]), of<unsigned long>(V[13]), of<bool>(V[14]), of<char>(V[15])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<int>("F1", X[S16::F1]); f.template operator()<long long>("F2", X[S16::F2]); f.template operator()<float>("F3", X[S16::F3]); f.template operator()<double>("F4", X[S16::F4]); f.template operator()<unsigned>("F5", X[S16::F5]); f.template operator()<unsigned long>("F6", X[S16::F6]); f.template operator()<bool>("F7", X[S16::F7]); f.template operator()<char>("F8", X[S16::F8]); f.template operator()<int>("F9", X[S16::F9]); f.template operator()<long long>("F10", X[S16::F10]); f.template operator()<float>("F11", X[S16::F11]); f.template operator()<double>("F12", X[S16::F12]); f.template operator()<unsigned>("F13", X[S16::F13]); f.template operator()<unsigned long>("F14", X[S16::F14]); f.template operator()<bool>("F15", X[S16::F15]); f.template operator()<char>("F16", X[S16::F16]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S16::F1]); f("F2", X[S16::F2]); f("F3", X[S16::F3]); f("F4", X[S16::F4]); f("F5", X[S16::F5]); f("F6", X[S16::F6]); f("F7", X[S16::F7]); f("F8", X[S16::F8]); f("F9", X[S16::F9]); f("F10", X[S16::F10]); f("F11", X[S16::F11]); f("F12", X[S16::F12]); f("F13", X[S16::F13]); f("F14", X[S16::F14]); f("F15", X[S16::F15]); f("F16", X[S16::F16]); } }; }
#endif
struct S17;
#if 16 % PARTS == PART
JSON_OBJECT_BEGIN(S17)
JSON_OBJECT_PAIR_17(S17, F1, double, F2, unsigned, F3, unsigned long, F4, bool, F5, char, F6, int, F7, long long, F8, float, F9, double, F10, unsigned, F11, unsigned long, F12, bool, F13, char, F14, int, F15, long long, F16, float, F17, double)
  S17() {}
  S17(std::nullptr_t, double X0, unsigned X1, unsigned long X2, bool X3, char X4, int X5, long long X6, float X7, double X8, unsigned X9, unsigned long X10, bool X11, char X12, int X13, long long X14, float X15, double X16) : JSON_INIT(S17, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16) {}
JSON_OBJECT_END(S17)
JSON_DEFAULT_TRAITS(::, S17)
namespace jm { template<> struct Fields<S17> { static constexpr bool HasPtr = false; static constexpr int count() { return 17; }
  static constexpr bool IsRoot = false; static const char *name() { return "S17"; }
  static S17 make(const std::vector<std::string> &V) { return S17(nullptr, of<double>(V[0]), of<unsigned>(V[1]), of<unsigned long>(V[2]), of<bool>(V[3]), of<char>(V[4]), of<int>(V[5]), of<long long>(V[6]), of<float>(V[7]), of<double>(V[8]), of<unsigned>(V[9]), of<unsigned long>(V[10]), of<bool>(V[11]), of<char>(V[12]), of<int>(V[13]), of<long long>(V[14]), of<float>(V[15]), of<double>(V[16])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<double>("F1", X[S17::F1]); f.template operator()<unsigned>("F2", X[S17::F2]); f.template operator()<unsigned long>("F3", X[S17::F3]); f.template operator()<bool>("F4", X[S17::F4]); f.template operator()<char>("F5", X[S17::F5]); f.template operator()<int>("F6", X[S17::F6]); f.template operator()<long long>("F7", X[S17::F7]); f.template operator()<float>("F8", X[S17::F8]); f.template operator()<double>("F9", X[S17::F9]); f.template operator()<unsigned>("F10", X[S17::F10]); f.template operator()<unsigned long>("F11", X[S17::F11]); f.template operator()<bool>("F12", X[S17::F12]); f.template operator()<char>("F13", X[S17::F13]); f.template operator()<int>("F14", X[S17::F14]); f.template operator()<long long>("F15", X[S17::F15]); f.template operator()<float>("F16", X[S17::F16]); f.template operator()<double>("F17", X[S17::F17]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S17::F1]); f("F2", X[S17::F2]); f("F3", X[S17::F3]); f("F4", X[S17::F4]); f("F5", X[S17::F5]); f("F6", X[S17::F6]); f("F7", X[S17::F7]); f("F8", X[S17::F8]); f("F9", X[S17::F9]); f("F10", X[S17::F10]); f("F11", X[S17::F11]); f("F12", X[S17::F12]); f("F13", X[S17::F13]); f("F14", X[S17::F14]); f("F15", X[S17::F15]); f("F16", X[S17::F16]); f("F17", X[S17::F17]); } }; }
#endif
struct S18;
#if 17 % PARTS == PART
JSON_OBJECT_BEGIN(S18)
JSON_OBJECT_PAIR_18(S18, F1, bool, F2, char, F3, int, F4, long long, F5, float, F6, double, F7, unsigned, F8, unsigned long, F9, bool, F10, char, F11, int, F12, long long, F13, float, F14, double, F15, unsigned, F16, unsigned long, F17, bool, F18, char)
  S18() {}
  S18(std::nullptr_t, bool X0, char X1, int X2, long long X3, float X4, double X5, unsigned X6, unsigned long X7, bool X8, char X9, int X10, long long X11, float X12, double X13, unsigned X14, unsigned long X15, bool X16, char X17) : JSON_INIT(S18, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17) {}
JSON_OBJECT_END(S18)
JSON_DEFAULT_TRAITS(::, S18)
namespace jm { template<> struct Fields<S18> { static constexpr bool HasPtr = false; static constexpr int count() { return 18; }
  static constexpr bool IsRoot = false; static const char *name() { return "S18"; }
  static S18 make(const std::vector<std::string> &V) { return S18(nullptr, of<bool>(V[0]), of<char>(V[1]), of<int>(V[2]), of<long long>(V[3]), of<float>(V[4]), of<double>(V[5]), of<unsigned>(V[6]), of<unsigned long>(V[7]), of<bool>(V[8]), of<char>(V[9]), of<int>(V[10]), of<long long>(V[11]), of<float>(V[12]), of<double>(V[13]), of<unsigned>(V[14]), of<unsigned long>(V[15]), of<bool>(V[16]), of<char>(V[17])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<bool>("F1", X[S18::F1]); f.template operator()<char>("F2", X[S18::F2]); f.template operator()<int>("F3", X[S18::F3]); f.template operator()<long long>("F4", X[S18::F4]); f.template operator()<float>("F5", X[S18::F5]); f.template operator()<double>("F6", X[S18::F6]); f.template operator()<unsigned>("F7", X[S18::F7]); f.template operator()<unsigned long>("F8", X[S18::F8]); f.template operator()<bool>("F9", X[S18::F9]); f.template operator()<char>("F10", X[S18::F10]); f.template operator()<int>("F11", X[S18::F11]); f.template operator()<long long>("F12", X[S18::F12]); f.template operator()<float>("F13", X[S18::F13]); f.template operator()<double>("F14", X[S18::F14]); f.template operator()<unsigned>("F15", X[S18::F15]); f.template operator()<unsigned long>("F16", X[S18::F16]); f.template operator()<bool>("F17", X[S18::F17]); f.template operator()<char>("F18", X[S18::F18]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S18::F1]); f("F2", X[S18::F2]); f("F3", X[S18::F3]); f("F4", X[S18::F4]); f("F5", X[S18::F5]); f("F6", X[S18::F6]); f("F7", X[S18::F7]); f("F8", X[S18::F8]); f("F9", X[S18::F9]); f("F10", X[S18::F10]); f("F11", X[S18::F11]); f("F12", X[S18::F12]); f("F13", X[S18::F13]); f("F14", X[S18::F14]); f("F15", X[S18::F15]); f("F16", X[S18::F16]); f("F17", X[S18::F17]); f("F18", X[S18::F18]); } }; }
#endif
struct S19;
#if 18 % PARTS == PART
JSON_OBJECT_BEGIN(S19)
JSON_OBJECT_PAIR_19(S19, F1, long long, F2, float, F3, double, F4, unsigned, F5, unsigned long, F6, bool, F7, char, F8, int, F9, long long, F10, float, F11, double, F12, unsigned, F13, unsigned long, F14, bool, F15, char, F16, int, F17, long long, F18, float, F19, double)
  S19() {}
  S19(std::nullptr_t, long long X0, float X1, double X2, unsigned X3, unsigned long X4, bool X5, char X6, int X7, long long X8, float X9, double X10, unsigned X11, unsigned long X12, bool X13, char X14, int X15, long long X16, float X17, double X18) : JSON_INIT(S19, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18) {}
JSON_OBJECT_END(S19)
JSON_DEFAULT_TRAITS(::, S19)
namespace jm { template<> struct Fields<S19> { static constexpr bool HasPtr = false; static constexpr int count() { return 19; }
  static constexpr bool IsRoot = false; static const char *name() { return "S19"; }
  static S19 make(const std::vector<std::string> &V) { return S19(nullptr, of<long long>(V[0]), of<float>(V[1]), of<double>(V[2]), of<unsigned>(V[3]), of<unsigned long>(V[4]), of<bool>(V[5]), of<char>(V[6]), of<int>(V[7]), of<long long>(V[8]), of<float>(V[9]), of<double>(V[10]), of<unsigned>(V[11]), of<unsigned long>(V[12]), of<bool>(V[13]), of<char>(V[14]), of<int>(V[15]), of<long long>(V[16]), of<float>(V[17]), of<double>(V[18])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<long long>("F1", X[S19::F1]); f.template operator()<float>("F2", X[S19::F2]); f.template operator()<double>("F3", X[S19::F3]); f.template operator()<unsigned>("F4", X[S19::F4]); f.template operator()<unsigned long>("F5", X[S19::F5]); f.template operator()<bool>("F6", X[S19::F6]); f.template operator()<char>("F7", X[S19::F7]); f.template operator()<int>("F8", X[S19::F8]); f.template operator()<long long>("F9", X[S19::F9]); f.template operator()<float>("F10", X[S19::F10]); f.template operator()<double>("F11", X[S19::F11]); f.template operator()<unsigned>("F12", X[S19::F12]); f.template operator()<unsigned long>("F13", X[S19::F13]); f.template operator()<bool>("F14", X[S19::F14]); f.template operator()<char>("F15", X[S19::F15]); f.template operator()<int>("F16", X[S19::F16]); f.template operator()<long long>("F17", X[S19::F17]); f.template operator()<float>("F18", X[S19::F18]); f.template operator()<double>("F19", X[S19::F19]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S19::F1]); f("F2", X[S19::F2]); f("F3", X[S19::F3]); f("F4", X[S19::F4]); f("F5", X[S19::F5]); f("F6", X[S19::F6]); f("F7", X[S19::F7]); f("F8", X[S19::F8]); f("F9", X[S19::F9]); f("F10", X[S19::F10]); f("F11", X[S19::F11]); f("F12", X[S19::F12]); f("F13", X[S19::F13]); f("F14", X[S19::F14]); f("F15", X[S19::F15]); f("F16", X[S19::F16]); f("F17", X[S19::F17]); f("F18", X[S19::F18]); f("F19", X[S19::F19]); } }; }
#endif
struct S20;
#if 19 % PARTS == PART
JSON_OBJECT_BEGIN(S20)
JSON_OBJECT_PAIR_20(S20, F1, unsigned, F2, unsigned long, F3, bool, F4, char, F5, int, F6, long long, F7, float, F8, double, F9, unsigned, F10, unsigned long, F11, bool, F12, char, F13, int, F14, long long, F15, float, F16, double, F17, unsigned, F18, unsigned long, F19, bool, F20, char)
  S20() {}
  S20(std::nullptr_t, unsigned X0, unsigned long X1, bool X2, char X3, int X4, long long X5, float X6, double X7, unsigned X8, unsigned long X9, bool X10, char X11, int X12, long long X13, float X14, double X15, unsigned X16, unsigned long X17, bool X18, char X19) : JSON_INIT(S20, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19) {}
JSON_OBJECT_END(S20)
JSON_DEFAULT_TRAITS(::, S20)
namespace jm { template<> struct Fields<S20> { static constexpr bool HasPtr = false; static constexpr int count() { return 20; }
  static constexpr bool IsRoot = false; static const char *name() { return "S20"; }
  static S20 make(const std::vector<std::string> &V) { return S20(nullptr, of<unsigned>(V[0]), of<unsigned long>(V[1]), of<bool>(V[2]), of<char>(V[3]), of<int>(V[4]), of<long long>(V[5]), of<float>(V[6]), of<double>(V[7]), of<unsigned>(V[8]), of<unsigned long>(V[9]), of<bool>(V[10]), of<char>(V[11]), of<int>(V[12]), of<long long>(V[13]), of<float>(V[14]), of<double>(V[15]), of<unsigned>(V[16]), of<unsigned long>(V[17]), of<bool>(V[18]), of<char>(V[19])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<unsigned>("F1", X[S20::F1]); f.template operator()<unsigned long>("F2", X[S20::F2]); f.template operator()<bool>("F3", X[S20::F3]); f.template operator()<char>("F4", X[S20::F4]); f.template operator()<int>("F5", X[S20::F5]); f.template operator()<long long>("F6", X[S20::F6]); f.template operator()<float>("F7", X[S20::F7]); f.template operator()<double>("F8", X[S20::F8]); f.template operator()<unsigned>("F9", X[S20::F9]); f.template operator()<unsigned long>("F10", X[S20::F10]); f.template operator()<bool>("F11", X[S20::F11]); f.template operator()<char>("F12", X[S20::F12]); f.template operator()<int>("F13", X[S20::F13]); f.template operator()<long long>("F14", X[S20::F14]); f.template operator()<float>("F15", X[S20::F15]); f.template operator()<double>("F16", X[S20::F16]); f.template operator()<unsigned>("F17", X[S20::F17]); f.template operator()<unsigned long>("F18", X[S20::F18]); f.template operator()<bool>("F19", X[S20::F19]); f.template operator()<char>("F20", X[S20::F20]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S20::F1]); f("F2", X[S20::F2]); f("F3", X[S20::F3]); f("F4", X[S20::F4]); f("F5", X[S20::F5]); f("F6", X[S20::F6]); f("F7", X[S20::F7]); f("F8", X[S20::F8]); f("F9", X[S20::F9]); f("F10", X[S20::F10]); f("F11", X[S20::F11]); f("F12", X[S20::F12]); f("F13", X[S20::F13]); f("F14", X[S20::F14]); f("F15", X[S20::F15]); f("F16", X[S20::F16]); f("F17", X[S20::F17]); f("F18", X[S20::F18]); f("F19", X[S20::F19]); f("F20", X[S20::F20]); } }; }
#endif
struct S21;
#if 20 % PARTS == PART
JSON_OBJECT_BEGIN(S21)
JSON_OBJECT_PAIR_21(S21, F1, char, F2, int, F3, long long, F4, float, F5, double, F6, unsigned, F7, unsigned long, F8, bool, F9, char, F10, int, F11, long long, F12, float, F13, double, F14, unsigned, F15, unsigned long, F16, bool, F17, char, F18, int, F19, long long, F20, float, F21, double)
  S21() {}
  S21(std::nullptr_t, char X0, int X1, long long X2, float X3, double X4, unsigned X5, unsigned long X6, bool X7, char X8, int X9, long long X10, float X11, double X12, unsigned X13, unsigned long X14, bool X15, char X16, int X17, long long X18, float X19, double X20) : JSON_INIT(S21, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19, X20) {}
JSON_OBJECT_END(S21)
JSON_DEFAULT_TRAITS(::, S21)
namespace jm { template<> struct Fields<S21> { static constexpr bool HasPtr = false; static constexpr int count() { return 21; }
  static constexpr bool IsRoot = false; static const char *name() { return "S21"; }
  static S21 make(const std::vector<std::string> &V) { return S21(nullptr, of<char>(V[0]), of<int>(V[1]), of<long long>(V[2]), of<float>(V[3]), of<double>(V[4]), of<unsigned>(V[5]), of<unsigned long>(V[6]), of<bool>(V[7]), of<char>(V[8]), of<int>(V[9]), of<long long>(V[10]), of<float>(V[11]), of<double>(V[12]), of<unsigned>(V[13]), of<unsigned long>(V[14]), of<bool>(V[15]), of<char>(V[16]), of<int>(V[17]), of<long long>(V[18]), of<float>(V[19]), of<double>(V[20])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<char>("F1", X[S21::F1]); f.template operator()<int>("F2", X[S21::F2]); f.template operator()<long long>("F3", X[S21::F3]); f.template operator()<float>("F4", X[S21::F4]); f.template operator()<double>("F5", X[S21::F5]); f.template operator()<unsigned>("F6", X[S21::F6]); f.template operator()<unsigned long>("F7", X[S21::F7]); f.template operator()<bool>("F8", X[S21::F8]); f.template operator()<char>("F9", X[S21::F9]); f.template operator()<int>("F10", X[S21::F10]); f.template operator()<long long>("F11", X[S21::F11]); f.template operator()<float>("F12", X[S21::F12]); f.template operator()<double>("F13", X[S21::F13]); f.template operator()<unsigned>("F14", X[S21::F14]); f.template operator()<unsigned long>("F15", X[S21::F15]); f.template operator()<bool>("F16", X[S21::F16]); f.template operator()<char>("F17", X[S21::F17]); f.template operator()<int>("F18", X[S21::F18]); f.template operator()<long long>("F19", X[S21::F19]); f.template operator()<float>("F20", X[S21::F20]); f.template operator()<double>("F21", X[S21::F21]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S21::F1]); f("F2", X[S21::F2]); f("F3", X[S21::F3]); f("F4", X[S21::F4]); f("F5", X[S21::F5]); f("F6", X[S21::F6]); f("F7", X[S21::F7]); f("F8", X[S21::F8]); f("F9", X[S21::F9]); f("F10", X[S21::F10]); f("F11", X[S21::F11]); f("F12", X[S21::F12]); f("F13", X[S21::F13]); f("F14", X[S21::F14]); f("F15", X[S21::F15]); f("F16", X[S21::F16]); f("F17", X[S21::F17]); f("F18", X[S21::F18]); f("F19", X[S21::F19]); f("F20", X[S21::F20]); f("F21", X[S21::F21]); } }; }
#endif
struct S22;
#if 21 % PARTS == PART
JSON_OBJECT_BEGIN(S22)
JSON_OBJECT_PAIR_22(S22, F1, float, F2, double, F3, unsigned, F4, unsigned long, F5, bool, F6, char, F7, int, F8, long long, F9, float, F10, double, F11, unsigned, F12, unsigned long, F13, bool, F14, char, F15, int, F16, long long, F17, float, F18, double, F19, unsigned, F20, unsigned long, F21, bool, F22, char)
  S22() {}
  S22(std::nullptr_t, float X0, double X1, unsigned X2, unsigned long X3, bool X4, char X5, int X6, long long X7, float X8, double X9, unsigned X10, unsigned long X11, bool X12, char X13, int X14, long long X15, float X16, double X17, unsigned X18, unsigned long X19, bool X20, char X21) : JSON_INIT(S22, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19, X20, X21) {}
JSON_OBJECT_END(S22)
JSON_DEFAULT_TRAITS(::, S22)
namespace jm { template<> struct Fields<S22> { static constexpr bool HasPtr = false; static constexpr int count() { return 22; }
  static constexpr bool IsRoot = false; static const char *name() { return "S22"; }
  static S22 make(const std::vector<std::string> &V) { return S22(nullptr, of<float>(V[0]), of<double>(V[1]), of<unsigned>(V[2]), of<unsigned long>(V[3]), of<bool>(V[4]), of<char>(V[5]), of<int>(V[6]), of<long long>(V[7]), of<float>(V[8]), of<double>(V[9]), of<unsigned>(V[10]), of<unsigned long>(V[11]), of<bool>(V[12]), of<char>(V[13]), of<int>(V[14]), of<long long>(V[15]), of<float>(V[16]), of<double>(V[17]), of<unsigned>(V[18]), of<unsigned long>(V[19]), of<bool>(V[20]), of<char>(V[21])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<float>("F1", X[S22::F1]); f.template operator()<double>("F2", X[S22::F2]); f.template operator()<unsigned>("F3", X[S22::F3]); f.template operator()<unsigned long>("F4", X[S22::F4]); f.template operator()<bool>("F5", X[S22::F5]); f.template operator()<char>("F6", X[S22::F6]); f.template operator()<int>("F7", X[S22::F7]); f.template operator()<long long>("F8", X[S22::F8]); f.template operator()<float>("F9", X[S22::F9]); f.template operator()<double>("F10", X[S22::F10]); f.template operator()<unsigned>("F11", X[S22::F11]); f.template operator()<unsigned long>("F12", X[S22::F12]); f.template operator()<bool>("F13", X[S22::F13]); f.template operator()<char>("F14", X[S22::F14]); f.template operator()<int>("F15", X[S22::F15]); f.template operator()<long long>("F16", X[S22::F16]); f.template operator()<float>("F17", X[S22::F17]); f.template operator()<double>("F18", X[S22::F18]); f.template operator()<unsigned>("F19", X[S22::F19]); f.template operator()<unsigned long>("F20", X[S22::F20]); f.template operator()<bool>("F21", X[S22::F21]); f.template operator()<char>("F22", X[S22::F22]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S22::F1]); f("F2", X[S22::F2]); f("F3", X[S22::F3]); f("F4", X[S22::F4]); f("F5", X[S22::F5]); f("F6", X[S22::F6]); f("F7", X[S22::F7]); f("F8", X[S22::F8]); f("F9", X[S22::F9]); f("F10", X[S22::F10]); f("F11", X[S22::F11]); f("F12", X[S22::F12]); f("F13", X[S22::F13]); f("F14", X[S22::F14]); f("F15", X[S22::F15]); f("F16", X[S22::F16]); f("F17", X[S22::F17]); f("F18", X[S22::F18]); f("F19", X[S22::F19]); f("F20", X[S22::F20]); f("F21", X[S22::F21]); f("F22", X[S22::F22]); } }; }
#endif
struct S23;
#if 22 % PARTS == PART
JSON_OBJECT_BEGIN(S23)
JSON_OBJECT_PAIR_23(S23, F1, unsigned long, F2, bool, F3, char, F4, int, F5, long long, F6, float, F7, double, F8, unsigned, F9, unsigned long, F10, bool, F11, char, F12, int, F13, long long, F14, float, F15, double, F16, unsigned, F17, unsigned long, F18, bool, F19, char, F20, int, F21, long long, F22, float, F23, double)
  S23() {}
  S23(std::nullptr_t, unsigned long X0, bool X1, char X2, int X3, long long X4, float X5, double X6, unsigned X7, unsigned long X8, bool X9, char X10, int X11, long long X12, float X13, double X14, unsigned X15, unsigned long X16, bool X17, char X18, int X19, long long X20, float X21, double X22) : JSON_INIT(S23, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19, X20, X21, X22) {}
JSON_OBJECT_END(S23)
JSON_DEFAULT_TRAITS(::, S23)
namespace jm { template<> struct Fields<S23> { static constexpr bool HasPtr = false; static constexpr int count() { return 23; }
  static constexpr bool IsRoot = false; static const char *name() { return "S23"; }
  static S23 make(const std::vector<std::string> &V) { return S23(nullptr, of<unsigned long>(V[0]), of<bool>(V[1]), of<char>(V[2]), of<int>(V[3]), of<long long>(V[4]), of<float>(V[5]), of<double>(V[6]), of<unsigned>(V[7]), of<unsigned long>(V[8]), of<bool>(V[9]), of<char>(V[10]), of<int>(V[11]), of<long long>(V[12]), of<float>(V[13]), of<double>(V[14]), of<unsigned>(V[15]), of<unsigned long>(V[16]), of<bool>(V[17]), of<char>(V[18]), of<int>(V[19]), of<long long>(V[20]), of<float>(V[21]), of<double>(V[22])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<unsigned long>("F1", X[S23::F1]); f.template operator()<bool>("F2", X[S23::F2]); f.template operator()<char>("F3", X[S23::F3]); f.template operator()<int>("F4", X[S23::F4]); f.template operator()<long long>("F5", X[S23::F5]); f.template operator()<float>("F6", X[S23::F6]); f.template operator()<double>("F7", X[S23::F7]); f.template operator()<unsigned>("F8", X[S23::F8]); f.template operator()<unsigned long>("F9", X[S23::F9]); f.template operator()<bool>("F10", X[S23::F10]); f.template operator()<char>("F11", X[S23::F11]); f.template operator()<int>("F12", X[S23::F12]); f.template operator()<long long>("F13", X[S23::F13]); f.template operator()<float>("F14", X[S23::F14]); f.template operator()<double>("F15", X[S23::F15]); f.template operator()<unsigned>("F16", X[S23::F16]); f.template operator()<unsigned long>("F17", X[S23::F17]); f.template operator()<bool>("F18", X[S23::F18]); f.template operator()<char>("F19", X[S23::F19]); f.template operator()<int>("F20", X[S23::F20]); f.template operator()<long long>("F21", X[S23::F21]); f.template operator()<float>("F22", X[S23::F22]); f.template operator()<double>("F23", X[S23::F23]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S23::F1]); f("F2", X[S23::F2]); f("F3", X[S23::F3]); f("F4", X[S23::F4]); f("F5", X[S23::F5]); f("F6", X[S23::F6]); f("F7", X[S23::F7]); f("F8", X[S23::F8]); f("F9", X[S23::F9]); f("F10", X[S23::F10]); f("F11", X[S23::F11]); f("F12", X[S23::F12]); f("F13", X[S23::F13]); f("F14", X[S23::F14]); f("F15", X[S23::F15]); f("F16", X[S23::F16]); f("F17", X[S23::F17]); f("F18", X[S23::F18]); f("F19", X[S23::F19]); f("F20", X[S23::F20]); f("F21", X[S23::F21]); f("F22", X[S23::F22]); f("F23", X[S23::F23]); } }; }
#endif
struct S24;
#if 23 % PARTS == PART
JSON_OBJECT_BEGIN(S24)
JSON_OBJECT_PAIR_24(S24, F1, int, F2, long long, F3, float, F4, double, F5, unsigned, F6, unsigned long, F7, bool, F8, char, F9, int, F10, long long, F11, float, F12, double, F13, unsigned, F14, unsigned long, F15, bool, F16, char, F17, int, F18, long long, F19, float, F20, double, F21, unsigned, F22, unsigned long, F23, bool, F24, char)
  S24() {}
  S24(std::nullptr_t, int X0, long long X1, float X2, double X3, unsigned X4, unsigned long X5, bool X6, char X7, int X8, long long X9, float X10, double X11, unsigned X12, unsigned long X13, bool X14, char X15, int X16, long long X17, float X18, double X19, unsigned X20, unsigned long X21, bool X22, char X23) : JSON_INIT(S24, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19, X20, X21, X22, X23) {}
JSON_OBJECT_END(S24)
JSON_DEFAULT_TRAITS(::, S24)
namespace jm { template<> struct Fields<S24> { static constexpr bool HasPtr = false; static constexpr int count() { return 24; }
  static constexpr bool IsRoot = false; static const char *name() { return "S24"; }
  static S24 make(const std::vector<std::string> &V) { return S24(nullptr, of<int>(V[0]), of<long long>(V[1]), of<float>(V[2]), of<double>(V[3]), of<unsigned>(V[4]), of<unsigned long>(V[5]), of<bool>(V[6]), of<char>(V[7]), of<int>(V[8]), of<long long>(V[9]), of<float>(V[10]), of<double>(V[11]), of<unsigned>(V[12]), of<unsigned long>(V[13]), of<bool>(V[14]), of<char>(V[15]), of<int>(V[16]), of<long long>(V[17]), of<float>(V[18]), of<double>(V[19]), of<unsigned>(V[20]), of<unsigned long>(V[21]), of<bool>(V[22]), of<char>(V[23])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<int>("F1", X[S24::F1]); f.template operator()<long long>("F2", X[S24::F2]); f.template operator()<float>("F3", X[S24::F3]); f.template operator()<double>("F4", X[S24::F4]); f.template operator()<unsigned>("F5", X[S24::F5]); f.template operator()<unsigned long>("F6", X[S24::F6]); f.template operator()<bool>("F7", X[S24::F7]); f.template operator()<char>("F8", X[S24::F8]); f.template operator()<int>("F9", X[S24::F9]); f.template operator()<long long>("F10", X[S24::F10]); f.template operator()<float>("F11", X[S24::F11]); f.template operator()<double>("F12", X[S24::F12]); f.template operator()<unsigned>("F13", X[S24::F13]); f.template operator()<unsigned long>("F14", X[S24::F14]); f.template operator()<bool>("F15", X[S24::F15]); f.template operator()<char>("F16", X[S24::F16]); f.template operator()<int>("F17", X[S24::F17]); f.template operator()<long long>("F18", X[S24::F18]); f.template operator()<float>("F19", X[S24::F19]); f.template operator()<double>("F20", X[S24::F20]); f.template operator()<unsigned>("F21", X[S24::F21]); f.template operator()<unsigned long>("F22", X[S24::F22]); f.template operator()<bool>("F23", X[S24::F23]); f.template operator()<char>("F24", X[S24::F24]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S24::F1]); f("F2", X[S24::F2]); f("F3", X[S24::F3]); f("F4", X[S24::F4]); f("F5", X[S24::F5]); f("F6", X[S24::F6]); f("F7", X[S24::F7]); f("F8", X[S24::F8]); f("F9", X[S24::F9]); f("F10", X[S24::F10]); f("F11", X[S24::F11]); f("F12", X[S24::F12]); f("F13", X[S24::F13]); f("F14", X[S24::F14]); f("F15", X[S24::F15]); f("F16", X[S24::F16]); f("F17", X[S24::F17]); f("F18", X[S24::F18]); f("F19", X[S24::F19]); f("F20", X[S24::F20]); f("F21", X[S24::F21]); f("F22", X[S24::F22]); f("F23", X[S24::F23]); f("F24", X[S24::F24]); } }; }
#endif
struct S25;
#if 24 % PARTS == PART
JSON_OBJECT_BEGIN(S25)
JSON_OBJECT_PAIR_25(S25, F1, double, F2, unsigned, F3, unsigned long, F4, bool, F5, char, F6, int, F7, long long, F8, float, F9, double, F10, unsigned, F11, unsigned long, F12, bool, F13, char, F14, int, F15, long long, F16, float, F17, double, F18, unsigned, F19, unsigned long, F20, bool, F21, char, F22, int, F23, long long, F24, float, F25, double)
  S25() {}
  S25(std::nullptr_t, double X0, unsigned X1, unsigned long X2, bool X3, char X4, int X5, long long X6, float X7, double X8, unsigned X9, unsigned long X10, bool X11, char X12, int X13, long long X14, float X15, double X16, unsigned X17, unsigned long X18, bool X19, char X20, int X21, long long X22, float X23, double X24) : JSON_INIT(S25, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19, X20, X21, X22, X23, X24) {}
JSON_OBJECT_END(S25)
JSON_DEFAULT_TRAITS(::, S25)
namespace jm { template<> struct Fields<S25> { static constexpr bool HasPtr = false; static constexpr int count() { return 25; }
  static constexpr bool IsRoot = false; static const char *name() { return "S25"; }
  static S25 make(const std::vector<std::string> &V) { return S25(nullptr, of<double>(V[0]), of<unsigned>(V[1]), of<unsigned long>(V[2]), of<bool>(V[3]), of<char>(V[4]), of<int>(V[5]), of<long long>(V[6]), of<float>(V[7]), of<double>(V[8]), of<unsigned>(V[9]), of<unsigned long>(V[10]), of<bool>(V[11]), of<char>(V[12]), of<int>(V[13]), of<long long>(V[14]), of<float>(V[15]), of<double>(V[16]), of<unsigned>(V[17]), of<unsigned long>(V[18]), of<bool>(V[19]), of<char>(V[20]), of<int>(V[21]), of<long long>(V[22]), of<float>(V[23]), of<double>(V[24])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<double>("F1", X[S25::F1]); f.template operator()<unsigned>("F2", X[S25::F2]); f.template operator()<unsigned long>("F3", X[S25::F3]); f.template operator()<bool>("F4", X[S25::F4]); f.template operator()<char>("F5", X[S25::F5]); f.template operator()<int>("F6", X[S25::F6]); f.template operator()<long long>("F7", X[S25::F7]); f.template operator()<float>("F8", X[S25::F8]); f.template operator()<double>("F9", X[S25::F9]); f.template operator()<unsigned>("F10", X[S25::F10]); f.template operator()<unsigned long>("F11", X[S25::F11]); f.template operator()<bool>("F12", X[S25::F12]); f.template operator()<char>("F13", X[S25::F13]); f.template operator()<int>("F14", X[S25::F14]); f.template operator()<long long>("F15", X[S25::F15]); f.template operator()<float>("F16", X[S25::F16]); f.template operator()<double>("F17", X[S25::F17]); f.template operator()<unsigned>("F18", X[S25::F18]); f.template operator()<unsigned long>("F19", X[S25::F19]); f.template operator()<bool>("F20", X[S25::F20]); f.template operator()<char>("F21", X[S25::F21]); f.template operator()<int>("F22", X[S25::F22]); f.template operator()<long long>("F23", X[S25::F23]); f.template operator()<float>("F24", X[S25::F24]); f.template operator()<double>("F25", X[S25::F25]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S25::F1]); f("F2", X[S25::F2]); f("F3", X[S25::F3]); f("F4", X[S25::F4]); f("F5", X[S25::F5]); f("F6", X[S25::F6]); f("F7", X[S25::F7]); f("F8", X[S25::F8]); f("F9", X[S25::F9]); f("F10", X[S25::F10]); f("F11", X[S25::F11]); f("F12", X[S25::F12]); f("F13", X[S25::F13]); f("F14", X[S25::F14]); f("F15", X[S25::F15]); f("F16", X[S25::F16]); f("F17", X[S25::F17]); f("F18", X[S25::F18]); f("F19", X[S25::F19]); f("F20", X[S25::F20]); f("F21", X[S25::F21]); f("F22", X[S25::F22]); f("F23", X[S25::F23]); f("F24", X[S25::F24]); f("F25", X[S25::F25]); } }; }
#endif
struct S26;
#if 25 % PARTS == PART
JSON_OBJECT_BEGIN(S26)
JSON_OBJECT_PAIR_26(S26, F1, bool, F2, char, F3, int, F4, long long, F5, float, F6, double, F7, unsigned, F8, unsigned long, F9, bool, F10, char, F11, int, F12, long long, F13, float, F14, double, F15, unsigned, F16, unsigned long, F17, bool, F18, char, F19, int, F20, long long, F21, float, F22, double, F23, unsigned, F24, unsigned long, F25, bool, F26, char)
  S26() {}
  S26(std::nullptr_t, bool X0, char X1, int X2, long long X3, float X4, double X5, unsigned X6, unsigned long X7, bool X8, char X9, int X10, long long X11, float X12, double X13, unsigned X14, unsigned long X15, bool X16, char X17, int X18, long long X19, float X20, double X21, unsigned X22, unsigned long X23, bool X24, char X25) : JSON_INIT(S26, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19, X20, X21, X22, X23, X24, X25) {}
JSON_OBJECT_END(S26)
JSON_DEFAULT_TRAITS(::, S26)
namespace jm { template<> struct Fields<S26> { static constexpr bool HasPtr = false; static constexpr int count() { return 26; }
  static constexpr bool IsRoot = false; static const char *name() { return "S26"; }
  static S26 make(const std::vector<std::string> &V) { return S26(nullptr, of<bool>(V[0]), of<char>(V[1]), of<int>(V[2]), of<long long>(V[3]), of<float>(V[4]), of<double>(V[5]), of<unsigned>(V[6]), of<unsigned long>(V[7]), of<bool>(V[8]), of<char>(V[9]), of<int>(V[10]), of<long long>(V[11]), of<float>(V[12]), of<double>(V[13]), of<unsigned>(V[14]), of<unsigned long>(V[15]), of<bool>(V[16]), of<char>(V[17]), of<int>(V[18]), of<long long>(V[19]), of<float>(V[20]), of<double>(V[21]), of<unsigned>(V[22]), of<unsigned long>(V[23]), of<bool>(V[24]), of<char>(V[25])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<bool>("F1", X[S26::F1]); f.template operator()<char>("F2", X[S26::F2]); f.template operator()<int>("F3", X[S26::F3]); f.template operator()<long long>("F4", X[S26::F4]); f.template operator()<float>("F5", X[S26::F5]); f.template operator()<double>("F6", X[S26::F6]); f.template operator()<unsigned>("F7", X[S26::F7]); f.template operator()<unsigned long>("F8", X[S26::F8]); f.template operator()<bool>("F9", X[S26::F9]); f.template operator()<char>("F10", X[S26::F10]); f.template operator()<int>("F11", X[S26::F11]); f.template operator()<long long>("F12", X[S26::F12]); f.template operator()<float>("F13", X[S26::F13]); f.template operator()<double>("F14", X[S26::F14]); f.template operator()<unsigned>("F15", X[S26::F15]); f.template operator()<unsigned long>("F16", X[S26::F16]); f.template operator()<bool>("F17", X[S26::F17]); f.template operator()<char>("F18", X[S26::F18]); f.template operator()<int>("F19", X[S26::F19]); f.template operator()<long long>("F20", X[S26::F20]); f.template operator()<float>("F21", X[S26::F21]); f.template operator()<double>("F22", X[S26::F22]); f.template operator()<unsigned>("F23", X[S26::F23]); f.template operator()<unsigned long>("F24", X[S26::F24]); f.template operator()<bool>("F25", X[S26::F25]); f.template operator()<char>("F26", X[S26::F26]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S26::F1]); f("F2", X[S26::F2]); f("F3", X[S26::F3]); f("F4", X[S26::F4]); f("F5", X[S26::F5]); f("F6", X[S26::F6]); f("F7", X[S26::F7]); f("F8", X[S26::F8]); f("F9", X[S26::F9]); f("F10", X[S26::F10]); f("F11", X[S26::F11]); f("F12", X[S26::F12]); f("F13", X[S26::F13]); f("F14", X[S26::F14]); f("F15", X[S26::F15]); f("F16", X[S26::F16]); f("F17", X[S26::F17]); f("F18", X[S26::F18]); f("F19", X[S26::F19]); f("F20", X[S26::F20]); f("F21", X[S26::F21]); f("F22", X[S26::F22]); f("F23", X[S26::F23]); f("F24", X[S26::F24]); f("F25", X[S26::F25]); f("F26", X[S26::F26]); } }; }
#endif
struct S27;
#if 26 % PARTS == PART
JSON_OBJECT_BEGIN(S27)
JSON_OBJECT_PAIR_27(S27, F1, long long, F2, float, F3, double, F4, unsigned, F5, unsigned long, F6, bool, F7, char, F8, int, F9, long long, F10, float, F11, double, F12, unsigned, F13, unsigned long, F14, bool, F15, char, F16, int, F17, long long, F18, float, F19, double, F20, unsigned, F21, unsigned long, F22, bool, F23, char, F24, int, F25, long long, F26, float, F27, double)
  S27() {}
  S27(std::nullptr_t, long long X0, float X1, double X2, unsigned X3, unsigned long X4, bool X5, char X6, int X7, long long X8, float X9, double X10, unsigned X11, unsigned long X12, bool X13, char X14, int X15, long long X16, float X17, double X18, unsigned X19, unsigned long X20, bool X21, char X22, int X23, long long X24, float X25, double X26) : JSON_INIT(S27, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19, X20, X21, X22, X23, X24, X25, X26) {}
JSON_OBJECT_END(S27)
JSON_DEFAULT_TRAITS(::, S27)
namespace jm { template<> struct Fields<S27> { static constexpr bool HasPtr = false; static constexpr int count() { return 27; }
  static constexpr bool IsRoot = false; static const char *name() { return "S27"; }
  static S27 make(const std::vector<std::string> &V) { return S27(nullptr, of<long long>(V[0]), of<float>(V[1]), of<double>(V[2]), of<unsigned>(V[3]), of<unsigned long>(V[4]), of<bool>(V[5]), of<char>(V[6]), of<int>(V[7]), of<long long>(V[8]), of<float>(V[9]), of<double>(V[10]), of<unsigned>(V[11]), of<unsigned long>(V[12]), of<bool>(V[13]), of<char>(V[14]), of<int>(V[15]), of<long long>(V[16]), of<float>(V[17]), of<double>(V[18]), of<unsigned>(V[19]), of<unsigned long>(V[20]), of<bool>(V[21]), of<char>(V[22]), of<int>(V[23]), of<long long>(V[24]), of<float>(V[25]), of<double>(V[26])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<long long>("F1", X[S27::F1]); f.template operator()<float>("F2", X[S27::F2]); f.template operator()<double>("F3", X[S27::F3]); f.template operator()<unsigned>("F4", X[S27::F4]); f.template operator()<unsigned long>("F5", X[S27::F5]); f.template operator()<bool>("F6", X[S27::F6]); f.template operator()<char>("F7", X[S27::F7]); f.template operator()<int>("F8", X[S27::F8]); f.template operator()<long long>("F9", X[S27::F9]); f.template operator()<float>("F10", X[S27::F10]); f.template operator()<double>("F11", X[S27::F11]); f.template operator()<unsigned>("F12", X[S27::F12]); f.template operator()<unsigned long>("F13", X[S27::F13]); f.template operator()<bool>("F14", X[S27::F14]); f.template operator()<char>("F15", X[S27::F15]); f.template operator()<int>("F16", X[S27::F16]); f.template operator()<long long>("F17", X[S27::F17]); f.template operator()<float>("F18", X[S27::F18]); f.template operator()<double>("F19", X[S27::F19]); f.template operator()<unsigned>("F20", X[S27::F20]); f.template operator()<unsigned long>("F21", X[S27::F21]); f.template operator()<bool>("F22", X[S27::F22]); f.template operator()<char>("F23", X[S27::F23]); f.template operator()<int>("F24", X[S27::F24]); f.template operator()<long long>("F25", X[S27::F25]); f.template operator()<float>("F26", X[S27::F26]); f.template operator()<double>("F27", X[S27::F27]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S27::F1]); f("F2", X[S27::F2]); f("F3", X[S27::F3]); f("F4", X[S27::F4]); f("F5", X[S27::F5]); f("F6", X[S27::F6]); f("F7", X[S27::F7]); f("F8", X[S27::F8]); f("F9", X[S27::F9]); f("F10", X[S27::F10]); f("F11", X[S27::F11]); f("F12", X[S27::F12]); f("F13", X[S27::F13]); f("F14", X[S27::F14]); f("F15", X[S27::F15]); f("F16", X[S27::F16]); f("F17", X[S27::F17]); f("F18", X[S27::F18]); f("F19", X[S27::F19]); f("F20", X[S27::F20]); f("F21", X[S27::F21]); f("F22", X[S27::F22]); f("F23", X[S27::F23]); f("F24", X[S27::F24]); f("F25", X[S27::F25]); f("F26", X[S27::F26]); f("F27", X[S27::F27]); } }; }
#endif
struct S28;
#if 27 % PARTS == PART
JSON_OBJECT_BEGIN(S28)
JSON_OBJECT_PAIR_28(S28, F1, unsigned, F2, unsigned long, F3, bool, F4, char, F5, int, F6, long long, F7, float, F8, double, F9, unsigned, F10, unsigned long, F11, bool, F12, char, F13, int, F14, long long, F15, float, F16, double, F17, unsigned, F18, unsigned long, F19, bool, F20, char, F21, int, F22, long long, F23, float, F24, double, F25, unsigned, F26, unsigned long, F27, bool, F28, char)
  S28() {}
  S28(std::nullptr_t, unsigned X0, unsigned long X1, bool X2, char X3, int X4, long long X5, float X6, double X7, unsigned X8, unsigned long X9, bool X10, char X11, int X12, long long X13, float X14, double X15, unsigned X16, unsigned long X17, bool X18, char X19, int X20, long long X21, float X22, double X23, unsigned X24, unsigned long X25, bool X26, char X27) : JSON_INIT(S28, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19, X20, X21, X22, X23, X24, X25, X26, X27) {}
JSON_OBJECT_END(S28)
JSON_DEFAULT_TRAITS(::, S28)
namespace jm { template<> struct Fields<S28> { static constexpr bool HasPtr = false; static constexpr int count() { return 28; }
  static constexpr bool IsRoot = false; static const char *name() { return "S28"; }
  static S28 make(const std::vector<std::string> &V) { return S28(nullptr, of<unsigned>(V[0]), of<unsigned long>(V[1]), of<bool>(V[2]), of<char>(V[3]), of<int>(V[4]), of<long long>(V[5]), of<float>(V[6]), of<double>(V[7]), of<unsigned>(V[8]), of<unsigned long>(V[9]), of<bool>(V[10]), of<char>(V[11]), of<int>(V[12]), of<long long>(V[13]), of<float>(V[14]), of<double>(V[15]), of<unsigned>(V[16]), of<unsigned long>(V[17]), of<bool>(V[18]), of<char>(V[19]), of<int>(V[20]), of<long long>(V[21]), of<float>(V[22]), of<double>(V[23]), of<unsigned>(V[24]), of<unsigned long>(V[25]), of<bool>(V[26]), of<char>(V[27])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<unsigned>("F1", X[S28::F1]); f.template operator()<unsigned long>("F2", X[S28::F2]); f.template operator()<bool>("F3", X[S28::F3]); f.template operator()<char>("F4", X[S28::F4]); f.template operator()<int>("F5", X[S28::F5]); f.template operator()<long long>("F6", X[S28::F6]); f.template operator()<float>("F7", X[S28::F7]); f.template operator()<double>("F8", X[S28::F8]); f.template operator()<unsigned>("F9", X[S28::F9]); f.template operator()<unsigned long>("F10", X[S28::F10]); f.template operator()<bool>("F11", X[S28::F11]); f.template operator()<char>("F12", X[S28::F12]); f.template operator()<int>("F13", X[S28::F13]); f.template operator()<long long>("F14", X[S28::F14]); f.template operator()<float>("F15", X[S28::F15]); f.template operator()<double>("F16", X[S28::F16]); f.template operator()<unsigned>("F17", X[S28::F17]); f.template operator()<unsigned long>("F18", X[S28::F18]); f.template operator()<bool>("F19", X[S28::F19]); f.template operator()<char>("F20", X[S28::F20]); f.template operator()<int>("F21", X[S28::F21]); f.template operator()<long long>("F22", X[S28::F22]); f.template operator()<float>("F23", X[S28::F23]); f.template operator()<double>("F24", X[S28::F24]); f.template operator()<unsigned>("F25", X[S28::F25]); f.template operator()<unsigned long>("F26", X[S28::F26]); f.template operator()<bool>("F27", X[S28::F27]); f.template operator()<char>("F28", X[S28::F28]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S28::F1]); f("F2", X[S28::F2]); f("F3", X[S28::F3]); f("F4", X[S28::F4]); f("F5", X[S28::F5]); f("F6", X[S28::F6]); f("F7", X[S28::F7]); f("F8", X[S28::F8]); f("F9", X[S28::F9]); f("F10", X[S28::F10]); f("F11", X[S28::F11]); f("F12", X[S28::F12]); f("F13", X[S28::F13]); f("F14", X[S28::F14]); f("F15", X[S28::F15]); f("F16", X[S28::F16]); f("F17", X[S28::F17]); f("F18", X[S28::F18]); f("F19", X[S28::F19]); f("F20", X[S28::F20]); f("F21", X[S28::F21]); f("F22", X[S28::F22]); f("F23", X[S28::F23]); f("F24", X[S28::F24]); f("F25", X[S28::F25]); f("F26", X[S28::F26]); f("F27", X[S28::F27]); f("F28", X[S28::F28]); } }; }
#endif
struct S29;
#if 28 % PARTS == PART
JSON_OBJECT_BEGIN(S29)
JSON_OBJECT_PAIR_29(S29, F1, char, F2, int, F3, long long, F4, float, F5, double, F6, unsigned, F7, unsigned long, F8, bool, F9, char, F10, int, F11, long long, F12, float, F13, double, F14, unsigned, F15, unsigned long, F16, bool, F17, char, F18, int, F19, long long, F20, float, F21, double, F22, unsigned, F23, unsigned long, F24, bool, F25, char, F26, int, F27, long long, F28, float, F29, double)
  S29() {}
  S29(std::nullptr_t, char X0, int X1, long long X2, float X3, double X4, unsigned X5, unsigned long X6, bool X7, char X8, int X9, long long X10, float X11, double X12, unsigned X13, unsigned long X14, bool X15, char X16, int X17, long long X18, float X19, double X20, unsigned X21, unsigned long X22, bool X23, char X24, int X25, long long X26, float X27, double X28) : JSON_INIT(S29, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19, X20, X21, X22, X23, X24, X25, X26, X27, X28) {}
JSON_OBJECT_END(S29)
JSON_DEFAULT_TRAITS(::, S29)
namespace jm { template<> struct Fields<S29> { static constexpr bool HasPtr = false; static constexpr int count() { return 29; }
  static constexpr bool IsRoot = false; static const char *name() { return "S29"; }
  static S29 make(const std::vector<std::string> &V) { return S29(nullptr, of<char>(V[0]), of<int>(V[1]), of<long long>(V[2]), of<float>(V[3]), of<double>(V[4]), of<unsigned>(V[5]), of<unsigned long>(V[6]), of<bool>(V[7]), of<char>(V[8]), of<int>(V[9]), of<long long>(V[10]), of<float>(V[11]), of<double>(V[12]), of<unsigned>(V[13]), of<unsigned long>(V[14]), of<bool>(V[15]), of<char>(V[16]), of<int>(V[17]), of<long long>(V[18]), of<float>(V[19]), of<double>(V[20]), of<unsigned>(V[21]), of<unsigned long>(V[22]), of<bool>(V[23]), of<char>(V[24]), of<int>(V[25]), of<long long>(V[26]), of<float>(V[27]), of<double>(V[28])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<char>("F1", X[S29::F1]); f.template operator()<int>("F2", X[S29::F2]); f.template operator()<long long>("F3", X[S29::F3]); f.template operator()<float>("F4", X[S29::F4]); f.template operator()<double>("F5", X[S29::F5]); f.template operator()<unsigned>("F6", X[S29::F6]); f.template operator()<unsigned long>("F7", X[S29::F7]); f.template operator()<bool>("F8", X[S29::F8]); f.template operator()<char>("F9", X[S29::F9]); f.template operator()<int>("F10", X[S29::F10]); f.template operator()<long long>("F11", X[S29::F11]); f.template operator()<float>("F12", X[S29::F12]); f.template operator()<double>("F13", X[S29::F13]); f.template operator()<unsigned>("F14", X[S29::F14]); f.template operator()<unsigned long>("F15", X[S29::F15]); f.template operator()<bool>("F16", X[S29::F16]); f.template operator()<char>("F17", X[S29::F17]); f.template operator()<int>("F18", X[S29::F18]); f.template operator()<long long>("F19", X[S29::F19]); f.template operator()<float>("F20", X[S29::F20]); f.template operator()<double>("F21", X[S29::F21]); f.template operator()<unsigned>("F22", X[S29::F22]); f.template operator()<unsigned long>("F23", X[S29::F23]); f.template operator()<bool>("F24", X[S29::F24]); f.template operator()<char>("F25", X[S29::F25]); f.template operator()<int>("F26", X[S29::F26]); f.template operator()<long long>("F27", X[S29::F27]); f.template operator()<float>("F28", X[S29::F28]); f.template operator()<double>("F29", X[S29::F29]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S29::F1]); f("F2", X[S29::F2]); f("F3", X[S29::F3]); f("F4", X[S29::F4]); f("F5", X[S29::F5]); f("F6", X[S29::F6]); f("F7", X[S29::F7]); f("F8", X[S29::F8]); f("F9", X[S29::F9]); f("F10", X[S29::F10]); f("F11", X[S29::F11]); f("F12", X[S29::F12]); f("F13", X[S29::F13]); f("F14", X[S29::F14]); f("F15", X[S29::F15]); f("F16", X[S29::F16]); f("F17", X[S29::F17]); f("F18", X[S29::F18]); f("F19", X[S29::F19]); f("F20", X[S29::F20]); f("F21", X[S29::F21]); f("F22", X[S29::F22]); f("F23", X[S29::F23]); f("F24", X[S29::F24]); f("F25", X[S29::F25]); f("F26", X[S29::F26]); f("F27", X[S29::F27]); f("F28", X[S29::F28]); f("F29", X[S29::F29]); } }; }
#endif
struct S30;
#if 29 % PARTS == PART
JSON_OBJECT_BEGIN(S30)
JSON_OBJECT_PAIR_30(S30, F1, float, F2, double, F3, unsigned, F4, unsigned long, F5, bool, F6, char, F7, int, F8, long long, F9, float, F10, double, F11, unsigned, F12, unsigned long, F13, bool, F14, char, F15, int, F16, long long, F17, float, F18, double, F19, unsigned, F20, unsigned long, F21, bool, F22, char, F23, int, F24, long long, F25, float, F26, double, F27, unsigned, F28, unsigned long, F29, bool, F30, char)
  S30() {}
  S30(std::nullptr_t, float X0, double X1, unsigned X2, unsigned long X3, bool X4, char X5, int X6, long long X7, float X8, double X9, unsigned X10, unsigned long X11, bool X12, char X13, int X14, long long X15, float X16, double X17, unsigned X18, unsigned long X19, bool X20, char X21, int X22, long long X23, float X24, double X25, unsigned X26, unsigned long X27, bool X28, char X29) : JSON_INIT(S30, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19, X20, X21, X22, X23, X24, X25, X26, X27, X28, X29) {}
JSON_OBJECT_END(S30)
JSON_DEFAULT_TRAITS(::, S30)
namespace jm { template<> struct Fields<S30> { static constexpr bool HasPtr = false; static constexpr int count() { return 30; }
  static constexpr bool IsRoot = false; static const char *name() { return "S30"; }
  static S30 make(const std::vector<std::string> &V) { return S30(nullptr, of<float>(V[0]), of<double>(V[1]), of<unsigned>(V[2]), of<unsigned long>(V[3]), of<bool>(V[4]), of<char>(V[5]), of<int>(V[6]), of<long long>(V[7]), of<float>(V[8]), of<double>(V[9]), of<unsigned>(V[10]), of<unsigned long>(V[11]), of<bool>(V[12]), of<char>(V[13]), of<int>(V[14]), of<long long>(V[15]), of<float>(V[16]), of<double>(V[17]), of<unsigned>(V[18]), of<unsigned long>(V[19]), of<bool>(V[20]), of<char>(V[21]), of<int>(V[22]), of<long long>(V[23]), of<float>(V[24]), of<double>(V[25]), of<unsigned>(V[26]), of<unsigned long>(V[27]), of<bool>(V[28]), of<char>(V[29])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<float>("F1", X[S30::F1]); f.template operator()<double>("F2", X[S30::F2]); f.template operator()<unsigned>("F3", X[S30::F3]); f.template operator()<unsigned long>("F4", X[S30::F4]); f.template operator()<bool>("F5", X[S30::F5]); f.template operator()<char>("F6", X[S30::F6]); f.template operator()<int>("F7", X[S30::F7]); f.template operator()<long long>("F8", X[S30::F8]); f.template operator()<float>("F9", X[S30::F9]); f.template operator()<double>("F10", X[S30::F10]); f.template operator()<unsigned>("F11", X[S30::F11]); f.template operator()<unsigned long>("F12", X[S30::F12]); f.template operator()<bool>("F13", X[S30::F13]); f.template operator()<char>("F14", X[S30::F14]); f.template operator()<int>("F15", X[S30::F15]); f.template operator()<long long>("F16", X[S30::F16]); f.template operator()<float>("F17", X[S30::F17]); f.template operator()<double>("F18", X[S30::F18]); f.template operator()<unsigned>("F19", X[S30::F19]); f.template operator()<unsigned long>("F20", X[S30::F20]); f.template operator()<bool>("F21", X[S30::F21]); f.template operator()<char>("F22", X[S30::F22]); f.template operator()<int>("F23", X[S30::F23]); f.template operator()<long long>("F24", X[S30::F24]); f.template operator()<float>("F25", X[S30::F25]); f.template operator()<double>("F26", X[S30::F26]); f.template operator()<unsigned>("F27", X[S30::F27]); f.template operator()<unsigned long>("F28", X[S30::F28]); f.template operator()<bool>("F29", X[S30::F29]); f.template operator()<char>("F30", X[S30::F30]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[S30::F1]); f("F2", X[S30::F2]); f("F3", X[S30::F3]); f("F4", X[S30::F4]); f("F5", X[S30::F5]); f("F6", X[S30::F6]); f("F7", X[S30::F7]); f("F8", X[S30::F8]); f("F9", X[S30::F9]); f("F10", X[S30::F10]); f("F11", X[S30::F11]); f("F12", X[S30::F12]); f("F13", X[S30::F13]); f("F14", X[S30::F14]); f("F15", X[S30::F15]); f("F16", X[S30::F16]); f("F17", X[S30::F17]); f("F18", X[S30::F18]); f("F19", X[S30::F19]); f("F20", X[S30::F20]); f("F21", X[S30::F21]); f("F22", X[S30::F22]); f("F23", X[S30::F23]); f("F24", X[S30::F24]); f("F25", X[S30::F25]); f("F26", X[S30::F26]); f("F27", X[S30::F27]); f("F28", X[S30::F28]); f("F29", X[S30::F29]); f("F30", X[S30::F30]); } }; }
#endif
struct R1;
#if 30 % PARTS == PART
JSON_OBJECT_BEGIN(R1)
JSON_OBJECT_ROOT_PAIR(R1, F1, double)
  R1() : JSON_INIT_ROOT {}
  R1(std::nullptr_t, double X0) : JSON_INIT(R1, X0), JSON_INIT_ROOT {}
JSON_OBJECT_END(R1)
JSON_DEFAULT_TRAITS(::, R1)
namespace jm { template<> struct Fields<R1> { static constexpr bool HasPtr = false; static constexpr int count() { return 1; }
  static constexpr bool IsRoot = true; static const char *name() { return "R1"; }
  static R1 make(const std::vector<std::string> &V) { return R1(nullptr, of<double>(V[0])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<double>("F1", X[R1::F1]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R1::F1]); } }; }
#endif
struct R2;
#if 31 % PARTS == PART
JSON_OBJECT_BEGIN(R2)
JSON_OBJECT_ROOT_PAIR_2(R2, F1, bool, F2, char)
  R2() : JSON_INIT_ROOT {}
  R2(std::nullptr_t, bool X0, char X1) : JSON_INIT(R2, X0, X1), JSON_INIT_ROOT {}
JSON_OBJECT_END(R2)
JSON_DEFAULT_TRAITS(::, R2)
namespace jm { template<> struct Fields<R2> { static constexpr bool HasPtr = false; static constexpr int count() { return 2; }
  static constexpr bool IsRoot = true; static const char *name() { return "R2"; }
  static R2 make(const std::vector<std::string> &V) { return R2(nullptr, of<bool>(V[0]), of<char>(V[1])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<bool>("F1", X[R2::F1]); f.template operator()<char>("F2", X[R2::F2]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R2::F1]); f("F2", X[R2::F2]); } }; }
#endif
struct R3;
#if 32 % PARTS == PART
JSON_OBJECT_BEGIN(R3)
JSON_OBJECT_ROOT_PAIR_3(R3, F1, long long, F2, float, F3, double)
  R3() : JSON_INIT_ROOT {}
  R3(std::nullptr_t, long long X0, float X1, double X2) : JSON_INIT(R3, X0, X1, X2), JSON_INIT_ROOT {}
JSON_OBJECT_END(R3)
JSON_DEFAULT_TRAITS(::, R3)
namespace jm { template<> struct Fields<R3> { static constexpr bool HasPtr = false; static constexpr int count() { return 3; }
  static constexpr bool IsRoot = true; static const char *name() { return "R3"; }
  static R3 make(const std::vector<std::string> &V) { return R3(nullptr, of<long long>(V[0]), of<float>(V[1]), of<double>(V[2])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<long long>("F1", X[R3::F1]); f.template operator()<float>("F2", X[R3::F2]); f.template operator()<double>("F3", X[R3::F3]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R3::F1]); f("F2", X[R3::F2]); f("F3", X[R3::F3]); } }; }
#endif
struct R4;
#if 33 % PARTS == PART
JSON_OBJECT_BEGIN(R4)
JSON_OBJECT_ROOT_PAIR_4(R4, F1, unsigned, F2, unsigned long, F3, bool, F4, char)
  R4() : JSON_INIT_ROOT {}
  R4(std::nullptr_t, unsigned X0, unsigned long X1, bool X2, char X3) : JSON_INIT(R4, X0, X1, X2, X3), JSON_INIT_ROOT {}
JSON_OBJECT_END(R4)
JSON_DEFAULT_TRAITS(::, R4)
namespace jm { template<> struct Fields<R4> { static constexpr bool HasPtr = false; static constexpr int count() { return 4; }
  static constexpr bool IsRoot = true; static const char *name() { return "R4"; }
  static R4 make(const std::vector<std::string> &V) { return R4(nullptr, of<unsigned>(V[0]), of<unsigned long>(V[1]), of<bool>(V[2]), of<char>(V[3])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<unsigned>("F1", X[R4::F1]); f.template operator()<unsigned long>("F2", X[R4::F2]); f.template operator()<bool>("F3", X[R4::F3]); f.template operator()<char>("F4", X[R4::F4]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R4::F1]); f("F2", X[R4::F2]); f("F3", X[R4::F3]); f("F4", X[R4::F4]); } }; }
#endif
struct R5;
#if 34 % PARTS == PART
JSON_OBJECT_BEGIN(R5)
JSON_OBJECT_ROOT_PAIR_5(R5, F1, char, F2, int, F3, long long, F4, float, F5, double)
  R5() : JSON_INIT_ROOT {}
  R5(std::nullptr_t, char X0, int X1, long long X2, float X3, double X4) : JSON_INIT(R5, X0, X1, X2, X3, X4), JSON_INIT_ROOT {}
JSON_OBJECT_END(R5)
JSON_DEFAULT_TRAITS(::, R5)
namespace jm { template<> struct Fields<R5> { static constexpr bool HasPtr = false; static constexpr int count() { return 5; }
  static constexpr bool IsRoot = true; static const char *name() { return "R5"; }
  static R5 make(const std::vector<std::string> &V) { return R5(nullptr, of<char>(V[0]), of<int>(V[1]), of<long long>(V[2]), of<float>(V[3]), of<double>(V[4])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<char>("F1", X[R5::F1]); f.template operator()<int>("F2", X[R5::F2]); f.template operator()<long long>("F3", X[R5::F3]); f.template operator()<float>("F4", X[R5::F4]); f.template operator()<double>("F5", X[R5::F5]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R5::F1]); f("F2", X[R5::F2]); f("F3", X[R5::F3]); f("F4", X[R5::F4]); f("F5", X[R5::F5]); } }; }
#endif
struct R6;
#if 35 % PARTS == PART
JSON_OBJECT_BEGIN(R6)
JSON_OBJECT_ROOT_PAIR_6(R6, F1, float, F2, double, F3, unsigned, F4, unsigned long, F5, bool, F6, char)
  R6() : JSON_INIT_ROOT {}
  R6(std::nullptr_t, float X0, double X1, unsigned X2, unsigned long X3, bool X4, char X5) : JSON_INIT(R6, X0, X1, X2, X3, X4, X5), JSON_INIT_ROOT {}
JSON_OBJECT_END(R6)
JSON_DEFAULT_TRAITS(::, R6)
namespace jm { template<> struct Fields<R6> { static constexpr bool HasPtr = false; static constexpr int count() { return 6; }
  static constexpr bool IsRoot = true; static const char *name() { return "R6"; }
  static R6 make(const std::vector<std::string> &V) { return R6(nullptr, of<float>(V[0]), of<double>(V[1]), of<unsigned>(V[2]), of<unsigned long>(V[3]), of<bool>(V[4]), of<char>(V[5])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<float>("F1", X[R6::F1]); f.template operator()<double>("F2", X[R6::F2]); f.template operator()<unsigned>("F3", X[R6::F3]); f.template operator()<unsigned long>("F4", X[R6::F4]); f.template operator()<bool>("F5", X[R6::F5]); f.template operator()<char>("F6", X[R6::F6]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R6::F1]); f("F2", X[R6::F2]); f("F3", X[R6::F3]); f("F4", X[R6::F4]); f("F5", X[R6::F5]); f("F6", X[R6::F6]); } }; }
#endif
struct R7;
#if 36 % PARTS == PART
JSON_OBJECT_BEGIN(R7)
JSON_OBJECT_ROOT_PAIR_7(R7, F1, unsigned long, F2, bool, F3, char, F4, int, F5, long long, F6, float, F7, double)
  R7() : JSON_INIT_ROOT {}
  R7(std::nullptr_t, unsigned long X0, bool X1, char X2, int X3, long long X4, float X5, double X6) : JSON_INIT(R7, X0, X1, X2, X3, X4, X5, X6), JSON_INIT_ROOT {}
JSON_OBJECT_END(R7)
JSON_DEFAULT_TRAITS(::, R7)
namespace jm { template<> struct Fields<R7> { static constexpr bool HasPtr = false; static constexpr int count() { return 7; }
  static constexpr bool IsRoot = true; static const char *name() { return "R7"; }
  static R7 make(const std::vector<std::string> &V) { return R7(nullptr, of<unsigned long>(V[0]), of<bool>(V[1]), of<char>(V[2]), of<int>(V[3]), of<long long>(V[4]), of<float>(V[5]), of<double>(V[6])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<unsigned long>("F1", X[R7::F1]); f.template operator()<bool>("F2", X[R7::F2]); f.template operator()<char>("F3", X[R7::F3]); f.template operator()<int>("F4", X[R7::F4]); f.template operator()<long long>("F5", X[R7::F5]); f.template operator()<float>("F6", X[R7::F6]); f.template operator()<double>("F7", X[R7::F7]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R7::F1]); f("F2", X[R7::F2]); f("F3", X[R7::F3]); f("F4", X[R7::F4]); f("F5", X[R7::F5]); f("F6", X[R7::F6]); f("F7", X[R7::F7]); } }; }
#endif
struct R8;
#if 37 % PARTS == PART
JSON_OBJECT_BEGIN(R8)
JSON_OBJECT_ROOT_PAIR_8(R8, F1, int, F2, long long, F3, float, F4, double, F5, unsigned, F6, unsigned long, F7, bool, F8, char)
  R8() : JSON_INIT_ROOT {}
  R8(std::nullptr_t, int X0, long long X1, float X2, double X3, unsigned X4, unsigned long X5, bool X6, char X7) : JSON_INIT(R8, X0, X1, X2, X3, X4, X5, X6, X7), JSON_INIT_ROOT {}
JSON_OBJECT_END(R8)
JSON_DEFAULT_TRAITS(::, R8)
namespace jm { template<> struct Fields<R8> { static constexpr bool HasPtr = false; static constexpr int count() { return 8; }
  static constexpr bool IsRoot = true; static const char *name() { return "R8"; }
  static R8 make(const std::vector<std::string> &V) { return R8(nullptr, of<int>(V[0]), of<long long>(V[1]), of<float>(V[2]), of<double>(V[3]), of<unsigned>(V[4]), of<unsigned long>(V[5]), of<bool>(V[6]), of<char>(V[7])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<int>("F1", X[R8::F1]); f.template operator()<long long>("F2", X[R8::F2]); f.template operator()<float>("F3", X[R8::F3]); f.template operator()<double>("F4", X[R8::F4]); f.template operator()<unsigned>("F5", X[R8::F5]); f.template operator()<unsigned long>("F6", X[R8::F6]); f.template operator()<bool>("F7", X[R8::F7]); f.template operator()<char>("F8", X[R8::F8]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R8::F1]); f("F2", X[R8::F2]); f("F3", X[R8::F3]); f("F4", X[R8::F4]); f("F5", X[R8::F5]); f("F6", X[R8::F6]); f("F7", X[R8::F7]); f("F8", X[R8::F8]); } }; }
#endif
struct R9;
#if 38 % PARTS == PART
JSON_OBJECT_BEGIN(R9)
JSON_OBJECT_ROOT_PAIR_9(R9, F1, double, F2, unsigned, F3, unsigned long, F4, bool, F5, char, F6, int, F7, long long, F8, float, F9, double)
  R9() : JSON_INIT_ROOT {}
  R9(std::nullptr_t, double X0, unsigned X1, unsigned long X2, bool X3, char X4, int X5, long long X6, float X7, double X8) : JSON_INIT(R9, X0, X1, X2, X3, X4, X5, X6, X7, X8), JSON_INIT_ROOT {}
JSON_OBJECT_END(R9)
JSON_DEFAULT_TRAITS(::, R9)
namespace jm { template<> struct Fields<R9> { static constexpr bool HasPtr = false; static constexpr int count() { return 9; }
  static constexpr bool IsRoot = true; static const char *name() { return "R9"; }
  static R9 make(const std::vector<std::string> &V) { return R9(nullptr, of<double>(V[0]), of<unsigned>(V[1]), of<unsigned long>(V[2]), of<bool>(V[3]), of<char>(V[4]), of<int>(V[5]), of<long long>(V[6]), of<float>(V[7]), of<double>(V[8])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<double>("F1", X[R9::F1]); f.template operator()<unsigned>("F2", X[R9::F2]); f.template operator()<unsigned long>("F3", X[R9::F3]); f.template operator()<bool>("F4", X[R9::F4]); f.template operator()<char>("F5", X[R9::F5]); f.template operator()<int>("F6", X[R9::F6]); f.template operator()<long long>("F7", X[R9::F7]); f.template operator()<float>("F8", X[R9::F8]); f.template operator()<double>("F9", X[R9::F9]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R9::F1]); f("F2", X[R9::F2]); f("F3", X[R9::F3]); f("F4", X[R9::F4]); f("F5", X[R9::F5]); f("F6", X[R9::F6]); f("F7", X[R9::F7]); f("F8", X[R9::F8]); f("F9", X[R9::F9]); } }; }
#endif
struct R10;
#if 39 % PARTS == PART
JSON_OBJECT_BEGIN(R10)
JSON_OBJECT_ROOT_PAIR_10(R10, F1, bool, F2, char, F3, int, F4, long long, F5, float, F6, double, F7, unsigned, F8, unsigned long, F9, bool, F10, char)
  R10() : JSON_INIT_ROOT {}
  R10(std::nullptr_t, bool X0, char X1, int X2, long long X3, float X4, double X5, unsigned X6, unsigned long X7, bool X8, char X9) : JSON_INIT(R10, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9), JSON_INIT_ROOT {}
JSON_OBJECT_END(R10)
JSON_DEFAULT_TRAITS(::, R10)
namespace jm { template<> struct Fields<R10> { static constexpr bool HasPtr = false; static constexpr int count() { return 10; }
  static constexpr bool IsRoot = true; static const char *name() { return "R10"; }
  static R10 make(const std::vector<std::string> &V) { return R10(nullptr, of<bool>(V[0]), of<char>(V[1]), of<int>(V[2]), of<long long>(V[3]), of<float>(V[4]), of<double>(V[5]), of<unsigned>(V[6]), of<unsigned long>(V[7]), of<bool>(V[8]), of<char>(V[9])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<bool>("F1", X[R10::F1]); f.template operator()<char>("F2", X[R10::F2]); f.template operator()<int>("F3", X[R10::F3]); f.template operator()<long long>("F4", X[R10::F4]); f.template operator()<float>("F5", X[R10::F5]); f.template operator()<double>("F6", X[R10::F6]); f.template operator()<unsigned>("F7", X[R10::F7]); f.template operator()<unsigned long>("F8", X[R10::F8]); f.template operator()<bool>("F9", X[R10::F9]); f.template operator()<char>("F10", X[R10::F10]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R10::F1]); f("F2", X[R10::F2]); f("F3", X[R10::F3]); f("F4", X[R10::F4]); f("F5", X[R10::F5]); f("F6", X[R10::F6]); f("F7", X[R10::F7]); f("F8", X[R10::F8]); f("F9", X[R10::F9]); f("F10", X[R10::F10]); } }; }
#endif
struct R11;
#if 40 % PARTS == PART
JSON_OBJECT_BEGIN(R11)
JSON_OBJECT_ROOT_PAIR_11(R11, F1, long long, F2, float, F3, double, F4, unsigned, F5, unsigned long, F6, bool, F7, char, F8, int, F9, long long, F10, float, F11, double)
  R11() : JSON_INIT_ROOT {}
  R11(std::nullptr_t, long long X0, float X1, double X2, unsigned X3, unsigned long X4, bool X5, char X6, int X7, long long X8, float X9, double X10) : JSON_INIT(R11, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10), JSON_INIT_ROOT {}
JSON_OBJECT_END(R11)
JSON_DEFAULT_TRAITS(::, R11)
namespace jm { template<> struct Fields<R11> { static constexpr bool HasPtr = false; static constexpr int count() { return 11; }
  static constexpr bool IsRoot = true; static const char *name() { return "R11"; }
  static R11 make(const std::vector<std::string> &V) { return R11(nullptr, of<long long>(V[0]), of<float>(V[1]), of<double>(V[2]), of<unsigned>(V[3]), of<unsigned long>(V[4]), of<bool>(V[5]), of<char>(V[6]), of<int>(V[7]), of<long long>(V[8]), of<float>(V[9]), of<double>(V[10])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<long long>("F1", X[R11::F1]); f.template operator()<float>("F2", X[R11::F2]); f.template operator()<double>("F3", X[R11::F3]); f.template operator()<unsigned>("F4", X[R11::F4]); f.template operator()<unsigned long>("F5", X[R11::F5]); f.template operator()<bool>("F6", X[R11::F6]); f.template operator()<char>("F7", X[R11::F7]); f.template operator()<int>("F8", X[R11::F8]); f.template operator()<long long>("F9", X[R11::F9]); f.template operator()<float>("F10", X[R11::F10]); f.template operator()<double>("F11", X[R11::F11]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R11::F1]); f("F2", X[R11::F2]); f("F3", X[R11::F3]); f("F4", X[R11::F4]); f("F5", X[R11::F5]); f("F6", X[R11::F6]); f("F7", X[R11::F7]); f("F8", X[R11::F8]); f("F9", X[R11::F9]); f("F10", X[R11::F10]); f("F11", X[R11::F11]); } }; }
#endif
struct R12;
#if 41 % PARTS == PART
JSON_OBJECT_BEGIN(R12)
JSON_OBJECT_ROOT_PAIR_12(R12, F1, unsigned, F2, unsigned long, F3, bool, F4, char, F5, int, F6, long long, F7, float, F8, double, F9, unsigned, F10, unsigned long, F11, bool, F12, char)
  R12() : JSON_INIT_ROOT {}
  R12(std::nullptr_t, unsigned X0, unsigned long X1, bool X2, char X3, int X4, long long X5, float X6, double X7, unsigned X8, unsigned long X9, bool X10, char X11) : JSON_INIT(R12, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11), JSON_INIT_ROOT {}
JSON_OBJECT_END(R12)
JSON_DEFAULT_TRAITS(::, R12)
namespace jm { template<> struct Fields<R12> { static constexpr bool HasPtr = false; static constexpr int count() { return 12; }
  static constexpr bool IsRoot = true; static const char *name() { return "R12"; }
  static R12 make(const std::vector<std::string> &V) { return R12(nullptr, of<unsigned>(V[0]), of<unsigned long>(V[1]), of<bool>(V[2]), of<char>(V[3]), of<int>(V[4]), of<long long>(V[5]), of<float>(V[6]), of<double>(V[7]), of<unsigned>(V[8]), of<unsigned long>(V[9]), of<bool>(V[10]), of<char>(V[11])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<unsigned>("F1", X[R12::F1]); f.template operator()<unsigned long>("F2", X[R12::F2]); f.template operator()<bool>("F3", X[R12::F3]); f.template operator()<char>("F4", X[R12::F4]); f.template operator()<int>("F5", X[R12::F5]); f.template operator()<long long>("F6", X[R12::F6]); f.template operator()<float>("F7", X[R12::F7]); f.template operator()<double>("F8", X[R12::F8]); f.template operator()<unsigned>("F9", X[R12::F9]); f.template operator()<unsigned long>("F10", X[R12::F10]); f.template operator()<bool>("F11", X[R12::F11]); f.template operator()<char>("F12", X[R12::F12]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R12::F1]); f("F2", X[R12::F2]); f("F3", X[R12::F3]); f("F4", X[R12::F4]); f("F5", X[R12::F5]); f("F6", X[R12::F6]); f("F7", X[R12::F7]); f("F8", X[R12::F8]); f("F9", X[R12::F9]); f("F10", X[R12::F10]); f("F11", X[R12::F11]); f("F12", X[R12::F12]); } }; }
#endif
struct R13;
#if 42 % PARTS == PART
JSON_OBJECT_BEGIN(R13)
JSON_OBJECT_ROOT_PAIR_13(R13, F1, char, F2, int, F3, long long, F4, float, F5, double, F6, unsigned, F7, unsigned long, F8, bool, F9, char, F10, int, F11, long long, F12, float, F13, double)
  R13() : JSON_INIT_ROOT {}
  R13(std::nullptr_t, char X0, int X1, long long X2, float X3, double X4, unsigned X5, unsigned long X6, bool X7, char X8, int X9, long long X10, float X11, double X12) : JSON_INIT(R13, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12), JSON_INIT_ROOT {}
JSON_OBJECT_END(R13)
JSON_DEFAULT_TRAITS(::, R13)
namespace jm { template<> struct Fields<R13> { static constexpr bool HasPtr = false; static constexpr int count() { return 13; }
  static constexpr bool IsRoot = true; static const char *name() { return "R13"; }
  static R13 make(const std::vector<std::string> &V) { return R13(nullptr, of<char>(V[0]), of<int>(V[1]), of<long long>(V[2]), of<float>(V[3]), of<double>(V[4]), of<unsigned>(V[5]), of<unsigned long>(V[6]), of<bool>(V[7]), of<char>(V[8]), of<int>(V[9]), of<long long>(V[10]), of<float>(V[11]), of<double>(V[12])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<char>("F1", X[R13::F1]); f.template operator()<int>("F2", X[R13::F2]); f.template operator()<long long>("F3", X[R13::F3]); f.template operator()<float>("F4", X[R13::F4]); f.template operator()<double>("F5", X[R13::F5]); f.template operator()<unsigned>("F6", X[R13::F6]); f.template operator()<unsigned long>("F7", X[R13::F7]); f.template operator()<bool>("F8", X[R13::F8]); f.template operator()<char>("F9", X[R13::F9]); f.template operator()<int>("F10", X[R13::F10]); f.template operator()<long long>("F11", X[R13::F11]); f.template operator()<float>("F12", X[R13::F12]); f.template operator()<double>("F13", X[R13::F13]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R13::F1]); f("F2", X[R13::F2]); f("F3", X[R13::F3]); f("F4", X[R13::F4]); f("F5", X[R13::F5]); f("F6", X[R13::F6]); f("F7", X[R13::F7]); f("F8", X[R13::F8]); f("F9", X[R13::F9]); f("F10", X[R13::F10]); f("F11", X[R13::F11]); f("F12", X[R13::F12]); f("F13", X[R13::F13]); } }; }
#endif
struct R14;
#if 43 % PARTS == PART
JSON_OBJECT_BEGIN(R14)
JSON_OBJECT_ROOT_PAIR_14(R14, F1, float, F2, double, F3, unsigned, F4, unsigned long, F5, bool, F6, char, F7, int, F8, long long, F9, float, F10, double, F11, unsigned, F12, unsigned long, F13, bool, F14, char)
  R14() : JSON_INIT_ROOT {}
  R14(std::nullptr_t, float X0, double X1, unsigned X2, unsigned long X3, bool X4, char X5, int X6, long long X7, float X8, double X9, unsigned X10, unsigned long X11, bool X12, char X13) : JSON_INIT(R14, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13), JSON_INIT_ROOT {}
JSON_OBJECT_END(R14)
JSON_DEFAULT_TRAITS(::, R14)
namespace jm { template<> struct Fields<R14> { static constexpr bool HasPtr = false; static constexpr int count() { return 14; }
  static constexpr bool IsRoot = true; static const char *name() { return "R14"; }
  static R14 make(const std::vector<std::string> &V) { return R14(nullptr, of<float>(V[0]), of<double>(V[1]), of<unsigned>(V[2]), of<unsigned long>(V[3]), of<bool>(V[4]), of<char>(V[5]), of<int>(V[6]), of<long long>(V[7]), of<float>(V[8]), of<double>(V[9]), of<unsigned>(V[10]), of<unsigned long>(V[11]), of<bool>(V[12]), of<char>(V[13])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<float>("F1", X[R14::F1]); f.template operator()<double>("F2", X[R14::F2]); f.template operator()<unsigned>("F3", X[R14::F3]); f.template operator()<unsigned long>("F4", X[R14::F4]); f.template operator()<bool>("F5", X[R14::F5]); f.template operator()<char>("F6", X[R14::F6]); f.template operator()<int>("F7", X[R14::F7]); f.template operator()<long long>("F8", X[R14::F8]); f.template operator()<float>("F9", X[R14::F9]); f.template operator()<double>("F10", X[R14::F10]); f.template operator()<unsigned>("F11", X[R14::F11]); f.template operator()<unsigned long>("F12", X[R14::F12]); f.template operator()<bool>("F13", X[R14::F13]); f.template operator()<char>("F14", X[R14::F14]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R14::F1]); f("F2", X[R14::F2]); f("F3", X[R14::F3]); f("F4", X[R14::F4]); f("F5", X[R14::F5]); f("F6", X[R14::F6]); f("F7", X[R14::F7]); f("F8", X[R14::F8]); f("F9", X[R14::F9]); f("F10", X[R14::F10]); f("F11", X[R14::F11]); f("F12", X[R14::F12]); f("F13", X[R14::F13]); f("F14", X[R14::F14]); } }; }
#endif
struct R15;
#if 44 % PARTS == PART
JSON_OBJECT_BEGIN(R15)
JSON_OBJECT_ROOT_PAIR_15(R15, F1, unsigned long, F2, bool, F3, char, F4, int, F5, long long, F6, float, F7, double, F8, unsigned, F9, unsigned long, F10, bool, F11, char, F12, int, F13, long long, F14, float, F15, double)
  R15() : JSON_INIT_ROOT {}
  R15(std::nullptr_t, unsigned long X0, bool X1, char X2, int X3, long long X4, float X5, double X6, unsigned X7, unsigned long X8, bool X9, char X10, int X11, long long X12, float X13, double X14) : JSON_INIT(R15, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14), JSON_INIT_ROOT {}
JSON_OBJECT_END(R15)
JSON_DEFAULT_TRAITS(::, R15)
namespace jm { template<> struct Fields<R15> { static constexpr bool HasPtr = false; static constexpr int count() { return 15; }
  static constexpr bool IsRoot = true; static const char *name() { return "R15"; }
  static R15 make(const std::vector<std::string> &V) { return R15(nullptr, of<unsigned long>(V[0]), of<bool>(V[1]), of<char>(V[2]), of<int>(V[3]), of<long long>(V[4]), of<float>(V[5]), of<double>(V[6]), of<unsigned>(V[7]), of<unsigned long>(V[8]), of<bool>(V[9]), of<char>(V[10]), of<int>(V[11]), of<long long>(V[12]), of<float>(V[13]), of<double>(V[14])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<unsigned long>("F1", X[R15::F1]); f.template operator()<bool>("F2", X[R15::F2]); f.template operator()<char>("F3", X[R15::F3]); f.template operator()<int>("F4", X[R15::F4]); f.template operator()<long long>("F5", X[R15::F5]); f.template operator()<float>("F6", X[R15::F6]); f.template operator()<double>("F7", X[R15::F7]); f.template operator()<unsigned>("F8", X[R15::F8]); f.template operator()<unsigned long>("F9", X[R15::F9]); f.template operator()<bool>("F10", X[R15::F10]); f.template operator()<char>("F11", X[R15::F11]); f.template operator()<int>("F12", X[R15::F12]); f.template operator()<long long>("F13", X[R15::F13]); f.template operator()<float>("F14", X[R15::F14]); f.template operator()<double>("F15", X[R15::F15]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R15::F1]); f("F2", X[R15::F2]); f("F3", X[R15::F3]); f("F4", X[R15::F4]); f("F5", X[R15::F5]); f("F6", X[R15::F6]); f("F7", X[R15::F7]); f("F8", X[R15::F8]); f("F9", X[R15::F9]); f("F10", X[R15::F10]); f("F11", X[R15::F11]); f("F12", X[R15::F12]); f("F13", X[R15::F13]); f("F14", X[R15::F14]); f("F15", X[R15::F15]); } }; }
#endif
struct R16;
#if 45 % PARTS == PART
JSON_OBJECT_BEGIN(R16)
JSON_OBJECT_ROOT_PAIR_16(R16, F1, int, F2, long long, F3, float, F4, double, F5, unsigned, F6, unsigned long, F7, bool, F8, char, F9, int, F10, long long, F11, float, F12, double, F13, unsigned, F14, unsigned long, F15, bool, F16, char)
  R16() : JSON_INIT_ROOT {}
  R16(std::nullptr_t, int X0, long long X1, float X2, double X3, unsigned X4, unsigned long X5, bool X6, char X7, int X8, long long X9, float X10, double X11, unsigned X12, unsigned long X13, bool X14, char X15) : JSON_INIT(R16, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15), JSON_INIT_ROOT {}
JSON_OBJECT_END(R16)
JSON_DEFAULT_TRAITS(::, R16)
namespace jm { template<> struct Fields<R16> { static constexpr bool HasPtr = false; static constexpr int count() { return 16; }
  static constexpr bool IsRoot = true; static const char *name() { return "R16"; }
  static R16 make(const std::vector<std::string> &V) { return R16(nullptr, of<int>(V[0]), of<long long>(V[1]), of<float>(V[2]), of<double>(V[3]), of<unsigned>(V[4]), of<unsigned long>(V[5]), of<bool>(V[6]), of<char>(V[7]), of<int>(V[8]), of<long long>(V[9]), of<float>(V[10]), of<double>(V[11]), of<unsigned>(V[12]), of<unsigned long>(V[13]), of<bool>(V[14]), of<char>(V[15])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<int>("F1", X[R16::F1]); f.template operator()<long long>("F2", X[R16::F2]); f.template operator()<float>("F3", X[R16::F3]); f.template operator()<double>("F4", X[R16::F4]); f.template operator()<unsigned>("F5", X[R16::F5]); f.template operator()<unsigned long>("F6", X[R16::F6]); f.template operator()<bool>("F7", X[R16::F7]); f.template operator()<char>("F8", X[R16::F8]); f.template operator()<int>("F9", X[R16::F9]); f.template operator()<long long>("F10", X[R16::F10]); f.template operator()<float>("F11", X[R16::F11]); f.template operator()<double>("F12", X[R16::F12]); f.template operator()<unsigned>("F13", X[R16::F13]); f.template operator()<unsigned long>("F14", X[R16::F14]); f.template operator()<bool>("F15", X[R16::F15]); f.template operator()<char>("F16", X[R16::F16]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R16::F1]); f("F2", X[R16::F2]); f("F3", X[R16::F3]); f("F4", X[R16::F4]); f("F5", X[R16::F5]); f("F6", X[R16::F6]); f("F7", X[R16::F7]); f("F8", X[R16::F8]); f("F9", X[R16::F9]); f("F10", X[R16::F10]); f("F11", X[R16::F11]); f("F12", X[R16::F12]); f("F13", X[R16::F13]); f("F14", X[R16::F14]); f("F15", X[R16::F15]); f("F16", X[R16::F16]); } }; }
#endif
struct R17;
#if 46 % PARTS == PART
JSON_OBJECT_BEGIN(R17)
JSON_OBJECT_ROOT_PAIR_17(R17, F1, double, F2, unsigned, F3, unsigned long, F4, bool, F5, char, F6, int, F7, long long, F8, float, F9, double, F10, unsigned, F11, unsigned long, F12, bool, F13, char, F14, int, F15, long long, F16, float, F17, double)
  R17() : JSON_INIT_ROOT {}
  R17(std::nullptr_t, double X0, unsigned X1, unsigned long X2, bool X3, char X4, int X5, long long X6, float X7, double X8, unsigned X9, unsigned long X10, bool X11, char X12, int X13, long long X14, float X15, double X16) : JSON_INIT(R17, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16), JSON_INIT_ROOT {}
JSON_OBJECT_END(R17)
JSON_DEFAULT_TRAITS(::, R17)
namespace jm { template<> struct Fields<R17> { static constexpr bool HasPtr = false; static constexpr int count() { return 17; }
  static constexpr bool IsRoot = true; static const char *name() { return "R17"; }
  static R17 make(const std::vector<std::string> &V) { return R17(nullptr, of<double>(V[0]), of<unsigned>(V[1]), of<unsigned long>(V[2]), of<bool>(V[3]), of<char>(V[4]), of<int>(V[5]), of<long long>(V[6]), of<float>(V[7]), of<double>(V[8]), of<unsigned>(V[9]), of<unsigned long>(V[10]), of<bool>(V[11]), of<char>(V[12]), of<int>(V[13]), of<long long>(V[14]), of<float>(V[15]), of<double>(V[16])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<double>("F1", X[R17::F1]); f.template operator()<unsigned>("F2", X[R17::F2]); f.template operator()<unsigned long>("F3", X[R17::F3]); f.template operator()<bool>("F4", X[R17::F4]); f.template operator()<char>("F5", X[R17::F5]); f.template operator()<int>("F6", X[R17::F6]); f.template operator()<long long>("F7", X[R17::F7]); f.template operator()<float>("F8", X[R17::F8]); f.template operator()<double>("F9", X[R17::F9]); f.template operator()<unsigned>("F10", X[R17::F10]); f.template operator()<unsigned long>("F11", X[R17::F11]); f.template operator()<bool>("F12", X[R17::F12]); f.template operator()<char>("F13", X[R17::F13]); f.template operator()<int>("F14", X[R17::F14]); f.template operator()<long long>("F15", X[R17::F15]); f.template operator()<float>("F16", X[R17::F16]); f.template operator()<double>("F17", X[R17::F17]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R17::F1]); f("F2", X[R17::F2]); f("F3", X[R17::F3]); f("F4", X[R17::F4]); f("F5", X[R17::F5]); f("F6", X[R17::F6]); f("F7", X[R17::F7]); f("F8", X[R17::F8]); f("F9", X[R17::F9]); f("F10", X[R17::F10]); f("F11", X[R17::F11]); f("F12", X[R17::F12]); f("F13", X[R17::F13]); f("F14", X[R17::F14]); f("F15", X[R17::F15]); f("F16", X[R17::F16]); f("F17", X[R17::F17]); } }; }
#endif
struct R18;
#if 47 % PARTS == PART
JSON_OBJECT_BEGIN(R18)
JSON_OBJECT_ROOT_PAIR_18(R18, F1, bool, F2, char, F3, int, F4, long long, F5, float, F6, double, F7, unsigned, F8, unsigned long, F9, bool, F10, char, F11, int, F12, long long, F13, float, F14, double, F15, unsigned, F16, unsigned long, F17, bool, F18, char)
  R18() : JSON_INIT_ROOT {}
  R18(std::nullptr_t, bool X0, char X1, int X2, long long X3, float X4, double X5, unsigned X6, unsigned long X7, bool X8, char X9, int X10, long long X11, float X12, double X13, unsigned X14, unsigned long X15, bool X16, char X17) : JSON_INIT(R18, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17), JSON_INIT_ROOT {}
JSON_OBJECT_END(R18)
JSON_DEFAULT_TRAITS(::, R18)
namespace jm { template<> struct Fields<R18> { static constexpr bool HasPtr = false; static constexpr int count() { return 18; }
  static constexpr bool IsRoot = true; static const char *name() { return "R18"; }
  static R18 make(const std::vector<std::string> &V) { return R18(nullptr, of<bool>(V[0]), of<char>(V[1]), of<int>(V[2]), of<long long>(V[3]), of<float>(V[4]), of<double>(V[5]), of<unsigned>(V[6]), of<unsigned long>(V[7]), of<bool>(V[8]), of<char>(V[9]), of<int>(V[10]), of<long long>(V[11]), of<float>(V[12]), of<double>(V[13]), of<unsigned>(V[14]), of<unsigned long>(V[15]), of<bool>(V[16]), of<char>(V[17])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<bool>("F1", X[R18::F1]); f.template operator()<char>("F2", X[R18::F2]); f.template operator()<int>("F3", X[R18::F3]); f.template operator()<long long>("F4", X[R18::F4]); f.template operator()<float>("F5", X[R18::F5]); f.template operator()<double>("F6", X[R18::F6]); f.template operator()<unsigned>("F7", X[R18::F7]); f.template operator()<unsigned long>("F8", X[R18::F8]); f.template operator()<bool>("F9", X[R18::F9]); f.template operator()<char>("F10", X[R18::F10]); f.template operator()<int>("F11", X[R18::F11]); f.template operator()<long long>("F12", X[R18::F12]); f.template operator()<float>("F13", X[R18::F13]); f.template operator()<double>("F14", X[R18::F14]); f.template operator()<unsigned>("F15", X[R18::F15]); f.template operator()<unsigned long>("F16", X[R18::F16]); f.template operator()<bool>("F17", X[R18::F17]); f.template operator()<char>("F18", X[R18::F18]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R18::F1]); f("F2", X[R18::F2]); f("F3", X[R18::F3]); f("F4", X[R18::F4]); f("F5", X[R18::F5]); f("F6", X[R18::F6]); f("F7", X[R18::F7]); f("F8", X[R18::F8]); f("F9", X[R18::F9]); f("F10", X[R18::F10]); f("F11", X[R18::F11]); f("F12", X[R18::F12]); f("F13", X[R18::F13]); f("F14", X[R18::F14]); f("F15", X[R18::F15]); f("F16", X[R18::F16]); f("F17", X[R18::F17]); f("F18", X[R18::F18]); } }; }
#endif
struct R19;
#if 48 % PARTS == PART
JSON_OBJECT_BEGIN(R19)
JSON_OBJECT_ROOT_PAIR_19(R19, F1, long long, F2, float, F3, double, F4, unsigned, F5, unsigned long, F6, bool, F7, char, F8, int, F9, long long, F10, float, F11, double, F12, unsigned, F13, unsigned long, F14, bool, F15, char, F16, int, F17, long long, F18, float, F19, double)
  R19() : JSON_INIT_ROOT {}
  R19(std::nullptr_t, long long X0, float X1, double X2, unsigned X3, unsigned long X4, bool X5, char X6, int X7, long long X8, float X9, double X10, unsigned X11, unsigned long X12, bool X13, char X14, int X15, long long X16, float X17, double X18) : JSON_INIT(R19, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18), JSON_INIT_ROOT {}
JSON_OBJECT_END(R19)
JSON_DEFAULT_TRAITS(::, R19)
namespace jm { template<> struct Fields<R19> { static constexpr bool HasPtr = false; static constexpr int count() { return 19; }
  static constexpr bool IsRoot = true; static const char *name() { return "R19"; }
  static R19 make(const std::vector<std::string> &V) { return R19(nullptr, of<long long>(V[0]), of<float>(V[1]), of<double>(V[2]), of<unsigned>(V[3]), of<unsigned long>(V[4]), of<bool>(V[5]), of<char>(V[6]), of<int>(V[7]), of<long long>(V[8]), of<float>(V[9]), of<double>(V[10]), of<unsigned>(V[11]), of<unsigned long>(V[12]), of<bool>(V[13]), of<char>(V[14]), of<int>(V[15]), of<long long>(V[16]), of<float>(V[17]), of<double>(V[18])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<long long>("F1", X[R19::F1]); f.template operator()<float>("F2", X[R19::F2]); f.template operator()<double>("F3", X[R19::F3]); f.template operator()<unsigned>("F4", X[R19::F4]); f.template operator()<unsigned long>("F5", X[R19::F5]); f.template operator()<bool>("F6", X[R19::F6]); f.template operator()<char>("F7", X[R19::F7]); f.template operator()<int>("F8", X[R19::F8]); f.template operator()<long long>("F9", X[R19::F9]); f.template operator()<float>("F10", X[R19::F10]); f.template operator()<double>("F11", X[R19::F11]); f.template operator()<unsigned>("F12", X[R19::F12]); f.template operator()<unsigned long>("F13", X[R19::F13]); f.template operator()<bool>("F14", X[R19::F14]); f.template operator()<char>("F15", X[R19::F15]); f.template operator()<int>("F16", X[R19::F16]); f.template operator()<long long>("F17", X[R19::F17]); f.template operator()<float>("F18", X[R19::F18]); f.template operator()<double>("F19", X[R19::F19]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R19::F1]); f("F2", X[R19::F2]); f("F3", X[R19::F3]); f("F4", X[R19::F4]); f("F5", X[R19::F5]); f("F6", X[R19::F6]); f("F7", X[R19::F7]); f("F8", X[R19::F8]); f("F9", X[R19::F9]); f("F10", X[R19::F10]); f("F11", X[R19::F11]); f("F12", X[R19::F12]); f("F13", X[R19::F13]); f("F14", X[R19::F14]); f("F15", X[R19::F15]); f("F16", X[R19::F16]); f("F17", X[R19::F17]); f("F18", X[R19::F18]); f("F19", X[R19::F19]); } }; }
#endif
struct R20;
#if 49 % PARTS == PART
JSON_OBJECT_BEGIN(R20)
JSON_OBJECT_ROOT_PAIR_20(R20, F1, unsigned, F2, unsigned long, F3, bool, F4, char, F5, int, F6, long long, F7, float, F8, double, F9, unsigned, F10, unsigned long, F11, bool, F12, char, F13, int, F14, long long, F15, float, F16, double, F17, unsigned, F18, unsigned long, F19, bool, F20, char)
  R20() : JSON_INIT_ROOT {}
  R20(std::nullptr_t, unsigned X0, unsigned long X1, bool X2, char X3, int X4, long long X5, float X6, double X7, unsigned X8, unsigned long X9, bool X10, char X11, int X12, long long X13, float X14, double X15, unsigned X16, unsigned long X17, bool X18, char X19) : JSON_INIT(R20, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19), JSON_INIT_ROOT {}
JSON_OBJECT_END(R20)
JSON_DEFAULT_TRAITS(::, R20)
namespace jm { template<> struct Fields<R20> { static constexpr bool HasPtr = false; static constexpr int count() { return 20; }
  static constexpr bool IsRoot = true; static const char *name() { return "R20"; }
  static R20 make(const std::vector<std::string> &V) { return R20(nullptr, of<unsigned>(V[0]), of<unsigned long>(V[1]), of<bool>(V[2]), of<char>(V[3]), of<int>(V[4]), of<long long>(V[5]), of<float>(V[6]), of<double>(V[7]), of<unsigned>(V[8]), of<unsigned long>(V[9]), of<bool>(V[10]), of<char>(V[11]), of<int>(V[12]), of<long long>(V[13]), of<float>(V[14]), of<double>(V[15]), of<unsigned>(V[16]), of<unsigned long>(V[17]), of<bool>(V[18]), of<char>(V[19])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<unsigned>("F1", X[R20::F1]); f.template operator()<unsigned long>("F2", X[R20::F2]); f.template operator()<bool>("F3", X[R20::F3]); f.template operator()<char>("F4", X[R20::F4]); f.template operator()<int>("F5", X[R20::F5]); f.template operator()<long long>("F6", X[R20::F6]); f.template operator()<float>("F7", X[R20::F7]); f.template operator()<double>("F8", X[R20::F8]); f.template operator()<unsigned>("F9", X[R20::F9]); f.template operator()<unsigned long>("F10", X[R20::F10]); f.template operator()<bool>("F11", X[R20::F11]); f.template operator()<char>("F12", X[R20::F12]); f.template operator()<int>("F13", X[R20::F13]); f.template operator()<long long>("F14", X[R20::F14]); f.template operator()<float>("F15", X[R20::F15]); f.template operator()<double>("F16", X[R20::F16]); f.template operator()<unsigned>("F17", X[R20::F17]); f.template operator()<unsigned long>("F18", X[R20::F18]); f.template operator()<bool>("F19", X[R20::F19]); f.template operator()<char>("F20", X[R20::F20]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R20::F1]); f("F2", X[R20::F2]); f("F3", X[R20::F3]); f("F4", X[R20::F4]); f("F5", X[R20::F5]); f("F6", X[R20::F6]); f("F7", X[R20::F7]); f("F8", X[R20::F8]); f("F9", X[R20::F9]); f("F10", X[R20::F10]); f("F11", X[R20::F11]); f("F12", X[R20::F12]); f("F13", X[R20::F13]); f("F14", X[R20::F14]); f("F15", X[R20::F15]); f("F16", X[R20::F16]); f("F17", X[R20::F17]); f("F18", X[R20::F18]); f("F19", X[R20::F19]); f("F20", X[R20::F20]); } }; }
#endif
struct R21;
#if 50 % PARTS == PART
JSON_OBJECT_BEGIN(R21)
JSON_OBJECT_ROOT_PAIR_21(R21, F1, char, F2, int, F3, long long, F4, float, F5, double, F6, unsigned, F7, unsigned long, F8, bool, F9, char, F10, int, F11, long long, F12, float, F13, double, F14, unsigned, F15, unsigned long, F16, bool, F17, char, F18, int, F19, long long, F20, float, F21, double)
  R21() : JSON_INIT_ROOT {}
  R21(std::nullptr_t, char X0, int X1, long long X2, float X3, double X4, unsigned X5, unsigned long X6, bool X7, char X8, int X9, long long X10, float X11, double X12, unsigned X13, unsigned long X14, bool X15, char X16, int X17, long long X18, float X19, double X20) : JSON_INIT(R21, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19, X20), JSON_INIT_ROOT {}
JSON_OBJECT_END(R21)
JSON_DEFAULT_TRAITS(::, R21)
namespace jm { template<> struct Fields<R21> { static constexpr bool HasPtr = false; static constexpr int count() { return 21; }
  static constexpr bool IsRoot = true; static const char *name() { return "R21"; }
  static R21 make(const std::vector<std::string> &V) { return R21(nullptr, of<char>(V[0]), of<int>(V[1]), of<long long>(V[2]), of<float>(V[3]), of<double>(V[4]), of<unsigned>(V[5]), of<unsigned long>(V[6]), of<bool>(V[7]), of<char>(V[8]), of<int>(V[9]), of<long long>(V[10]), of<float>(V[11]), of<double>(V[12]), of<unsigned>(V[13]), of<unsigned long>(V[14]), of<bool>(V[15]), of<char>(V[16]), of<int>(V[17]), of<long long>(V[18]), of<float>(V[19]), of<double>(V[20])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<char>("F1", X[R21::F1]); f.template operator()<int>("F2", X[R21::F2]); f.template operator()<long long>("F3", X[R21::F3]); f.template operator()<float>("F4", X[R21::F4]); f.template operator()<double>("F5", X[R21::F5]); f.template operator()<unsigned>("F6", X[R21::F6]); f.template operator()<unsigned long>("F7", X[R21::F7]); f.template operator()<bool>("F8", X[R21::F8]); f.template operator()<char>("F9", X[R21::F9]); f.template operator()<int>("F10", X[R21::F10]); f.template operator()<long long>("F11", X[R21::F11]); f.template operator()<float>("F12", X[R21::F12]); f.template operator()<double>("F13", X[R21::F13]); f.template operator()<unsigned>("F14", X[R21::F14]); f.template operator()<unsigned long>("F15", X[R21::F15]); f.template operator()<bool>("F16", X[R21::F16]); f.template operator()<char>("F17", X[R21::F17]); f.template operator()<int>("F18", X[R21::F18]); f.template operator()<long long>("F19", X[R21::F19]); f.template operator()<float>("F20", X[R21::F20]); f.template operator()<double>("F21", X[R21::F21]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R21::F1]); f("F2", X[R21::F2]); f("F3", X[R21::F3]); f("F4", X[R21::F4]); f("F5", X[R21::F5]); f("F6", X[R21::F6]); f("F7", X[R21::F7]); f("F8", X[R21::F8]); f("F9", X[R21::F9]); f("F10", X[R21::F10]); f("F11", X[R21::F11]); f("F12", X[R21::F12]); f("F13", X[R21::F13]); f("F14", X[R21::F14]); f("F15", X[R21::F15]); f("F16", X[R21::F16]); f("F17", X[R21::F17]); f("F18", X[R21::F18]); f("F19", X[R21::F19]); f("F20", X[R21::F20]); f("F21", X[R21::F21]); } }; }
#endif
struct R22;
#if 51 % PARTS == PART
JSON_OBJECT_BEGIN(R22)
JSON_OBJECT_ROOT_PAIR_22(R22, F1, float, F2, double, F3, unsigned, F4, unsigned long, F5, bool, F6, char, F7, int, F8, long long, F9, float, F10, double, F11, unsigned, F12, unsigned long, F13, bool, F14, char, F15, int, F16, long long, F17, float, F18, double, F19, unsigned, F20, unsigned long, F21, bool, F22, char)
  R22() : JSON_INIT_ROOT {}
  R22(std::nullptr_t, float X0, double X1, unsigned X2, unsigned long X3, bool X4, char X5, int X6, long long X7, float X8, double X9, unsigned X10, unsigned long X11, bool X12, char X13, int X14, long long X15, float X16, double X17, unsigned X18, unsigned long X19, bool X20, char X21) : JSON_INIT(R22, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19, X20, X21), JSON_INIT_ROOT {}
JSON_OBJECT_END(R22)
JSON_DEFAULT_TRAITS(::, R22)
namespace jm { template<> struct Fields<R22> { static constexpr bool HasPtr = false; static constexpr int count() { return 22; }
  static constexpr bool IsRoot = true; static const char *name() { return "R22"; }
  static R22 make(const std::vector<std::string> &V) { return R22(nullptr, of<float>(V[0]), of<double>(V[1]), of<unsigned>(V[2]), of<unsigned long>(V[3]), of<bool>(V[4]), of<char>(V[5]), of<int>(V[6]), of<long long>(V[7]), of<float>(V[8]), of<double>(V[9]), of<unsigned>(V[10]), of<unsigned long>(V[11]), of<bool>(V[12]), of<char>(V[13]), of<int>(V[14]), of<long long>(V[15]), of<float>(V[16]), of<double>(V[17]), of<unsigned>(V[18]), of<unsigned long>(V[19]), of<bool>(V[20]), of<char>(V[21])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<float>("F1", X[R22::F1]); f.template operator()<double>("F2", X[R22::F2]); f.template operator()<unsigned>("F3", X[R22::F3]); f.template operator()<unsigned long>("F4", X[R22::F4]); f.template operator()<bool>("F5", X[R22::F5]); f.template operator()<char>("F6", X[R22::F6]); f.template operator()<int>("F7", X[R22::F7]); f.template operator()<long long>("F8", X[R22::F8]); f.template operator()<float>("F9", X[R22::F9]); f.template operator()<double>("F10", X[R22::F10]); f.template operator()<unsigned>("F11", X[R22::F11]); f.template operator()<unsigned long>("F12", X[R22::F12]); f.template operator()<bool>("F13", X[R22::F13]); f.template operator()<char>("F14", X[R22::F14]); f.template operator()<int>("F15", X[R22::F15]); f.template operator()<long long>("F16", X[R22::F16]); f.template operator()<float>("F17", X[R22::F17]); f.template operator()<double>("F18", X[R22::F18]); f.template operator()<unsigned>("F19", X[R22::F19]); f.template operator()<unsigned long>("F20", X[R22::F20]); f.template operator()<bool>("F21", X[R22::F21]); f.template operator()<char>("F22", X[R22::F22]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R22::F1]); f("F2", X[R22::F2]); f("F3", X[R22::F3]); f("F4", X[R22::F4]); f("F5", X[R22::F5]); f("F6", X[R22::F6]); f("F7", X[R22::F7]); f("F8", X[R22::F8]); f("F9", X[R22::F9]); f("F10", X[R22::F10]); f("F11", X[R22::F11]); f("F12", X[R22::F12]); f("F13", X[R22::F13]); f("F14", X[R22::F14]); f("F15", X[R22::F15]); f("F16", X[R22::F16]); f("F17", X[R22::F17]); f("F18", X[R22::F18]); f("F19", X[R22::F19]); f("F20", X[R22::F20]); f("F21", X[R22::F21]); f("F22", X[R22::F22]); } }; }
#endif
struct R23;
#if 52 % PARTS == PART
JSON_OBJECT_BEGIN(R23)
JSON_OBJECT_ROOT_PAIR_23(R23, F1, unsigned long, F2, bool, F3, char, F4, int, F5, long long, F6, float, F7, double, F8, unsigned, F9, unsigned long, F10, bool, F11, char, F12, int, F13, long long, F14, float, F15, double, F16, unsigned, F17, unsigned long, F18, bool, F19, char, F20, int, F21, long long, F22, float, F23, double)
  R23() : JSON_INIT_ROOT {}
  R23(std::nullptr_t, unsigned long X0, bool X1, char X2, int X3, long long X4, float X5, double X6, unsigned X7, unsigned long X8, bool X9, char X10, int X11, long long X12, float X13, double X14, unsigned X15, unsigned long X16, bool X17, char X18, int X19, long long X20, float X21, double X22) : JSON_INIT(R23, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19, X20, X21, X22), JSON_INIT_ROOT {}
JSON_OBJECT_END(R23)
JSON_DEFAULT_TRAITS(::, R23)
namespace jm { template<> struct Fields<R23> { static constexpr bool HasPtr = false; static constexpr int count() { return 23; }
  static constexpr bool IsRoot = true; static const char *name() { return "R23"; }
  static R23 make(const std::vector<std::string> &V) { return R23(nullptr, of<unsigned long>(V[0]), of<bool>(V[1]), of<char>(V[2]), of<int>(V[3]), of<long long>(V[4]), of<float>(V[5]), of<double>(V[6]), of<unsigned>(V[7]), of<unsigned long>(V[8]), of<bool>(V[9]), of<char>(V[10]), of<int>(V[11]), of<long long>(V[12]), of<float>(V[13]), of<double>(V[14]), of<unsigned>(V[15]), of<unsigned long>(V[16]), of<bool>(V[17]), of<char>(V[18]), of<int>(V[19]), of<long long>(V[20]), of<float>(V[21]), of<double>(V[22])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<unsigned long>("F1", X[R23::F1]); f.template operator()<bool>("F2", X[R23::F2]); f.template operator()<char>("F3", X[R23::F3]); f.template operator()<int>("F4", X[R23::F4]); f.template operator()<long long>("F5", X[R23::F5]); f.template operator()<float>("F6", X[R23::F6]); f.template operator()<double>("F7", X[R23::F7]); f.template operator()<unsigned>("F8", X[R23::F8]); f.template operator()<unsigned long>("F9", X[R23::F9]); f.template operator()<bool>("F10", X[R23::F10]); f.template operator()<char>("F11", X[R23::F11]); f.template operator()<int>("F12", X[R23::F12]); f.template operator()<long long>("F13", X[R23::F13]); f.template operator()<float>("F14", X[R23::F14]); f.template operator()<double>("F15", X[R23::F15]); f.template operator()<unsigned>("F16", X[R23::F16]); f.template operator()<unsigned long>("F17", X[R23::F17]); f.template operator()<bool>("F18", X[R23::F18]); f.template operator()<char>("F19", X[R23::F19]); f.template operator()<int>("F20", X[R23::F20]); f.template operator()<long long>("F21", X[R23::F21]); f.template operator()<float>("F22", X[R23::F22]); f.template operator()<double>("F23", X[R23::F23]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R23::F1]); f("F2", X[R23::F2]); f("F3", X[R23::F3]); f("F4", X[R23::F4]); f("F5", X[R23::F5]); f("F6", X[R23::F6]); f("F7", X[R23::F7]); f("F8", X[R23::F8]); f("F9", X[R23::F9]); f("F10", X[R23::F10]); f("F11", X[R23::F11]); f("F12", X[R23::F12]); f("F13", X[R23::F13]); f("F14", X[R23::F14]); f("F15", X[R23::F15]); f("F16", X[R23::F16]); f("F17", X[R23::F17]); f("F18", X[R23::F18]); f("F19", X[R23::F19]); f("F20", X[R23::F20]); f("F21", X[R23::F21]); f("F22", X[R23::F22]); f("F23", X[R23::F23]); } }; }
#endif
struct R24;
#if 53 % PARTS == PART
JSON_OBJECT_BEGIN(R24)
JSON_OBJECT_ROOT_PAIR_24(R24, F1, int, F2, long long, F3, float, F4, double, F5, unsigned, F6, unsigned long, F7, bool, F8, char, F9, int, F10, long long, F11, float, F12, double, F13, unsigned, F14, unsigned long, F15, bool, F16, char, F17, int, F18, long long, F19, float, F20, double, F21, unsigned, F22, unsigned long, F23, bool, F24, char)
  R24() : JSON_INIT_ROOT {}
  R24(std::nullptr_t, int X0, long long X1, float X2, double X3, unsigned X4, unsigned long X5, bool X6, char X7, int X8, long long X9, float X10, double X11, unsigned X12, unsigned long X13, bool X14, char X15, int X16, long long X17, float X18, double X19, unsigned X20, unsigned long X21, bool X22, char X23) : JSON_INIT(R24, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19, X20, X21, X22, X23), JSON_INIT_ROOT {}
JSON_OBJECT_END(R24)
JSON_DEFAULT_TRAITS(::, R24)
namespace jm { template<> struct Fields<R24> { static constexpr bool HasPtr = false; static constexpr int count() { return 24; }
  static constexpr bool IsRoot = true; static const char *name() { return "R24"; }
  static R24 make(const std::vector<std::string> &V) { return R24(nullptr, of<int>(V[0]), of<long long>(V[1]), of<float>(V[2]), of<double>(V[3]), of<unsigned>(V[4]), of<unsigned long>(V[5]), of<bool>(V[6]), of<char>(V[7]), of<int>(V[8]), of<long long>(V[9]), of<float>(V[10]), of<double>(V[11]), of<unsigned>(V[12]), of<unsigned long>(V[13]), of<bool>(V[14]), of<char>(V[15]), of<int>(V[16]), of<long long>(V[17]), of<float>(V[18]), of<double>(V[19]), of<unsigned>(V[20]), of<unsigned long>(V[21]), of<bool>(V[22]), of<char>(V[23])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<int>("F1", X[R24::F1]); f.template operator()<long long>("F2", X[R24::F2]); f.template operator()<float>("F3", X[R24::F3]); f.template operator()<double>("F4", X[R24::F4]); f.template operator()<unsigned>("F5", X[R24::F5]); f.template operator()<unsigned long>("F6", X[R24::F6]); f.template operator()<bool>("F7", X[R24::F7]); f.template operator()<char>("F8", X[R24::F8]); f.template operator()<int>("F9", X[R24::F9]); f.template operator()<long long>("F10", X[R24::F10]); f.template operator()<float>("F11", X[R24::F11]); f.template operator()<double>("F12", X[R24::F12]); f.template operator()<unsigned>("F13", X[R24::F13]); f.template operator()<unsigned long>("F14", X[R24::F14]); f.template operator()<bool>("F15", X[R24::F15]); f.template operator()<char>("F16", X[R24::F16]); f.template operator()<int>("F17", X[R24::F17]); f.template operator()<long long>("F18", X[R24::F18]); f.template operator()<float>("F19", X[R24::F19]); f.template operator()<double>("F20", X[R24::F20]); f.template operator()<unsigned>("F21", X[R24::F21]); f.template operator()<unsigned long>("F22", X[R24::F22]); f.template operator()<bool>("F23", X[R24::F23]); f.template operator()<char>("F24", X[R24::F24]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R24::F1]); f("F2", X[R24::F2]); f("F3", X[R24::F3]); f("F4", X[R24::F4]); f("F5", X[R24::F5]); f("F6", X[R24::F6]); f("F7", X[R24::F7]); f("F8", X[R24::F8]); f("F9", X[R24::F9]); f("F10", X[R24::F10]); f("F11", X[R24::F11]); f("F12", X[R24::F12]); f("F13", X[R24::F13]); f("F14", X[R24::F14]); f("F15", X[R24::F15]); f("F16", X[R24::F16]); f("F17", X[R24::F17]); f("F18", X[R24::F18]); f("F19", X[R24::F19]); f("F20", X[R24::F20]); f("F21", X[R24::F21]); f("F22", X[R24::F22]); f("F23", X[R24::F23]); f("F24", X[R24::F24]); } }; }
#endif
struct R25;
#if 54 % PARTS == PART
JSON_OBJECT_BEGIN(R25)
JSON_OBJECT_ROOT_PAIR_25(R25, F1, double, F2, unsigned, F3, unsigned long, F4, bool, F5, char, F6, int, F7, long long, F8, float, F9, double, F10, unsigned, F11, unsigned long, F12, bool, F13, char, F14, int, F15, long long, F16, float, F17, double, F18, unsigned, F19, unsigned long, F20, bool, F21, char, F22, int, F23, long long, F24, float, F25, double)
  R25() : JSON_INIT_ROOT {}
  R25(std::nullptr_t, double X0, unsigned X1, unsigned long X2, bool X3, char X4, int X5, long long X6, float X7, double X8, unsigned X9, unsigned long X10, bool X11, char X12, int X13, long long X14, float X15, double X16, unsigned X17, unsigned long X18, bool X19, char X20, int X21, long long X22, float X23, double X24) : JSON_INIT(R25, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19, X20, X21, X22, X23, X24), JSON_INIT_ROOT {}
JSON_OBJECT_END(R25)
JSON_DEFAULT_TRAITS(::, R25)
namespace jm { template<> struct Fields<R25> { static constexpr bool HasPtr = false; static constexpr int count() { return 25; }
  static constexpr bool IsRoot = true; static const char *name() { return "R25"; }
  static R25 make(const std::vector<std::string> &V) { return R25(nullptr, of<double>(V[0]), of<unsigned>(V[1]), of<unsigned long>(V[2]), of<bool>(V[3]), of<char>(V[4]), of<int>(V[5]), of<long long>(V[6]), of<float>(V[7]), of<double>(V[8]), of<unsigned>(V[9]), of<unsigned long>(V[10]), of<bool>(V[11]), of<char>(V[12]), of<int>(V[13]), of<long long>(V[14]), of<float>(V[15]), of<double>(V[16]), of<unsigned>(V[17]), of<unsigned long>(V[18]), of<bool>(V[19]), of<char>(V[20]), of<int>(V[21]), of<long long>(V[22]), of<float>(V[23]), of<double>(V[24])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<double>("F1", X[R25::F1]); f.template operator()<unsigned>("F2", X[R25::F2]); f.template operator()<unsigned long>("F3", X[R25::F3]); f.template operator()<bool>("F4", X[R25::F4]); f.template operator()<char>("F5", X[R25::F5]); f.template operator()<int>("F6", X[R25::F6]); f.template operator()<long long>("F7", X[R25::F7]); f.template operator()<float>("F8", X[R25::F8]); f.template operator()<double>("F9", X[R25::F9]); f.template operator()<unsigned>("F10", X[R25::F10]); f.template operator()<unsigned long>("F11", X[R25::F11]); f.template operator()<bool>("F12", X[R25::F12]); f.template operator()<char>("F13", X[R25::F13]); f.template operator()<int>("F14", X[R25::F14]); f.template operator()<long long>("F15", X[R25::F15]); f.template operator()<float>("F16", X[R25::F16]); f.template operator()<double>("F17", X[R25::F17]); f.template operator()<unsigned>("F18", X[R25::F18]); f.template operator()<unsigned long>("F19", X[R25::F19]); f.template operator()<bool>("F20", X[R25::F20]); f.template operator()<char>("F21", X[R25::F21]); f.template operator()<int>("F22", X[R25::F22]); f.template operator()<long long>("F23", X[R25::F23]); f.template operator()<float>("F24", X[R25::F24]); f.template operator()<double>("F25", X[R25::F25]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R25::F1]); f("F2", X[R25::F2]); f("F3", X[R25::F3]); f("F4", X[R25::F4]); f("F5", X[R25::F5]); f("F6", X[R25::F6]); f("F7", X[R25::F7]); f("F8", X[R25::F8]); f("F9", X[R25::F9]); f("F10", X[R25::F10]); f("F11", X[R25::F11]); f("F12", X[R25::F12]); f("F13", X[R25::F13]); f("F14", X[R25::F14]); f("F15", X[R25::F15]); f("F16", X[R25::F16]); f("F17", X[R25::F17]); f("F18", X[R25::F18]); f("F19", X[R25::F19]); f("F20", X[R25::F20]); f("F21", X[R25::F21]); f("F22", X[R25::F22]); f("F23", X[R25::F23]); f("F24", X[R25::F24]); f("F25", X[R25::F25]); } }; }
#endif
struct R26;
#if 55 % PARTS == PART
JSON_OBJECT_BEGIN(R26)
JSON_OBJECT_ROOT_PAIR_26(R26, F1, bool, F2, char, F3, int, F4, long long, F5, float, F6, double, F7, unsigned, F8, unsigned long, F9, bool, F10, char, F11, int, F12, long long, F13, float, F14, double, F15, unsigned, F16, unsigned long, F17, bool, F18, char, F19, int, F20, long long, F21, float, F22, double, F23, unsigned, F24, unsigned long, F25, bool, F26, char)
  R26() : JSON_INIT_ROOT {}
  R26(std::nullptr_t, bool X0, char X1, int X2, long long X3, float X4, double X5, unsigned X6, unsigned long X7, bool X8, char X9, int X10, long long X11, float X12, double X13, unsigned X14, unsigned long X15, bool X16, char X17, int X18, long long X19, float X20, double X21, unsigned X22, unsigned long X23, bool X24, char X25) : JSON_INIT(R26, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19, X20, X21, X22, X23, X24, X25), JSON_INIT_ROOT {}
JSON_OBJECT_END(R26)
JSON_DEFAULT_TRAITS(::, R26)
namespace jm { template<> struct Fields<R26> { static constexpr bool HasPtr = false; static constexpr int count() { return 26; }
  static constexpr bool IsRoot = true; static const char *name() { return "R26"; }
  static R26 make(const std::vector<std::string> &V) { return R26(nullptr, of<bool>(V[0]), of<char>(V[1]), of<int>(V[2]), of<long long>(V[3]), of<float>(V[4]), of<double>(V[5]), of<unsigned>(V[6]), of<unsigned long>(V[7]), of<bool>(V[8]), of<char>(V[9]), of<int>(V[10]), of<long long>(V[11]), of<float>(V[12]), of<double>(V[13]), of<unsigned>(V[14]), of<unsigned long>(V[15]), of<bool>(V[16]), of<char>(V[17]), of<int>(V[18]), of<long long>(V[19]), of<float>(V[20]), of<double>(V[21]), of<unsigned>(V[22]), of<unsigned long>(V[23]), of<bool>(V[24]), of<char>(V[25])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<bool>("F1", X[R26::F1]); f.template operator()<char>("F2", X[R26::F2]); f.template operator()<int>("F3", X[R26::F3]); f.template operator()<long long>("F4", X[R26::F4]); f.template operator()<float>("F5", X[R26::F5]); f.template operator()<double>("F6", X[R26::F6]); f.template operator()<unsigned>("F7", X[R26::F7]); f.template operator()<unsigned long>("F8", X[R26::F8]); f.template operator()<bool>("F9", X[R26::F9]); f.template operator()<char>("F10", X[R26::F10]); f.template operator()<int>("F11", X[R26::F11]); f.template operator()<long long>("F12", X[R26::F12]); f.template operator()<float>("F13", X[R26::F13]); f.template operator()<double>("F14", X[R26::F14]); f.template operator()<unsigned>("F15", X[R26::F15]); f.template operator()<unsigned long>("F16", X[R26::F16]); f.template operator()<bool>("F17", X[R26::F17]); f.template operator()<char>("F18", X[R26::F18]); f.template operator()<int>("F19", X[R26::F19]); f.template operator()<long long>("F20", X[R26::F20]); f.template operator()<float>("F21", X[R26::F21]); f.template operator()<double>("F22", X[R26::F22]); f.template operator()<unsigned>("F23", X[R26::F23]); f.template operator()<unsigned long>("F24", X[R26::F24]); f.template operator()<bool>("F25", X[R26::F25]); f.template operator()<char>("F26", X[R26::F26]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R26::F1]); f("F2", X[R26::F2]); f("F3", X[R26::F3]); f("F4", X[R26::F4]); f("F5", X[R26::F5]); f("F6", X[R26::F6]); f("F7", X[R26::F7]); f("F8", X[R26::F8]); f("F9", X[R26::F9]); f("F10", X[R26::F10]); f("F11", X[R26::F11]); f("F12", X[R26::F12]); f("F13", X[R26::F13]); f("F14", X[R26::F14]); f("F15", X[R26::F15]); f("F16", X[R26::F16]); f("F17", X[R26::F17]); f("F18", X[R26::F18]); f("F19", X[R26::F19]); f("F20", X[R26::F20]); f("F21", X[R26::F21]); f("F22", X[R26::F22]); f("F23", X[R26::F23]); f("F24", X[R26::F24]); f("F25", X[R26::F25]); f("F26", X[R26::F26]); } }; }
#endif
struct R27;
#if 56 % PARTS == PART
JSON_OBJECT_BEGIN(R27)
JSON_OBJECT_ROOT_PAIR_27(R27, F1, long long, F2, float, F3, double, F4, unsigned, F5, unsigned long, F6, bool, F7, char, F8, int, F9, long long, F10, float, F11, double, F12, unsigned, F13, unsigned long, F14, bool, F15, char, F16, int, F17, long long, F18, float, F19, double, F20, unsigned, F21, unsigned long, F22, bool, F23, char, F24, int, F25, long long, F26, float, F27, double)
  R27() : JSON_INIT_ROOT {}
  R27(std::nullptr_t, long long X0, float X1, double X2, unsigned X3, unsigned long X4, bool X5, char X6, int X7, long long X8, float X9, double X10, unsigned X11, unsigned long X12, bool X13, char X14, int X15, long long X16, float X17, double X18, unsigned X19, unsigned long X20, bool X21, char X22, int X23, long long X24, float X25, double X26) : JSON_INIT(R27, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19, X20, X21, X22, X23, X24, X25, X26), JSON_INIT_ROOT {}
JSON_OBJECT_END(R27)
JSON_DEFAULT_TRAITS(::, R27)
namespace jm { template<> struct Fields<R27> { static constexpr bool HasPtr = false; static constexpr int count() { return 27; }
  static constexpr bool IsRoot = true; static const char *name() { return "R27"; }
  static R27 make(const std::vector<std::string> &V) { return R27(nullptr, of<long long>(V[0]), of<float>(V[1]), of<double>(V[2]), of<unsigned>(V[3]), of<unsigned long>(V[4]), of<bool>(V[5]), of<char>(V[6]), of<int>(V[7]), of<long long>(V[8]), of<float>(V[9]), of<double>(V[10]), of<unsigned>(V[11]), of<unsigned long>(V[12]), of<bool>(V[13]), of<char>(V[14]), of<int>(V[15]), of<long long>(V[16]), of<float>(V[17]), of<double>(V[18]), of<unsigned>(V[19]), of<unsigned long>(V[20]), of<bool>(V[21]), of<char>(V[22]), of<int>(V[23]), of<long long>(V[24]), of<float>(V[25]), of<double>(V[26])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<long long>("F1", X[R27::F1]); f.template operator()<float>("F2", X[R27::F2]); f.template operator()<double>("F3", X[R27::F3]); f.template operator()<unsigned>("F4", X[R27::F4]); f.template operator()<unsigned long>("F5", X[R27::F5]); f.template operator()<bool>("F6", X[R27::F6]); f.template operator()<char>("F7", X[R27::F7]); f.template operator()<int>("F8", X[R27::F8]); f.template operator()<long long>("F9", X[R27::F9]); f.template operator()<float>("F10", X[R27::F10]); f.template operator()<double>("F11", X[R27::F11]); f.template operator()<unsigned>("F12", X[R27::F12]); f.template operator()<unsigned long>("F13", X[R27::F13]); f.template operator()<bool>("F14", X[R27::F14]); f.template operator()<char>("F15", X[R27::F15]); f.template operator()<int>("F16", X[R27::F16]); f.template operator()<long long>("F17", X[R27::F17]); f.template operator()<float>("F18", X[R27::F18]); f.template operator()<double>("F19", X[R27::F19]); f.template operator()<unsigned>("F20", X[R27::F20]); f.template operator()<unsigned long>("F21", X[R27::F21]); f.template operator()<bool>("F22", X[R27::F22]); f.template operator()<char>("F23", X[R27::F23]); f.template operator()<int>("F24", X[R27::F24]); f.template operator()<long long>("F25", X[R27::F25]); f.template operator()<float>("F26", X[R27::F26]); f.template operator()<double>("F27", X[R27::F27]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R27::F1]); f("F2", X[R27::F2]); f("F3", X[R27::F3]); f("F4", X[R27::F4]); f("F5", X[R27::F5]); f("F6", X[R27::F6]); f("F7", X[R27::F7]); f("F8", X[R27::F8]); f("F9", X[R27::F9]); f("F10", X[R27::F10]); f("F11", X[R27::F11]); f("F12", X[R27::F12]); f("F13", X[R27::F13]); f("F14", X[R27::F14]); f("F15", X[R27::F15]); f("F16", X[R27::F16]); f("F17", X[R27::F17]); f("F18", X[R27::F18]); f("F19", X[R27::F19]); f("F20", X[R27::F20]); f("F21", X[R27::F21]); f("F22", X[R27::F22]); f("F23", X[R27::F23]); f("F24", X[R27::F24]); f("F25", X[R27::F25]); f("F26", X[R27::F26]); f("F27", X[R27::F27]); } }; }
#endif
struct R28;
#if 57 % PARTS == PART
JSON_OBJECT_BEGIN(R28)
JSON_OBJECT_ROOT_PAIR_28(R28, F1, unsigned, F2, unsigned long, F3, bool, F4, char, F5, int, F6, long long, F7, float, F8, double, F9, unsigned, F10, unsigned long, F11, bool, F12, char, F13, int, F14, long long, F15, float, F16, double, F17, unsigned, F18, unsigned long, F19, bool, F20, char, F21, int, F22, long long, F23, float, F24, double, F25, unsigned, F26, unsigned long, F27, bool, F28, char)
  R28() : JSON_INIT_ROOT {}
  R28(std::nullptr_t, unsigned X0, unsigned long X1, bool X2, char X3, int X4, long long X5, float X6, double X7, unsigned X8, unsigned long X9, bool X10, char X11, int X12, long long X13, float X14, double X15, unsigned X16, unsigned long X17, bool X18, char X19, int X20, long long X21, float X22, double X23, unsigned X24, unsigned long X25, bool X26, char X27) : JSON_INIT(R28, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19, X20, X21, X22, X23, X24, X25, X26, X27), JSON_INIT_ROOT {}
JSON_OBJECT_END(R28)
JSON_DEFAULT_TRAITS(::, R28)
namespace jm { template<> struct Fields<R28> { static constexpr bool HasPtr = false; static constexpr int count() { return 28; }
  static constexpr bool IsRoot = true; static const char *name() { return "R28"; }
  static R28 make(const std::vector<std::string> &V) { return R28(nullptr, of<unsigned>(V[0]), of<unsigned long>(V[1]), of<bool>(V[2]), of<char>(V[3]), of<int>(V[4]), of<long long>(V[5]), of<float>(V[6]), of<double>(V[7]), of<unsigned>(V[8]), of<unsigned long>(V[9]), of<bool>(V[10]), of<char>(V[11]), of<int>(V[12]), of<long long>(V[13]), of<float>(V[14]), of<double>(V[15]), of<unsigned>(V[16]), of<unsigned long>(V[17]), of<bool>(V[18]), of<char>(V[19]), of<int>(V[20]), of<long long>(V[21]), of<float>(V[22]), of<double>(V[23]), of<unsigned>(V[24]), of<unsigned long>(V[25]), of<bool>(V[26]), of<char>(V[27])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<unsigned>("F1", X[R28::F1]); f.template operator()<unsigned long>("F2", X[R28::F2]); f.template operator()<bool>("F3", X[R28::F3]); f.template operator()<char>("F4", X[R28::F4]); f.template operator()<int>("F5", X[R28::F5]); f.template operator()<long long>("F6", X[R28::F6]); f.template operator()<float>("F7", X[R28::F7]); f.template operator()<double>("F8", X[R28::F8]); f.template operator()<unsigned>("F9", X[R28::F9]); f.template operator()<unsigned long>("F10", X[R28::F10]); f.template operator()<bool>("F11", X[R28::F11]); f.template operator()<char>("F12", X[R28::F12]); f.template operator()<int>("F13", X[R28::F13]); f.template operator()<long long>("F14", X[R28::F14]); f.template operator()<float>("F15", X[R28::F15]); f.template operator()<double>("F16", X[R28::F16]); f.template operator()<unsigned>("F17", X[R28::F17]); f.template operator()<unsigned long>("F18", X[R28::F18]); f.template operator()<bool>("F19", X[R28::F19]); f.template operator()<char>("F20", X[R28::F20]); f.template operator()<int>("F21", X[R28::F21]); f.template operator()<long long>("F22", X[R28::F22]); f.template operator()<float>("F23", X[R28::F23]); f.template operator()<double>("F24", X[R28::F24]); f.template operator()<unsigned>("F25", X[R28::F25]); f.template operator()<unsigned long>("F26", X[R28::F26]); f.template operator()<bool>("F27", X[R28::F27]); f.template operator()<char>("F28", X[R28::F28]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R28::F1]); f("F2", X[R28::F2]); f("F3", X[R28::F3]); f("F4", X[R28::F4]); f("F5", X[R28::F5]); f("F6", X[R28::F6]); f("F7", X[R28::F7]); f("F8", X[R28::F8]); f("F9", X[R28::F9]); f("F10", X[R28::F10]); f("F11", X[R28::F11]); f("F12", X[R28::F12]); f("F13", X[R28::F13]); f("F14", X[R28::F14]); f("F15", X[R28::F15]); f("F16", X[R28::F16]); f("F17", X[R28::F17]); f("F18", X[R28::F18]); f("F19", X[R28::F19]); f("F20", X[R28::F20]); f("F21", X[R28::F21]); f("F22", X[R28::F22]); f("F23", X[R28::F23]); f("F24", X[R28::F24]); f("F25", X[R28::F25]); f("F26", X[R28::F26]); f("F27", X[R28::F27]); f("F28", X[R28::F28]); } }; }
#endif
struct R29;
#if 58 % PARTS == PART
JSON_OBJECT_BEGIN(R29)
JSON_OBJECT_ROOT_PAIR_29(R29, F1, char, F2, int, F3, long long, F4, float, F5, double, F6, unsigned, F7, unsigned long, F8, bool, F9, char, F10, int, F11, long long, F12, float, F13, double, F14, unsigned, F15, unsigned long, F16, bool, F17, char, F18, int, F19, long long, F20, float, F21, double, F22, unsigned, F23, unsigned long, F24, bool, F25, char, F26, int, F27, long long, F28, float, F29, double)
  R29() : JSON_INIT_ROOT {}
  R29(std::nullptr_t, char X0, int X1, long long X2, float X3, double X4, unsigned X5, unsigned long X6, bool X7, char X8, int X9, long long X10, float X11, double X12, unsigned X13, unsigned long X14, bool X15, char X16, int X17, long long X18, float X19, double X20, unsigned X21, unsigned long X22, bool X23, char X24, int X25, long long X26, float X27, double X28) : JSON_INIT(R29, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19, X20, X21, X22, X23, X24, X25, X26, X27, X28), JSON_INIT_ROOT {}
JSON_OBJECT_END(R29)
JSON_DEFAULT_TRAITS(::, R29)
namespace jm { template<> struct Fields<R29> { static constexpr bool HasPtr = false; static constexpr int count() { return 29; }
  static constexpr bool IsRoot = true; static const char *name() { return "R29"; }
  static R29 make(const std::vector<std::string> &V) { return R29(nullptr, of<char>(V[0]), of<int>(V[1]), of<long long>(V[2]), of<float>(V[3]), of<double>(V[4]), of<unsigned>(V[5]), of<unsigned long>(V[6]), of<bool>(V[7]), of<char>(V[8]), of<int>(V[9]), of<long long>(V[10]), of<float>(V[11]), of<double>(V[12]), of<unsigned>(V[13]), of<unsigned long>(V[14]), of<bool>(V[15]), of<char>(V[16]), of<int>(V[17]), of<long long>(V[18]), of<float>(V[19]), of<double>(V[20]), of<unsigned>(V[21]), of<unsigned long>(V[22]), of<bool>(V[23]), of<char>(V[24]), of<int>(V[25]), of<long long>(V[26]), of<float>(V[27]), of<double>(V[28])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<char>("F1", X[R29::F1]); f.template operator()<int>("F2", X[R29::F2]); f.template operator()<long long>("F3", X[R29::F3]); f.template operator()<float>("F4", X[R29::F4]); f.template operator()<double>("F5", X[R29::F5]); f.template operator()<unsigned>("F6", X[R29::F6]); f.template operator()<unsigned long>("F7", X[R29::F7]); f.template operator()<bool>("F8", X[R29::F8]); f.template operator()<char>("F9", X[R29::F9]); f.template operator()<int>("F10", X[R29::F10]); f.template operator()<long long>("F11", X[R29::F11]); f.template operator()<float>("F12", X[R29::F12]); f.template operator()<double>("F13", X[R29::F13]); f.template operator()<unsigned>("F14", X[R29::F14]); f.template operator()<unsigned long>("F15", X[R29::F15]); f.template operator()<bool>("F16", X[R29::F16]); f.template operator()<char>("F17", X[R29::F17]); f.template operator()<int>("F18", X[R29::F18]); f.template operator()<long long>("F19", X[R29::F19]); f.template operator()<float>("F20", X[R29::F20]); f.template operator()<double>("F21", X[R29::F21]); f.template operator()<unsigned>("F22", X[R29::F22]); f.template operator()<unsigned long>("F23", X[R29::F23]); f.template operator()<bool>("F24", X[R29::F24]); f.template operator()<char>("F25", X[R29::F25]); f.template operator()<int>("F26", X[R29::F26]); f.template operator()<long long>("F27", X[R29::F27]); f.template operator()<float>("F28", X[R29::F28]); f.template operator()<double>("F29", X[R29::F29]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R29::F1]); f("F2", X[R29::F2]); f("F3", X[R29::F3]); f("F4", X[R29::F4]); f("F5", X[R29::F5]); f("F6", X[R29::F6]); f("F7", X[R29::F7]); f("F8", X[R29::F8]); f("F9", X[R29::F9]); f("F10", X[R29::F10]); f("F11", X[R29::F11]); f("F12", X[R29::F12]); f("F13", X[R29::F13]); f("F14", X[R29::F14]); f("F15", X[R29::F15]); f("F16", X[R29::F16]); f("F17", X[R29::F17]); f("F18", X[R29::F18]); f("F19", X[R29::F19]); f("F20", X[R29::F20]); f("F21", X[R29::F21]); f("F22", X[R29::F22]); f("F23", X[R29::F23]); f("F24", X[R29::F24]); f("F25", X[R29::F25]); f("F26", X[R29::F26]); f("F27", X[R29::F27]); f("F28", X[R29::F28]); f("F29", X[R29::F29]); } }; }
#endif
struct R30;
#if 59 % PARTS == PART
JSON_OBJECT_BEGIN(R30)
JSON_OBJECT_ROOT_PAIR_30(R30, F1, float, F2, double, F3, unsigned, F4, unsigned long, F5, bool, F6, char, F7, int, F8, long long, F9, float, F10, double, F11, unsigned, F12, unsigned long, F13, bool, F14, char, F15, int, F16, long long, F17, float, F18, double, F19, unsigned, F20, unsigned long, F21, bool, F22, char, F23, int, F24, long long, F25, float, F26, double, F27, unsigned, F28, unsigned long, F29, bool, F30, char)
  R30() : JSON_INIT_ROOT {}
  R30(std::nullptr_t, float X0, double X1, unsigned X2, unsigned long X3, bool X4, char X5, int X6, long long X7, float X8, double X9, unsigned X10, unsigned long X11, bool X12, char X13, int X14, long long X15, float X16, double X17, unsigned X18, unsigned long X19, bool X20, char X21, int X22, long long X23, float X24, double X25, unsigned X26, unsigned long X27, bool X28, char X29) : JSON_INIT(R30, X0, X1, X2, X3, X4, X5, X6, X7, X8, X9, X10, X11, X12, X13, X14, X15, X16, X17, X18, X19, X20, X21, X22, X23, X24, X25, X26, X27, X28, X29), JSON_INIT_ROOT {}
JSON_OBJECT_END(R30)
JSON_DEFAULT_TRAITS(::, R30)
namespace jm { template<> struct Fields<R30> { static constexpr bool HasPtr = false; static constexpr int count() { return 30; }
  static constexpr bool IsRoot = true; static const char *name() { return "R30"; }
  static R30 make(const std::vector<std::string> &V) { return R30(nullptr, of<float>(V[0]), of<double>(V[1]), of<unsigned>(V[2]), of<unsigned long>(V[3]), of<bool>(V[4]), of<char>(V[5]), of<int>(V[6]), of<long long>(V[7]), of<float>(V[8]), of<double>(V[9]), of<unsigned>(V[10]), of<unsigned long>(V[11]), of<bool>(V[12]), of<char>(V[13]), of<int>(V[14]), of<long long>(V[15]), of<float>(V[16]), of<double>(V[17]), of<unsigned>(V[18]), of<unsigned long>(V[19]), of<bool>(V[20]), of<char>(V[21]), of<int>(V[22]), of<long long>(V[23]), of<float>(V[24]), of<double>(V[25]), of<unsigned>(V[26]), of<unsigned long>(V[27]), of<bool>(V[28]), of<char>(V[29])); }
  template<class R, class F> static void typed(R &X, F f) { f.template operator()<float>("F1", X[R30::F1]); f.template operator()<double>("F2", X[R30::F2]); f.template operator()<unsigned>("F3", X[R30::F3]); f.template operator()<unsigned long>("F4", X[R30::F4]); f.template operator()<bool>("F5", X[R30::F5]); f.template operator()<char>("F6", X[R30::F6]); f.template operator()<int>("F7", X[R30::F7]); f.template operator()<long long>("F8", X[R30::F8]); f.template operator()<float>("F9", X[R30::F9]); f.template operator()<double>("F10", X[R30::F10]); f.template operator()<unsigned>("F11", X[R30::F11]); f.template operator()<unsigned long>("F12", X[R30::F12]); f.template operator()<bool>("F13", X[R30::F13]); f.template operator()<char>("F14", X[R30::F14]); f.template operator()<int>("F15", X[R30::F15]); f.template operator()<long long>("F16", X[R30::F16]); f.template operator()<float>("F17", X[R30::F17]); f.template operator()<double>("F18", X[R30::F18]); f.template operator()<unsigned>("F19", X[R30::F19]); f.template operator()<unsigned long>("F20", X[R30::F20]); f.template operator()<bool>("F21", X[R30::F21]); f.template operator()<char>("F22", X[R30::F22]); f.template operator()<int>("F23", X[R30::F23]); f.template operator()<long long>("F24", X[R30::F24]); f.template operator()<float>("F25", X[R30::F25]); f.template operator()<double>("F26", X[R30::F26]); f.template operator()<unsigned>("F27", X[R30::F27]); f.template operator()<unsigned long>("F28", X[R30::F28]); f.template operator()<bool>("F29", X[R30::F29]); f.template operator()<char>("F30", X[R30::F30]); }
  template<class R, class F> static void each(R &X, F f) { f("F1", X[R30::F1]); f("F2", X[R30::F2]); f("F3", X[R30::F3]); f("F4", X[R30::F4]); f("F5", X[R30::F5]); f("F6", X[R30::F6]); f("F7", X[R30::F7]); f("F8", X[R30::F8]); f("F9", X[R30::F9]); f("F10", X[R30::F10]); f("F11", X[R30::F11]); f("F12", X[R30::F12]); f("F13", X[R30::F13]); f("F14", X[R30::F14]); f("F15", X[R30::F15]); f("F16", X[R30::F16]); f("F17", X[R30::F17]); f("F18", X[R30::F18]); f("F19", X[R30::F19]); f("F20", X[R30::F20]); f("F21", X[R30::F21]); f("F22", X[R30::F22]); f("F23", X[R30::F23]); f("F24", X[R30::F24]); f("F25", X[R30::F25]); f("F26", X[R30::F26]); f("F27", X[R30::F27]); f("F28", X[R30::F28]); f("F29", X[R30::F29]); f("F30", X[R30::F30]); } }; }
#endif
namespace jm { using Arities = TyList<S1, S2, S3, S4, S5, S6, S7, S8, S9, S10, S11, S12, S13, S14, S15, S16, S17, S18, S19, S20, S21, S22, S23, S24, S25, S26, S27, S28, S29, S30, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13, R14, R15, R16, R17, R18, R19, R20, R21, R22, R23, R24, R25, R26, R27, R28, R29, R30>; }
