// C10: array and record comparison = byte order, for one instruction set (this file is built once per set)
#include "mc/explore.hpp"
#include "mc/ref.hpp"
#include "arrcmp.hpp"
#include "hibp.hpp"
#include <utility>
using namespace mc;

static const int VALS[] = {0, 1, 2, 15, 16, 126, 127, 128, 129, 200, 254, 255};
constexpr int NV = sizeof VALS / sizeof *VALS;
constexpr std::size_t MAXN = 160;
static int sgn(int x) { return (x > 0) - (x < 0); }
static int sgn(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }

template <std::size_t N> bool one_cmp(const std::byte* a, const std::byte* b) {
  int want = 0;
  for (std::size_t i = 0; i != N && !want; ++i) want = sgn((int)(unsigned char)a[i] - (int)(unsigned char)b[i]);
  return sgn(arrcmp::array_compare<N>(a, b, arrcmp::three_way{})) == want &&
         sgn(arrcmp::array_compare<N>(a, b, arrcmp::three_way_int{})) == want &&
         arrcmp::array_compare<N>(a, b, arrcmp::equal{}) == (want == 0);
}
struct Fn { bool (*f)(const std::byte*, const std::byte*); bool (*arr)(const std::byte*, const std::byte*); };
template <std::size_t N> bool arr_cmp(const std::byte* a, const std::byte* b) {
  std::array<std::byte, N> x, y;
  if constexpr (N > 0) { std::memcpy(x.data(), a, N); std::memcpy(y.data(), b, N); }
  int want = N == 0 ? 0 : sgn(std::memcmp(a, b, N));
  return sgn(arrcmp::array_compare(x, y, arrcmp::three_way{})) == want && sgn(arrcmp::array_compare(x, y, arrcmp::three_way_int{})) == want &&
         arrcmp::array_compare(x, y, arrcmp::equal{}) == (want == 0);
}
template <std::size_t... I> constexpr auto table(std::index_sequence<I...>) { return std::array<Fn, sizeof...(I)>{Fn{&one_cmp<I>, &arr_cmp<I>}...}; }
static const auto FN = table(std::make_index_sequence<137>{});

struct Bufs {
  alignas(64) std::byte a[64 + MAXN], b[64 + MAXN];
};

// length x alignment pair x first difference position x value pair x a later, opposite difference
static void arrays(Ctx& c) {
  std::size_t N = (std::size_t)c.choose((int)FN.size());
  int al = c.choose(c.thorough ? 64 : 16);
  static Bufs B;
  // the bytes around the compared range differ, too: they must not matter
  std::memset(B.a, 0x55, sizeof B.a); std::memset(B.b, 0xAA, sizeof B.b);
  std::byte *a = B.a + al, *b = B.b + (al * 7 + 3) % (c.thorough ? 64 : 16);
  uint64_t n = 0;
  auto bad = [&](const char* w) {
    std::string x((char*)a, N), y((char*)b, N);
    c.fail("order", std::string(w) + " comparing " + std::to_string(N) + " bytes " + hex(x) + " with " + hex(y) + " at alignments " + std::to_string((uintptr_t)a % 64) + "," + std::to_string((uintptr_t)b % 64) + " is not the byte order");
  };
  for (int bg = 0; bg != 3; ++bg) {
    for (std::size_t i = 0; i != N; ++i) a[i] = b[i] = (std::byte)(bg == 0 ? 0 : bg == 1 ? 255 : (int)(i * 37 + 11) & 255);
    if (!FN[N].f(a, b)) bad("equal arrays:"); ++n;
    if (!FN[N].arr(a, b)) bad("equal arrays:"); ++n;
    for (std::size_t p = 0; p != N; ++p) {
      std::byte sa = a[p], sb = b[p];
      for (int i = 0; i != NV; ++i) for (int j = 0; j != NV; ++j) {
        if (i == j) continue;
        a[p] = (std::byte)VALS[i]; b[p] = (std::byte)VALS[j];
        if (!FN[N].f(a, b)) bad("one difference:"); ++n;
        if (al == 0) { if (!FN[N].arr(a, b)) bad("one difference:"); ++n; }
      }
      for (std::size_t q = p + 1; q != N; ++q) {
        std::byte ta = a[q], tb = b[q];
        for (int k = 0; k != 4; ++k) { // second difference points the other way (or is larger)
          static const int P[4][4] = {{1, 2, 255, 0}, {2, 1, 0, 255}, {127, 128, 128, 127}, {128, 127, 127, 128}};
          a[p] = (std::byte)P[k][0]; b[p] = (std::byte)P[k][1]; a[q] = (std::byte)P[k][2]; b[q] = (std::byte)P[k][3];
          if (!FN[N].f(a, b)) bad("two differences:"); ++n;
        }
        a[q] = ta; b[q] = tb;
      }
      a[p] = sa; b[p] = sb;
    }
  }
  c.sample("length " + std::to_string(N) + ", alignment " + std::to_string(al) + ": every first difference position x value pair x later opposite difference");
  c.evals(n, n);
}

// all 65536 byte pairs at every position, for the lengths the records use and their neighbours
static void pairs(Ctx& c) {
  static const std::size_t LEN[] = {1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 63, 64, 65};
  std::size_t N = LEN[c.choose(sizeof LEN / sizeof *LEN)];
  std::size_t p = (std::size_t)c.choose((int)N);
  static Bufs B;
  std::memset(B.a, 0x3C, sizeof B.a); std::memset(B.b, 0x3C, sizeof B.b);
  uint64_t n = 0;
  for (int i = 0; i != 256; ++i) for (int j = 0; j != 256; ++j) {
    B.a[p] = (std::byte)i; B.b[p] = (std::byte)j;
    if (!FN[N].f(B.a, B.b)) c.fail("order", "length " + std::to_string(N) + ": bytes " + std::to_string(i) + " and " + std::to_string(j) + " at position " + std::to_string(p) + " are misordered");
    ++n;
  }
  c.sample("length " + std::to_string(N) + " position " + std::to_string(p) + ": all byte pairs");
  c.evals(n, n);
}

template <class T> void records(Ctx& c) {
  constexpr std::size_t H = sizeof(T::hash);
  std::size_t p = (std::size_t)c.choose((int)H);
  int oa = c.choose(16), ob = c.choose(16); // record index in an array: every alignment a record can have
  static T A[20], B[20];
  for (auto& r: A) { std::memset(&r, 0x77, sizeof r); }
  for (auto& r: B) { std::memset(&r, 0x11, sizeof r); }
  T &a = A[oa], &b = B[ob];
  uint64_t n = 0;
  static const int CN[][2] = {{1, 1}, {1, 2}, {2, 1}, {-1, 2147483647}};
  for (int i = 0; i != NV; ++i) for (int j = 0; j != NV; ++j) for (auto& cn: CN) {
    for (std::size_t k = 0; k != H; ++k) a.hash[k] = b.hash[k] = (std::byte)(k * 11 + 1);
    for (int later = 0; later != 2; ++later) {
      if (later && p + 1 < H) { a.hash[H - 1] = (std::byte)(i < j ? 255 : 0); b.hash[H - 1] = (std::byte)(i < j ? 0 : 255); }
      a.hash[p] = (std::byte)VALS[i]; b.hash[p] = (std::byte)VALS[j];
      a.count = cn[0]; b.count = cn[1];
      int want = sgn(std::memcmp(a.hash.data(), b.hash.data(), H));
      bool ok = sgn(a <=> b) == want && (a == b) == (want == 0) && (a != b) == (want != 0) && (a < b) == (want < 0) && (a > b) == (want > 0) && (a <= b) == (want <= 0) && (a >= b) == (want >= 0);
      if (!ok) c.fail("record-order", "records " + a.to_string() + " and " + b.to_string() + " are misordered (hash bytes differ first at " + std::to_string(p) + ")");
      ++n;
    }
  }
  c.sample("record of " + std::to_string(H) + " byte hash, difference at " + std::to_string(p) + ", array slots " + std::to_string(oa) + "," + std::to_string(ob));
  c.evals(n, n);
}
static Reg r1({.prop = "C10", .name = "arrays", .body = arrays});
static Reg r2({.prop = "C10", .name = "byte-pairs", .body = pairs});
static Reg r3({.prop = "C10", .name = "records-sha1", .body = records<hibp::pawned_pw_sha1>});
static Reg r4({.prop = "C10", .name = "records-ntlm", .body = records<hibp::pawned_pw_ntlm>});
static Reg r5({.prop = "C10", .name = "records-sha1t64", .body = records<hibp::pawned_pw_sha1t64>});
int main(int argc, char** argv) { return main_(argc, argv); }
