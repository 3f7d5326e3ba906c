// C11 (database reads), C12 (record writer), C13 (disk sort), in process on the real flat_file.hpp
#include "mc/run.hpp"
#include "mc/ref.hpp"
#include "flat_file.hpp"
#include "hibp.hpp"
#include <memory>
#include <map>
#include <set>
#include <numeric>
#include <optional>
#include <sstream>
using namespace mc;

template <class T> constexpr std::size_t HS = sizeof(T::hash);
template <class T> const char* nm() { return HS<T> == 20 ? "sha1" : HS<T> == 16 ? "ntlm" : "sha1t64"; }
template <class T> std::string raw(const T& t) { return std::string((const char*)&t, sizeof t); }
template <class T> ref::R mk(unsigned i, int32_t count) { // i-th key, big endian in the first and last bytes
  ref::R r; r.h.assign(HS<T>, '\0');
  r.h[0] = (char)(i >> 8); r.h[1] = (char)i; r.h[HS<T> - 1] = (char)(i * 7 + 1); r.c = count;
  return r;
}
template <class T> T rec(const ref::R& r) { T t; std::memcpy(t.hash.data(), r.h.data(), r.h.size()); t.count = r.c; return t; }

// ---------------------------------------------------------------- C11: all operation sequences over iterators
template <class T> void readers(Ctx& c) {
  const int n   = c.choose(5);          // records 0..4
  const int buf = 1 + c.choose(3);
  std::string f = std::string("db") + std::to_string(n);
  ref::DB d; for (int i = 0; i != n; ++i) d.push_back(mk<T>((unsigned)i + 1, i + 10));
  if (!exists(f)) put(f, ref::bin(d));
  std::string& trace = c.what; trace = std::to_string(n) + " records, buffer of " + std::to_string(buf) + ":";
  flat_file::database<T> db(f, (std::size_t)buf);
  if (db.number_records() != (std::size_t)n || db.filesize() != (std::size_t)n * sizeof(T)) c.fail("size", "number_records/filesize wrong");
  using It = typename flat_file::database<T>::const_iterator;
  It it[2] = {db.begin(), db.end()};
  int pos[2] = {0, n};
  const int depth = (c.thorough ? 5 : 4) + (HS<T> == 8);
  uint64_t h = 7;
  auto val = [&](const T& got, int p, const char* how) {
    if (raw(got) != ref::bin(d[(std::size_t)p])) c.fail("read", trace + " -> " + how + " at position " + std::to_string(p) + " yields " + got.to_string() + " but the file holds " + ref::text(d[(std::size_t)p]));
  };
  auto past = [&](auto fn, const char* how) {
    bool threw = false;
    try { fn(); } catch (const std::exception&) { threw = true; }
    if (!threw) c.fail("past-end", trace + " -> " + how + " past the end does not fail");
  };
  for (int s = 0; s != depth; ++s) {
    int op = c.choose(13);
    c.step();
    int i = op < 10 ? op % 2 : 0, k = op / 2;
    trace += " ";
    if (op >= 10) {
      if (op == 10) { // direct access at every position
        int p = c.choose(n + 2);
        trace += "get(" + std::to_string(p) + ")";
        if (p < n) val(db.get_record((std::size_t)p), p, "get_record");
        else past([&] { db.get_record((std::size_t)p); }, "get_record");
      } else if (op == 11) { trace += "b=a"; it[1] = it[0]; pos[1] = pos[0]; }
      else { trace += "back"; if (n) val(db.back(), n - 1, "back()"); else past([&] { db.back(); }, "back()"); }
    } else switch (k) {
      case 0: trace += std::string("*") + "ab"[i]; if (pos[i] < n) { val(*it[i], pos[i], "*iterator"); } else past([&] { *it[i]; }, "*iterator"); break;
      case 1: trace += std::string("++") + "ab"[i]; if (pos[i] == n) throw Infeasible{}; ++it[i]; ++pos[i]; break;
      case 2: trace += std::string("--") + "ab"[i]; if (pos[i] == 0) throw Infeasible{}; --it[i]; --pos[i]; break;
      case 3: { trace += std::string("") + "ab"[i] + "->"; if (pos[i] == n) throw Infeasible{}; if (it[i]->count != d[(std::size_t)pos[i]].c) c.fail("read", trace + " -> count at position " + std::to_string(pos[i]) + " is " + std::to_string(it[i]->count)); break; }
      case 4: { // post increment and jumps
        int j = c.choose(3);
        trace += std::string("jump") + "ab"[i] + std::to_string(j);
        if (j == 0) { if (pos[i] == n) throw Infeasible{}; It old = it[i]++; val(*old, pos[i], "*iterator++"); ++pos[i]; }
        else if (j == 1) { if (pos[i] + 2 > n) throw Infeasible{}; it[i] += 2; pos[i] += 2; }
        else { if (pos[i] < 2) throw Infeasible{}; it[i] = it[i] - 2; pos[i] -= 2; }
        break;
      }
    }
    if ((it[0] == it[1]) != (pos[0] == pos[1]) || it[1] - it[0] != pos[1] - pos[0] || (int)it[0].pos() != pos[0]) c.fail("iterator", trace + " -> iterator comparison or difference wrong");
    h = mix(h, (uint64_t)(op * 8 + pos[0]) * 8 + (uint64_t)pos[1]);
  }
  c.nontrivial(mix(h, (uint64_t)n * 8 + (uint64_t)buf));
  c.sample(trace);
}

// ---------------------------------------------------------------- C11: algorithms on all small databases
template <class T> void algos(Ctx& c) {
  int n = c.choose(c.thorough ? 7 : 6), buf = 1 + c.choose(4);
  ref::DB d; std::string key;
  for (int i = 0; i != n; ++i) { int k = c.choose(3); key += (char)('0' + k); d.push_back(mk<T>((unsigned)k * 3 + 1, k * 2 + 5)); }
  put("a", ref::bin(d));
  std::vector<T> v; for (auto& r: d) v.push_back(rec<T>(r));
  flat_file::database<T> db("a", (std::size_t)buf);
  auto what = [&] { return ref::show(d) + " with buffer " + std::to_string(buf) + ": "; };
  auto idx = [&](auto it) { return (long)(it - db.begin()); };
  auto vi = [&](auto it) { return (long)(it - v.begin()); };
  auto eq = [&](const char* a, long x, long y) { if (x != y) c.fail("algorithm", what() + a + " gives position " + std::to_string(x) + ", on an array " + std::to_string(y)); };
  auto lt = [](const T& a, const T& b) { return a < b; };
  auto sorted = v; std::sort(sorted.begin(), sorted.end(), lt);
  bool is_s = std::is_sorted(v.begin(), v.end(), lt);
  for (int k = 0; k != 11; ++k) {
    T needle = rec<T>(mk<T>((unsigned)k, 0)); if (k % 3 == 1) needle = rec<T>(mk<T>((unsigned)k, 99));
    if (is_s) {
      eq("lower_bound", idx(std::lower_bound(db.begin(), db.end(), needle)), vi(std::lower_bound(v.begin(), v.end(), needle)));
      eq("upper_bound", idx(std::upper_bound(db.begin(), db.end(), needle)), vi(std::upper_bound(v.begin(), v.end(), needle)));
      if (std::binary_search(db.begin(), db.end(), needle) != std::binary_search(v.begin(), v.end(), needle)) c.fail("algorithm", what() + "binary_search differs");
    }
    eq("find", idx(std::find(db.begin(), db.end(), needle)), vi(std::find(v.begin(), v.end(), needle)));
    auto rb = std::make_reverse_iterator(db.end()), re = std::make_reverse_iterator(db.begin());
    eq("reverse find", (long)(re - std::find(rb, re, needle)), (long)(v.rend() - std::find(v.rbegin(), v.rend(), needle)));
    eq("count", std::count(db.begin(), db.end(), needle), std::count(v.begin(), v.end(), needle));
  }
  // a second database object over the same file, with another buffer size
  for (int ob = 1; ob <= 3; ++ob) {
    flat_file::database<T> o("a", (std::size_t)ob);
    for (int off = 0; off <= n; ++off) {
      auto [x, y] = std::mismatch(db.begin(), db.end() - (std::size_t)off, o.begin() + (std::size_t)off, o.end());
      auto [vx, vy] = std::mismatch(v.begin(), v.end() - off, v.begin() + off, v.end());
      eq("mismatch", idx(x), vi(vx));
    }
    if (std::equal(db.begin(), db.end(), o.begin(), o.end()) != true) c.fail("algorithm", what() + "equal differs");
  }
  std::vector<T> out; std::copy(db.begin(), db.end(), std::back_inserter(out));
  std::string a, b; for (auto& t: out) a += raw(t); for (auto& t: v) b += raw(t);
  if (a != b) c.fail("algorithm", what() + "copy differs");
  out.clear(); for (const auto& t: db) out.push_back(t);
  a.clear(); for (auto& t: out) a += raw(t); if (a != b) c.fail("algorithm", what() + "range for differs");
  for (int k = 0; k <= n; ++k) {
    std::vector<T> p((std::size_t)k), q((std::size_t)k);
    std::partial_sort_copy(db.begin(), db.end(), p.begin(), p.end(), lt); std::partial_sort_copy(v.begin(), v.end(), q.begin(), q.end(), lt);
    for (int i = 0; i != k; ++i) if (p[(std::size_t)i] != q[(std::size_t)i]) c.fail("algorithm", what() + "partial_sort_copy differs");
  }
  if (n) { // move assignment onto a database in use
    put("b", ref::bin(ref::DB{mk<T>(77, 5)}));
    db.get_record((std::size_t)n - 1);
    db = flat_file::database<T>("b", (std::size_t)buf);
    if (raw(*db.begin()) != ref::bin(mk<T>(77, 5)) || db.number_records() != 1) c.fail("move", what() + "reads after move assignment give the old file");
    auto db2 = flat_file::database<T>("a", (std::size_t)buf); db2.get_record(0);
    flat_file::database<T> db3(std::move(db2));
    for (int i = n - 1; i >= 0; --i) if (raw(db3.get_record((std::size_t)i)) != ref::bin(d[(std::size_t)i])) c.fail("move", what() + "reads after move construction differ");
  }
  c.nontrivial(fnv(key, (uint64_t)buf)); c.evals(11 * 6 + 10, 0);
  c.sample("algorithms on keys " + key + " buffer " + std::to_string(buf));
}

// ---------------------------------------------------------------- C11: large databases around the buffer sizes
template <class T> void scale(Ctx& c) {
  static const int BUF[] = {1, 2, 3, 7, 4096 / (int)sizeof(T), 65536 / (int)sizeof(T), 1000};
  int b = BUF[c.choose(7)];
  static const int DN[] = {-1, 0, 1, 2};
  int mult = 1 + c.choose(3); int n = std::max(0, b * mult + DN[c.choose(4)]);
  ref::DB d; for (int i = 0; i != n; ++i) d.push_back(mk<T>((unsigned)i, i));
  put("s", ref::bin(d));
  flat_file::database<T> db("s", (std::size_t)b);
  auto at = [&](int p, const T& t, const char* how) { if (raw(t) != ref::bin(d[(std::size_t)p])) c.fail("read", std::to_string(n) + " records, buffer " + std::to_string(b) + ": " + how + " at " + std::to_string(p) + " yields " + t.to_string()); };
  std::vector<int> P;
  for (int m = 0; m <= mult + 1; ++m) for (int x = -2; x <= 2; ++x) { int p = m * b + x; if (p >= 0 && p < n) P.push_back(p); }
  for (int x = 0; x != 3; ++x) if (n - 1 - x >= 0) P.push_back(n - 1 - x);
  std::sort(P.begin(), P.end()); P.erase(std::unique(P.begin(), P.end()), P.end());
  uint64_t ev = 0;
  for (int p: P) for (int q: P) { // two iterators interleaved
    auto x = db.begin() + (std::size_t)p, y = db.begin() + (std::size_t)q;
    at(p, *x, "first iterator"); at(q, *y, "second iterator"); at(p, *x, "first iterator again");
    T held = *y; (void)*x; at(q, held, "copy"); if (p < n && y->count != d[(std::size_t)q].c) c.fail("read", "-> differs");
    ev += 4;
  }
  int i = 0; for (const auto& t: db) { at(i++, t, "sequential read"); ++ev; } if (i != n) c.fail("read", "sequential read stops early");
  for (auto it = std::make_reverse_iterator(db.end()); it != std::make_reverse_iterator(db.begin()); ++it) { at(--i, *it, "reverse read"); ++ev; }
  auto f = db.begin(); auto l = db.end();
  for (int k = 0; k < n / 2; ++k) { --l; at(k, *f, "from the front"); at(n - 1 - k, *l, "from the back"); ++f; ev += 2; }
  c.evals(ev, ev); c.sample(std::to_string(n) + " records, buffer " + std::to_string(b) + ", " + std::to_string(P.size()) + "^2 interleaved position pairs");
}

// ---------------------------------------------------------------- C12: all histories of a writer with a failing sink
struct Sink : std::streambuf { // a stream with its own buffer; delivers to `dest` on overflow and sync
  std::string pend, dest; std::size_t cap, limit; bool refused = false;
  Sink(std::size_t cap_, std::size_t limit_) : cap(cap_), limit(limit_) {}
  bool deliver() {
    std::size_t room = limit - dest.size(), k = std::min(room, pend.size());
    dest.append(pend, 0, k);
    if (k < pend.size()) { refused = true; pend.erase(0, k); return false; }
    pend.clear(); return true;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    pend.append(s, (std::size_t)n);
    if (pend.size() > cap && !deliver()) return 0;
    return n;
  }
  int overflow(int ch) override { char x = (char)ch; return xsputn(&x, 1) == 1 ? ch : traits_type::eof(); }
  int sync() override { return deliver() ? 0 : -1; }
};
template <class T> void writers(Ctx& c) {
  const std::size_t S = sizeof(T);
  int buf = 1 + c.choose(3);
  std::size_t cap = (std::size_t)c.choose(2) * 3 * S;         // the stream's own buffer: none, three records
  static const int LIM[] = {1000, 0, 1, 2, 3};                // records the destination takes; then also torn by half a record
  int lim = LIM[c.choose(5)]; bool half = lim != 1000 && c.flag();
  const int depth = san() ? (c.thorough ? 6 : 5) : c.thorough ? 8 : 6; // the sanitizers make an execution ten times as long
  Sink sink(cap, lim == 1000 ? (std::size_t)-1 >> 1 : (std::size_t)lim * S + (half ? S / 2 : 0));
  std::ostream os(&sink);
  std::string want; std::string& trace = c.what; trace = "buffer " + std::to_string(buf) + ", stream buffer " + std::to_string(cap) + ", destination takes " + std::to_string(lim) + ":";
  bool reported = false;
  auto prefix = [&] {
    if (want.compare(0, sink.dest.size() + sink.pend.size(), sink.dest + sink.pend) != 0 && !sink.refused) c.fail("order", trace + " -> the stream received bytes that are not a prefix of the records written");
    if (want.compare(0, sink.dest.size(), sink.dest) != 0) c.fail("order", trace + " -> what arrived is not a prefix of the records written: " + hex(sink.dest));
  };
  {
    std::optional<flat_file::stream_writer<T>> w; w.emplace(os, (std::size_t)buf);
    std::vector<std::unique_ptr<flat_file::stream_writer<T>>> old; // moved-from writers, destroyed at various times
    auto cur = std::make_unique<flat_file::stream_writer<T>>(std::move(*w)); w.reset();
    int k = 0;
    for (int s = 0; s != depth && !reported; ++s) {
      int op = c.choose(5);
      c.step();
      try {
        if (op == 0) { trace += " write"; ref::R r = mk<T>((unsigned)++k, k); want += ref::bin(r); cur->write(rec<T>(r)); }
        else if (op == 1) { trace += " flush"; cur->flush(); if (sink.dest.size() + sink.pend.size() != want.size() && !sink.refused) c.fail("flush", trace + " -> records missing from the stream after flush"); }
        else if (op == 2) { trace += " flush(stream)"; cur->flush(true); if (sink.dest != want && !sink.refused) c.fail("flush", trace + " -> records have not reached the destination after flush(true)"); if (sink.refused && !reported && os.good()) c.fail("report", trace + " -> refusal not reported"); if (sink.dest != want) c.fail("report", trace + " -> flush(true) returned although the destination refused data"); }
        else if (op == 3) { trace += " move"; auto nw = std::make_unique<flat_file::stream_writer<T>>(std::move(*cur)); old.push_back(std::move(cur)); cur = std::move(nw); }
        else { trace += " move+destroy"; auto nw = std::make_unique<flat_file::stream_writer<T>>(std::move(*cur)); cur.reset(); cur = std::move(nw); }
      } catch (const std::ios_base::failure&) { reported = true; trace += "!"; }
      if (sink.refused && !reported && os.good()) c.fail("report", trace + " -> the destination refused data and neither an exception nor the stream state tells");
      prefix();
    }
    trace += " destroy";
    old.clear();
    // a caller that ends normally flushes; one that is being unwound just destroys the writer
    if (!reported && c.flag()) { trace += "(flushed)"; try { cur->flush(true); if (sink.dest != want) c.fail("report", trace + " -> final flush returned but the destination lacks records"); } catch (const std::ios_base::failure&) { reported = true; } }
    cur.reset();
  }
  prefix();
  if (!sink.refused && sink.dest + sink.pend != want) c.fail("lost", trace + " -> the stream received " + std::to_string(sink.dest.size() + sink.pend.size()) + " bytes of " + std::to_string(want.size()));
  if (sink.refused && !reported && os.good()) c.fail("report", trace + " -> the destination refused data and nothing tells");
  c.nontrivial(fnv(trace)); c.sample(trace);
}

// ---------------------------------------------------------------- C11: databases as large as the real ones (sparse files)
template <class T> void huge(Ctx& c) {
  static const int SH[] = {31, 32, 33, 34, 35, 36}; int sh = SH[c.choose(c.thorough ? 6 : 5)]; constexpr uint64_t rs = sizeof(T); uint64_t n = (1ULL << sh) / rs + 7;
  static const std::size_t BUF[] = {1, 2, 4096 / rs, 65536 / rs}; std::size_t buf = BUF[c.choose(4)]; int how = c.choose(6); bool sorted = how == 4;
  std::set<uint64_t> ps{0, 1, 2, n / 2, n - 2, n - 1}; // positions on both sides of every power of two of bytes
  for (int k = 29; k <= sh; ++k) for (int d = -3; d <= 3; ++d) { uint64_t p = (1ULL << k) / rs + (uint64_t)d; if (p < n) ps.insert(p); }
  for (uint64_t k: {1ULL << 31, 1ULL << 30}) for (int d = -1; d <= 1; ++d) if (k + (uint64_t)d < n) ps.insert(k + (uint64_t)d); // ... and of records
  if (sorted) { ps.clear(); for (uint64_t k = n - 60; k != n; ++k) ps.insert(k); }
  std::map<uint64_t, std::string> at; std::map<uint64_t, ref::R> val; unsigned i = 0; for (uint64_t p: ps) { ++i; auto r = mk<T>(i, (int32_t)i + 100); val[p] = r; at[p] = ref::bin(r); }
  if (!sparse("huge", n, rs, at)) throw Infeasible{}; // no room for such files here
  std::string w = std::string(nm<T>()) + " database of " + std::to_string(n) + " records, buffer of " + std::to_string(buf) + ", "; c.what = w; uint64_t ev = 0;
  flat_file::database<T> db("huge", buf); using It = typename flat_file::database<T>::const_iterator;
  if (db.number_records() != n || db.filesize() != n * rs) c.fail("size", w + "number_records or filesize is wrong: " + std::to_string(db.number_records()) + ", " + std::to_string(db.filesize()));
  if ((uint64_t)(db.end() - db.begin()) != n) c.fail("iterator", w + "end() - begin() is " + std::to_string(db.end() - db.begin()));
  auto judge = [&](const T& t, uint64_t p, const char* h) { ++ev; auto x = val.count(p) ? val[p] : ref::R{std::string(HS<T>, '\0'), 0}; if (raw(t) != ref::bin(x)) c.fail("read", w + h + " at position " + std::to_string(p) + " yields " + t.to_string() + " but the file holds " + ref::text(x)); };
  std::vector<uint64_t> order(ps.begin(), ps.end()); for (uint64_t p: ps) for (uint64_t q: {p - 1, p + 1}) if (q < n && !ps.count(q)) order.push_back(q);
  if (how == 1) std::reverse(order.begin(), order.end());
  if (how == 0 || how == 1) for (uint64_t p: order) judge(db.get_record(p), p, "get_record");
  else if (how == 2) for (uint64_t p: order) { judge(*(db.begin() + p), p, "*(begin() + p)"); It e = db.end() - (n - p); judge(*e, p, "*(end() - k)"); if (e - db.begin() != (std::ptrdiff_t)p || !(e == db.begin() + p) || e.pos() != p) c.fail("iterator", w + "iterator arithmetic is wrong at " + std::to_string(p)); judge(db.back(), n - 1, "back()"); }
  else if (how == 3) for (uint64_t p: order) for (uint64_t q: {order.front(), order.back(), n / 2}) { judge(db.get_record(q), q, "get_record"); judge(db.get_record(p), p, "get_record"); }
  else if (how == 4) { for (uint64_t p: order) { if (!val.count(p)) continue; T nd = rec<T>(val[p]); auto it = std::lower_bound(db.begin(), db.end(), nd); if (it.pos() != p) c.fail("algorithm", w + "lower_bound gives position " + std::to_string(it.pos()) + " instead of " + std::to_string(p)); judge(*it, p, "lower_bound");
      auto f = std::find(db.begin() + (n - 70), db.end(), nd); if (f.pos() != p) c.fail("algorithm", w + "find gives position " + std::to_string(f.pos()) + " instead of " + std::to_string(p));
      auto r = std::find(std::make_reverse_iterator(db.end()), std::make_reverse_iterator(db.begin()), nd); if ((uint64_t)(std::make_reverse_iterator(db.begin()) - r) != p + 1) c.fail("algorithm", w + "backward find is wrong"); ev += 3; }
    T hi = rec<T>(mk<T>(0xFFFF, 0)); if (!(std::lower_bound(db.begin(), db.end(), hi) == db.end())) c.fail("algorithm", w + "lower_bound behind the last record"); }
  else for (uint64_t p: ps) { uint64_t a = p >= 4 ? p - 4 : 0, q = a; It it = db.begin() + a; for (; q < n && q < p + 4; ++q, ++it) judge(*it, q, "*iterator"); for (; q-- > a;) { --it; judge(*it, q, "*--iterator"); } } // steps across the place
  bool threw = false; try { db.get_record(n); } catch (const std::exception&) { threw = true; } if (!threw) c.fail("past-end", w + "get_record(n) does not fail");
  unlink("huge"); c.evals(ev, 0); c.nontrivial(mix((uint64_t)sh * 64 + (uint64_t)how, buf)); c.sample(w + std::to_string(ev) + " reads");
}

// writers to files with the default buffer: counts around its size
template <class T> void writer_scale(Ctx& c) {
  static const int BUF[] = {0, 1, 2, 170, 1000, 10000};
  int b = BUF[c.choose(6)];
  int base = b ? b : 1000; static const int DN[] = {-1, 0, 1};
  int n = std::max(0, base * c.choose(4) + DN[c.choose(3)]);
  int kind = c.choose(b ? 2 : 4); // plain; move in the middle; file_writer; moved file_writer
  ref::DB d; for (int i = 0; i != n; ++i) d.push_back(mk<T>((unsigned)i, i));
  std::string want = ref::bin(d);
  if (exists("w")) ::unlink("w");
  auto all = [&](auto& w, int from, int to) { for (int i = from; i != to; ++i) w.write(rec<T>(d[(std::size_t)i])); };
  if (kind < 2) {
    std::ofstream os("w", std::ios::binary);
    flat_file::stream_writer<T> w = b ? flat_file::stream_writer<T>(os, (std::size_t)b) : flat_file::stream_writer<T>(os);
    all(w, 0, n / 2);
    if (kind == 0) all(w, n / 2, n);
    else { flat_file::stream_writer<T> w2(std::move(w)); all(w2, n / 2, n); w2.flush(true); if (slurp("w") != want) c.fail("flush", "flush(true) did not bring all of " + std::to_string(n) + " records to the file"); }
  } else if (kind == 2) { flat_file::file_writer<T> w("w"); all(w, 0, n); }
  else if constexpr (std::is_move_constructible_v<flat_file::file_writer<T>>) {
    flat_file::file_writer<T> w("w"); all(w, 0, n / 2);
    flat_file::file_writer<T> w2(std::move(w)); all(w2, n / 2, n);
  } else throw Infeasible{};
  if (slurp("w") != want) c.fail("lost", std::to_string(n) + " records through buffer " + std::to_string(b) + " (kind " + std::to_string(kind) + "): the file differs");
  c.evals((uint64_t)n + 1, 0); c.nontrivial(mix((uint64_t)n * 4 + (uint64_t)kind, (uint64_t)b));
  c.sample(std::to_string(n) + " records, writer buffer " + std::to_string(b) + ", kind " + std::to_string(kind));
}

// ---------------------------------------------------------------- C13: disk sort
template <class T> struct ByCount { bool operator()(const T& a, const T& b) const { return a.count == b.count ? a < b : a.count > b.count; } };
static bool refcmp(const ref::R& a, const ref::R& b, bool cnt) { if (cnt && a.c != b.c) return a.c > b.c; return ref::byhash(a, b); }

struct Quiet { // the library reports progress on cerr/cout
  std::streambuf *e, *o; struct N : std::streambuf { int overflow(int ch) override { return ch; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } } n;
  Quiet() : e(std::cerr.rdbuf(&n)), o(std::cout.rdbuf(&n)) {}
  ~Quiet() { std::cerr.rdbuf(e); std::cout.rdbuf(o); }
};

template <class T> void sort_check(Ctx& c, const ref::DB& d, int mode, std::size_t mem, std::size_t buf, const std::string& what) {
  put("in", ref::bin(d));
  std::string out;
  {
    Quiet q;
    flat_file::database<T> db("in", buf);
    try {
      if (mode == 0) out = db.disksort({}, {}, mem);
      else if (mode == 1) out = db.disksort(ByCount<T>{}, {}, mem);
      else if (mode == 2) out = db.disksort(std::less<>{}, [](const T& t) { return t; }, mem);
      else out = db.disksort(std::greater<>{}, [](const T& t) { return t; }, mem);
    } catch (const std::exception& e) { c.fail("sort-fails", what + ": sorting fails: " + e.what()); }
  }
  if (slurp("in") != ref::bin(d)) c.fail("input", what + ": the input database was changed");
  auto files = ls();
  std::vector<std::string> wantf{"in", out}; std::sort(wantf.begin(), wantf.end());
  if (files != wantf) { std::string s; for (auto& f: files) s += " " + f; c.fail("leftover", what + ": files afterwards:" + s + " (sorted file is " + out + ")"); }
  auto got = ref::parse(slurp(out), HS<T>);
  auto cmp = [&](const ref::R& a, const ref::R& b) { return mode == 3 ? ref::byhash(b, a) : refcmp(a, b, mode == 1); };
  for (std::size_t i = 1; i < got.size(); ++i) if (cmp(got[i], got[i - 1])) c.fail("order", what + ": record " + std::to_string(i) + " of the result is out of order: " + ref::show(got));
  auto full = [](const ref::R& a, const ref::R& b) { int k = std::memcmp(a.h.data(), b.h.data(), a.h.size()); return k ? k < 0 : a.c < b.c; };
  auto x = d, y = got; std::sort(x.begin(), x.end(), full); std::sort(y.begin(), y.end(), full);
  if (x != y || slurp(out).size() != d.size() * sizeof(T)) c.fail("permutation", what + ": the result does not hold exactly the input's records: " + ref::show(got));
  clean();
}

template <class T> void sorts(Ctx& c) {
  int n = c.choose(c.thorough ? 7 : 6); ref::DB d;
  std::string key;
  for (int i = 0; i != n; ++i) { int k = c.choose(i < 4 ? 5 : 3); key += (char)('0' + k); d.push_back(mk<T>((unsigned)(k % 3) + 1, k / 3 + 1)); }
  int mode = c.choose(3);
  static const int MEM[] = {1, 2, 3, 1000, 0};
  int m = MEM[c.choose(5)];
  std::size_t mem = m == 0 ? sizeof(T) - 1 : (std::size_t)m * sizeof(T) + (m == 2 ? 5 : 0);
  std::string what = std::string(nm<T>()) + " " + ref::show(d) + " sorted by " + (mode == 1 ? "count" : "hash") + ", memory for " + std::to_string(m) + " records";
  sort_check<T>(c, d, mode, mem, 1 + (std::size_t)(n % 3), what);
  c.nontrivial(fnv(key, (uint64_t)mode * 8 + (uint64_t)m)); c.sample(what);
}
template <class T> void sort_scale(Ctx& c) {
  static const int N[] = {999, 1000, 1001, 2500, 4097};
  int n = N[c.choose(5)], mode = c.choose(4), ord = c.choose(6);
  static const int M[] = {1 << 20, 1500, 1000, 999, 300};
  int m = M[c.choose(5)];
  ref::DB d;
  for (int i = 0; i != n; ++i) {
    unsigned k = ord == 0 ? (unsigned)i : ord == 1 ? (unsigned)(n - i) : ord == 2 ? (unsigned)((i * 7919) % n) : ord == 3 ? (unsigned)(i % 17) : ord == 5 ? 3u : (unsigned)(i ^ 0x155);
    d.push_back(mk<T>(k, (int32_t)(ord == 3 ? i % 5 : (k * 31) % 97)));
  }
  sort_check<T>(c, d, mode, (std::size_t)m * sizeof(T), 4096 / sizeof(T), std::to_string(n) + " records, pattern " + std::to_string(ord) + ", mode " + std::to_string(mode) + ", memory for " + std::to_string(m) + " records");
  c.sample(std::to_string(n) + " records pattern " + std::to_string(ord) + " mode " + std::to_string(mode) + " chunk " + std::to_string(m));
  c.nontrivial(mix((uint64_t)n * 64 + (uint64_t)mode * 8 + (uint64_t)ord, (uint64_t)m));
}

template <class T> void sort_chunks(Ctx& c) { // chunks by the hundred: every count up to more than a thousand would take too long, counts around powers of ten and two are all there
  static const int N[] = {9, 10, 11, 64, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 512, 900};
  int chunks = N[c.choose(c.thorough ? 17 : 16)], per = 1 + c.choose(2), last = c.choose(2), mode = c.choose(2), ord = c.choose(3); int n = chunks * per - (per == 2 ? last : 0); if (per == 1 && last) throw Infeasible{};
  ref::DB d; for (int i = 0; i != n; ++i) { unsigned k = ord == 0 ? (unsigned)(n - i) : ord == 1 ? (unsigned)((i * 7919) % n) : (unsigned)(i / 2); d.push_back(mk<T>(k, (int32_t)(ord == 2 ? i % 7 : (int)k))); }
  std::string w = std::string(nm<T>()) + ", " + std::to_string(n) + " records in " + std::to_string(chunks) + " chunks, pattern " + std::to_string(ord) + ", mode " + std::to_string(mode);
  sort_check<T>(c, d, mode, (std::size_t)per * sizeof(T), 64, w); c.sample(w); c.nontrivial(fnv(w));
}

template <class T> struct RegT {
  RegT() {
    std::string n = nm<T>();
    scenarios().push_back({.prop = "C11", .name = "sequences-" + n, .body = readers<T>, .splitk = 3});
    scenarios().push_back({.prop = "C11", .name = "algorithms-" + n, .body = algos<T>});
    scenarios().push_back({.prop = "C11", .name = "buffers-" + n, .body = scale<T>, .splitk = 1});
    scenarios().push_back({.prop = "C11", .name = "huge-" + n, .body = huge<T>});
    scenarios().push_back({.prop = "C12", .name = "histories-" + n, .body = writers<T>, .splitk = 3});
    scenarios().push_back({.prop = "C12", .name = "files-" + n, .body = writer_scale<T>});
    scenarios().push_back({.prop = "C13", .name = "small-" + n, .body = sorts<T>});
    scenarios().push_back({.prop = "C13", .name = "large-" + n, .body = sort_scale<T>});
    scenarios().push_back({.prop = "C13", .name = "chunks-" + n, .body = sort_chunks<T>});
  }
};
static RegT<hibp::pawned_pw_sha1> r1;
static RegT<hibp::pawned_pw_ntlm> r2;
static RegT<hibp::pawned_pw_sha1t64> r3;
int main(int argc, char** argv) { return main_(argc, argv); }
