// Helpers of the drivers that run the command line tools.
#pragma once
#include "mc/run.hpp"
#include "mc/hashref.hpp"
#include <map>
using namespace mc;

struct Ty { const char* name; std::size_t hs; std::vector<std::string> opt; };
static const Ty SHA{"sha1", 20, {}}, NT{"ntlm", 16, {"--ntlm"}}, T64{"sha1t64", 8, {"--sha1t64"}};

static ref::R mk(const Ty& t, unsigned i, int32_t count) {
  ref::R r; r.h.assign(t.hs, '\0'); r.h[0] = (char)(i >> 8); r.h[1] = (char)i; r.h[t.hs - 1] = (char)(i * 7 + 1); r.c = count; return r;
}
// a sorted database of more than 2^sh bytes: zeros, then k records (the i-th in hash order: mk(t, 2*i+1))
static bool huge_db(const Ty& t, const std::string& name, int sh, uint64_t& n, ref::DB& d, unsigned k = 40) {
  std::size_t rs = t.hs + 4; n = (1ULL << sh) / rs + k / 2; d.clear(); for (unsigned i = 0; i != k; ++i) d.push_back(mk(t, 2 * i + 1, (int32_t)i + 5)); // the last k records lie on both sides of byte 2^sh
  return sparse(name, n, rs, {{n - k, ref::bin(d)}});
}
static Run tool(std::vector<std::string> a, const std::vector<std::string>& more = {}) { Run r; r.argv = std::move(a); for (auto& m: more) r.argv.push_back(m); return r; }
static std::string tail(const Run& r) { return "\n" + r.cmd() + ": " + r.how() + "\nstdout: " + r.out.substr(0, 600) + "\nstderr: " + r.err.substr(0, 400); }

