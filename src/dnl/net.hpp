// A stand-in for libcurl's multi interface and libevent, whose every answer is a choice of the explorer.
#pragma once
#include "dnl/sched.hpp"
#include <functional>
#include <string>
#include <vector>
namespace net {
struct Outcome {
  int  code = 0;            // CURLcode
  long http = 200;
  std::string body;         // what arrives (before the error, if there is one)
  std::vector<std::size_t> cuts; // positions where the body is cut into pieces
  bool stall = false;       // never ends by itself: only the low speed or total time limit ends it
};
struct Env {
  std::function<Outcome(std::size_t idx, int attempt, bool ntlm)> outcome; // attempts count from 0
  std::function<Outcome(std::size_t idx, bool ntlm)>              sync;    // the answer to curl_easy_perform
  bool testing = false;
  bool h2 = false;          // all transfers share one connection
  int  order = 0;           // which transfer is served next: 0 first started, 1 any, 2 last started, 3 the lowest rank
  std::function<int(std::size_t idx, int attempt)> rank;
  int  batch = 0;           // further transfers that end in the same action: 0 none, 1 any, 2 all
  bool free_events = false; // connection set-up steps are interleaved freely, too
  bool strict = false;      // requests and handles are judged (C25)
  bool ntlm = false; std::size_t start = 0, limit = 0, parallel = 0; // what C25 expects
  std::function<bool()> failed; // the failure has happened: requests from now on are counted apart
  uint64_t max_iterations = 100000;
};
struct Log { // shared with the process that explores
  uint64_t iterations, requests, sync_requests, completions, max_in_flight, callbacks;
  uint64_t live; // easy handles not released at the end
  uint16_t attempts[64]; // per index
  uint64_t requests_after_failure;
};
extern Env* env;
extern Log* lg;
void at_end(); // called when the program under test has returned
} // namespace net
