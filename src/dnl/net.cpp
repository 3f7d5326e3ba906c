#include "dnl/net.hpp"
#include <curl/curl.h>
#include <event2/event.h>
#include <deque>
#include <list>
#undef curl_easy_setopt
#undef curl_easy_getinfo
#undef curl_multi_setopt

namespace net { Env* env = nullptr; Log* lg = nullptr; }
using namespace net;
extern mc::Ctx* net_ctx;
mc::Ctx* net_ctx = nullptr;

enum St { IDLE, ADDED, CONNECTING, SENT, DONEST };
struct Easy {
  uint32_t magic = 0xEA51EA51; int no = 0; St st = IDLE; struct Multi* multi = nullptr; bool in_multi = false;
  curl_write_callback wf = nullptr; void* wd = stdout; void* priv = nullptr; std::string url; bool failonerror = false, limited = false; long lowt = 0, lowl = 0;
  long response = 0; uint64_t got = 0; int fd = -1; Outcome out; bool have = false; std::size_t idx = 0; bool known = false, ntlm = false;
  CURLMsg* msg = nullptr;
};
struct Multi {
  uint32_t magic = 0x3A1715AA; std::vector<Easy*> e; std::deque<CURLMsg*> msgs; CURLMsg* given = nullptr;
  curl_socket_callback sf = nullptr; void* sd = nullptr; curl_multi_timer_callback tf = nullptr; void* td = nullptr;
  long timer = -1; bool in_cb = false; std::map<int, void*> assigned; std::map<int, int> what; // fd -> action last told
};
struct event { uint32_t magic; event_base* base; evutil_socket_t fd; short flags; event_callback_fn cb; void* arg; bool pending; bool timed; long ms; };
struct event_base { uint32_t magic = 0xBA5EBA5E; std::list<event*> pend; bool brk = false, was = false; };

static std::vector<Easy*> handles; static Multi* the_multi = nullptr; static std::map<std::size_t, int> tries;
static const uint32_t EA = 0xEA51EA51, MU = 0x3A1715AA, EV = 0xE7E47E47;
static void bad(const char* k, const std::string& m) { sched::abort_run(k, m); }
static Easy* E(CURL* p, const char* fn) {
  Easy* e = (Easy*)p; if (!e) bad("null-handle", std::string(fn) + " is called with a null handle");
  if (e->magic != EA) bad("released-handle", std::string(fn) + " is called with a transfer handle that was released before");
  return e;
}
static Multi* MH(CURLM* p, const char* fn) { Multi* m = (Multi*)p; if (!m || m->magic != MU) bad("released-multi", std::string(fn) + " is called with a multi handle that does not exist (any more)"); return m; }
static event* V(event* p, const char* fn) { if (!p || p->magic != EV) bad("released-event", std::string(fn) + " is called with an event that does not exist (any more)"); return p; }

static void parse(Easy* e) { // which range is asked for
  std::string b = env->testing ? "http://localhost:8090/" : "https://api.pwnedpasswords.com/range/";
  e->known = false; e->ntlm = false; std::string u = e->url;
  if (u.size() > 10 && u.substr(u.size() - 10) == "?mode=ntlm") { e->ntlm = true; u.resize(u.size() - 10); }
  if (u.size() != b.size() + 5 || u.compare(0, b.size(), b)) return;
  std::string h = u.substr(b.size()); if (h.find_first_not_of("0123456789ABCDEF") != std::string::npos) return;
  e->idx = std::stoul(h, nullptr, 16); e->known = true;
}

struct InCb { Multi* m; explicit InCb(Multi* x) : m(x) { m->in_cb = true; lg->callbacks++; } ~InCb() { m->in_cb = false; } };
static void tell(Multi* m, Easy* e, int fd, int action) {
  auto it = m->what.find(fd); if (it != m->what.end() && it->second == action) return;
  if (action == CURL_POLL_REMOVE) { if (it == m->what.end()) return; }
  void* p = m->assigned.count(fd) ? m->assigned[fd] : nullptr;
  if (action == CURL_POLL_REMOVE) m->what.erase(fd); else m->what[fd] = action;
  if (m->sf) { InCb i(m); m->sf(e, fd, action, m->sd, p); }
  if (action == CURL_POLL_REMOVE) m->assigned.erase(fd);
}
static void update_timer(Multi* m) {
  long t = -1; for (auto* e: m->e) { if (e->st == ADDED) { t = 0; break; } if (e->st == CONNECTING || e->st == SENT) t = 1000; }
  if (t == m->timer) return;
  m->timer = t; if (m->tf) { InCb i(m); m->tf(m, t, m->td); }
}
static int free_fd(Multi* m) { if (env->h2) return 100; for (int f = 100;; ++f) { bool used = false; for (auto* e: m->e) if (e->fd == f) used = true; if (!used) return f; } }
// the connection of this transfer is no longer watched (for it)
static void unwatch(Multi* m, Easy* e) {
  int fd = e->fd; if (fd < 0) return; e->fd = -1;
  for (auto* o: m->e) if (o->fd == fd) return; // shared
  tell(m, e, fd, CURL_POLL_REMOVE);
}
static void begin(Multi* m, Easy* e) { // a transfer leaves the queue: a request goes out
  parse(e); e->response = 0; e->have = false; e->st = CONNECTING; e->fd = free_fd(m);
  lg->requests++; if (env->failed && env->failed()) lg->requests_after_failure++;
  int at = 0;
  if (e->known) { at = tries[e->idx]++; if (e->idx < 64) lg->attempts[e->idx]++; }
  if (env->strict) {
    if (!e->known || e->ntlm != env->ntlm) bad("wrong-url", "requested: " + e->url);
    if (e->idx < env->start || e->idx >= env->limit) bad("wrong-range", "requested: " + e->url + " (ranges " + std::to_string(env->start) + " to " + std::to_string(env->limit) + ")");
  }
  if (!e->known) { e->out = Outcome{}; e->out.http = 404; e->out.body = "not found"; }
  else e->out = env->outcome(e->idx, at, e->ntlm);
  tell(m, e, e->fd, env->h2 && m->what.count(e->fd) ? CURL_POLL_IN : CURL_POLL_OUT);
}
static int deliver(Multi* m, Easy* e, const Outcome& o) { // CURLcode
  e->response = o.http; e->got = 0;
  if (e->failonerror && o.http >= 400 && o.code == 0) return CURLE_HTTP_RETURNED_ERROR;
  std::vector<std::size_t> cuts = o.cuts; cuts.push_back(o.body.size()); std::size_t p = 0;
  for (std::size_t c: cuts) while (p < c && p < o.body.size()) {
    std::size_t n = std::min<std::size_t>(std::min(c, o.body.size()) - p, 16384), r;
    char* piece = (char*)malloc(n); memcpy(piece, o.body.data() + p, n);
    if (m) { InCb i(m); r = e->wf ? e->wf(piece, 1, n, e->wd) : fwrite(piece, 1, n, (FILE*)e->wd); } else r = e->wf ? e->wf(piece, 1, n, e->wd) : fwrite(piece, 1, n, (FILE*)e->wd);
    memset(piece, 0x5A, n); free(piece); e->got += n;
    if (r != n) return CURLE_WRITE_ERROR;
    p += n;
  }
  return o.code;
}
static void finish(Multi* m, Easy* e, int code) {
  e->st = DONEST; unwatch(m, e); lg->completions++;
  auto* x = (CURLMsg*)malloc(sizeof(CURLMsg)); x->msg = CURLMSG_DONE; x->easy_handle = e; x->data.whatever = nullptr; x->data.result = (CURLcode)code; e->msg = x; m->msgs.push_back(x);
}
static void poison(CURLMsg* x) { memset(x, 0x5A, sizeof *x); }
static void detach(Multi* m, Easy* e) {
  if (!e->in_multi) return;
  e->in_multi = false; m->e.erase(std::find(m->e.begin(), m->e.end(), e));
  if (e->msg) { for (auto it = m->msgs.begin(); it != m->msgs.end(); ++it) if (*it == e->msg) { m->msgs.erase(it); break; } if (m->given == e->msg) m->given = nullptr; poison(e->msg); e->msg = nullptr; }
  e->st = IDLE; unwatch(m, e); e->multi = nullptr;
  update_timer(m);
}

extern "C" {
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup() {}
CURL* curl_easy_init() { auto* e = new Easy; e->no = (int)handles.size(); handles.push_back(e); lg->live++; return e; }
void curl_easy_cleanup(CURL* p) { if (!p) return; Easy* e = E(p, "curl_easy_cleanup()"); if (e->in_multi) detach(e->multi, e); e->magic = 0xDEAD; lg->live--; }
void curl_easy_reset(CURL* p) { Easy* e = E(p, "curl_easy_reset()"); e->wf = nullptr; e->wd = stdout; e->priv = nullptr; e->url.clear(); e->failonerror = e->limited = false; e->lowt = e->lowl = 0; }
CURL* curl_easy_duphandle(CURL* p) { Easy* o = E(p, "curl_easy_duphandle()"); auto* e = (Easy*)curl_easy_init(); e->wf = o->wf; e->wd = o->wd; e->priv = o->priv; e->url = o->url; e->failonerror = o->failonerror; e->limited = o->limited; e->lowt = o->lowt; e->lowl = o->lowl; return e; }
struct curl_slist* curl_slist_append(struct curl_slist* l, const char* t) { auto* n = (struct curl_slist*)malloc(sizeof(struct curl_slist)); n->data = strdup(t); n->next = nullptr; if (!l) return n; auto* x = l; while (x->next) x = x->next; x->next = n; return l; }
void curl_slist_free_all(struct curl_slist* l) { while (l) { auto* n = l->next; free(l->data); free(l); l = n; } }
char* curl_version() { static char v[] = "libcurl/8.5.0"; return v; }
void curl_free(void* p) { free(p); }
char* curl_easy_escape(CURL*, const char* t, int n) { std::string o; std::size_t l = n > 0 ? (std::size_t)n : strlen(t); for (std::size_t i = 0; i != l; ++i) { unsigned char ch = (unsigned char)t[i]; if (isalnum(ch) || strchr("-._~", ch)) o += (char)ch; else { char b[4]; snprintf(b, 4, "%%%02X", ch); o += b; } } return strdup(o.c_str()); }
CURLcode curl_easy_setopt(CURL* p, CURLoption o, ...) {
  Easy* e = E(p, "curl_easy_setopt()"); va_list v; va_start(v, o); CURLcode r = CURLE_OK;
  switch (o) {
  case CURLOPT_WRITEFUNCTION: e->wf = va_arg(v, curl_write_callback); break;
  case CURLOPT_WRITEDATA: e->wd = va_arg(v, void*); break;
  case CURLOPT_PRIVATE: e->priv = va_arg(v, void*); break;
  case CURLOPT_URL: { const char* u = va_arg(v, const char*); e->url = u ? u : ""; break; }
  case CURLOPT_FAILONERROR: e->failonerror = va_arg(v, long) != 0; break;
  case CURLOPT_LOW_SPEED_TIME: e->lowt = va_arg(v, long); break;
  case CURLOPT_LOW_SPEED_LIMIT: e->lowl = va_arg(v, long); break;
  case CURLOPT_TIMEOUT: case CURLOPT_TIMEOUT_MS: e->limited = va_arg(v, long) > 0; break;
  default: break;
  }
  va_end(v); return r;
}
CURLcode curl_easy_getinfo(CURL* p, CURLINFO i, ...) {
  Easy* e = E(p, "curl_easy_getinfo()"); va_list v; va_start(v, i); void* o = va_arg(v, void*); va_end(v);
  switch (i) {
  case CURLINFO_PRIVATE: *(char**)o = (char*)e->priv; break;
  case CURLINFO_RESPONSE_CODE: *(long*)o = e->response; break;
  case CURLINFO_EFFECTIVE_URL: *(const char**)o = e->url.c_str(); break;
  case CURLINFO_SIZE_DOWNLOAD: *(double*)o = (double)e->got; break;
  case CURLINFO_SIZE_DOWNLOAD_T: *(curl_off_t*)o = (curl_off_t)e->got; break;
  case CURLINFO_CONTENT_LENGTH_DOWNLOAD: *(double*)o = -1; break; // a chunked body: its length is not known before
  case CURLINFO_CONTENT_LENGTH_DOWNLOAD_T: *(curl_off_t*)o = -1; break;
  case CURLINFO_TOTAL_TIME: *(double*)o = 0.25; break;
  default: switch (i & CURLINFO_TYPEMASK) { case CURLINFO_STRING: *(const char**)o = ""; break; case CURLINFO_LONG: *(long*)o = 0; break; case CURLINFO_DOUBLE: *(double*)o = 0; break; case CURLINFO_OFF_T: *(curl_off_t*)o = 0; break; default: return CURLE_UNKNOWN_OPTION; }
  }
  return CURLE_OK;
}
CURLcode curl_easy_perform(CURL* p) {
  Easy* e = E(p, "curl_easy_perform()"); parse(e); lg->sync_requests++;
  Outcome o; if (!e->known) { o.http = 404; o.body = "not found"; } else o = env->sync(e->idx, e->ntlm);
  if (env->strict && (!e->known || e->ntlm != env->ntlm)) bad("wrong-url", "requested: " + e->url);
  return (CURLcode)deliver(nullptr, e, o);
}
const char* curl_easy_strerror(CURLcode c) { static char b[32]; snprintf(b, sizeof b, "error %d", (int)c); return b; }
const char* curl_multi_strerror(CURLMcode c) { static char b[32]; snprintf(b, sizeof b, "multi error %d", (int)c); return b; }

CURLM* curl_multi_init() { return the_multi = new Multi; }
CURLMcode curl_multi_setopt(CURLM* p, CURLMoption o, ...) {
  Multi* m = MH(p, "curl_multi_setopt()"); if (m->in_cb) return CURLM_RECURSIVE_API_CALL;
  va_list v; va_start(v, o);
  switch (o) {
  case CURLMOPT_SOCKETFUNCTION: m->sf = va_arg(v, curl_socket_callback); break;
  case CURLMOPT_SOCKETDATA: m->sd = va_arg(v, void*); break;
  case CURLMOPT_TIMERFUNCTION: m->tf = va_arg(v, curl_multi_timer_callback); break;
  case CURLMOPT_TIMERDATA: m->td = va_arg(v, void*); break;
  default: break;
  }
  va_end(v); return CURLM_OK;
}
CURLMcode curl_multi_add_handle(CURLM* p, CURL* q) {
  Multi* m = MH(p, "curl_multi_add_handle()"); Easy* e = E(q, "curl_multi_add_handle()");
  if (m->in_cb) return CURLM_RECURSIVE_API_CALL;
  if (e->in_multi) return CURLM_ADDED_ALREADY;
  e->in_multi = true; e->multi = m; e->st = ADDED; e->have = false; m->e.push_back(e);
  uint64_t fl = 0; for (auto* o: m->e) if (o->st != DONEST) ++fl;
  if (fl > lg->max_in_flight) lg->max_in_flight = fl;
  if (env->strict && fl > env->parallel) bad("too-many-in-flight", std::to_string(fl) + " transfers are in flight, --parallel-max is " + std::to_string(env->parallel));
  update_timer(m); return CURLM_OK;
}
CURLMcode curl_multi_remove_handle(CURLM* p, CURL* q) {
  Multi* m = MH(p, "curl_multi_remove_handle()"); Easy* e = E(q, "curl_multi_remove_handle()");
  if (!e->in_multi) return CURLM_OK;
  if (m->in_cb) return CURLM_RECURSIVE_API_CALL;
  detach(m, e); return CURLM_OK;
}
CURLMsg* curl_multi_info_read(CURLM* p, int* n) {
  Multi* m = MH(p, "curl_multi_info_read()"); *n = 0; if (m->in_cb || m->msgs.empty()) return nullptr;
  auto* x = m->msgs.front(); m->msgs.pop_front(); m->given = x; *n = (int)m->msgs.size(); return x;
}
CURLMcode curl_multi_assign(CURLM* p, curl_socket_t s, void* d) {
  Multi* m = MH(p, "curl_multi_assign()"); if (d && !m->what.count(s)) return CURLM_BAD_SOCKET; if (!m->what.count(s)) return CURLM_BAD_SOCKET; m->assigned[s] = d; return CURLM_OK;
}
CURLMcode curl_multi_socket_action(CURLM* p, curl_socket_t s, int flags, int* running) {
  Multi* m = MH(p, "curl_multi_socket_action()"); if (m->in_cb) return CURLM_RECURSIVE_API_CALL;
  auto& c = *net_ctx;
  if (s == CURL_SOCKET_TIMEOUT) {
    std::vector<Easy*> todo; for (auto* e: m->e) if (e->st == ADDED) todo.push_back(e);
    for (auto* e: todo) begin(m, e);
    if (todo.empty()) { // time passes: what stalls for too long is given up
      std::vector<Easy*> st; for (auto* e: m->e) if (e->st == SENT && e->out.stall) st.push_back(e);
      for (auto* e: st) { if (!e->limited && !(e->lowt > 0 && e->lowl > 0)) bad("stalled", "a transfer that has stalled is waited for without end: no limit on its duration or its speed was set"); int code = deliver(m, e, e->out); finish(m, e, code ? code : CURLE_OPERATION_TIMEDOUT); }
    }
  } else {
    std::vector<Easy*> on; for (auto* e: m->e) if (e->fd == s) on.push_back(e);
    bool moved = false;
    for (auto* e: on) if (e->st == CONNECTING) { e->st = SENT; moved = true; }
    if (moved) tell(m, on[0], s, CURL_POLL_IN);
    else if (flags & (CURL_CSELECT_IN | CURL_CSELECT_ERR)) {
      std::vector<Easy*> first, all; // those on this connection; all that are due
      for (auto* e: m->e) if (e->st == SENT && !e->out.stall) { if (e->fd == s) first.push_back(e); all.push_back(e); }
      if (!first.empty()) {
        Easy* e = first[first.size() < 2 || env->order == 0 ? 0 : env->order == 2 ? first.size() - 1 : (std::size_t)c.choose((int)first.size())];
        while (true) {
          all.erase(std::find(all.begin(), all.end(), e));
          int code = deliver(m, e, e->out); finish(m, e, code);
          if (all.empty() || env->batch == 0) break; // others that end in the same action?
          int ch = env->batch == 2 ? 1 : c.choose((int)all.size() + 1); if (ch == 0) break;
          e = all[(std::size_t)ch - 1];
        }
      }
    }
  }
  update_timer(m);
  *running = 0; for (auto* e: m->e) if (e->st != DONEST) ++*running;
  return CURLM_OK;
}
CURLMcode curl_multi_timeout(CURLM* p, long* t) { *t = MH(p, "curl_multi_timeout()")->timer; return CURLM_OK; }
CURLMcode curl_multi_cleanup(CURLM* p) {
  Multi* m = (Multi*)p; if (!m || m->magic != MU) return CURLM_BAD_HANDLE;
  if (m->in_cb) return CURLM_RECURSIVE_API_CALL;
  while (!m->e.empty()) { Easy* e = m->e.back(); m->e.pop_back(); e->in_multi = false; e->multi = nullptr; unwatch(m, e); }
  m->magic = 0xDEAD; return CURLM_OK;
}

// ---------------------------------------------------------------- libevent
event_base* event_base_new() { return new event_base; }
void event_base_free(event_base* b) { if (b->magic != 0xBA5EBA5E) bad("released-base", "event_base_free() is called twice"); b->magic = 0xDEAD; }
void libevent_global_shutdown() {}
int event_assign(event* e, event_base* b, evutil_socket_t fd, short fl, event_callback_fn cb, void* arg) {
  bool was = e->magic == EV && e->pending; if (was) bad("event-assign", "event_assign() is called on an event that is pending");
  *e = event{EV, b, fd, fl, cb, arg, false, false, 0}; return 0;
}
event* event_new(event_base* b, evutil_socket_t fd, short fl, event_callback_fn cb, void* arg) { auto* e = new event{}; event_assign(e, b, fd, fl, cb, arg); return e; }
int event_del(event* p) { event* e = V(p, "event_del()"); if (e->pending) { e->pending = false; if (e->base->magic == 0xBA5EBA5E) e->base->pend.remove(e); } return 0; }
void event_free(event* p) { event* e = V(p, "event_free()"); event_del(e); e->magic = 0xDEAD; }
int event_add(event* p, const struct timeval* tv) {
  event* e = V(p, "event_add()"); if (e->base->magic != 0xBA5EBA5E) bad("released-base", "event_add() on a base that was released");
  if (!e->pending) { if (!tv && e->fd < 0) return 0; e->pending = true; e->base->pend.push_back(e); }
  if (tv) { e->timed = true; e->ms = tv->tv_sec * 1000 + tv->tv_usec / 1000; } return 0;
}
int event_pending(const event* e, short, struct timeval*) { return e->pending; }
int event_base_loopbreak(event_base* b) { if (b->magic != 0xBA5EBA5E) bad("released-base", "event_base_loopbreak() on a base that was released"); b->brk = true; return 0; }
extern "C++" template <class V> std::size_t lowest(Multi* m, const V& v) { // the candidate whose transfer has the lowest rank
  std::size_t best = 0; int br = 1 << 30; for (std::size_t i = 0; i != v.size(); ++i) for (auto* t: m->e) if (t->fd == v[i].e->fd) { int r = env->rank(t->idx, tries[t->idx] - 1); if (r < br) { br = r; best = i; } }
  return best;
}
int event_base_loopexit(event_base* b, const struct timeval* tv) { if (b->magic != 0xBA5EBA5E) bad("released-base", "event_base_loopexit() on a base that was released"); if (!tv || (!tv->tv_sec && !tv->tv_usec)) b->brk = true; return 0; }
int event_base_got_break(event_base* b) { return b->was; }
int event_base_got_exit(event_base* b) { return b->was; }
int event_initialized(const event* e) { return e->magic == EV; }
evutil_socket_t event_get_fd(const event* e) { return e->fd; }
event_base* event_get_base(const event* e) { return e->base; }
int event_base_loop(event_base* b, int flags) {
  auto& c = *net_ctx; b->brk = b->was = false; uint64_t idle = 0;
  while (true) {
    if (b->brk) { b->brk = false; b->was = true; return 0; }
    if (b->pend.empty()) return 1;
    if (++lg->iterations > env->max_iterations) bad("endless", "the network thread goes on without end: " + std::to_string(lg->requests) + " requests, " + std::to_string(lg->requests_after_failure) + " of them after the failure");
    sched::external_wait();
    Multi* m = the_multi; struct Cand { event* e; short fl; };
    std::vector<Cand> pri, conn, data; event* timer = nullptr;
    bool unstarted = false; for (auto* e: m->e) if (e->st == ADDED) unstarted = true;
    for (auto* e: b->pend) if (e->timed) { if (!timer) timer = e; }
    if (timer && unstarted) pri.push_back({timer, EV_TIMEOUT});
    std::set<int> seen;
    for (auto* t: m->e) if (t->fd >= 0 && !seen.count(t->fd)) {
      event* w = nullptr; for (auto* e: b->pend) if (e->fd == t->fd && !e->timed) w = e;
      if (!w) continue;
      if (t->st == CONNECTING && w->flags & (env->h2 && m->what[t->fd] == CURL_POLL_IN ? EV_READ : EV_WRITE)) { conn.push_back({w, (short)(w->flags & EV_WRITE ? EV_WRITE : EV_READ)}); seen.insert(t->fd); }
      else if (t->st == SENT && !t->out.stall && w->flags & EV_READ) { data.push_back({w, EV_READ}); seen.insert(t->fd); }
    }
    Cand x{};
    if (env->free_events) { std::vector<Cand> all = pri; all.insert(all.end(), conn.begin(), conn.end()); all.insert(all.end(), data.begin(), data.end()); if (!all.empty()) x = all[(std::size_t)c.choose((int)all.size())]; }
    else if (!pri.empty()) x = pri[0];
    else if (!conn.empty()) x = conn[0];
    else if (!data.empty()) x = data[env->order == 1 ? (std::size_t)c.choose((int)data.size()) : env->order == 2 ? data.size() - 1 : env->order == 3 ? lowest(m, data) : 0];
    if (!x.e && flags & EVLOOP_NONBLOCK) return 0;
    if (!x.e) { // only time can help
      if (!timer || ++idle > 20) bad("stuck", "the network thread waits for something that never happens (" + std::to_string(m->e.size()) + " transfers, " + std::to_string(b->pend.size()) + " events)");
      x = {timer, EV_TIMEOUT};
    } else idle = 0;
    if (x.e->timed) event_del(x.e), x.e->timed = false;
    else if (!(x.e->flags & EV_PERSIST)) event_del(x.e);
    x.e->cb(x.e->fd, x.fl, x.e->arg);
    if (flags & (EVLOOP_ONCE | EVLOOP_NONBLOCK) && !b->brk) return 0;
  }
}
int event_base_dispatch(event_base* b) { return event_base_loop(b, 0); }
}

void net::at_end() {
  if (env->strict && lg->live) bad("leaked-handle", std::to_string(lg->live) + " transfer handles were never released");
}
