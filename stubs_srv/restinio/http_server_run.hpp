// In front of restinio's own header: run() hands the request handler to the harness instead of opening a socket.
#pragma once
#include <functional>
#include_next <restinio/http_server_run.hpp>
struct SrvConn final : restinio::impl::connection_base_t { // what it is told to send
  std::string* out;
  explicit SrvConn(restinio::connection_id_t id, std::string* o) : connection_base_t{id}, out(o) {}
  void write_response_parts(restinio::request_id_t, restinio::response_output_flags_t, restinio::write_group_t wg) override;
  void check_timeout(std::shared_ptr<tcp_connection_ctx_base_t>&) override {}
};
using srv_one = std::function<bool(int /*thread*/, const std::string& /*target*/, std::string* /*response*/)>;
void srv_run(std::size_t threads, const srv_one& one);
namespace restinio {
template <class S> auto srv_pool(S& s, int) -> decltype((std::size_t)s.pool_size()) { return s.pool_size(); }
template <class S> std::size_t srv_pool(S&, long) { return 1; }
template <class S> void mc_run(S& settings) {
  auto handler = settings.request_handler();
  srv_run(srv_pool(settings, 0), [&](int t, const std::string& target, std::string* out) {
    no_extra_data_factory_t f;
    auto conn = std::make_shared<SrvConn>((connection_id_t)t + 1, out);
    http_request_header_t h{http_method_get(), target}; h.should_keep_alive(true);
    auto req = std::make_shared<request_t>((request_id_t)0, std::move(h), std::string{}, conn, endpoint_t{}, f);
    return (*handler)(std::move(req)) == request_accepted();
  });
}
// constrained: preferred to restinio's own overloads
template <typename Traits> requires (sizeof(Traits) > 0) void run(run_on_this_thread_settings_t<Traits>&& s) { mc_run(s); }
template <typename Traits> requires (sizeof(Traits) > 0) void run(run_on_thread_pool_settings_t<Traits>&& s) { mc_run(s); }
template <typename Traits> requires (sizeof(Traits) > 0) void run(asio_ns::io_context&, run_on_this_thread_settings_t<Traits>&& s) { mc_run(s); }
template <typename Traits> requires (sizeof(Traits) > 0) void run(asio_ns::io_context&, run_on_thread_pool_settings_t<Traits>&& s) { mc_run(s); }
}
