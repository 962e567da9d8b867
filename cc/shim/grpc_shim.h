// In-process stand-in for the subset of gRPC C++ the engine uses.
//
// Channels resolve to servers of the same process by address. Every message
// crosses the "wire" as serialized protobuf bytes. Completion of client calls is
// routed through a transport that tests can script: the order in which the
// replies of one fan-out are delivered and which shards fail.
#pragma once
#include <atomic>
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <utility>
#include <vector>

#ifndef GPR_ASSERT
#define GPR_ASSERT(x) do { if (!(x)) { std::fprintf(stderr, "GPR_ASSERT failed: %s\n", #x); std::abort(); } } while (0)
#endif
#define GRPC_ARG_MAX_RECEIVE_MESSAGE_LENGTH "grpc.max_receive_message_length"
#define GRPC_ARG_MAX_SEND_MESSAGE_LENGTH "grpc.max_send_message_length"

namespace grpc
{
enum StatusCode { OK = 0, CANCELLED = 1, UNKNOWN = 2, INVALID_ARGUMENT = 3, DEADLINE_EXCEEDED = 4, NOT_FOUND = 5,
                  FAILED_PRECONDITION = 9, UNIMPLEMENTED = 12, INTERNAL = 13, UNAVAILABLE = 14 };
class Status
{
  public:
    Status() = default;
    Status(StatusCode c, const std::string &m, const std::string &d = "") : m_code(c), m_msg(m), m_details(d) {}
    bool ok() const { return m_code == StatusCode::OK; }
    StatusCode error_code() const { return m_code; }
    std::string error_message() const { return m_msg; }
    std::string error_details() const { return m_details; }
    static const Status OK;

  private:
    StatusCode m_code = StatusCode::OK;
    std::string m_msg, m_details;
};
class ServerContext {};
class ClientContext
{
  public:
    template <typename T> void set_deadline(const T &) {}
    void set_wait_for_ready(bool) {}
};
template <typename T> class ClientReader {};
template <typename A, typename B> class ClientReaderWriter {};
template <typename T> class ClientWriter {};

class CompletionQueue
{
  public:
    CompletionQueue() : m_s(std::make_shared<State>()) {}
    bool Next(void **tag, bool *ok)
    {
        std::unique_lock<std::mutex> l(m_s->mtx);
        m_s->cv.wait(l, [&] { return !m_s->items.empty() || m_s->shutdown; });
        if (m_s->items.empty()) return false;
        *tag = m_s->items.front().first;
        *ok = m_s->items.front().second;
        m_s->items.pop_front();
        return true;
    }
    void Shutdown()
    {
        std::lock_guard<std::mutex> l(m_s->mtx);
        m_s->shutdown = true;
        m_s->cv.notify_all();
    }
    void Push(void *tag, bool ok)
    {
        std::lock_guard<std::mutex> l(m_s->mtx);
        m_s->items.emplace_back(tag, ok);
        m_s->cv.notify_all();
    }

  private:
    struct State
    {
        std::mutex mtx;
        std::condition_variable cv;
        std::deque<std::pair<void *, bool>> items;
        bool shutdown = false;
    };
    std::shared_ptr<State> m_s;
};
class ServerCompletionQueue : public CompletionQueue {};

namespace shim
{
using Done = std::function<void(const Status &, const std::string &)>;
struct Call { std::string request; Done done; };
struct Slot
{
    std::function<void(Call)> accept; // parse the request, attach the call to the responder
    ServerCompletionQueue *cq;
    void *tag;
};
struct MethodState { std::deque<Slot> slots; std::deque<Call> pending; };
struct ServiceState
{
    std::mutex mtx;
    std::map<std::string, MethodState> methods;
    bool down = false;
    void Register(const std::string &m, Slot s);
    void Invoke(const std::string &m, Call c);
    void Shutdown();
};
// Scripted transport (one per process).
void StartClientCall(const std::string &address, const std::string &service, const std::string &method,
                     std::string request, Done deliver);
void AddServer(const std::string &address, std::map<std::string, std::shared_ptr<ServiceState>> services);
void RemoveServer(const std::string &address);
} // namespace shim

class Service
{
  public:
    virtual ~Service() = default;
};
class AsyncServiceBase
{
  public:
    explicit AsyncServiceBase(std::string n) : name(std::move(n)), state(std::make_shared<shim::ServiceState>()) {}
    std::string name;
    std::shared_ptr<shim::ServiceState> state;
};

template <typename R> class ServerAsyncResponseWriter
{
  public:
    explicit ServerAsyncResponseWriter(ServerContext *) {}
    void Attach(shim::Call c, ServerCompletionQueue *cq) { m_call = std::move(c); m_cq = cq; }
    void Finish(const R &reply, const Status &status, void *tag)
    {
        std::string bytes;
        reply.SerializeToString(&bytes);
        auto cq = m_cq;
        auto done = m_call.done;
        cq->Push(tag, true);
        done(status, bytes);
    }

  private:
    shim::Call m_call;
    ServerCompletionQueue *m_cq = nullptr;
};

struct Channel { std::string address; };

template <typename R> class ClientAsyncResponseReader
{
  public:
    ClientAsyncResponseReader(std::string a, std::string s, std::string m, std::string req, CompletionQueue *cq)
        : m_a(a), m_s(s), m_m(m), m_req(req), m_cq(*cq) {}
    void StartCall() {}
    void Finish(R *reply, Status *status, void *tag)
    {
        auto cq = m_cq;
        shim::StartClientCall(m_a, m_s, m_m, m_req, [reply, status, tag, cq](const Status &s, const std::string &b) mutable {
            Status st = s;
            if (st.ok() && !reply->ParseFromString(b)) st = Status(StatusCode::INTERNAL, "parse");
            *status = st;
            cq.Push(tag, true);
        });
    }

  private:
    std::string m_a, m_s, m_m, m_req;
    CompletionQueue m_cq;
};

struct ChannelCredentials {};
struct ServerCredentials {};
struct SslCredentialsOptions { std::string pem_root_certs, pem_private_key, pem_cert_chain; };
struct SslServerCredentialsOptions
{
    struct PemKeyCertPair { std::string private_key, cert_chain; };
    std::string pem_root_certs;
    std::vector<PemKeyCertPair> pem_key_cert_pairs;
};
inline std::shared_ptr<ChannelCredentials> InsecureChannelCredentials() { return std::make_shared<ChannelCredentials>(); }
inline std::shared_ptr<ChannelCredentials> SslCredentials(const SslCredentialsOptions &) { return std::make_shared<ChannelCredentials>(); }
inline std::shared_ptr<ServerCredentials> InsecureServerCredentials() { return std::make_shared<ServerCredentials>(); }
inline std::shared_ptr<ServerCredentials> SslServerCredentials(const SslServerCredentialsOptions &) { return std::make_shared<ServerCredentials>(); }
class ChannelArguments
{
  public:
    void SetMaxReceiveMessageSize(int) {}
    void SetMaxSendMessageSize(int) {}
    void SetSslTargetNameOverride(const std::string &) {}
    void SetInt(const std::string &, int) {}
    void SetString(const std::string &, const std::string &) {}
    void SetLoadBalancingPolicyName(const std::string &) {}
};
inline std::shared_ptr<Channel> CreateCustomChannel(const std::string &a, const std::shared_ptr<ChannelCredentials> &, const ChannelArguments &) { return std::make_shared<Channel>(Channel{a}); }
inline std::shared_ptr<Channel> CreateChannel(const std::string &a, const std::shared_ptr<ChannelCredentials> &) { return std::make_shared<Channel>(Channel{a}); }
inline void EnableDefaultHealthCheckService(bool) {}

class Server
{
  public:
    Server(std::string a, std::map<std::string, std::shared_ptr<shim::ServiceState>> s) : m_a(std::move(a)), m_s(std::move(s)) { shim::AddServer(m_a, m_s); }
    ~Server() { shim::RemoveServer(m_a); }
    void Shutdown()
    {
        shim::RemoveServer(m_a);
        for (auto &kv : m_s) kv.second->Shutdown();
    }
    std::shared_ptr<Channel> InProcessChannel(const ChannelArguments &) { return std::make_shared<Channel>(Channel{m_a}); }

  private:
    std::string m_a;
    std::map<std::string, std::shared_ptr<shim::ServiceState>> m_s;
};
class ServerBuilder
{
  public:
    void SetMaxReceiveMessageSize(int) {}
    void SetMaxSendMessageSize(int) {}
    // Port 0 asks for any free port: every such server gets an address of its own.
    void AddListeningPort(const std::string &a, std::shared_ptr<ServerCredentials>)
    {
        static std::atomic<int> next{0};
        m_a = a.size() > 2 && a.substr(a.size() - 2) == ":0" ? a + "#" + std::to_string(next++) : a;
    }
    void RegisterService(AsyncServiceBase *s) { m_s[s->name] = s->state; }
    std::unique_ptr<ServerCompletionQueue> AddCompletionQueue() { return std::make_unique<ServerCompletionQueue>(); }
    std::unique_ptr<Server> BuildAndStart() { return std::make_unique<Server>(m_a, m_s); }

  private:
    std::string m_a;
    std::map<std::string, std::shared_ptr<shim::ServiceState>> m_s;
};
} // namespace grpc
