#include "grpc_shim.h"
#include <algorithm>
#include <thread>

namespace grpc
{
const Status Status::OK{};
namespace shim
{
void ServiceState::Register(const std::string &m, Slot s)
{
    std::unique_lock<std::mutex> l(mtx);
    if (down)
    {
        l.unlock();
        s.cq->Push(s.tag, false);
        return;
    }
    auto &ms = methods[m];
    if (!ms.pending.empty())
    {
        Call c = std::move(ms.pending.front());
        ms.pending.pop_front();
        l.unlock();
        s.accept(std::move(c));
        s.cq->Push(s.tag, true);
        return;
    }
    ms.slots.push_back(std::move(s));
}
void ServiceState::Invoke(const std::string &m, Call c)
{
    std::unique_lock<std::mutex> l(mtx);
    if (down)
    {
        l.unlock();
        c.done(Status(StatusCode::UNAVAILABLE, "server is down"), "");
        return;
    }
    auto &ms = methods[m];
    if (ms.slots.empty())
    {
        ms.pending.push_back(std::move(c));
        return;
    }
    Slot s = std::move(ms.slots.front());
    ms.slots.pop_front();
    l.unlock();
    s.accept(std::move(c));
    s.cq->Push(s.tag, true);
}
void ServiceState::Shutdown()
{
    std::deque<Slot> slots;
    std::deque<Call> pending;
    {
        std::lock_guard<std::mutex> l(mtx);
        down = true;
        for (auto &kv : methods)
        {
            for (auto &s : kv.second.slots) slots.push_back(std::move(s));
            for (auto &c : kv.second.pending) pending.push_back(std::move(c));
        }
        methods.clear();
    }
    for (auto &s : slots) s.cq->Push(s.tag, false);
    for (auto &c : pending) c.done(Status(StatusCode::UNAVAILABLE, "server is down"), "");
}

namespace
{
struct Ready { int shard; std::function<void()> deliver; };
struct Transport
{
    std::mutex mtx;
    std::map<std::string, std::map<std::string, std::shared_ptr<ServiceState>>> servers;
    // script: addresses in delivery order for the next fan-out, and failing addresses
    std::vector<std::string> order;
    std::map<std::string, int> fail; // address -> status code
    std::map<std::string, std::deque<int>> script; // address -> status codes of its next calls
    std::map<std::string, uint64_t> calls; // address -> calls started
    uint64_t waiting = 0; // calls started and not delivered yet
    std::map<std::string, std::deque<std::function<void()>>> ready;
    size_t started = 0;
    std::vector<std::string> log;
};
Transport &T()
{
    static Transport *t = new Transport();
    return *t;
}
// Deliver everything the script allows, in the scripted order.
void Drain(std::unique_lock<std::mutex> &l)
{
    auto &t = T();
    while (true)
    {
        std::function<void()> f;
        if (!t.order.empty())
        {
            auto it = t.ready.find(t.order.front());
            if (it == t.ready.end() || it->second.empty()) return;
            f = std::move(it->second.front());
            it->second.pop_front();
            t.order.erase(t.order.begin());
        }
        else
        {
            for (auto &kv : t.ready)
                if (!kv.second.empty()) { f = std::move(kv.second.front()); kv.second.pop_front(); break; }
            if (!f) return;
        }
        t.waiting--;
        f(); // pushes to a client completion queue; keeps the lock so that deliveries stay ordered
    }
}
} // namespace

void AddServer(const std::string &a, std::map<std::string, std::shared_ptr<ServiceState>> s)
{
    std::lock_guard<std::mutex> l(T().mtx);
    T().servers[a] = std::move(s);
}
void RemoveServer(const std::string &a)
{
    std::lock_guard<std::mutex> l(T().mtx);
    T().servers.erase(a);
}
void StartClientCall(const std::string &address, const std::string &service, const std::string &method,
                     std::string request, Done deliver)
{
    std::shared_ptr<ServiceState> st;
    int code = 0;
    {
        std::lock_guard<std::mutex> l(T().mtx);
        T().started++;
        T().calls[address]++;
        T().waiting++;
        auto it = T().servers.find(address);
        if (it != T().servers.end() && it->second.count(service)) st = it->second[service];
        auto f = T().fail.find(address);
        if (f != T().fail.end()) code = f->second;
        auto &sc = T().script[address];
        if (!sc.empty()) { code = sc.front(); sc.pop_front(); }
    }
    Done finish = [address, deliver](const Status &s, const std::string &b) {
        std::unique_lock<std::mutex> l(T().mtx);
        T().ready[address].push_back([deliver, s, b] { deliver(s, b); });
        Drain(l);
    };
    if (code) { finish(Status(StatusCode(code), "injected failure"), ""); return; }
    if (!st) { finish(Status(StatusCode::UNAVAILABLE, "no server at " + address), ""); return; }
    st->Invoke(method, Call{std::move(request), finish});
}
} // namespace shim
} // namespace grpc

extern "C"
{
// Scripts the delivery order of the next replies: addresses separated by '|'.
__attribute__((visibility("default"))) void VShimOrder(const char *s)
{
    std::unique_lock<std::mutex> l(grpc::shim::T().mtx);
    auto &o = grpc::shim::T().order;
    o.clear();
    std::string cur;
    for (const char *p = s; *p; ++p)
    {
        if (*p == '|') { o.push_back(cur); cur.clear(); }
        else cur += *p;
    }
    if (!cur.empty()) o.push_back(cur);
    grpc::shim::Drain(l);
}
// Makes every call to the address fail with the status code (0 heals it).
__attribute__((visibility("default"))) void VShimFail(const char *a, int code)
{
    std::lock_guard<std::mutex> l(grpc::shim::T().mtx);
    if (code) grpc::shim::T().fail[a] = code;
    else grpc::shim::T().fail.erase(a);
}
// Status codes of the next calls to the address, separated by '|'; 0 lets a call through.
__attribute__((visibility("default"))) void VShimScript(const char *a, const char *s)
{
    std::lock_guard<std::mutex> l(grpc::shim::T().mtx);
    auto &q = grpc::shim::T().script[a];
    q.clear();
    std::string cur;
    for (const char *p = s;; ++p)
    {
        if (*p == '|' || !*p)
        {
            if (!cur.empty()) q.push_back(std::atoi(cur.c_str()));
            cur.clear();
            if (!*p) break;
        }
        else cur += *p;
    }
}
__attribute__((visibility("default"))) uint64_t VShimCalls(const char *a)
{
    std::lock_guard<std::mutex> l(grpc::shim::T().mtx);
    return grpc::shim::T().calls[a];
}
__attribute__((visibility("default"))) uint64_t VShimWaiting()
{
    std::lock_guard<std::mutex> l(grpc::shim::T().mtx);
    return grpc::shim::T().waiting;
}
__attribute__((visibility("default"))) uint64_t VShimStarted()
{
    std::lock_guard<std::mutex> l(grpc::shim::T().mtx);
    return grpc::shim::T().started;
}
}
