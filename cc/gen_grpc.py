"""Generate the service header (Stub / Service / AsyncService) from service.proto."""
import re, sys
src = re.sub(r"//[^\n]*", "", open(sys.argv[1]).read())
# protobuf 3.21's repeated field iterators are contiguous but do not say so
COMPAT = """#include <iterator>
namespace std {
template <typename E> struct iterator_traits<google::protobuf::internal::RepeatedIterator<E>> {
  using iterator_category = random_access_iterator_tag; using iterator_concept = contiguous_iterator_tag;
  using value_type = remove_cv_t<E>; using difference_type = ptrdiff_t; using pointer = E *; using reference = E &;
};
}"""
out = ['#pragma once', '#include "src/cc/lib/distributed/service.pb.h"', '#include "grpc_shim.h"', COMPAT, "namespace snark", "{"]
for svc, body in re.findall(r"service\s+(\w+)\s*\{((?:[^{}]|\{[^{}]*\})*)\}", src):
    ms = re.findall(r"rpc\s+(\w+)\s*\(\s*([\w.]+)\s*\)\s*returns\s*\(\s*([\w.]+)\s*\)", body)
    out += [f"class {svc} final {{ public:", " class Stub { public: explicit Stub(std::shared_ptr<grpc::Channel> c) : m_c(std::move(c)) {}"]
    for m, rq, rp in ms:
        out.append(f' std::unique_ptr<grpc::ClientAsyncResponseReader<{rp}>> PrepareAsync{m}(grpc::ClientContext *, const {rq} &r, grpc::CompletionQueue *cq)'
                   f' {{ return std::make_unique<grpc::ClientAsyncResponseReader<{rp}>>(m_c->address, "{svc}", "{m}", r.SerializeAsString(), cq); }}')
        out.append(f' std::unique_ptr<grpc::ClientAsyncResponseReader<{rp}>> Async{m}(grpc::ClientContext *c, const {rq} &r, grpc::CompletionQueue *cq) {{ return PrepareAsync{m}(c, r, cq); }}')
    out += [" private: std::shared_ptr<grpc::Channel> m_c; };",
            " static std::unique_ptr<Stub> NewStub(const std::shared_ptr<grpc::Channel> &c) { return std::make_unique<Stub>(c); }",
            " class Service : public grpc::Service { public:"]
    for m, rq, rp in ms:
        out.append(f' virtual grpc::Status {m}(grpc::ServerContext *, const {rq} *, {rp} *) {{ return grpc::Status(grpc::StatusCode::UNIMPLEMENTED, ""); }}')
    out += [" };", f' class AsyncService : public grpc::AsyncServiceBase {{ public: AsyncService() : grpc::AsyncServiceBase("{svc}") {{}}']
    for m, rq, rp in ms:
        out.append(f' void Request{m}(grpc::ServerContext *, {rq} *r, grpc::ServerAsyncResponseWriter<{rp}> *w, grpc::CompletionQueue *, grpc::ServerCompletionQueue *cq, void *tag)'
                   f' {{ state->Register("{m}", grpc::shim::Slot{{[r, w, cq](grpc::shim::Call c) {{ r->ParseFromString(c.request); w->Attach(std::move(c), cq); }}, cq, tag}}); }}')
    out += [" };", "};"]
out.append("}")
open(sys.argv[2], "w").write("\n".join(out) + "\n")
