// P26: rppgrpc reactors on both ends of a real in-process gRPC channel. Producers emit from
// several threads while the call completes, fails, is cancelled by either end or times out;
// what was given to one end is compared with what came out of the other one.
#include "conc.hpp"

#include <rpp/rpp.hpp>

#include <grpcpp/create_channel.h>
#include <grpcpp/server.h>
#include <grpcpp/server_builder.h>
#include <rppgrpc/rppgrpc.hpp>

#include "rpc.grpc.pb.h"

#include <deque>
#include <functional>
#include <map>
#include <optional>

namespace
{
    using namespace cc;
    using vrpc::Req;
    using vrpc::Res;

    constexpr int DONE = -1, FAILED = -2;

    // what came out of a reactor's observable
    struct Stream
    {
        std::mutex         m{};
        std::vector<int>   got{};
        std::atomic<int>   inside{0};
        std::atomic<bool>  overlap{false};
        std::atomic<int>   terminals{0};
        std::atomic<bool>  after{false};
        std::string        message{};
        int                last{0};
        int                pause{0};
        size_t             act_at{0};
        std::function<void()> act{};

        void enter()
        {
            if (inside.fetch_add(1) != 0)
                overlap = true;
            if (terminals.load() != 0)
                after = true;
            vi::pause(pause);
        }
        void leave() { inside.fetch_sub(1); }
        template<typename O>
        void watch(const O& o, std::shared_ptr<int> token)
        {
            o.subscribe(
                [this, token](const auto& v) {
                    enter();
                    size_t n = 0;
                    {
                        std::lock_guard l{m};
                        if constexpr (requires { v.value(); })
                            got.push_back(int(v.value()));
                        n = got.size();
                    }
                    if (act && n == act_at)
                        act();
                    leave();
                },
                [this, token](const std::exception_ptr& e) {
                    enter();
                    {
                        std::lock_guard l{m};
                        last = FAILED;
                        try
                        {
                            std::rethrow_exception(e);
                        }
                        catch (const rppgrpc::utils::reactor_failed& x)
                        {
                            message = x.what();
                        }
                        catch (...)
                        {
                            message = "not a reactor_failed";
                        }
                    }
                    leave();
                    ++terminals;
                },
                [this, token] {
                    enter();
                    {
                        std::lock_guard l{m};
                        last = DONE;
                    }
                    leave();
                    ++terminals;
                });
        }
    };

    enum How
    {
        Completes,
        Fails
    };
    template<typename M>
    M make(int v)
    {
        M m{};
        m.set_value(unsigned(v));
        return m;
    }

    struct Call
    {
        int                  kind{0}; // 0 bidi 1 client-side 2 server-side
        Stream               server{}, client{};
        std::shared_ptr<int> server_token = std::make_shared<int>(0), client_token = std::make_shared<int>(0);
        std::weak_ptr<int>   server_alive{server_token}, client_alive{client_token};
        grpc::CallbackServerContext*               sctx{nullptr};
        std::optional<rpp::dynamic_observer<Res>>  to_client{};
        std::atomic<bool>                          server_ready{false};
        std::atomic<bool>                          up_ended{false};
    };

    std::mutex                           g_calls_mutex;
    std::map<long, std::shared_ptr<Call>> g_calls;

    // under g_calls_mutex, which is held until the reactor is there
    std::shared_ptr<Call> find(grpc::CallbackServerContext* ctx)
    {
        const auto it = ctx->client_metadata().find("call");
        if (it == ctx->client_metadata().end())
            return nullptr;
        const auto      c = g_calls.find(std::stol(std::string(it->second.data(), it->second.size())));
        return c == g_calls.end() ? nullptr : c->second;
    }

    template<typename Base>
    struct Refuse : Base
    {
        Refuse() { this->Finish(grpc::Status{grpc::StatusCode::NOT_FOUND, "no such call"}); }
        void OnDone() override { delete this; }
    };

    struct Service final : vrpc::Streams::CallbackService
    {
        grpc::ServerBidiReactor<Req, Res>* Bidi(grpc::CallbackServerContext* ctx) override
        {
            std::lock_guard l{g_calls_mutex};
            const auto      c = find(ctx);
            if (!c)
                return new Refuse<grpc::ServerBidiReactor<Req, Res>>{};
            auto* r = new rppgrpc::server_bidi_reactor<Req, Res>{};
            c->server.watch(r->get_observable(), std::exchange(c->server_token, nullptr));
            c->to_client.emplace(r->get_observer().as_dynamic());
            c->sctx         = ctx;
            c->server_ready = true;
            return r;
        }
        grpc::ServerReadReactor<Req>* ClientSide(grpc::CallbackServerContext* ctx, Res* res) override
        {
            std::lock_guard l{g_calls_mutex};
            const auto      c = find(ctx);
            if (!c)
                return new Refuse<grpc::ServerReadReactor<Req>>{};
            res->set_value(77);
            auto* r = new rppgrpc::server_read_reactor<Req>{};
            c->server.watch(r->get_observable(), std::exchange(c->server_token, nullptr));
            c->sctx         = ctx;
            c->server_ready = true;
            return r;
        }
        grpc::ServerWriteReactor<Res>* ServerSide(grpc::CallbackServerContext* ctx, const Req*) override
        {
            std::lock_guard l{g_calls_mutex};
            const auto      c = find(ctx);
            if (!c)
                return new Refuse<grpc::ServerWriteReactor<Res>>{};
            auto* r = new rppgrpc::server_write_reactor<Res>{};
            c->server.watch(r->get_observable(), std::exchange(c->server_token, nullptr));
            c->to_client.emplace(r->get_observer().as_dynamic());
            c->sctx         = ctx;
            c->server_ready = true;
            return r;
        }
    };

    struct Rig
    {
        Service                       service{};
        std::unique_ptr<grpc::Server> server{};
        std::shared_ptr<grpc::Channel> channel{};
        std::unique_ptr<vrpc::Streams::Stub> stub{};
        Rig()
        {
            grpc::ServerBuilder b{};
            b.RegisterService(&service);
            server  = b.BuildAndStart();
            channel = server->InProcessChannel({});
            stub    = vrpc::Streams::NewStub(channel);
        }
        ~Rig()
        {
            stub.reset();
            channel.reset();
            server->Shutdown();
        }
    };

    // items of a producer are id * 1000 + 1, 2, ...
    struct Producer
    {
        int id, n;
    };
    // every producer's items in order, nothing twice, nothing made up; all: nothing missing
    std::string conserved(const std::vector<int>& got, const std::vector<Producer>& ps, bool all)
    {
        std::map<int, int> next;
        for (int v : got)
        {
            const int id = v / 1000, k = v % 1000;
            bool      known = false;
            for (auto& p : ps)
                known |= p.id == id && k >= 1 && k <= p.n;
            if (!known)
                return vh::fmt("item %d was never sent", v);
            if (k != next[id] + 1)
                return vh::fmt("item %d after item %d of the same producer", v, id * 1000 + next[id]);
            next[id] = k;
        }
        if (all)
            for (auto& p : ps)
                if (next[p.id] != p.n)
                    return vh::fmt("%d items of producer %d arrived, %d were sent before completion", next[p.id], p.id, p.n);
        return {};
    }

    void one(Rig& rig, vh::Rng& r, long index)
    {
        static long id = 0;
        ++id;
        auto c  = std::make_shared<Call>();
        c->kind = r.below(3);
        c->server.pause = r.below(3);
        c->client.pause = r.below(3);
        {
            std::lock_guard l{g_calls_mutex};
            g_calls[id] = c;
        }
        static std::deque<std::shared_ptr<grpc::ClientContext>> contexts; // kept a while longer
        auto ctx = std::make_shared<grpc::ClientContext>();
        contexts.push_back(ctx);
        if (contexts.size() > 8)
            contexts.pop_front();
        ctx->AddMetadata("call", std::to_string(id));
        const int  cancel  = r.chance(1, 3) ? r.range(1, 2) : 0; // 1 by the client 2 by the server
        // a client_write_reactor cannot know that its call is ending while it starts a write (see
        // known-findings.txt): such calls are cut short only after the last emission returned
        const bool timeout = cancel == 0 && c->kind != 1 && r.chance(1, 12);
        if (timeout)
            ctx->set_deadline(std::chrono::system_clock::now() + std::chrono::microseconds{r.range(0, 3000)});
        const bool writes_up = c->kind != 2, writes_down = c->kind != 1;
        const How  up = writes_up ? (r.chance(1, 8) ? Fails : Completes) : Completes;
        const How  down = writes_down ? (r.chance(1, 4) ? Fails : Completes) : Completes;
        std::vector<Producer> ups, downs;
        if (writes_up)
            for (int i = r.range(0, 2); i > 0; --i)
                ups.push_back({i, r.range(0, 12)});
        if (writes_down)
            for (int i = r.range(0, 2); i > 0; --i)
                downs.push_back({i, r.range(0, 12)});
        const int cancel_after = r.below(6);
        const std::string what = vh::fmt("%s: up %zu producers %s, down %zu producers %s, cancel %d after %d naps%s", c->kind == 0 ? "bidi" : c->kind == 1 ? "client-side" : "server-side", ups.size(), up == Fails ? "then error" : "then completed", downs.size(), down == Fails ? "then error" : "then completed", cancel, cancel_after, timeout ? ", deadline" : "");
        if (cancel == 2 && c->kind == 1)
        {
            c->server.act_at = size_t(cancel_after);
            c->server.act    = [p = c.get()] {
                if (p->up_ended)
                    p->sctx->TryCancel();
            };
        }
        Res                                       response{};
        std::optional<rpp::dynamic_observer<Req>> to_server;
        const Req                                 request = make<Req>(5);
        auto                                      token   = std::exchange(c->client_token, nullptr);
        switch (c->kind)
        {
        case 0:
        {
            auto* x = new rppgrpc::client_bidi_reactor<Req, Res>{};
            c->client.watch(x->get_observable(), std::move(token));
            to_server.emplace(x->get_observer().as_dynamic());
            rig.stub->async()->Bidi(ctx.get(), x);
            x->init();
            break;
        }
        case 1:
        {
            auto* x = new rppgrpc::client_write_reactor<Req>{};
            c->client.watch(x->get_observable(), std::move(token));
            to_server.emplace(x->get_observer().as_dynamic());
            rig.stub->async()->ClientSide(ctx.get(), &response, x);
            x->init();
            break;
        }
        default:
        {
            auto* x = new rppgrpc::client_read_reactor<Res>{};
            c->client.watch(x->get_observable(), std::move(token));
            rig.stub->async()->ServerSide(ctx.get(), &request, x);
            x->init();
        }
        }
        std::atomic<int> up_left{int(ups.size())}, down_left{int(downs.size())};
        auto             ends = [&](auto& o, How h) {
            // the server has not finished yet: its context is there
            if (cancel == 2 && std::is_same_v<std::decay_t<decltype(o)>, rpp::dynamic_observer<Res>>)
                c->sctx->TryCancel();
            if (h == Fails)
                o.on_error(std::make_exception_ptr(std::runtime_error{"asked for"}));
            else
                o.on_completed();
        };
        Threads t;
        auto    finished = [&] { return c->client.terminals.load() != 0; };
        auto    ready    = [&] {
            while (!c->server_ready && !finished())
                vi::relax();
            return c->server_ready.load();
        };
        if (writes_up)
        {
            for (auto& p : ups)
                t.add([&, p] {
                    for (int k = 1; k <= p.n; ++k)
                    {
                        to_server->on_next(make<Req>(p.id * 1000 + k));
                        if (k % 3 == 0)
                            vi::pause(1);
                    }
                    if (--up_left == 0)
                    {
                        ends(*to_server, up);
                        c->up_ended = true;
                    }
                });
            if (ups.empty())
                t.add([&] {
                    ends(*to_server, up);
                    c->up_ended = true;
                });
        }
        if (writes_down)
        {
            for (auto& p : downs)
                t.add([&, p] {
                    if (!ready())
                        return;
                    for (int k = 1; k <= p.n; ++k)
                    {
                        c->to_client->on_next(make<Res>(p.id * 1000 + k));
                        if (k % 3 == 0)
                            vi::pause(1);
                    }
                    if (--down_left == 0)
                        ends(*c->to_client, down);
                });
            if (downs.empty())
                t.add([&] {
                    if (ready())
                        ends(*c->to_client, down);
                });
        }
        if (cancel == 1)
            t.add([&] {
                wait_for([&] { return c->kind != 1 || c->up_ended; });
                for (int k = 0; k < cancel_after; ++k)
                    vi::pause(2);
                ctx->TryCancel();
            });
        t.run();
        (void)index;
        wait_for([&] { return c->client_alive.expired(); });
        {
            std::lock_guard l{g_calls_mutex};
            g_calls.erase(id);
        }
        // the server may have heard of the call only after the client had given up
        if (c->server_ready && c->to_client)
            c->to_client->on_completed();
        wait_for([&] { return !c->server_ready || c->server_alive.expired(); });
        auto& S = c->server;
        auto& C = c->client;
        for (auto* s : {&S, &C})
        {
            const char* side = s == &S ? "server" : "client";
            if (s->overlap)
                vh::fail(std::string("overlap:") + side, "callbacks of the reactor's observable overlap || " + what);
            if (s->after)
                vh::fail(std::string("after-end:") + side, "events after the end of the reactor's observable || " + what);
        }
        if (C.terminals != 1)
            vh::fail("client-terminals", vh::fmt("%d terminal events on the client || ", C.terminals.load()) + what);
        if (c->server_ready && S.terminals != 1)
            vh::fail("server-terminals", vh::fmt("%d terminal events on the server || ", S.terminals.load()) + what);
        const bool disturbed = cancel || timeout;
        if (const auto e = conserved(S.got, ups, !disturbed && c->kind == 1); !e.empty())
            vh::fail("to-server", e + " || " + what);
        // a server stream that ended well brings everything
        const bool ok = C.last == DONE;
        if (const auto e = conserved(C.got, downs, ok || (!disturbed && down == Fails)); !e.empty())
            vh::fail("to-client", e + " || " + what);
        if (!disturbed)
        {
            if (down == Completes && !ok)
                vh::fail("status", "the server completed, the client's observable failed with '" + C.message + "' || " + what);
            if (down == Fails && ok)
                vh::fail("status", "the server's observer got an error, the client's observable completed || " + what);
            if (S.last != DONE)
                vh::fail("server-end", "nobody cancelled, the server's observable failed with '" + S.message + "' || " + what);
            if (c->kind == 1 && ok && response.value() != 77)
                vh::fail("response", vh::fmt("response %u instead of 77 || ", response.value()) + what);
        }
        else if (down == Fails && ok)
            vh::fail("status", "the server's observer got an error, the client's observable completed || " + what);
        vh::events(long(S.got.size() + C.got.size()) + 2);
        vh::count(ok ? "calls that completed" : "calls that failed");
        if (!c->server_ready)
            vh::count("calls that never reached the server");
        uint64_t h = vh::mix(uint64_t(c->kind), uint64_t(ok));
        for (int v : S.got)
            h = vh::mix(h, uint64_t(v));
        for (int v : C.got)
            h = vh::mix(h, uint64_t(v));
        h = vh::mix(h, vh::mix(ups.size() * 8 + downs.size(), uint64_t(cancel * 4 + up * 2 + down)));
        vh::sig(h);
        vh::sample(what + vh::fmt(" => server got %zu, client got %zu, %s", S.got.size(), C.got.size(), ok ? "completed" : "failed"));
    }
} // namespace

int main(int argc, char** argv)
{
    vh::parse(argc, argv);
    int rc = 0;
    {
        Rig rig;
        rc = vh::run_cases([&](vh::Rng& r, long i) {
            vi::role(99);
            vi::begin(r.next());
            one(rig, r, i);
            vi::end();
        });
    }
    vh::flush_out(rc ? "violations" : "ok");
    return rc;
}
