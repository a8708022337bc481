// The JSON-RPC server and client over HTTP on loopback.
#include "../lib/jit.hpp"
#include "net.hpp"
#include "util/rpc/http/json_rpc_http_client.hpp"
#include "util/rpc/http/json_rpc_http_server.hpp"

#include <condition_variable>
#include <deque>
#include <map>
#include <mutex>
#include <poll.h>
#include <thread>

using namespace vt;
using cbdc::rpc::json_rpc_http_client;
using cbdc::rpc::json_rpc_http_server;

namespace {
    // -- JSON text, written without the library under the code tested

    std::string jstr(Src& s, u64 max) {
        std::string o = "\"";
        for(auto n = s.size(max); n > 0; n--) {
            switch(s.weighted({10, 1, 1, 1, 1, 1, 1, 1})) {
                case 0:
                    o += static_cast<char>('a' + s.below(26));
                    break;
                case 1:
                    o += "\\\"";
                    break;
                case 2:
                    o += "\\\\";
                    break;
                case 3:
                    o += "\\u0000";
                    break;
                case 4:
                    o += "\xc3\xa9";
                    break;
                case 5:
                    o += "\\ud83d\\ude00";
                    break;
                case 6:
                    o += s.coin() ? "[{" : "}]";
                    break;
                default:
                    o += s.coin() ? "\\n" : "/*";
            }
        }
        return o + "\"";
    }
    std::string ws(Src& s) {
        return s.chance(1, 8) ? (s.coin() ? " " : "\n\t") : "";
    }
    std::string jval(Src& s, int depth) {
        switch(s.weighted({4, 4, 1, 1, 1, depth > 0 ? 3U : 0U, depth > 0 ? 3U : 0U})) {
            case 0:
                return std::to_string(s.edgy());
            case 1:
                return jstr(s, 20);
            case 2:
                return "-" + std::to_string(1 + s.below(1000));
            case 3:
                return s.coin() ? "true" : "null";
            case 4:
                return std::to_string(s.below(1000)) + ".5" + (s.coin() ? "e3" : "");
            case 5: {
                std::string o = "[" + ws(s);
                for(auto n = s.size(4); n > 0; n--) {
                    o += jval(s, depth - 1) + (n > 1 ? "," + ws(s) : "");
                }
                return o + "]";
            }
            default: {
                std::string o = "{" + ws(s);
                for(auto n = s.size(4); n > 0; n--) {
                    o += "\"k" + std::to_string(n) + "\":" + ws(s) + jval(s, depth - 1) + (n > 1 ? "," : "");
                }
                return o + "}" + ws(s);
            }
        }
    }
    Json::Value parsed(const std::string& t) {
        Json::Value v;
        Json::Reader r;
        if(!r.parse(t, v, false)) {
            pbt::fail("not JSON: " + t.substr(0, 200));
        }
        return v;
    }

    // -- an HTTP connection

    struct response {
        int m_code{0};
        std::map<std::string, std::string> m_head;
        std::string m_body;
    };
    struct conn {
        int m_fd{-1};
        std::string m_in;
        explicit conn(unsigned short port) {
            m_fd = ::socket(AF_INET, SOCK_STREAM, 0);
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_port = htons(port);
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            if(::connect(m_fd, reinterpret_cast<sockaddr*>(&a), sizeof(a)) != 0) {
                ::close(m_fd);
                m_fd = -1;
            }
        }
        conn(const conn&) = delete;
        ~conn() { shut(); }
        void shut() {
            if(m_fd != -1) {
                ::close(m_fd);
                m_fd = -1;
            }
        }
        bool put(const std::string& d) {
            size_t at = 0;
            while(at < d.size()) {
                auto n = ::send(m_fd, d.data() + at, d.size() - at, MSG_NOSIGNAL);
                if(n <= 0) {
                    return false;
                }
                at += static_cast<size_t>(n);
            }
            return true;
        }
        // More input; false at the end or after some seconds.
        bool more(double secs) {
            pollfd p{m_fd, POLLIN, 0};
            if(::poll(&p, 1, static_cast<int>(secs * 1000)) <= 0) {
                return false;
            }
            char b[65536];
            auto n = ::recv(m_fd, b, sizeof(b), 0);
            if(n <= 0) {
                return false;
            }
            m_in.append(b, static_cast<size_t>(n));
            return true;
        }
        bool get(response& r, bool head_only = false) {
            r = response();
            for(;;) {
                auto e = m_in.find("\r\n\r\n");
                while(e == std::string::npos) {
                    if(!more(15)) {
                        return false;
                    }
                    e = m_in.find("\r\n\r\n");
                }
                auto head = m_in.substr(0, e + 2);
                m_in.erase(0, e + 4);
                size_t len = 0;
                size_t p = 0;
                bool first = true;
                while(p < head.size()) {
                    auto q = head.find("\r\n", p);
                    auto line = head.substr(p, q - p);
                    p = q + 2;
                    if(first) {
                        r.m_code = atoi(line.c_str() + 9);
                        first = false;
                        continue;
                    }
                    auto c = line.find(':');
                    auto k = line.substr(0, c);
                    std::transform(k.begin(), k.end(), k.begin(), [](unsigned char ch) {
                        return static_cast<char>(tolower(ch));
                    });
                    r.m_head[k] += line.substr(c + 2) + ";";
                    if(k == "content-length") {
                        len = strtoul(line.c_str() + c + 1, nullptr, 10);
                    }
                }
                if(r.m_code == 100) {
                    r = response();
                    continue;
                }
                if(head_only) {
                    return true;
                }
                while(m_in.size() < len) {
                    if(!more(15)) {
                        return false;
                    }
                }
                r.m_body = m_in.substr(0, len);
                m_in.erase(0, len);
                return true;
            }
        }
    };

    // -- server

    // What a client sends, and what it must get.
    struct call {
        std::string m_verb{"POST"};
        std::string m_body;
        int m_code{0}; // 0: any answer
        Json::Value m_id;
        bool m_any_id{false};
        Json::Value m_result; // member "result" or "error"
        const char* m_kind{"result"};
        bool m_chunked{false};
        bool m_origin{false};
        std::vector<size_t> m_cuts; // pauses in what is sent
        int m_leave{0};             // 1: closes mid-way, 2: closes before the answer
        std::string m_what;
    };
    call mkcall(Src& s) {
        call c;
        auto method = s.weighted({8, 8, 3, 2, 2});
        static const char* const methods[] = {"echo", "later", "fault", "refuse", "fail"};
        auto params = jval(s, 4);
        std::string id;
        switch(s.weighted({8, 3, 2, 1, 1, 1})) {
            case 0:
                id = std::to_string(s.edgy());
                break;
            case 1:
                id = jstr(s, 12);
                break;
            case 2:
                id = "-" + std::to_string(1 + s.below(100000));
                break;
            case 3:
                id = "null";
                break;
            case 4:
                id = "7.5";
                break;
            default:
                c.m_any_id = true;
        }
        std::vector<std::string> mem{"\"method\":\"" + std::string(methods[method]) + "\"", "\"params\":" + ws(s) + params};
        if(!c.m_any_id) {
            mem.push_back("\"id\":" + ws(s) + id);
            c.m_id = parsed("{\"v\":" + id + "}")["v"];
        }
        if(s.coin()) {
            mem.push_back("\"jsonrpc\":\"2.0\"");
        }
        for(size_t i = mem.size(); i > 1; i--) {
            std::swap(mem[i - 1], mem[s.below(i)]);
        }
        std::string body = "{" + ws(s);
        for(size_t i = 0; i < mem.size(); i++) {
            body += (i != 0 ? "," + ws(s) : "") + mem[i];
        }
        body += "}";
        c.m_result = parsed("{\"v\":" + params + "}")["v"];
        c.m_code = method < 3 ? 200 : method == 3 ? 400 : 500;
        c.m_kind = method == 2 ? "error" : "result";
        c.m_what = methods[method];
        switch(s.weighted({14, 1, 1, 1, 1, 1, 1, 2, 1, 1, 1, 1})) {
            case 0:
                break;
            case 1:
                body = body.substr(0, s.below(body.size()));
                c.m_code = 400;
                c.m_what = "truncated";
                break;
            case 2:
                body = jval(s, 2);
                while(body[0] == '{') {
                    body = "[" + body + "]";
                }
                c.m_code = 400;
                c.m_what = "not an object";
                break;
            case 3:
                body = "{\"params\":" + params + ",\"id\":1}";
                c.m_code = 400;
                c.m_what = "no method";
                break;
            case 4: {
                auto m = jval(s, 2);
                if(m[0] == '"') {
                    m = "[" + m + "]";
                }
                body = "{\"method\":" + m + ",\"id\":1}";
                c.m_code = 400;
                c.m_what = "method not a string";
                break;
            }
            case 5: {
                // nesting beyond what a parser may take
                auto n = s.pick(std::vector<size_t>{900, 999, 1000, 1001, 1002, 5000, 100000});
                std::string open;
                std::string shut;
                auto kind = s.below(3);
                for(size_t i = 0; i < n; i++) {
                    bool arr = kind == 0 || (kind == 2 && i % 2 == 0);
                    open += arr ? "[" : "{\"\\\"[\":";
                    shut += arr ? "]" : "}";
                }
                std::reverse(shut.begin(), shut.end());
                body = "{\"method\":\"echo\",\"id\":1,\"params\":" + open + "1" + shut + "}";
                c.m_code = 0;
                c.m_what = "nested " + std::to_string(n);
                break;
            }
            case 6: {
                std::string big(s.below(300000), 'x');
                body = "{\"method\":\"echo\",\"id\":5,\"params\":\"" + big + "\"}";
                c.m_code = 200;
                c.m_id = 5;
                c.m_id = parsed("{\"v\":5}")["v"];
                c.m_any_id = false;
                c.m_result = big;
                c.m_kind = "result";
                c.m_what = "big";
                break;
            }
            case 7:
                for(auto n = 1 + s.size(4); n > 0; n--) {
                    if(!body.empty()) {
                        body[s.below(body.size())] = static_cast<char>(s.below(256));
                    }
                }
                c.m_code = 0;
                c.m_what = "mutated";
                break;
            case 8:
                body.clear();
                c.m_code = 400;
                c.m_what = "empty";
                break;
            case 9:
                c.m_verb = s.pick(std::vector<std::string>{"GET", "PUT", "HEAD", "DELETE", "PATCH", "OPTIONS"});
                if(s.coin()) {
                    body.clear();
                }
                c.m_code = 405;
                c.m_what = c.m_verb + (body.empty() ? "" : " with a body");
                break;
            case 10:
                c.m_leave = 1;
                c.m_what += ", leaves mid-way";
                break;
            default:
                c.m_leave = 2;
                c.m_what += ", leaves before the answer";
        }
        c.m_body = body;
        c.m_chunked = s.chance(1, 5);
        c.m_origin = s.chance(1, 4);
        for(auto n = s.chance(1, 4) ? s.size(4) : 0; n > 0; n--) {
            c.m_cuts.push_back(s.below(body.size() + 200));
        }
        std::sort(c.m_cuts.begin(), c.m_cuts.end());
        return c;
    }

    void run_server(Src& s) {
        const bool cors = s.coin();
        auto port = free_port();
        // answers of "later"
        std::mutex mut;
        std::condition_variable cv;
        std::deque<std::pair<json_rpc_http_server::result_callback_type, Json::Value>> todo;
        bool quit = false;
        std::atomic<u64> handled{0};
        auto srv = std::make_unique<json_rpc_http_server>(cbdc::network::endpoint_t{cbdc::network::localhost, port},
                                                          cors);
        srv->register_handler_callback([&](const std::string& m,
                                           const Json::Value& p,
                                           const json_rpc_http_server::result_callback_type& cb) {
            handled++;
            Json::Value r;
            if(m == "echo") {
                r["result"] = p;
                cb(r);
                return true;
            }
            if(m == "fault") {
                r["error"] = p;
                cb(r);
                return true;
            }
            if(m == "later") {
                r["result"] = p;
                {
                    std::unique_lock<std::mutex> l(mut);
                    todo.emplace_back(cb, r);
                }
                cv.notify_one();
                return true;
            }
            if(m == "fail") {
                cb(std::nullopt);
                return true;
            }
            return false;
        });
        if(!srv->init()) {
            throw pbt::Discard{};
        }
        const auto slow = s.below(3000);
        std::vector<std::thread> workers;
        for(int i = 0; i < 2; i++) {
            workers.emplace_back([&]() {
                for(;;) {
                    std::unique_lock<std::mutex> l(mut);
                    cv.wait(l, [&]() { return quit || !todo.empty(); });
                    if(todo.empty()) {
                        return;
                    }
                    auto t = std::move(todo.front());
                    todo.pop_front();
                    l.unlock();
                    usleep(static_cast<useconds_t>(slow));
                    t.first(t.second);
                }
            });
        }
        const auto clients = s.range(1, 4);
        std::vector<std::vector<call>> plan;
        bool odd = false;
        for(u64 i = 0; i < clients; i++) {
            plan.emplace_back();
            for(auto n = 1 + s.size(8); n > 0; n--) {
                plan.back().push_back(mkcall(s));
                auto& c = plan.back().back();
                if(c.m_verb == "OPTIONS" && cors) {
                    c.m_code = 200;
                    c.m_kind = nullptr;
                }
                odd = odd || c.m_code != 200 || c.m_leave != 0;
                s.note("client %llu: %s%s",
                       static_cast<unsigned long long>(i),
                       c.m_what.c_str(),
                       c.m_chunked ? ", chunked" : "");
            }
        }
        std::string bad;
        auto work = [&](size_t me) {
            std::unique_ptr<conn> k;
            for(auto& c : plan[me]) {
                auto wrong = [&](const std::string& m) {
                    std::unique_lock<std::mutex> l(mut);
                    if(bad.empty()) {
                        bad = c.m_what + ": " + m;
                    }
                };
                if(!k) {
                    k = std::make_unique<conn>(port);
                    if(k->m_fd == -1) {
                        wrong("cannot connect");
                        return;
                    }
                }
                std::string out = c.m_verb + " / HTTP/1.1\r\nHost: localhost\r\n";
                if(c.m_origin) {
                    out += "Origin: http://a.example\r\n";
                }
                if(c.m_chunked) {
                    out += "Transfer-Encoding: chunked\r\n\r\n";
                    size_t at = 0;
                    size_t n = 1;
                    while(at < c.m_body.size()) {
                        auto l = std::min(n, c.m_body.size() - at);
                        char b[32];
                        snprintf(b, sizeof(b), "%zx\r\n", l);
                        out += b + c.m_body.substr(at, l) + "\r\n";
                        at += l;
                        n = n * 3 + 1;
                    }
                    out += "0\r\n\r\n";
                } else {
                    if(!c.m_body.empty() || c.m_verb == "POST") {
                        out += "Content-Length: " + std::to_string(c.m_body.size()) + "\r\n";
                    }
                    out += "\r\n" + c.m_body;
                }
                if(c.m_leave == 1) {
                    k->put(out.substr(0, out.size() / 2));
                    k.reset();
                    continue;
                }
                size_t at = 0;
                bool sent = true;
                for(auto cut : c.m_cuts) {
                    auto to = std::min(out.size(), cut);
                    sent = sent && k->put(out.substr(at, to - at));
                    at = to;
                    usleep(300);
                }
                sent = sent && k->put(out.substr(at));
                if(c.m_leave == 2) {
                    k.reset();
                    continue;
                }
                response r;
                if(!k->get(r, c.m_verb == "HEAD")) {
                    wrong("no answer");
                    return;
                }
                if(r.m_head.count("connection") != 0 && r.m_head["connection"].find("lose") != std::string::npos) {
                    k.reset();
                }
                if(c.m_code != 0 && r.m_code != c.m_code) {
                    wrong("status " + std::to_string(r.m_code) + " instead of " + std::to_string(c.m_code));
                    return;
                }
                if(cors) {
                    auto o = r.m_head.find("access-control-allow-origin");
                    std::string want = c.m_origin ? "http://a.example;" : "*;";
                    if(o == r.m_head.end() || o->second != want) {
                        wrong("wrong allowed origin");
                        return;
                    }
                } else if(r.m_head.count("access-control-allow-origin") != 0) {
                    wrong("allows other origins");
                    return;
                }
                if(c.m_code == 200 && c.m_kind != nullptr) {
                    Json::Value v;
                    Json::Reader rd;
                    if(!rd.parse(r.m_body, v, false) || !v.isObject()) {
                        wrong("the answer is not an object");
                        return;
                    }
                    if(v["jsonrpc"] != "2.0") {
                        wrong("no version in the answer");
                        return;
                    }
                    if(!c.m_any_id && (!v.isMember("id") || v["id"] != c.m_id)) {
                        Json::StreamWriterBuilder b;
                        wrong("id " + Json::writeString(b, v["id"]) + " instead of "
                              + Json::writeString(b, c.m_id));
                        return;
                    }
                    if(!v.isMember(c.m_kind) || v[c.m_kind] != c.m_result) {
                        wrong("the answer of another request, or changed");
                        return;
                    }
                }
            }
        };
        {
            std::vector<std::thread> ts;
            for(size_t i = 0; i < clients; i++) {
                ts.emplace_back(work, i);
            }
            for(auto& t : ts) {
                t.join();
            }
        }
        auto stop = [&]() {
            {
                std::unique_lock<std::mutex> l(mut);
                quit = true;
            }
            cv.notify_all();
            for(auto& t : workers) {
                t.join();
            }
            workers.clear();
        };
        if(bad.empty()) {
            // it still works
            conn k(port);
            response r;
            std::string body = "{\"method\":\"echo\",\"params\":[1],\"id\":9}";
            if(k.m_fd == -1
               || !k.put("POST / HTTP/1.1\r\nHost: l\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body)
               || !k.get(r) || r.m_code != 200) {
                bad = "the server no longer works";
            }
        }
        if(s.chance(1, 3)) {
            stop();
            srv.reset();
        } else if(bad.empty() && s.coin()) {
            // requests being worked on when the server is destroyed
            auto n = s.range(1, 3);
            std::vector<std::unique_ptr<conn>> ks;
            const auto before = handled.load();
            std::string body = "{\"method\":\"later\",\"params\":\"end\",\"id\":9}";
            bool sent = true;
            for(u64 i = 0; i < n; i++) {
                ks.push_back(std::make_unique<conn>(port));
                sent = sent && ks.back()->m_fd != -1
                    && ks.back()->put("POST / HTTP/1.1\r\nHost: l\r\nConnection: close\r\nContent-Length: "
                                      + std::to_string(body.size()) + "\r\n\r\n" + body);
            }
            for(int i = 0; i < 5000 && sent && handled.load() < before + n; i++) {
                usleep(1000);
            }
            s.note("destroyed with %llu requests open", static_cast<unsigned long long>(n));
            s.label("destroyed with requests open");
            srv.reset();
            for(auto& k : ks) {
                response r;
                if(!sent || !k->get(r) || r.m_code != 200) {
                    bad = "a request is not answered when the server is destroyed";
                }
            }
            stop();
        } else {
            // requests still being worked on are answered first
            srv.reset();
            stop();
        }
        if(!bad.empty()) {
            pbt::fail(bad);
        }
        if(odd) {
            s.nontrivial();
        }
    }

    // -- client

    // What happens to an attempt at a request.
    enum deed { good, late, bad_status, not_json, cut_body, cut_head, silent, close_it, n_deeds };
    const char* const deeds[]
        = {"answered", "answered later", "status", "not JSON", "body cut", "head cut", "no answer", "closed"};

    struct step {
        deed m_deed;
        unsigned m_us;
        int m_code{200};
    };
    // A server that follows a script for each request, known by its method.
    struct script_server {
        std::map<std::string, std::vector<step>> m_script;
        std::map<std::string, std::string> m_answer;
        std::mutex m_mut;
        std::map<std::string, size_t> m_tries;
        std::string m_bad;
        std::atomic<bool> m_quit{false};
        int m_fd;
        unsigned short m_port;
        std::thread m_acc;
        std::vector<std::thread> m_ts;
        script_server() : m_port(free_port()) {
            m_fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
            int one = 1;
            setsockopt(m_fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_port = htons(m_port);
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            if(::bind(m_fd, reinterpret_cast<sockaddr*>(&a), sizeof(a)) != 0 || ::listen(m_fd, 64) != 0) {
                ::close(m_fd);
                throw pbt::Discard{};
            }
        }
        void start() {
            m_acc = std::thread([this]() {
                while(!m_quit) {
                    pollfd p{m_fd, POLLIN, 0};
                    if(::poll(&p, 1, 20) <= 0) {
                        continue;
                    }
                    auto fd = ::accept(m_fd, nullptr, nullptr);
                    if(fd == -1) {
                        continue;
                    }
                    m_ts.emplace_back([this, fd]() { serve(fd); });
                }
            });
        }
        ~script_server() {
            m_quit = true;
            if(m_acc.joinable()) {
                m_acc.join();
            }
            for(auto& t : m_ts) {
                t.join();
            }
            ::close(m_fd);
        }
        void serve(int fd) {
            std::string in;
            auto put = [&](const std::string& d) {
                size_t at = 0;
                while(at < d.size()) {
                    auto n = ::send(fd, d.data() + at, d.size() - at, MSG_NOSIGNAL);
                    if(n <= 0) {
                        return;
                    }
                    at += static_cast<size_t>(n);
                }
            };
            for(;;) {
                size_t e = std::string::npos;
                size_t len = 0;
                while(!m_quit) {
                    e = in.find("\r\n\r\n");
                    if(e != std::string::npos) {
                        auto c = in.find("Content-Length: ");
                        len = c < e ? strtoul(in.c_str() + c + 16, nullptr, 10) : 0;
                        if(in.size() >= e + 4 + len) {
                            break;
                        }
                        if(in.find("100-continue") < e && in.size() == e + 4) {
                            put("HTTP/1.1 100 Continue\r\n\r\n");
                        }
                    }
                    pollfd p{fd, POLLIN, 0};
                    auto r = ::poll(&p, 1, 20);
                    if(r == 0) {
                        continue;
                    }
                    char b[65536];
                    auto n = r < 0 ? -1 : ::recv(fd, b, sizeof(b), 0);
                    if(n <= 0) {
                        ::close(fd);
                        return;
                    }
                    in.append(b, static_cast<size_t>(n));
                }
                if(m_quit) {
                    ::close(fd);
                    return;
                }
                auto body = in.substr(e + 4, len);
                in.erase(0, e + 4 + len);
                Json::Value v;
                Json::Reader rd;
                if(!rd.parse(body, v, false) || !v.isObject() || !v["method"].isString() || v["jsonrpc"] != "2.0"
                   || !v.isMember("id") || v["params"] != v["method"]) {
                    std::unique_lock<std::mutex> l(m_mut);
                    m_bad = "malformed request: " + body.substr(0, 200);
                    ::close(fd);
                    return;
                }
                auto m = v["method"].asString();
                step st{good, 0};
                std::string ans;
                {
                    std::unique_lock<std::mutex> l(m_mut);
                    auto it = m_script.find(m);
                    if(it == m_script.end()) {
                        m_bad = "request never made: " + m;
                        ::close(fd);
                        return;
                    }
                    auto k = m_tries[m]++;
                    st = it->second[std::min(k, it->second.size() - 1)];
                    ans = m_answer[m];
                }
                auto full = [&](int code, const std::string& b) {
                    return "HTTP/1.1 " + std::to_string(code)
                         + " Thing\r\nContent-Type: application/json\r\nContent-Length: " + std::to_string(b.size())
                         + "\r\n\r\n" + b;
                };
                usleep(st.m_us);
                switch(st.m_deed) {
                    case good:
                    case late:
                        put(full(200, ans));
                        break;
                    case bad_status:
                        put(full(st.m_code, ans));
                        break;
                    case not_json:
                        put(full(200, "{" + ans + ","));
                        break;
                    case cut_body: {
                        auto t = full(200, ans);
                        put(t.substr(0, t.size() - 1 - st.m_us % ans.size()));
                        ::close(fd);
                        return;
                    }
                    case cut_head:
                        put(full(200, ans).substr(0, 5 + st.m_us % 30));
                        ::close(fd);
                        return;
                    case silent: {
                        // until the other side gives up
                        while(!m_quit) {
                            pollfd p{fd, POLLIN, 0};
                            if(::poll(&p, 1, 20) > 0) {
                                char b[16];
                                if(::recv(fd, b, sizeof(b), 0) <= 0) {
                                    break;
                                }
                            }
                        }
                        ::close(fd);
                        return;
                    }
                    default:
                        ::close(fd);
                        return;
                }
            }
        }
    };

    void run_client(Src& s) {
        const auto servers = s.range(1, 2);
        std::vector<std::unique_ptr<script_server>> ss;
        std::vector<std::string> eps;
        const long timeout = 300;
        for(u64 i = 0; i < servers; i++) {
            ss.push_back(std::make_unique<script_server>());
            eps.push_back("http://127.0.0.1:" + std::to_string(ss.back()->m_port));
        }
        const auto calls = 1 + s.size(12);
        struct want {
            bool m_ok;
            bool m_may_fail{false};
            Json::Value m_v;
            int m_times{0};
            bool m_wrong{false};
        };
        std::vector<want> wants(calls);
        std::vector<u64> after(calls); // submitted once that many answered
        bool hard = false;
        for(u64 i = 0; i < calls; i++) {
            auto name = "m" + std::to_string(i);
            std::vector<step> sc;
            for(auto n = s.chance(1, 2) ? s.size(3) : 0; n > 0; n--) {
                // attempts that fail and are made again
                auto d = s.pick(std::vector<deed>{cut_body, cut_head, close_it, silent});
                sc.push_back({d, static_cast<unsigned>(s.below(3000))});
                hard = true;
                // a reply that ends in its header may be taken for a failure
                wants[i].m_may_fail = wants[i].m_may_fail || d == cut_head;
            }
            auto d = s.pick(std::vector<deed>{good, good, good, late, bad_status, not_json});
            sc.push_back({d,
                          static_cast<unsigned>(d == late ? s.below(50000) : s.below(500)),
                          s.pick(std::vector<int>{400, 404, 405, 500, 503, 301})});
            std::string txt = "{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":";
            if(s.chance(1, 10)) {
                txt += "\"" + std::string(s.below(3000000), 'y') + "\"}";
            } else {
                txt += jval(s, 3) + "}";
            }
            wants[i].m_ok = d == good || d == late;
            wants[i].m_v = parsed(txt);
            after[i] = s.chance(1, 3) ? s.below(i + 1) : 0;
            std::string note;
            for(auto& st : sc) {
                note += std::string(" ") + deeds[st.m_deed];
            }
            s.note("call %llu:%s", static_cast<unsigned long long>(i), note.c_str());
            for(auto& x : ss) {
                x->m_script[name] = sc;
                x->m_answer[name] = txt;
            }
        }
        for(auto& x : ss) {
            x->start();
        }
        const bool early = s.chance(1, 6);
        auto cli = std::make_unique<json_rpc_http_client>(eps, timeout, logger());
        u64 done = 0;
        u64 asked = 0;
        auto end = std::chrono::steady_clock::now() + std::chrono::seconds(25);
        const auto leave_at = early ? s.below(calls) : calls;
        std::string bad;
        while(done < leave_at && bad.empty()) {
            while(asked < calls && after[asked] <= done) {
                auto i = asked++;
                auto name = "m" + std::to_string(i);
                cli->call(name, name, [&, i](std::optional<Json::Value> v) {
                    auto& w = wants[i];
                    w.m_times++;
                    done++;
                    if(cli
                       && ((v.has_value() && (!w.m_ok || *v != w.m_v))
                           || (!v.has_value() && w.m_ok && !w.m_may_fail))) {
                        w.m_wrong = true;
                    }
                });
            }
            if(!cli->pump()) {
                bad = "the client stops";
            }
            if(std::chrono::steady_clock::now() > end) {
                bad = "calls remain without an answer: " + std::to_string(calls - done) + " of "
                    + std::to_string(calls);
            }
        }
        {
            // what is still open fails
            auto* raw = cli.release();
            delete raw;
        }
        for(u64 i = 0; i < calls && bad.empty(); i++) {
            if(wants[i].m_times != (i < asked ? 1 : 0)) {
                bad = "call " + std::to_string(i) + " was answered " + std::to_string(wants[i].m_times) + " times";
            }
            if(wants[i].m_wrong) {
                bad = "call " + std::to_string(i) + " got a wrong answer";
            }
        }
        for(auto& x : ss) {
            x->m_quit = true;
        }
        for(auto& x : ss) {
            std::unique_lock<std::mutex> l(x->m_mut);
            if(bad.empty()) {
                bad = x->m_bad;
            }
        }
        ss.clear();
        if(!bad.empty()) {
            pbt::fail(bad);
        }
        if(hard) {
            s.nontrivial();
        }
    }

    // A call that gets no answer is given up in time however busy the client
    // is with others.
    void run_busy(Src& s) {
        script_server srv;
        const auto gap = 2 + s.below(30);
        srv.m_script["stuck"] = {{silent, 0}, {good, 0}};
        srv.m_answer["stuck"] = "{\"id\":1,\"result\":1}";
        srv.m_script["busy"] = {{late, static_cast<unsigned>(gap * 1000)}};
        srv.m_answer["busy"] = "{\"id\":1,\"result\":2}";
        const auto lanes = s.range(1, 3);
        s.note("%llu lanes, an answer every %llu ms",
               static_cast<unsigned long long>(lanes),
               static_cast<unsigned long long>(gap));
        srv.start();
        json_rpc_http_client cli({"http://127.0.0.1:" + std::to_string(srv.m_port)}, 400, logger());
        bool got = false;
        u64 busy = 0;
        cli.call("stuck", "stuck", [&](std::optional<Json::Value> v) { got = v.has_value(); });
        bool quit = false;
        std::function<void()> next = [&]() {
            cli.call("busy", "busy", [&](std::optional<Json::Value>) {
                busy++;
                if(!quit) {
                    next();
                }
            });
        };
        for(u64 i = 0; i < lanes; i++) {
            next();
        }
        auto end = std::chrono::steady_clock::now() + std::chrono::seconds(6);
        bool ok = true;
        while(!got && ok && std::chrono::steady_clock::now() < end) {
            ok = cli.pump();
        }
        quit = true;
        PBT_CHECK(ok, "the client stops");
        PBT_CHECK(got, "a call was not given up after its time although %llu others ended", static_cast<unsigned long long>(busy));
        s.nontrivial();
    }

    // A server that cannot start says so.
    void run_taken(Src& s) {
        auto port = free_port();
        auto fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_port = htons(port);
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if(::bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof(a)) != 0 || ::listen(fd, 1) != 0) {
            ::close(fd);
            throw pbt::Discard{};
        }
        bool ok = true;
        {
            json_rpc_http_server srv({cbdc::network::localhost, port}, s.coin());
            ok = s.chance(1, 4) ? false : srv.init();
        }
        ::close(fd);
        PBT_CHECK(!ok, "starts on a port that is taken");
        s.nontrivial();
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C27";
    c.m_rule = "server: 1-4 connections with up to 9 requests each, well-formed, malformed, nested "
               "beyond the parser's limit, cut, chunked or of another HTTP method, answered at "
               "once or by other threads (non-trivial: not all are ordinary requests); client: up "
               "to 13 calls whose attempts are cut, closed or not answered before one is answered "
               "(non-trivial: some attempt fails); busy: one call stuck while others keep ending; "
               "taken: the port is in use";
    c.m_assumptions = {"the HTTP libraries installed here"};
    c.m_props = {{"server", run_server, 150, 20000, true, 60},
                 {"client", run_client, 400, 8000, true, 60},
                 {"busy", run_busy, 16, 200, true, 60},
                 {"taken", run_taken, 8, 50, false, 30}};
    return pbt::run(argc, argv, c);
}
