#include "pbt.hpp"

#include <cerrno>
#include <csignal>
#include <exception>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>

namespace pbt {
    namespace {
        double now() {
            return std::chrono::duration<double>(
                       std::chrono::steady_clock::now().time_since_epoch())
                .count();
        }

        u64 mix(u64 x) {
            x += 0x9e3779b97f4a7c15ULL;
            x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
            x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
            return x ^ (x >> 31);
        }

        std::string jstr(const std::string& s) {
            std::string o = "\"";
            for(unsigned char c : s) {
                if(c == '"' || c == '\\') {
                    o += '\\';
                    o += static_cast<char>(c);
                } else if(c == '\n') {
                    o += "\\n";
                } else if(c < 0x20 || c >= 0x7f) {
                    char b[8];
                    std::snprintf(b, sizeof(b), "\\u%04x", c);
                    o += b;
                } else {
                    o += static_cast<char>(c);
                }
            }
            return o + "\"";
        }

        // Shared between the parent and its workers.
        struct Slot {
            volatile u64 m_case;
            volatile u64 m_done;
            volatile double m_start; // 0 when idle
            volatile int m_state;    // 0 running, 1 finished, 2 failed
            char m_msg[8192];
        };

        volatile sig_atomic_t g_term = 0;
        void on_term(int) {
            g_term = 1;
        }

        enum outcome { ok, failed, crashed, hung, discarded };
        struct Result {
            outcome m_o{ok};
            std::string m_msg;
            std::vector<u64> m_used;
            std::vector<std::string> m_notes;
        };

        // The death of a case is reported from a terminate handler so that
        // the message of an escaping exception is kept.
        char* g_death_msg = nullptr;
        size_t g_death_len = 0;
        void on_terminate() {
            std::string m = "std::terminate";
            if(auto e = std::current_exception()) {
                try {
                    std::rethrow_exception(e);
                } catch(const std::exception& x) {
                    m = std::string("uncaught exception: ") + x.what();
                } catch(const Fail& f) {
                    m = f.m_msg;
                } catch(...) {
                    m = "uncaught exception";
                }
            }
            if(g_death_msg != nullptr) {
                std::snprintf(g_death_msg, g_death_len, "%s", m.c_str());
            }
            std::abort();
        }

        // Runs the property on a source; translates how it ends.
        outcome run_one(const Prop& p, Src& s, std::string& msg) {
            try {
                p.m_fn(s);
                return ok;
            } catch(const Fail& f) {
                msg = f.m_msg;
                return failed;
            } catch(const Discard&) {
                return discarded;
            } catch(const std::exception& e) {
                msg = std::string("exception from the code under test: ")
                    + e.what();
                return failed;
            }
        }

        std::string tmpdir() {
            static std::string d;
            if(d.empty()) {
                const char* b = std::getenv("PBT_TMP");
                d = b != nullptr ? b : "/tmp";
                d += "/pbt." + std::to_string(getpid());
                mkdir(d.c_str(), 0700);
            }
            return d;
        }

        void write_all(int fd, const std::string& s) {
            size_t o = 0;
            while(o < s.size()) {
                auto n = ::write(fd, s.data() + o, s.size() - o);
                if(n <= 0) {
                    return;
                }
                o += static_cast<size_t>(n);
            }
        }

        void silence(int keep_err) {
            int n = open("/dev/null", O_WRONLY);
            dup2(n, 1);
            dup2(keep_err >= 0 ? keep_err : n, 2);
            close(n);
        }

        void kill_tree(pid_t p) {
            kill(-p, SIGKILL);
            kill(p, SIGKILL);
        }

        void install_handlers() {
            static std::vector<char> stk(1 << 16);
            stack_t ss{};
            ss.ss_sp = stk.data();
            ss.ss_size = stk.size();
            sigaltstack(&ss, nullptr);
            for(int sg : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) {
                struct sigaction sa {};
                sa.sa_handler = [](int sig) {
                    _exit(110 + (sig & 31));
                };
                sa.sa_flags = SA_ONSTACK;
                sigaction(sg, &sa, nullptr);
            }
        }

        Mirror* mirror() {
            static auto* m = static_cast<Mirror*>(
                mmap(nullptr,
                     sizeof(Mirror),
                     PROT_READ | PROT_WRITE,
                     MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE,
                     -1,
                     0));
            return m;
        }

        // One case in a child of its own; the draws, the notes and the
        // message come back through shared memory however it ends.
        Result run_source(const Prop& p, const std::function<Src()>& make) {
            auto err = tmpdir() + "/case.err";
            auto* mi = mirror();
            mi->m_n = 0;
            mi->m_notes_len = 0;
            mi->m_notes[0] = 0;
            mi->m_msg[0] = 0;
            mi->m_outcome = -1;
            std::cout.flush();
            pid_t c = fork();
            if(c == 0) {
                setpgid(0, 0);
                signal(SIGTERM, SIG_DFL);
                int e = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
                silence(e);
                g_death_msg = mi->m_msg;
                g_death_len = sizeof(mi->m_msg);
                install_handlers();
                auto s = make();
                s.m_mirror = mi;
                std::string msg;
                auto o = run_one(p, s, msg);
                if(!msg.empty()) {
                    std::snprintf(mi->m_msg,
                                  sizeof(mi->m_msg),
                                  "%s",
                                  msg.c_str());
                }
                mi->m_outcome = static_cast<int>(o);
                _exit(0);
            }
            setpgid(c, c);
            auto t0 = now();
            Result r;
            int st = 0;
            bool timed = false;
            for(;;) {
                auto w = waitpid(c, &st, WNOHANG);
                if(w == c) {
                    break;
                }
                if(now() - t0 > p.m_hang) {
                    timed = true;
                    kill_tree(c);
                    waitpid(c, &st, 0);
                    break;
                }
                usleep(now() - t0 < 0.05 ? 200 : 2000);
            }
            kill(-c, SIGKILL);
            r.m_used.assign(mi->m_used,
                            mi->m_used
                                + std::min<u64>(static_cast<u64>(mi->m_n),
                                                Mirror::max_used));
            {
                std::string n(mi->m_notes, mi->m_notes_len);
                size_t o = 0;
                while(o < n.size()) {
                    auto e = n.find('\n', o);
                    if(e == std::string::npos) {
                        break;
                    }
                    r.m_notes.push_back(n.substr(o, e - o));
                    o = e + 1;
                }
            }
            r.m_msg = mi->m_msg;
            if(timed) {
                r.m_o = hung;
                r.m_msg = fmt("no progress for %.0f s", p.m_hang);
            } else if(mi->m_outcome >= 0) {
                r.m_o = static_cast<outcome>(mi->m_outcome);
            } else {
                r.m_o = crashed;
                auto code = WIFEXITED(st) ? WEXITSTATUS(st) : 0;
                r.m_msg
                    = (WIFSIGNALED(st) ? fmt("killed by signal %d",
                                             WTERMSIG(st))
                       : code > 110    ? fmt("crashed: %s", strsignal(code - 110))
                                       : fmt("exited with %d", code))
                    + (r.m_msg.empty() ? "" : " (" + r.m_msg + ")");
                std::ifstream ef(err);
                std::string l;
                size_t n = 0;
                while(std::getline(ef, l) && n++ < 30) {
                    r.m_msg += "\n  | " + l.substr(0, 300);
                }
            }
            unlink(err.c_str());
            return r;
        }

        Result run_tape(const Prop& p, const std::vector<u64>& tape) {
            return run_source(p, [&]() {
                return Src{tape};
            });
        }

        bool bad(const Result& r) {
            return r.m_o == failed || r.m_o == crashed || r.m_o == hung;
        }

        Result shrink(const Prop& p, Result best, double budget) {
            auto t_end = now() + budget;
            u64 evals = 0;
            auto attempt = [&](const std::vector<u64>& t) {
                if(now() > t_end || evals > 3000) {
                    return false;
                }
                evals++;
                auto r = run_tape(p, t);
                if(bad(r) && (r.m_o != hung || best.m_o == hung)) {
                    // What was really drawn, if not longer.
                    auto used = r.m_used;
                    if(used.size() > t.size()) {
                        used = t;
                    }
                    r.m_used = used;
                    best = r;
                    return true;
                }
                return false;
            };
            bool progress = true;
            while(progress && now() < t_end) {
                progress = false;
                for(size_t k = std::max<size_t>(best.m_used.size() / 2, 1);
                    k >= 1 && now() < t_end;
                    k /= 2) {
                    for(size_t i = 0; i + k <= best.m_used.size();) {
                        auto t = best.m_used;
                        auto off = t.size() - i - k;
                        t.erase(t.begin() + static_cast<long>(off),
                                t.begin() + static_cast<long>(off + k));
                        auto before = best.m_used.size();
                        if(attempt(t) && best.m_used.size() < before) {
                            progress = true;
                        } else {
                            i += k;
                        }
                        if(now() > t_end) {
                            break;
                        }
                    }
                }
                for(size_t i = 0; i < best.m_used.size() && now() < t_end;
                    i++) {
                    if(best.m_used[i] == 0) {
                        continue;
                    }
                    auto t = best.m_used;
                    t[i] = 0;
                    if(attempt(t)) {
                        progress = true;
                        continue;
                    }
                    u64 lo = 0;
                    while(i < best.m_used.size()
                          && best.m_used[i] - lo > 1 && now() < t_end) {
                        t = best.m_used;
                        auto mid = lo + (best.m_used[i] - lo) / 2;
                        t[i] = mid;
                        if(attempt(t)) {
                            progress = true;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            return best;
        }

        struct Stats {
            u64 m_evals{0};
            u64 m_discards{0};
            u64 m_nontrivial{0};
            std::map<std::string, u64> m_labels;
            std::unordered_set<u64> m_hashes;
            std::vector<std::string> m_samples;
        };

        std::string join_notes(const std::vector<std::string>& n) {
            std::string o;
            for(const auto& s : n) {
                if(!o.empty()) {
                    o += "; ";
                }
                o += s;
                if(o.size() > 1200) {
                    o += " ...";
                    break;
                }
            }
            return o;
        }
    }

    std::string fmt(const char* f, ...) {
        va_list a;
        va_start(a, f);
        char b[4096];
        vsnprintf(b, sizeof(b), f, a);
        va_end(a);
        return b;
    }

    void fail(const std::string& msg) {
        throw Fail{msg};
    }

    u64 Src::next() {
        m_rng += 0x9e3779b97f4a7c15ULL;
        return mix(m_rng);
    }

    void Src::used(u64 v) {
        m_used.push_back(v);
        if(m_mirror != nullptr && m_mirror->m_n < Mirror::max_used) {
            m_mirror->m_used[m_mirror->m_n] = v;
            m_mirror->m_n = m_mirror->m_n + 1;
        }
    }

    u64 Src::below(u64 n) {
        if(n <= 1) {
            return 0;
        }
        u64 v = 0;
        if(m_replay) {
            v = m_pos < m_tape.size() ? m_tape[m_pos++] : 0;
            if(v >= n) {
                v = n - 1;
            }
        } else {
            v = static_cast<u64>(
                (static_cast<unsigned __int128>(next()) * n) >> 64);
        }
        used(v);
        return v;
    }

    u64 Src::u64v() {
        u64 v = 0;
        if(m_replay) {
            v = m_pos < m_tape.size() ? m_tape[m_pos++] : 0;
        } else {
            v = next();
        }
        used(v);
        return v;
    }

    u64 Src::size(u64 max) {
        switch(below(4)) {
            case 0:
            case 1:
                return below(std::min<u64>(max, 3) + 1);
            case 2:
                return below(std::min<u64>(max, 12) + 1);
            default:
                return below(max + 1);
        }
    }

    u64 Src::edgy() {
        switch(below(6)) {
            case 0:
                return below(8);
            case 1:
                return below(1000);
            case 2:
                return (1ULL << below(64)) + below(3) - 1;
            case 3:
                return ~0ULL - below(8);
            case 4:
                return (1ULL << 63) + below(5) - 2;
            default:
                return u64v();
        }
    }

    size_t Src::weighted(std::initializer_list<unsigned> w) {
        u64 t = 0;
        for(auto x : w) {
            t += x;
        }
        auto v = below(t);
        size_t i = 0;
        for(auto x : w) {
            if(v < x) {
                return i;
            }
            v -= x;
            i++;
        }
        return 0;
    }

    std::vector<uint8_t> Src::bytes(size_t n) {
        std::vector<uint8_t> o(n);
        size_t i = 0;
        while(i < n) {
            auto v = u64v();
            for(int k = 0; k < 8 && i < n; k++) {
                o[i++] = static_cast<uint8_t>(v >> (8 * k));
            }
        }
        return o;
    }

    void Src::note(const char* f, ...) {
        if(m_notes.size() >= 4000) {
            return;
        }
        va_list a;
        va_start(a, f);
        char b[1024];
        vsnprintf(b, sizeof(b), f, a);
        va_end(a);
        m_notes.emplace_back(b);
        if(m_mirror != nullptr) {
            auto& t = m_notes.back();
            std::replace(t.begin(), t.end(), '\n', ' ');
            auto l = m_mirror->m_notes_len;
            if(l + t.size() + 2 < sizeof(m_mirror->m_notes)) {
                std::memcpy(m_mirror->m_notes + l, t.data(), t.size());
                m_mirror->m_notes[l + t.size()] = '\n';
                m_mirror->m_notes_len = l + t.size() + 1;
            }
        }
    }

    bool thorough() {
        const char* t = std::getenv("VERIF_TIER");
        return t != nullptr && std::string(t) == "thorough";
    }

    std::string hex(const void* p, size_t n) {
        static const char* d = "0123456789abcdef";
        std::string o;
        const auto* b = static_cast<const uint8_t*>(p);
        for(size_t i = 0; i < n; i++) {
            o += d[b[i] >> 4];
            o += d[b[i] & 15];
        }
        return o;
    }

    Scratch::Scratch() {
        static u64 n = 0;
        m_path = tmpdir() + "/s" + std::to_string(getpid()) + "_"
               + std::to_string(n++);
        mkdir(m_path.c_str(), 0700);
    }
    Scratch::~Scratch() {
        std::error_code e;
        std::filesystem::remove_all(m_path, e);
    }

    static int replay(const Check& c, const std::string& path) {
        std::ifstream f(path);
        std::string line;
        std::string prop;
        std::vector<u64> tape;
        while(std::getline(f, line)) {
            if(line.rfind("prop ", 0) == 0) {
                prop = line.substr(5);
            }
            if(line.rfind("tape", 0) == 0) {
                char* p = line.data() + 4;
                char* e = nullptr;
                for(;;) {
                    auto v = std::strtoull(p, &e, 10);
                    if(e == p) {
                        break;
                    }
                    tape.push_back(v);
                    p = e;
                }
            }
        }
        for(const auto& p : c.m_props) {
            if(p.m_name == prop) {
                auto r = run_tape(p, tape);
                for(const auto& n : r.m_notes) {
                    std::cout << "  " << n << "\n";
                }
                if(bad(r)) {
                    std::cout << r.m_msg << "\nVIOLATION property=" << c.m_id
                              << " replay=" << path << std::endl;
                    return 1;
                }
                std::cout << "the case passes" << std::endl;
                return 0;
            }
        }
        std::cerr << "no such property: " << prop << "\n";
        return 2;
    }

    int run(int argc, char** argv, const Check& c) {
        std::set_terminate(on_terminate);
        signal(SIGPIPE, SIG_IGN);
        std::string only;
        std::string evidence;
        std::string replays;
        double scale = 1;
        for(int i = 1; i < argc; i++) {
            std::string a = argv[i];
            auto arg = [&]() -> std::string {
                return i + 1 < argc ? argv[++i] : "";
            };
            if(a == "--replay") {
                return replay(c, arg());
            }
            if(a == "--only") {
                only = arg();
            } else if(a == "--evidence") {
                evidence = arg();
            } else if(a == "--replays") {
                replays = arg();
            } else if(a == "--scale") {
                scale = std::stod(arg());
            }
        }
        const char* se = std::getenv("VERIF_SEED");
        u64 seed = se != nullptr ? std::strtoull(se, nullptr, 10) : 1;
        auto t_start = now();
        const double cap = thorough() ? 6 * 3600.0 : 420.0;
        signal(SIGTERM, on_term);
        tmpdir();
        auto top = getpid();

        Stats total;
        int violations = 0;
        u64 unreproduced = 0;
        bool capped = false;
        std::vector<std::string> per_prop;

        for(const auto& p : c.m_props) {
            if(!only.empty() && p.m_name != only) {
                continue;
            }
            auto t_prop = now();
            auto cases = static_cast<u64>(
                static_cast<double>(thorough() ? p.m_thorough : p.m_quick)
                * scale);
            cases = std::max<u64>(cases, 1);
            unsigned W = p.m_workers != 0
                           ? p.m_workers
                           : std::max(1U, std::thread::hardware_concurrency());
            W = static_cast<unsigned>(std::min<u64>(W, cases));
            u64 pseed = mix(seed * 0x100000001b3ULL
                            + std::hash<std::string>()(p.m_name));
            auto* slots = static_cast<Slot*>(
                mmap(nullptr,
                     sizeof(Slot) * W,
                     PROT_READ | PROT_WRITE,
                     MAP_SHARED | MAP_ANONYMOUS,
                     -1,
                     0));
            auto case_seed = [&](u64 i) {
                return mix(pseed ^ mix(i));
            };
            // first[w]: the next case of worker w; restarted after a failure
            // that did not reproduce
            std::vector<u64> first(W);
            std::vector<pid_t> pid(W);
            auto spawn = [&](unsigned w) {
                slots[w].m_start = 0;
                slots[w].m_state = 0;
                slots[w].m_msg[0] = 0;
                std::cout.flush();
                pid_t k = fork();
                if(k != 0) {
                    setpgid(k, k);
                    pid[w] = k;
                    return;
                }
                setpgid(0, 0);
                signal(SIGTERM, SIG_DFL);
                auto errf = tmpdir() + "/w" + std::to_string(w) + ".err";
                int e
                    = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
                silence(e);
                g_death_msg = slots[w].m_msg;
                g_death_len = sizeof(slots[w].m_msg);
                Stats st;
                for(u64 i = first[w]; i < cases; i += W) {
                    if(now() - t_start > cap || getppid() != top) {
                        break;
                    }
                    slots[w].m_case = i;
                    slots[w].m_start = now();
                    Src s{case_seed(i)};
                    std::string msg;
                    auto o = run_one(p, s, msg);
                    if(o == failed) {
                        std::snprintf(slots[w].m_msg,
                                      sizeof(slots[w].m_msg),
                                      "%s",
                                      msg.c_str());
                        slots[w].m_state = 2;
                        break;
                    }
                    slots[w].m_start = 0;
                    slots[w].m_done = slots[w].m_done + 1;
                    if(o == discarded) {
                        st.m_discards++;
                        continue;
                    }
                    st.m_evals++;
                    for(const auto& l : s.m_labels) {
                        st.m_labels[l]++;
                    }
                    if(s.m_nontrivial) {
                        u64 h = 1;
                        for(auto v : s.m_used) {
                            h = mix(h ^ v);
                        }
                        if(st.m_hashes.insert(h).second
                           && st.m_samples.size() < 2
                           && !s.m_notes.empty()) {
                            st.m_samples.push_back(join_notes(s.m_notes));
                        }
                    }
                }
                auto f = tmpdir() + "/w" + std::to_string(w) + "."
                       + std::to_string(first[w]) + ".st";
                std::string t = std::to_string(st.m_evals) + " "
                              + std::to_string(st.m_discards) + "\n";
                t += std::to_string(st.m_labels.size()) + "\n";
                for(const auto& [l, n] : st.m_labels) {
                    t += std::to_string(n) + " " + l + "\n";
                }
                t += std::to_string(st.m_hashes.size()) + "\n";
                for(auto h : st.m_hashes) {
                    t += std::to_string(h) + "\n";
                }
                for(auto s : st.m_samples) {
                    std::replace(s.begin(), s.end(), '\n', ' ');
                    t += s + "\n";
                }
                int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
                write_all(fd, t);
                close(fd);
                if(slots[w].m_state == 0) {
                    slots[w].m_state = 1;
                }
                _exit(0);
            };
            for(unsigned w = 0; w < W; w++) {
                first[w] = w;
                pid[w] = -1;
                slots[w].m_done = 0;
            }
            size_t hangs = 0;
            for(unsigned w = 0; w < W; w++) {
                spawn(w);
            }
            unsigned live = W;
            bool stop = false;
            while(live > 0 && !stop) {
                usleep(3000);
                if(g_term != 0) {
                    stop = true;
                    break;
                }
                for(unsigned w = 0; w < W && !stop; w++) {
                    if(pid[w] < 0) {
                        continue;
                    }
                    int st = 0;
                    auto r = waitpid(pid[w], &st, WNOHANG);
                    bool hang = false;
                    if(r != pid[w]) {
                        auto s = slots[w].m_start;
                        if(s > 0 && now() - s > p.m_hang) {
                            hang = true;
                            kill_tree(pid[w]);
                            waitpid(pid[w], &st, 0);
                        } else {
                            continue;
                        }
                    }
                    kill(-pid[w], SIGKILL);
                    pid[w] = -1;
                    if(slots[w].m_state == 1 && !hang) {
                        live--;
                        continue;
                    }
                    // A failing case.
                    auto idx = slots[w].m_case;
                    std::string first_msg = slots[w].m_msg;
                    bool soft = slots[w].m_state == 2;
                    std::cout << "[" << c.m_id << "] " << p.m_name << " case "
                              << idx << " "
                              << (hang   ? "hangs"
                                  : soft ? "fails"
                                         : "crashes")
                              << (first_msg.empty() ? "" : ": " + first_msg)
                              << std::endl;
                    const auto t_fail = now();
                    // Confirming a slow case must leave time to report it.
                    auto late = [&]() {
                        return now() - t_fail > 90;
                    };
                    // The same seed again, for the tape of its draws.
                    auto best = run_source(p, [&]() {
                        return Src{case_seed(idx)};
                    });
                    auto tape = best.m_used;
                    int tries = p.m_racy ? 20 : 3;
                    int hits = 0;
                    Result seen;
                    for(int t = 0; t < tries && !(p.m_racy && late()); t++) {
                        auto r2 = run_tape(p, tape);
                        if(bad(r2)) {
                            hits++;
                            seen = r2;
                            if(p.m_racy) {
                                break;
                            }
                        } else if(!p.m_racy) {
                            break;
                        }
                    }
                    bool confirmed = p.m_racy ? hits > 0 : hits == tries;
                    // A crash is as good as a failed oracle; a lone hang may
                    // be the machine's.
                    bool crash = !hang && WIFSIGNALED(st)
                              && WTERMSIG(st) != SIGKILL
                              && WTERMSIG(st) != SIGTERM;
                    hangs += hang ? 1 : 0;
                    bool report
                        = confirmed
                       || (p.m_racy && (soft || crash || hangs > 1));
                    if(!report) {
                        unreproduced++;
                        std::cout << "[" << c.m_id
                                  << "] not reproduced; continuing"
                                  << std::endl;
                        if(unreproduced > 50) {
                            std::cerr << "too many unreproduced failures\n";
                            return 3;
                        }
                        first[w] = idx + W;
                        if(first[w] < cases) {
                            spawn(w);
                        } else {
                            live--;
                        }
                        continue;
                    }
                    for(unsigned x = 0; x < W; x++) {
                        if(pid[x] > 0) {
                            kill_tree(pid[x]);
                            waitpid(pid[x], nullptr, 0);
                            pid[x] = -1;
                        }
                    }
                    if(!confirmed) {
                        seen.m_o = soft ? failed : hang ? hung : crashed;
                        seen.m_msg = first_msg;
                        seen.m_used = tape;
                    } else if(p.m_hang > 30 && (seen.m_o == hung || late())) {
                        seen.m_used = tape;
                    } else {
                        double budget = seen.m_o == hung ? 60 : 45;
                        seen.m_used = tape;
                        auto sm = shrink(p, seen, budget);
                        int again = 0;
                        for(int t = 0; t < 3 && !(p.m_racy && late()); t++) {
                            again += bad(run_tape(p, sm.m_used)) ? 1 : 0;
                        }
                        if(again == 3 || p.m_racy) {
                            seen = sm;
                        }
                    }
                    auto fname = c.m_id + "-" + p.m_name + ".replay";
                    std::replace_if(
                        fname.begin(),
                        fname.end(),
                        [](char ch) {
                            return std::isalnum(
                                       static_cast<unsigned char>(ch))
                                    == 0
                                && ch != '.' && ch != '-';
                        },
                        '_');
                    std::string path = replays + "/" + fname;
                    mkdir(replays.c_str(), 0755);
                    {
                        std::ofstream o(path);
                        o << "property " << c.m_id << "\nprop " << p.m_name
                          << "\nseed " << seed << "\ncase " << idx
                          << "\ntape";
                        for(auto v : seen.m_used) {
                            o << " " << v;
                        }
                        o << "\n# " << seen.m_msg << "\n";
                        for(const auto& n : seen.m_notes) {
                            o << "#   " << n << "\n";
                        }
                    }
                    for(const auto& n : seen.m_notes) {
                        std::cout << "    " << n << "\n";
                    }
                    std::cout << seen.m_msg << "\nVIOLATION property="
                              << c.m_id << " replay=" << path << std::endl;
                    violations++;
                    stop = true;
                }
            }
            u64 done = 0;
            for(unsigned w = 0; w < W; w++) {
                if(pid[w] > 0) {
                    kill_tree(pid[w]);
                    waitpid(pid[w], nullptr, 0);
                }
                done += slots[w].m_done;
            }
            munmap(slots, sizeof(Slot) * W);
            Stats here;
            for(const auto& de :
                std::filesystem::directory_iterator(tmpdir())) {
                auto n = de.path().string();
                if(n.size() < 3 || n.substr(n.size() - 3) != ".st") {
                    continue;
                }
                std::ifstream f(n);
                u64 ev = 0;
                u64 di = 0;
                size_t k = 0;
                f >> ev >> di >> k;
                here.m_evals += ev;
                here.m_discards += di;
                for(size_t i = 0; i < k; i++) {
                    u64 m = 0;
                    std::string l;
                    f >> m;
                    f.get();
                    std::getline(f, l);
                    here.m_labels[l] += m;
                }
                f >> k;
                for(size_t i = 0; i < k; i++) {
                    u64 h = 0;
                    f >> h;
                    here.m_hashes.insert(h);
                }
                std::string l;
                std::getline(f, l);
                while(std::getline(f, l)) {
                    if(here.m_samples.size() < 3) {
                        here.m_samples.push_back(p.m_name + ": " + l);
                    }
                }
                f.close();
                std::filesystem::remove(de.path());
            }
            if(here.m_evals < cases && violations == 0
               && here.m_evals + here.m_discards < cases) {
                capped = true;
            }
            total.m_evals += here.m_evals;
            total.m_discards += here.m_discards;
            total.m_nontrivial += here.m_hashes.size();
            for(const auto& [l, n] : here.m_labels) {
                total.m_labels[p.m_name + ": " + l] += n;
            }
            for(const auto& s : here.m_samples) {
                total.m_samples.push_back(s);
            }
            per_prop.push_back(
                fmt("{\"name\": %s, \"evaluations\": %llu, "
                    "\"distinct_nontrivial\": %zu, \"discarded\": %llu, "
                    "\"wall_s\": %.2f}",
                    jstr(p.m_name).c_str(),
                    static_cast<unsigned long long>(here.m_evals),
                    here.m_hashes.size(),
                    static_cast<unsigned long long>(here.m_discards),
                    now() - t_prop));
            std::cout << "[" << c.m_id << "] " << p.m_name << ": "
                      << here.m_evals << " cases, " << here.m_hashes.size()
                      << " distinct non-trivial, " << now() - t_prop << " s"
                      << std::endl;
            if(g_term != 0 || violations != 0) {
                break;
            }
        }
        std::error_code ec;
        std::filesystem::remove_all(tmpdir(), ec);
        if(!evidence.empty()) {
            std::ofstream o(evidence);
            o << "{\n \"property\": " << jstr(c.m_id) << ",\n \"tier\": \""
              << (thorough() ? "thorough" : "quick")
              << "\",\n \"seed\": " << seed << ",\n \"level\": "
              << jstr(c.m_level)
              << ",\n \"coverage\": {\n  \"evaluations\": " << total.m_evals
              << ",\n  \"distinct_nontrivial\": " << total.m_nontrivial
              << ",\n  \"rule\": " << jstr(c.m_rule)
              << ",\n  \"discarded\": " << total.m_discards
              << ",\n  \"unreproduced\": " << unreproduced
              << ",\n  \"stopped_by_time_cap\": "
              << (capped ? "true" : "false") << ",\n  \"properties\": [";
            for(size_t i = 0; i < per_prop.size(); i++) {
                o << (i != 0 ? ",\n   " : "\n   ") << per_prop[i];
            }
            o << "],\n  \"classes\": {";
            bool f = true;
            for(const auto& [l, n] : total.m_labels) {
                o << (f ? "\n   " : ",\n   ") << jstr(l) << ": " << n;
                f = false;
            }
            o << "},\n  \"samples\": [";
            for(size_t i = 0; i < total.m_samples.size(); i++) {
                o << (i != 0 ? ",\n   " : "\n   ")
                  << jstr(total.m_samples[i]);
            }
            o << "]\n },\n \"assumptions\": [";
            for(size_t i = 0; i < c.m_assumptions.size(); i++) {
                o << (i != 0 ? ", " : "") << jstr(c.m_assumptions[i]);
            }
            o << "],\n \"wall_s\": " << now() - t_start
              << ",\n \"violations\": " << violations << "\n}\n";
        }
        std::cout << "[" << c.m_id << "] " << total.m_evals << " cases, "
                  << total.m_nontrivial << " distinct non-trivial, "
                  << violations << " violations, " << now() - t_start << " s"
                  << std::endl;
        if(g_term != 0) {
            return 3;
        }
        return violations != 0 ? 1 : 0;
    }
}
