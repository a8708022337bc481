// Runs a piece of code in a child process that stops at a chosen byte of what
// it writes to a file: killed there, or refused the space for the rest.
#pragma once
#include "pbt.hpp"

#include <csignal>
#include <functional>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vt {
    struct crash_result {
        enum { finished, killed, refused, broken } m_end;
        // How often the code said it got somewhere.
        size_t m_reports;
        std::string m_what;
    };
    // No file can grow beyond limit bytes. full: writes beyond it fail, as on
    // a full disk; otherwise the first such write is the process's last.
    inline crash_result
    crash_run(size_t limit,
              bool full,
              const std::function<void(const std::function<void()>&)>& fn) {
        int fd[2];
        if(pipe(fd) != 0) {
            pbt::fail("pipe");
        }
        fflush(nullptr);
        auto pid = fork();
        if(pid == 0) {
            close(fd[0]);
            struct rlimit rl {};
            rl.rlim_cur = rl.rlim_max = limit;
            struct rlimit nocore {};
            setrlimit(RLIMIT_CORE, &nocore);
            if(limit != 0) {
                signal(SIGXFSZ, full ? SIG_IGN : SIG_DFL);
                setrlimit(RLIMIT_FSIZE, &rl);
            }
            try {
                fn([&]() {
                    char c = 1;
                    (void)!write(fd[1], &c, 1);
                });
            } catch(const pbt::Fail& f) {
                (void)!write(fd[1], "!", 1);
                (void)!write(fd[1], f.m_msg.data(), f.m_msg.size());
                _exit(98);
            } catch(const std::exception& e) {
                (void)!write(fd[1], "!", 1);
                (void)!write(fd[1], e.what(), std::strlen(e.what()));
                _exit(98);
            }
            _exit(0);
        }
        close(fd[1]);
        crash_result r{crash_result::finished, 0, ""};
        std::string all;
        char b[4096];
        for(;;) {
            auto n = read(fd[0], b, sizeof(b));
            if(n <= 0) {
                break;
            }
            all.append(b, static_cast<size_t>(n));
        }
        close(fd[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        auto p = all.find('!');
        r.m_reports = p == std::string::npos ? all.size() : p;
        if(p != std::string::npos) {
            r.m_what = all.substr(p + 1);
            r.m_end = crash_result::broken;
        } else if(WIFSIGNALED(st) && WTERMSIG(st) == SIGXFSZ) {
            r.m_end = crash_result::killed;
        } else if(WIFSIGNALED(st)) {
            r.m_end = full ? crash_result::refused : crash_result::broken;
            r.m_what = "signal " + std::to_string(WTERMSIG(st));
        } else if(WEXITSTATUS(st) == 98) {
            r.m_end = crash_result::broken;
        } else if(WEXITSTATUS(st) != 0) {
            r.m_end = crash_result::refused;
        }
        return r;
    }
}
