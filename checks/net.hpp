// Loopback helpers.
#pragma once
#include "common.hpp"
#include "util/network/connection_manager.hpp"

#include <arpa/inet.h>
#include <atomic>
#include <chrono>
#include <netinet/in.h>
#include <cstddef>
#include <sys/socket.h>
#include <sys/un.h>
#include <thread>
#include <unistd.h>

namespace vt {
    // Blocks of ports below the range the kernel picks from for outgoing
    // connections; a process claims one with an abstract socket's name.
    inline unsigned port_block() {
        static constexpr unsigned blocks = 60;
        static pid_t pid = 0;
        static unsigned mine = 0;
        if(pid == getpid()) {
            return mine;
        }
        auto first = static_cast<unsigned>(getpid()) % blocks;
        for(unsigned i = 0; i < blocks; i++) {
            auto k = (first + i) % blocks;
            auto fd = ::socket(AF_UNIX, SOCK_DGRAM | SOCK_CLOEXEC, 0);
            sockaddr_un a{};
            a.sun_family = AF_UNIX;
            auto n = snprintf(a.sun_path + 1, 40, "vt-ports-%u", k);
            auto len = static_cast<socklen_t>(
                offsetof(sockaddr_un, sun_path) + 1
                + static_cast<size_t>(n));
            if(bind(fd, reinterpret_cast<sockaddr*>(&a), len) == 0) {
                pid = getpid();
                mine = k;
                return mine;
            }
            ::close(fd);
        }
        throw pbt::Discard{};
    }
    // A loopback port nobody listens on at the moment.
    inline unsigned short free_port() {
        static std::atomic<unsigned> n{0};
        auto base = 20000 + port_block() * 200;
        for(int i = 0; i < 400; i++) {
            auto p = static_cast<unsigned short>(base + n++ % 200);
            auto fd = ::socket(AF_INET, SOCK_STREAM, 0);
            int one = 1;
            setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_port = htons(p);
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            auto ok
                = bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof(a)) == 0;
            ::close(fd);
            if(ok) {
                return p;
            }
        }
        throw pbt::Discard{};
    }
    inline cbdc::network::endpoint_t free_ep() {
        return {cbdc::network::localhost, free_port()};
    }
    template<typename F>
    bool wait_for(F&& f, double seconds = 10) {
        auto end = std::chrono::steady_clock::now()
                 + std::chrono::duration<double>(seconds);
        while(!f()) {
            if(std::chrono::steady_clock::now() > end) {
                return false;
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
        }
        return true;
    }

    // A server on loopback whose messages go to a function.
    struct stub_server {
        cbdc::network::connection_manager m_net;
        std::thread m_t;
        cbdc::network::endpoint_t m_ep;
        explicit stub_server(const cbdc::network::packet_handler_t& h)
            : m_ep(free_ep()) {
            auto t = m_net.start_server(m_ep, h);
            if(!t) {
                throw pbt::Discard{};
            }
            m_t = std::move(*t);
        }
        ~stub_server() { stop(); }
        void stop() {
            m_net.close();
            if(m_t.joinable()) {
                m_t.join();
            }
        }
    };
}
