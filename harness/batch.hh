// Runs one scenario per input line in a child process and prints its events.
#pragma once
#include "json.hh"
#include <csignal>
#include <cstdio>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

// f writes one event per line to the stream.
inline int batch_main(std::function<void(Json const &, std::ostream &)> const &f, int cpu_seconds = 20) {
    std::ios::sync_with_stdio(false);
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) {
            continue;
        }
        int fds[2];
        if (pipe(fds) != 0) {
            return 2;
        }
        auto pid = fork();
        if (pid < 0) {
            return 2;
        }
        if (pid == 0) {
            close(fds[0]);
            rlimit lim{static_cast<rlim_t>(cpu_seconds), static_cast<rlim_t>(cpu_seconds + 1)};
            setrlimit(RLIMIT_CPU, &lim);
            // only the parent writes to the output
            if (freopen("/dev/null", "w", stdout) == nullptr) {
                _exit(2);
            }
            std::ostringstream out;
            auto flush = [&]() {
                auto s = out.str();
                size_t p = 0;
                while (p < s.size()) {
                    auto n = write(fds[1], s.data() + p, s.size() - p);
                    if (n <= 0) {
                        _exit(2);
                    }
                    p += static_cast<size_t>(n);
                }
            };
            try {
                f(JsonParser::parse(line), out);
                out << "{\"e\":\"end\",\"how\":\"ok\"}\n";
            } catch (std::exception const &e) {
                out << "{\"e\":\"end\",\"how\":\"error\",\"msg\":" << jstr(e.what()) << "}\n";
            }
            flush();
            _exit(0);
        }
        close(fds[1]);
        std::string out;
        char buf[65536];
        ssize_t n = 0;
        while ((n = read(fds[0], buf, sizeof(buf))) > 0) {
            out.append(buf, static_cast<size_t>(n));
        }
        close(fds[0]);
        int status = 0;
        waitpid(pid, &status, 0);
        std::vector<std::string> evs;
        std::istringstream is(out);
        std::string l;
        while (std::getline(is, l)) {
            evs.emplace_back(l);
        }
        if (WIFSIGNALED(status)) {
            int s = WTERMSIG(status);
            bool cpu = s == SIGXCPU || s == SIGKILL;
            evs.emplace_back(std::string("{\"e\":\"end\",\"how\":\"") + (cpu ? "timeout" : "crash") + "\",\"msg\":\"signal " +
                             std::to_string(s) + "\"}");
        } else if (evs.empty() || evs.back().find("\"e\":\"end\"") == std::string::npos) {
            evs.emplace_back("{\"e\":\"end\",\"how\":\"crash\",\"msg\":\"exit\"}");
        }
        std::string r = "{\"ev\":" + jjoin(evs) + "}\n";
        fwrite(r.data(), 1, r.size(), stdout);
        fflush(stdout);
    }
    return 0;
}
