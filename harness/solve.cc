// Runs programs with the real clingo and the theory of the current tree.
//
// Input: one scenario per line (JSON), output: one trace per line (JSON).
// A scenario is a sequence of steps; each step adds and grounds program text
// and solves, optionally under assumptions.  See spec/SolveTrace.tla.

#include "pivots.hh"
#include "common.hh"
#include "interpose.hh"

#include <clingo.hh>

#include <atomic>
#include <csignal>
#include <iostream>
#include <mutex>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {

int out_fd = 1;
std::mutex out_mutex;
// nothing is recorded of what happened before
bool quiet = false;

void emit(std::string const &s) {
    if (quiet) {
        return;
    }
    std::lock_guard<std::mutex> lock{out_mutex};
    std::string line = s + "\n";
    size_t p = 0;
    while (p < line.size()) {
        auto n = write(out_fd, line.data() + p, line.size() - p);
        if (n <= 0) {
            _exit(99);
        }
        p += static_cast<size_t>(n);
    }
}

std::vector<clingo_symbol_t> theory_symbols(Clingo::Model const &m) {
    std::vector<clingo_symbol_t> r;
    for (auto const &s : m.symbols(Clingo::ShowType::Theory)) {
        r.emplace_back(s.to_c());
    }
    return r;
}

class Handler : public Clingo::SolveEventHandler {
  public:
    Handler(clingolpx_theory_t *th, long long limit, bool yield) : th_{th}, limit_{limit}, yield_{yield} {}
    bool on_model(Clingo::Model &m) override { return yield_ || model(m); }
    bool model(Clingo::Model const &m) {
        std::unique_lock<std::recursive_mutex> lock{lpxrec::lock(), std::defer_lock};
        if (lpxrec::active()) {
            lock.lock();
        }
        bool ok = clingolpx_on_model(th_, m.to_c());
        std::vector<std::string> atoms;
        for (auto const &s : m.symbols(Clingo::ShowType::Shown)) {
            atoms.emplace_back(s.to_string());
        }
        std::string s = "{\"e\":\"model\",\"t\":" + std::to_string(m.thread_id()) + ",\"atoms\":" + jslist(atoms) +
                        ",\"pr\":" + (m.optimality_proven() ? "true" : "false");
        if (lpxrec::active()) {
            s += ",\"lv\":0,\"asg\":" + lpxrec::last_assignment(m.thread_id()) +
                 ",\"tatoms\":" + lpxrec::last_atoms(m.thread_id());
        }
        if (ok) {
            s += model_json(th_, m.thread_id(), theory_symbols(m));
        }
        emit(s + "}");
        if (!ok) {
            throw std::runtime_error("on_model failed");
        }
        ++n_;
        return limit_ <= 0 || n_ < limit_;
    }
    void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override {
        bool ok = clingolpx_on_statistics(th_, step.to_c(), accu.to_c());
        std::string s = "{\"e\":\"stats\"";
        auto get = [](Clingo::UserStatistics const &st, char const *k) -> std::string {
            if (st.type() != Clingo::StatisticsType::Map || !st.has_subkey("Simplex")) {
                return "-1";
            }
            auto sub = st["Simplex"];
            if (!sub.has_subkey(k)) {
                return "-1";
            }
            return std::to_string(static_cast<long long>(sub[k].value()));
        };
        s += ",\"sp\":" + get(step, "Pivots") + ",\"sb\":" + get(step, "Bounds propagated");
        s += ",\"ap\":" + get(accu, "Pivots") + ",\"ab\":" + get(accu, "Bounds propagated");
        s += ",\"pv\":" + std::to_string(pivots_count());
        emit(s + ",\"ok\":" + (ok ? "true" : "false") + "}");
    }

  private:
    clingolpx_theory_t *th_;
    long long limit_;
    // models are asked for one by one
    bool yield_;
    long long n_ = 0;
};

void handle(bool ok) {
    if (!ok) {
        char const *m = clingo_error_message();
        throw std::runtime_error(m == nullptr ? "?" : m);
    }
}

Clingo::Symbol parse_sym(std::string const &s) { return Clingo::parse_term(s.c_str()); }

void run(Json const &sc) {
    auto elsewhere = [&sc](char const *when) {
        if (sc.has(when)) {
            // another theory and control in the same process
            quiet = true;
            try {
                run(sc[when]);
            } catch (std::exception const &e) {
            }
            quiet = false;
        }
    };
    elsewhere("before");
    clingolpx_theory_t *th = nullptr;
    handle(clingolpx_create(&th));
    if (!quiet && sc.get("record", 0) != 0) {
        lpxrec::start(th, emit);
    }
    bool configured = true;
    // results of configuring options: accepted or the error
    if (sc.has("opts")) {
        for (auto const &o : sc["opts"].a) {
            bool ok = clingolpx_configure(th, o[0].s.c_str(), o[1].s.c_str());
            if (sc.get("optlog", 0) != 0) {
                char const *m = ok ? "" : clingo_error_message();
                emit("{\"e\":\"opt\",\"k\":" + jstr(o[0].s) + ",\"val\":" + jstr(o[1].s) + ",\"ok\":" +
                     (ok ? "true" : "false") + ",\"msg\":" + jstr(m == nullptr ? "" : m) + "}");
            } else if (!ok) {
                configured = false;
            }
        }
    }
    if (!configured) {
        throw std::runtime_error("configure failed");
    }
    if (sc.get("validate", 0) != 0) {
        bool ok = clingolpx_validate_options(th);
        char const *m = ok ? "" : clingo_error_message();
        emit(std::string("{\"e\":\"valid\",\"ok\":") + (ok ? "true" : "false") + ",\"msg\":" + jstr(m == nullptr ? "" : m) +
             "}");
    }
    std::vector<char const *> args;
    if (sc.has("args")) {
        for (auto const &a : sc["args"].a) {
            args.emplace_back(a.s.c_str());
        }
    }
    {
        Clingo::Control ctl{{args.data(), args.size()}, [](Clingo::WarningCode, char const *msg) { std::cerr << msg << std::endl; }, 20};
        handle(clingolpx_register(th, ctl.to_c()));
        elsewhere("between");
        size_t num = 0;
        bool assumes = false;
        for (auto const &st : sc["steps"].a) {
            assumes = assumes || st.has("assume");
        }
        for (auto const &st : sc["steps"].a) {
            ++num;
            std::string stage = "ground";
            try {
                std::string part = num == 1 ? "base" : "s" + std::to_string(num);
                ctl.add(part.c_str(), {}, st["program"].s.c_str());
                if (num == 1 && assumes) {
                    ctl.add(part.c_str(), {}, "#external lpx__false.");
                }
                ctl.ground({{part.c_str(), {}}});
                if (st.has("external")) {
                    for (auto const &x : st["external"].a) {
                        auto sym = parse_sym(x[0].s);
                        if (x[1].s == "release") {
                            ctl.release_external(sym);
                        } else {
                            ctl.assign_external(sym, x[1].s == "true"    ? Clingo::TruthValue::True
                                                     : x[1].s == "false" ? Clingo::TruthValue::False
                                                                         : Clingo::TruthValue::Free);
                        }
                    }
                }
                stage = "prepare";
                handle(clingolpx_prepare(th, ctl.to_c()));
                long long nsolve = st.get("solves", 1);
                for (long long i = 0; i < nsolve; ++i) {
                    stage = "solve";
                    std::vector<clingo_literal_t> ass;
                    if (st.has("assume")) {
                        for (auto const &x : st["assume"].a) {
                            auto it = ctl.symbolic_atoms().find(parse_sym(x[0].s));
                            clingo_literal_t l = it ? it->literal() : 0;
                            if (l == 0) {
                                // the atom is false in all models
                                if (x[1].i == 0) {
                                    continue;
                                }
                                auto jt = ctl.symbolic_atoms().find(Clingo::Id("lpx__false"));
                                if (!jt) {
                                    // the program is already inconsistent
                                    continue;
                                }
                                l = jt->literal();
                            } else if (x[1].i == 0) {
                                l = -l;
                            }
                            ass.emplace_back(l);
                        }
                    }
                    emit("{\"e\":\"start\",\"step\":" + std::to_string(num) + "}");
                    bool yield = st.get("yield", 0) != 0;
                    Handler h{th, st.get("limit", 0), yield};
                    pivots_reset();
                    auto handle_ = ctl.solve(Clingo::LiteralSpan{ass.data(), ass.size()}, &h, false, yield);
                    if (yield) {
                        while (true) {
                            handle_.resume();
                            auto const &m = handle_.model();
                            if (!m) {
                                break;
                            }
                            if (!h.model(m)) {
                                handle_.cancel();
                                break;
                            }
                        }
                    }
                    auto res = handle_.get();
                    emit("{\"e\":\"done\",\"step\":" + std::to_string(num) + ",\"sat\":" +
                         (res.is_satisfiable() ? "1" : res.is_unsatisfiable() ? "0" : "2") + ",\"all\":" +
                         (res.is_exhausted() ? "true" : "false") + "}");
                }
            } catch (std::exception const &e) {
                emit("{\"e\":\"error\",\"step\":" + std::to_string(num) + ",\"stage\":" + jstr(stage) + ",\"msg\":" +
                     jstr(e.what()) + "}");
                break;
            }
        }
    }
    handle(clingolpx_destroy(th));
}

void child(std::string const &line) {
    try {
        Json sc = JsonParser::parse(line);
        rlimit rl{};
        rl.rlim_cur = static_cast<rlim_t>(sc.get("cpu", 20));
        rl.rlim_max = rl.rlim_cur + 1;
        setrlimit(RLIMIT_CPU, &rl);
        rlimit core{};
        setrlimit(RLIMIT_CORE, &core);
        if (sc.get("verbose", 0) == 0 && freopen("/dev/null", "w", stderr) == nullptr) {
            _exit(98);
        }
        // only the parent writes to the output
        if (freopen("/dev/null", "w", stdout) == nullptr) {
            _exit(98);
        }
        try {
            run(sc);
            emit("{\"e\":\"end\",\"how\":\"ok\",\"msg\":\"\"}");
        } catch (std::exception const &e) {
            emit("{\"e\":\"end\",\"how\":\"error\",\"msg\":" + jstr(e.what()) + "}");
        }
    } catch (std::exception const &e) {
        emit("{\"e\":\"end\",\"how\":\"exception\",\"msg\":" + jstr(e.what()) + "}");
    }
    _exit(0);
}

} // namespace

int main() {
    std::ios::sync_with_stdio(false);
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) {
            continue;
        }
        int fds[2];
        if (pipe(fds) != 0) {
            return 2;
        }
        auto pid = fork();
        if (pid < 0) {
            return 2;
        }
        if (pid == 0) {
            close(fds[0]);
            out_fd = fds[1];
            child(line);
        }
        close(fds[1]);
        std::string out;
        char buf[65536];
        ssize_t n = 0;
        while ((n = read(fds[0], buf, sizeof(buf))) > 0) {
            out.append(buf, static_cast<size_t>(n));
        }
        close(fds[0]);
        int status = 0;
        waitpid(pid, &status, 0);
        std::vector<std::string> evs;
        std::istringstream is(out);
        std::string l;
        while (std::getline(is, l)) {
            evs.emplace_back(l);
        }
        if (WIFSIGNALED(status)) {
            int s = WTERMSIG(status);
            bool cpu = s == SIGXCPU || s == SIGKILL;
            evs.emplace_back(std::string("{\"e\":\"end\",\"how\":\"") + (cpu ? "timeout" : "crash") +
                             "\",\"msg\":\"signal " + std::to_string(s) + "\"}");
        } else if (evs.empty() || evs.back().find("\"e\":\"end\"") == std::string::npos) {
            evs.emplace_back("{\"e\":\"end\",\"how\":\"crash\",\"msg\":\"exit " + std::to_string(WEXITSTATUS(status)) +
                             "\"}");
        }
        std::string r = "{\"ev\":" + jjoin(evs) + "}\n";
        fwrite(r.data(), 1, r.size(), stdout);
        fflush(stdout);
    }
    return 0;
}
