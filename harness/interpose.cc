// Records what the real clingo and the theory exchange through the propagator interface.
//
// The functions of clingo's C interface the theory uses are wrapped; events
// have the form of those of host.cc, see spec/HostTrace.tla.

#include "interpose.hh"
#include "common.hh"

#include <algorithm>
#include <cstdlib>
#include <dlfcn.h>
#include <map>
#include <memory>
#include <set>

namespace lpxrec {

namespace {

using lit_t = clingo_literal_t;

struct Thread {
    std::vector<uint32_t> levels; // levels literals were delivered on
    std::vector<std::string> calls;
    bool refused = false;
    bool contract = false;
    std::vector<lit_t> total;
};

clingolpx_theory_t *theory = nullptr;
std::function<void(std::string const &)> out;
std::recursive_mutex mutex;
clingo_propagator_t orig;
void *orig_data = nullptr;
std::map<unsigned, Thread> threads;
std::vector<std::string> init_calls;
bool in_init = false;
int mode = 0;
lit_t nv = 0;
size_t step = 0;
std::vector<size_t> idx;
// literals of the symbolic atoms
std::vector<std::pair<std::string, lit_t>> shown;

template <class F> F real(F, char const *name) {
    void *p = dlsym(RTLD_NEXT, name);
    if (p == nullptr) {
        abort();
    }
    return reinterpret_cast<F>(p);
}
#define REAL(f) real(&(f), #f)

int value(clingo_assignment_t const *a, lit_t l) {
    if (!clingo_assignment_has_literal(a, l)) {
        return 2;
    }
    clingo_truth_value_t v;
    clingo_assignment_truth_value(a, l, &v);
    return v == clingo_truth_value_free ? 0 : v == clingo_truth_value_true ? 1 : -1;
}

std::vector<lit_t> true_lits(clingo_assignment_t const *a, bool fixed) {
    std::vector<lit_t> r;
    for (lit_t v = 1; v <= nv; ++v) {
        int x = value(a, v);
        if (x != 1 && x != -1) {
            continue;
        }
        bool f = false;
        clingo_assignment_is_fixed(a, v, &f);
        if (!fixed || f) {
            r.emplace_back(x * v);
        }
    }
    return r;
}

std::string key(char const *e, unsigned t, clingo_assignment_t const *a) {
    return std::string("{\"e\":\"") + e + "\",\"t\":" + std::to_string(t) +
           ",\"lv\":" + std::to_string(clingo_assignment_decision_level(a));
}

std::string values(unsigned tid) {
    std::vector<std::string> v;
    for (auto i : idx) {
        clingolpx_value_t x;
        clingolpx_assignment_get_value(theory, tid, i, &x);
        v.emplace_back(x.type == clingolpx_value_type_symbol ? sym_text(x.symbol) : "?type");
    }
    return ",\"v\":" + jslist(v);
}

std::string flush(Thread &t, clingo_assignment_t const *a) {
    std::string s = ",\"calls\":" + jjoin(t.calls);
    s += std::string(",\"ref\":") + (t.refused ? "true" : "false");
    s += std::string(",\"bad\":") + (t.contract ? "true" : "false");
    if (!t.calls.empty()) {
        s += ",\"z\":" + jlist(true_lits(a, true));
    }
    t.calls.clear();
    t.contract = false;
    t.refused = false;
    return s;
}

// ---- theory atoms in the notation of spec/Lang.tla -----------------------------------

std::string term(clingo_theory_atoms_t const *ta, clingo_id_t id) {
    clingo_theory_term_type_t type;
    clingo_theory_atoms_term_type(ta, id, &type);
    auto args = [&]() {
        clingo_id_t const *as = nullptr;
        size_t n = 0;
        clingo_theory_atoms_term_arguments(ta, id, &as, &n);
        std::vector<std::string> r;
        for (size_t i = 0; i < n; ++i) {
            r.emplace_back(term(ta, as[i]));
        }
        return jjoin(r);
    };
    char const *name = nullptr;
    switch (type) {
        case clingo_theory_term_type_number: {
            int n = 0;
            clingo_theory_atoms_term_number(ta, id, &n);
            std::string s = std::to_string(n);
            if (n > 2147483646 || n < -2147483646) {
                s = "\"" + s + "\"";
            }
            return "[\"n\",[" + s + ",1]]";
        }
        case clingo_theory_term_type_symbol: {
            clingo_theory_atoms_term_name(ta, id, &name);
            return "[\"s\"," + jstr(name) + "]";
        }
        case clingo_theory_term_type_function: {
            clingo_theory_atoms_term_name(ta, id, &name);
            return "[\"f\"," + jstr(name) + "," + args() + "]";
        }
        case clingo_theory_term_type_tuple: {
            return "[\"t\"," + args() + "]";
        }
        default: {
            return "[\"l\"," + args() + "]";
        }
    }
}

std::string atoms(clingo_propagate_init_t const *init) {
    clingo_theory_atoms_t const *ta = nullptr;
    clingo_propagate_init_theory_atoms(init, &ta);
    size_t n = 0;
    clingo_theory_atoms_size(ta, &n);
    std::vector<std::string> r;
    for (clingo_id_t i = 0; i < n; ++i) {
        clingo_id_t t = 0;
        lit_t l = 0;
        clingo_theory_atoms_atom_term(ta, i, &t);
        clingo_theory_atoms_atom_literal(ta, i, &l);
        if (l != 0) {
            clingo_propagate_init_solver_literal(init, l, &l);
        }
        std::string s = "{\"n\":" + term(ta, t) + ",\"l\":" + std::to_string(l) + ",\"e\":[";
        clingo_id_t const *es = nullptr;
        size_t m = 0;
        clingo_theory_atoms_atom_elements(ta, i, &es, &m);
        for (size_t j = 0; j < m; ++j) {
            lit_t c = 0;
            clingo_theory_atoms_element_condition_id(ta, es[j], &c);
            if (c == 0) {
                c = 1;
            } else {
                clingo_propagate_init_solver_literal(init, c, &c);
            }
            clingo_id_t const *tup = nullptr;
            size_t k = 0;
            clingo_theory_atoms_element_tuple(ta, es[j], &tup, &k);
            std::vector<std::string> ts;
            for (size_t x = 0; x < k; ++x) {
                ts.emplace_back(term(ta, tup[x]));
            }
            s += std::string(j > 0 ? "," : "") + "{\"c\":" + std::to_string(c) + ",\"t\":" + jjoin(ts) + "}";
        }
        s += "],\"g\":";
        bool g = false;
        clingo_theory_atoms_atom_has_guard(ta, i, &g);
        if (g) {
            char const *op = nullptr;
            clingo_id_t rhs = 0;
            clingo_theory_atoms_atom_guard(ta, i, &op, &rhs);
            s += "[" + jstr(op) + "," + term(ta, rhs) + "]";
        } else {
            s += "[]";
        }
        r.emplace_back(s + "}");
    }
    return jjoin(r);
}

void collect_shown(clingo_propagate_init_t const *init) {
    shown.clear();
    clingo_symbolic_atoms_t const *sa = nullptr;
    clingo_propagate_init_symbolic_atoms(init, &sa);
    clingo_symbolic_atom_iterator_t it = 0;
    clingo_symbolic_atom_iterator_t end = 0;
    clingo_symbolic_atoms_begin(sa, nullptr, &it);
    clingo_symbolic_atoms_end(sa, &end);
    for (;;) {
        bool eq = false;
        clingo_symbolic_atoms_iterator_is_equal_to(sa, it, end, &eq);
        if (eq) {
            break;
        }
        clingo_symbol_t sym = 0;
        lit_t l = 0;
        clingo_symbolic_atoms_symbol(sa, it, &sym);
        clingo_symbolic_atoms_literal(sa, it, &l);
        if (l != 0) {
            clingo_propagate_init_solver_literal(init, l, &l);
            shown.emplace_back(sym_str(sym), l);
        }
        clingo_symbolic_atoms_next(sa, it, &it);
    }
}

// ---- callbacks ------------------------------------------------------------------------

bool on_init(clingo_propagate_init_t *init, void *) {
    std::lock_guard<std::recursive_mutex> g{mutex};
    auto const *a = clingo_propagate_init_assignment(init);
    nv = 1;
    while (clingo_assignment_has_literal(a, nv + 1)) {
        ++nv;
    }
    threads.clear();
    collect_shown(init);
    ++step;
    int n = clingo_propagate_init_number_of_threads(init);
    std::string s = "{\"e\":\"init\",\"step\":" + std::to_string(step) + ",\"nv\":" + std::to_string(nv) +
                    ",\"threads\":" + std::to_string(n) + ",\"atoms\":" + atoms(init) +
                    ",\"fix\":" + jlist(true_lits(a, true));
    init_calls.clear();
    in_init = true;
    mode = clingo_propagator_check_mode_total;
    bool ok = orig.init(init, orig_data);
    in_init = false;
    s += ",\"calls\":" + jjoin(init_calls) + ",\"mode\":" + std::to_string(mode) +
         ",\"dec\":" + (orig.decide != nullptr ? "true" : "false");
    if (ok) {
        idx.clear();
        std::vector<std::string> names;
        size_t i = 0;
        clingolpx_assignment_begin(theory, 0, &i);
        while (clingolpx_assignment_next(theory, 0, &i)) {
            idx.emplace_back(i);
            names.emplace_back(sym_str(clingolpx_get_symbol(theory, i)));
        }
        s += ",\"syms\":" + jslist(names);
    }
    out(s + "}");
    return ok;
}

bool on_propagate(clingo_propagate_control_t *c, lit_t const *changes, size_t size, void *) {
    std::lock_guard<std::recursive_mutex> g{mutex};
    auto id = clingo_propagate_control_thread_id(c);
    auto const *a = clingo_propagate_control_assignment(c);
    auto &t = threads[id];
    auto lv = clingo_assignment_decision_level(a);
    if (t.levels.empty() || t.levels.back() < lv) {
        t.levels.emplace_back(lv);
    }
    std::string s = key("prop", id, a) + ",\"ch\":" + jlist(std::vector<lit_t>(changes, changes + size));
    bool ok = orig.propagate(c, changes, size, orig_data);
    s += flush(t, a);
    if (ok) {
        s += values(id);
    }
    out(s + "}");
    return ok;
}

bool on_check(clingo_propagate_control_t *c, void *) {
    std::lock_guard<std::recursive_mutex> g{mutex};
    auto id = clingo_propagate_control_thread_id(c);
    auto const *a = clingo_propagate_control_assignment(c);
    auto &t = threads[id];
    bool tot = clingo_assignment_is_total(a);
    std::string s = key("check", id, a) + ",\"tot\":" + (tot ? "true" : "false");
    if (tot) {
        t.total = true_lits(a, false);
        s += ",\"asg\":" + jlist(t.total);
    }
    bool ok = orig.check(c, orig_data);
    s += flush(t, a);
    if (ok) {
        s += values(id);
    }
    out(s + "}");
    return ok;
}

void on_undo(clingo_propagate_control_t const *c, lit_t const *changes, size_t size, void *) {
    std::lock_guard<std::recursive_mutex> g{mutex};
    auto id = clingo_propagate_control_thread_id(c);
    auto &t = threads[id];
    uint32_t lv = 0;
    if (!t.levels.empty()) {
        lv = t.levels.back();
        t.levels.pop_back();
    }
    orig.undo(c, changes, size, orig_data);
    out("{\"e\":\"undo\",\"t\":" + std::to_string(id) + ",\"lv\":" + std::to_string(lv) + values(id) + "}");
}

bool on_decide(clingo_id_t id, clingo_assignment_t const *a, lit_t fallback, void *, lit_t *decision) {
    std::lock_guard<std::recursive_mutex> g{mutex};
    bool ok = orig.decide(id, a, fallback, orig_data, decision);
    if (fallback != 0) {
        out(key("dec", id, a) + ",\"f\":" + std::to_string(fallback) + ",\"r\":" + std::to_string(ok ? *decision : 0) + "}");
    }
    return ok;
}

void log_clause(clingo_propagate_control_t *c, lit_t const *clause, size_t size, bool before, bool result) {
    auto &t = threads[clingo_propagate_control_thread_id(c)];
    auto const *a = clingo_propagate_control_assignment(c);
    if (before) {
        int nfree = 0;
        int ntrue = 0;
        for (size_t i = 0; i < size; ++i) {
            int v = clause[i] == 0 ? 2 : value(a, clause[i]);
            nfree += v == 0 ? 1 : 0;
            ntrue += v == 1 ? 1 : 0;
            t.contract = t.contract || v == 2;
        }
        t.contract = t.contract || t.refused;
        t.calls.emplace_back("{\"c\":" + jlist(std::vector<lit_t>(clause, clause + size)) +
                             ",\"f\":" + std::to_string(nfree) + ",\"t\":" + std::to_string(ntrue));
    } else {
        t.refused = t.refused || !result;
        t.calls.back() += std::string(",\"r\":") + (result ? "true" : "false") + "}";
    }
}

} // namespace

void start(clingolpx_theory_t *th, std::function<void(std::string const &)> emit) {
    theory = th;
    out = std::move(emit);
}
bool active() { return theory != nullptr; }
std::recursive_mutex &lock() { return mutex; }
std::string last_assignment(unsigned thread) { return jlist(threads[thread].total); }
std::string last_atoms(unsigned thread) {
    auto const &t = threads[thread].total;
    std::vector<std::string> r;
    for (auto const &x : shown) {
        if (std::find(t.begin(), t.end(), x.second) != t.end()) {
            r.emplace_back(x.first);
        }
    }
    return jslist(r);
}

} // namespace lpxrec

using namespace lpxrec;

extern "C" {

bool clingo_control_register_propagator(clingo_control_t *control, clingo_propagator_t const *propagator, void *data,
                                        bool sequential) {
    auto f = REAL(clingo_control_register_propagator);
    if (!active()) {
        return f(control, propagator, data, sequential);
    }
    orig = *propagator;
    orig_data = data;
    static clingo_propagator_t mine;
    mine = {};
    mine.init = orig.init != nullptr ? on_init : nullptr;
    mine.propagate = orig.propagate != nullptr ? on_propagate : nullptr;
    mine.undo = orig.undo != nullptr ? on_undo : nullptr;
    mine.check = orig.check != nullptr ? on_check : nullptr;
    mine.decide = orig.decide != nullptr ? on_decide : nullptr;
    return f(control, &mine, nullptr, sequential);
}

bool clingo_propagate_init_add_clause(clingo_propagate_init_t *init, clingo_literal_t const *clause, size_t size,
                                      bool *result) {
    bool ok = REAL(clingo_propagate_init_add_clause)(init, clause, size, result);
    if (active()) {
        init_calls.emplace_back("{\"c\":" + jlist(std::vector<lit_t>(clause, clause + size)) +
                                ",\"r\":" + (ok && *result ? "true" : "false") + "}");
    }
    return ok;
}

void clingo_propagate_init_set_check_mode(clingo_propagate_init_t *init, clingo_propagator_check_mode_t m) {
    REAL(clingo_propagate_init_set_check_mode)(init, m);
    mode = m;
}

bool clingo_propagate_control_add_clause(clingo_propagate_control_t *c, clingo_literal_t const *clause, size_t size,
                                         clingo_clause_type_t type, bool *result) {
    if (!active()) {
        return REAL(clingo_propagate_control_add_clause)(c, clause, size, type, result);
    }
    log_clause(c, clause, size, true, false);
    bool ok = REAL(clingo_propagate_control_add_clause)(c, clause, size, type, result);
    log_clause(c, clause, size, false, ok && *result);
    return ok;
}

bool clingo_propagate_control_propagate(clingo_propagate_control_t *c, bool *result) {
    bool ok = REAL(clingo_propagate_control_propagate)(c, result);
    if (active()) {
        auto &t = threads[clingo_propagate_control_thread_id(c)];
        t.contract = t.contract || t.refused;
        t.refused = t.refused || !ok || !*result;
    }
    return ok;
}

bool clingo_propagate_control_add_literal(clingo_propagate_control_t *c, clingo_literal_t *result) {
    bool ok = REAL(clingo_propagate_control_add_literal)(c, result);
    if (active() && ok) {
        threads[clingo_propagate_control_thread_id(c)].calls.emplace_back("{\"a\":" + std::to_string(*result) + "}");
    }
    return ok;
}

} // extern "C"
