// Mock host solver: drives the theory through clingo's C interface.
//
// The program defines the parts of clingo's C API the theory talks to
// (initialization, propagation control, assignments, theory atoms, models,
// statistics, control), so the real theory code runs against a search whose
// every step is chosen by a seed or a tape.  Symbols are real clingo symbols.
//
// Input: one scenario per line (JSON), output: one trace per line (JSON).
// See spec/HostTrace.tla for the meaning of the events.

#include "pivots.hh"
#include "common.hh"

#include <clingo-lpx.h>
#include <clingo.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstring>
#include <iostream>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

namespace {

using lit_t = clingo_literal_t;

int out_fd = 1;

// nothing is recorded of what happened before
bool quiet = false;

void emit(std::string const &s) {
    if (quiet) {
        return;
    }
    std::string line = s + "\n";
    size_t p = 0;
    while (p < line.size()) {
        auto n = write(out_fd, line.data() + p, line.size() - p);
        if (n <= 0) {
            _exit(99);
        }
        p += static_cast<size_t>(n);
    }
}

// ---------------------------------------------------------------- theory data

struct TTerm {
    int type;
    int number = 0;
    std::string name;
    std::vector<clingo_id_t> args;
};
struct TElem {
    std::vector<clingo_id_t> tuple;
    std::vector<lit_t> cond;
    lit_t cond_id = 0;
};
struct TAtom {
    clingo_id_t term;
    std::vector<clingo_id_t> elems;
    bool has_guard = false;
    std::string rel;
    clingo_id_t guard = 0;
    lit_t lit = 0;
};
struct TData {
    std::vector<TTerm> terms;
    std::vector<TElem> elems;
    std::vector<TAtom> atoms;

    clingo_id_t term(Json const &j) {
        TTerm t{};
        if (j.kind == Json::Int) {
            t.type = clingo_theory_term_type_number;
            t.number = static_cast<int>(j.i);
        } else {
            std::string k = j[0].s;
            if (k == "s") {
                t.type = clingo_theory_term_type_symbol;
                t.name = j[1].s;
            } else {
                size_t pos = 1;
                if (k == "f") {
                    t.type = clingo_theory_term_type_function;
                    t.name = j[1].s;
                    pos = 2;
                } else if (k == "t") {
                    t.type = clingo_theory_term_type_tuple;
                } else if (k == "l") {
                    t.type = clingo_theory_term_type_list;
                } else {
                    t.type = clingo_theory_term_type_set;
                }
                for (auto const &a : j[pos].a) {
                    auto id = term(a);
                    t.args.emplace_back(id);
                }
            }
        }
        terms.emplace_back(std::move(t));
        return static_cast<clingo_id_t>(terms.size() - 1);
    }
    void atom(Json const &j) {
        TAtom a;
        a.term = term(j["name"]);
        a.lit = static_cast<lit_t>(j.get("lit", 0));
        for (auto const &e : j["elems"].a) {
            TElem el;
            for (auto const &t : e["t"].a) {
                el.tuple.emplace_back(term(t));
            }
            if (e.has("c")) {
                el.cond.emplace_back(static_cast<lit_t>(e["c"].i));
            }
            elems.emplace_back(std::move(el));
            a.elems.emplace_back(elems.size() - 1);
        }
        if (j.has("guard")) {
            a.has_guard = true;
            a.rel = j["guard"][0].s;
            a.guard = term(j["guard"][1]);
        }
        atoms.emplace_back(std::move(a));
    }
};

// ---------------------------------------------------------------- solver state

constexpr lit_t prg_off = 100;   // program literals are shifted solver literals
constexpr lit_t cond_off = 5000; // condition ids

struct Host;

struct Thread {
    Host *h = nullptr;
    clingo_id_t id = 0;
    int nvars = 1;
    std::vector<signed char> val{0, 1};
    std::vector<uint32_t> lev{0, 0};
    std::vector<int> reason{-1, -1};
    std::vector<lit_t> trail{1};
    std::vector<size_t> level_start{0};
    std::vector<std::vector<lit_t>> db;
    std::set<lit_t> watch;
    std::vector<lit_t> pending;     // watched literals to deliver (in order)
    std::vector<lit_t> pending_imm; // delivered at the next fixpoint without being on the trail queue
    size_t unit_head = 0;
    std::vector<std::pair<uint32_t, std::vector<lit_t>>> undo; // levels with delivered literals
    uint32_t bt_level = 0;
    uint32_t root = 0;
    bool rooted = false;
    std::vector<lit_t> assume; // decided below the root, never taken back within a step
    size_t assumed = 0;
    std::vector<std::string> calls;
    bool refused = false;
    bool contract = false;
    std::vector<std::vector<lit_t>> todo;
    int static_db = 0;
    bool done = false;
    size_t last_check_trail = 0;
    int program_vars = 1;
    Rng rng{1};
    // models that had been reported when the last check started
    size_t known = 0;
    // a checked total assignment is about to be reported
    bool waiting = false;

    uint32_t dl() const { return static_cast<uint32_t>(level_start.size() - 1); }
    int value(lit_t l) const {
        auto v = static_cast<size_t>(std::abs(l));
        if (v >= val.size()) {
            return 0;
        }
        return l > 0 ? val[v] : -val[v];
    }
    void add_var() {
        ++nvars;
        val.emplace_back(0);
        lev.emplace_back(0);
        reason.emplace_back(-1);
    }
    bool total() const { return static_cast<int>(trail.size()) == nvars; }
    void assign(lit_t l, int r) {
        auto v = std::abs(l);
        val[v] = l > 0 ? 1 : -1;
        lev[v] = dl();
        reason[v] = r;
        trail.emplace_back(l);
        if (watch.count(l) > 0) {
            pending.emplace_back(l);
        }
    }
};

struct Host {
    Json const *sc = nullptr;
    TData td;
    std::vector<lit_t> conds;
    std::vector<std::unique_ptr<Thread>> threads;
    clingo_propagator_t prop{};
    void *prop_data = nullptr;
    bool registered = false;
    int check_mode = clingo_propagator_check_mode_total;
    std::vector<std::string> init_calls;
    std::string theory_text;
    bool nodb = false;
    bool immediate = false;
};

Host *host = nullptr;

std::vector<lit_t> simplify(Thread &t, lit_t const *c, size_t n, bool &taut) {
    std::vector<lit_t> r;
    taut = false;
    for (size_t i = 0; i < n; ++i) {
        if (c[i] == 1) {
            taut = true;
        }
        if (c[i] == -1) {
            continue;
        }
        if (std::find(r.begin(), r.end(), -c[i]) != r.end()) {
            taut = true;
        }
        if (std::find(r.begin(), r.end(), c[i]) == r.end()) {
            r.emplace_back(c[i]);
        }
    }
    static_cast<void>(t);
    return r;
}

// unit propagation over the clause database; returns index of a false clause or -1
int unit_prop(Thread &t) {
    bool changed = true;
    while (changed) {
        changed = false;
        for (size_t i = 0; i < t.db.size(); ++i) {
            auto const &c = t.db[i];
            lit_t free = 0;
            int nfree = 0;
            bool sat = false;
            for (auto l : c) {
                int v = t.value(l);
                if (v > 0) {
                    sat = true;
                    break;
                }
                if (v == 0) {
                    ++nfree;
                    free = l;
                }
            }
            if (sat || nfree > 1) {
                continue;
            }
            if (nfree == 0) {
                return static_cast<int>(i);
            }
            t.assign(free, static_cast<int>(i));
            changed = true;
        }
    }
    return -1;
}

// clause added from within a callback (semantics of clasp)
bool ctl_add_clause(Thread &t, lit_t const *c, size_t n) {
    bool taut = false;
    std::vector<lit_t> ext(c, c + n);
    if (t.rooted && std::any_of(c, c + n, [&](lit_t l) { return std::abs(l) > t.program_vars + 1; })) {
        // clasp binds clauses over auxiliary variables to the current step
        ext.emplace_back(-(t.program_vars + 1));
    }
    auto cl = simplify(t, ext.data(), ext.size(), taut);
    if (taut) {
        return true;
    }
    int nfree = 0;
    bool sat = false;
    lit_t unit = 0;
    uint32_t max_false = 0;
    for (auto l : cl) {
        int v = t.value(l);
        if (v > 0) {
            sat = true;
        } else if (v == 0) {
            ++nfree;
            unit = l;
        } else {
            max_false = std::max(max_false, t.lev[std::abs(l)]);
        }
    }
    if (host->nodb) {
        // tape mode: clauses only decide whether the callback has to stop
        if (sat || nfree > 1) {
            return true;
        }
        if (nfree == 0) {
            return false;
        }
        if (max_false < t.dl()) {
            // asserting on a lower level: remembered for the walk
            t.todo.emplace_back(cl);
            return false;
        }
        t.assign(unit, -1);
        return true;
    }
    if (sat || nfree > 1) {
        t.db.emplace_back(cl);
        return true;
    }
    if (nfree == 0) {
        t.todo.emplace_back(cl);
        return false;
    }
    if (max_false < t.dl() && t.dl() > t.bt_level) {
        t.todo.emplace_back(cl);
        return false;
    }
    t.db.emplace_back(cl);
    t.assign(unit, static_cast<int>(t.db.size() - 1));
    return true;
}

std::string lits_json(lit_t const *c, size_t n) {
    std::vector<int> v(c, c + n);
    return jlist(v);
}

Thread &T(clingo_propagate_control_t const *c) {
    return *reinterpret_cast<Thread *>(const_cast<clingo_propagate_control_t *>(c));
}
Thread &TA(clingo_assignment_t const *a) { return *reinterpret_cast<Thread *>(const_cast<clingo_assignment_t *>(a)); }
Host &HI(clingo_propagate_init_t const *i) { return *reinterpret_cast<Host *>(const_cast<clingo_propagate_init_t *>(i)); }

} // namespace

// ---------------------------------------------------------------- clingo's C API (mocked part)

extern "C" {

// theory atoms
bool clingo_theory_atoms_term_type(clingo_theory_atoms_t const *, clingo_id_t term, clingo_theory_term_type_t *type) {
    *type = host->td.terms.at(term).type;
    return true;
}
bool clingo_theory_atoms_term_number(clingo_theory_atoms_t const *, clingo_id_t term, int *number) {
    *number = host->td.terms.at(term).number;
    return true;
}
bool clingo_theory_atoms_term_name(clingo_theory_atoms_t const *, clingo_id_t term, char const **name) {
    *name = host->td.terms.at(term).name.c_str();
    return true;
}
bool clingo_theory_atoms_term_arguments(clingo_theory_atoms_t const *, clingo_id_t term, clingo_id_t const **arguments,
                                        size_t *size) {
    auto &t = host->td.terms.at(term);
    *arguments = t.args.data();
    *size = t.args.size();
    return true;
}
bool clingo_theory_atoms_term_to_string_size(clingo_theory_atoms_t const *, clingo_id_t, size_t *size) {
    *size = 1;
    return true;
}
bool clingo_theory_atoms_term_to_string(clingo_theory_atoms_t const *, clingo_id_t, char *string, size_t size) {
    if (size > 0) {
        string[0] = '\0';
    }
    return true;
}
bool clingo_theory_atoms_element_tuple(clingo_theory_atoms_t const *, clingo_id_t element, clingo_id_t const **tuple,
                                       size_t *size) {
    auto &e = host->td.elems.at(element);
    *tuple = e.tuple.data();
    *size = e.tuple.size();
    return true;
}
bool clingo_theory_atoms_element_condition(clingo_theory_atoms_t const *, clingo_id_t element,
                                           clingo_literal_t const **condition, size_t *size) {
    auto &e = host->td.elems.at(element);
    *condition = e.cond.data();
    *size = e.cond.size();
    return true;
}
bool clingo_theory_atoms_element_condition_id(clingo_theory_atoms_t const *, clingo_id_t element,
                                              clingo_literal_t *condition) {
    *condition = host->td.elems.at(element).cond_id;
    return true;
}
bool clingo_theory_atoms_element_to_string_size(clingo_theory_atoms_t const *, clingo_id_t, size_t *size) {
    *size = 1;
    return true;
}
bool clingo_theory_atoms_element_to_string(clingo_theory_atoms_t const *, clingo_id_t, char *string, size_t size) {
    if (size > 0) {
        string[0] = '\0';
    }
    return true;
}
bool clingo_theory_atoms_size(clingo_theory_atoms_t const *, size_t *size) {
    *size = host->td.atoms.size();
    return true;
}
bool clingo_theory_atoms_atom_term(clingo_theory_atoms_t const *, clingo_id_t atom, clingo_id_t *term) {
    *term = host->td.atoms.at(atom).term;
    return true;
}
bool clingo_theory_atoms_atom_elements(clingo_theory_atoms_t const *, clingo_id_t atom, clingo_id_t const **elements,
                                       size_t *size) {
    auto &a = host->td.atoms.at(atom);
    *elements = a.elems.data();
    *size = a.elems.size();
    return true;
}
bool clingo_theory_atoms_atom_has_guard(clingo_theory_atoms_t const *, clingo_id_t atom, bool *has_guard) {
    *has_guard = host->td.atoms.at(atom).has_guard;
    return true;
}
bool clingo_theory_atoms_atom_guard(clingo_theory_atoms_t const *, clingo_id_t atom, char const **connective,
                                    clingo_id_t *term) {
    auto &a = host->td.atoms.at(atom);
    *connective = a.rel.c_str();
    *term = a.guard;
    return true;
}
bool clingo_theory_atoms_atom_literal(clingo_theory_atoms_t const *, clingo_id_t atom, clingo_literal_t *literal) {
    *literal = host->td.atoms.at(atom).lit;
    return true;
}
bool clingo_theory_atoms_atom_to_string_size(clingo_theory_atoms_t const *, clingo_id_t, size_t *size) {
    *size = 1;
    return true;
}
bool clingo_theory_atoms_atom_to_string(clingo_theory_atoms_t const *, clingo_id_t, char *string, size_t size) {
    if (size > 0) {
        string[0] = '\0';
    }
    return true;
}

// assignment
uint32_t clingo_assignment_decision_level(clingo_assignment_t const *a) { return TA(a).dl(); }
uint32_t clingo_assignment_root_level(clingo_assignment_t const *a) { return TA(a).root; }
bool clingo_assignment_has_conflict(clingo_assignment_t const *a) { return !TA(a).todo.empty(); }
bool clingo_assignment_has_literal(clingo_assignment_t const *a, clingo_literal_t l) {
    return l != 0 && std::abs(l) <= TA(a).nvars;
}
bool clingo_assignment_level(clingo_assignment_t const *a, clingo_literal_t l, uint32_t *level) {
    auto &t = TA(a);
    if (l == 0 || std::abs(l) > t.nvars) {
        clingo_set_error(clingo_error_runtime, "host: invalid literal");
        return false;
    }
    *level = t.lev[std::abs(l)];
    return true;
}
bool clingo_assignment_decision(clingo_assignment_t const *a, uint32_t level, clingo_literal_t *l) {
    auto &t = TA(a);
    *l = level == 0 ? 1 : t.trail.at(t.level_start.at(level));
    return true;
}
bool clingo_assignment_is_fixed(clingo_assignment_t const *a, clingo_literal_t l, bool *r) {
    auto &t = TA(a);
    *r = t.value(l) != 0 && t.lev[std::abs(l)] == 0;
    return true;
}
bool clingo_assignment_is_true(clingo_assignment_t const *a, clingo_literal_t l, bool *r) {
    *r = TA(a).value(l) > 0;
    return true;
}
bool clingo_assignment_is_false(clingo_assignment_t const *a, clingo_literal_t l, bool *r) {
    *r = TA(a).value(l) < 0;
    return true;
}
bool clingo_assignment_truth_value(clingo_assignment_t const *a, clingo_literal_t l, clingo_truth_value_t *v) {
    int x = TA(a).value(l);
    *v = x == 0 ? clingo_truth_value_free : x > 0 ? clingo_truth_value_true : clingo_truth_value_false;
    return true;
}
size_t clingo_assignment_size(clingo_assignment_t const *a) { return TA(a).nvars; }
bool clingo_assignment_at(clingo_assignment_t const *, size_t offset, clingo_literal_t *l) {
    *l = static_cast<lit_t>(offset + 1);
    return true;
}
bool clingo_assignment_is_total(clingo_assignment_t const *a) { return TA(a).total(); }
bool clingo_assignment_trail_size(clingo_assignment_t const *a, uint32_t *size) {
    *size = TA(a).trail.size();
    return true;
}
bool clingo_assignment_trail_begin(clingo_assignment_t const *a, uint32_t level, uint32_t *offset) {
    *offset = TA(a).level_start.at(level);
    return true;
}
bool clingo_assignment_trail_end(clingo_assignment_t const *a, uint32_t level, uint32_t *offset) {
    auto &t = TA(a);
    *offset = level + 1 < t.level_start.size() ? t.level_start.at(level + 1) : t.trail.size();
    return true;
}
bool clingo_assignment_trail_at(clingo_assignment_t const *a, uint32_t offset, clingo_literal_t *l) {
    *l = TA(a).trail.at(offset);
    return true;
}

// initialization
bool clingo_propagate_init_solver_literal(clingo_propagate_init_t const *, clingo_literal_t l, clingo_literal_t *s) {
    auto v = std::abs(l);
    lit_t r = 0;
    if (v >= cond_off && v - cond_off < static_cast<lit_t>(host->conds.size())) {
        r = host->conds[v - cond_off];
    } else if (v > prg_off && v < cond_off) {
        r = v - prg_off;
    } else {
        clingo_set_error(clingo_error_runtime, "host: not a program literal");
        return false;
    }
    *s = l < 0 ? -r : r;
    return true;
}
static void add_watch(Thread &t, lit_t l, bool init) {
    if (t.watch.insert(l).second && init && t.value(l) > 0) {
        t.pending.emplace_back(l);
    }
}
bool clingo_propagate_init_add_watch(clingo_propagate_init_t *i, clingo_literal_t l) {
    for (auto &t : HI(i).threads) {
        add_watch(*t, l, true);
    }
    return true;
}
bool clingo_propagate_init_add_watch_to_thread(clingo_propagate_init_t *i, clingo_literal_t l, clingo_id_t id) {
    add_watch(*HI(i).threads.at(id), l, true);
    return true;
}
bool clingo_propagate_init_remove_watch(clingo_propagate_init_t *i, clingo_literal_t l) {
    for (auto &t : HI(i).threads) {
        t->watch.erase(l);
    }
    return true;
}
bool clingo_propagate_init_remove_watch_from_thread(clingo_propagate_init_t *i, clingo_literal_t l, uint32_t id) {
    HI(i).threads.at(id)->watch.erase(l);
    return true;
}
bool clingo_propagate_init_freeze_literal(clingo_propagate_init_t *, clingo_literal_t) { return true; }
bool clingo_propagate_init_theory_atoms(clingo_propagate_init_t const *i, clingo_theory_atoms_t const **atoms) {
    *atoms = reinterpret_cast<clingo_theory_atoms_t const *>(i);
    return true;
}
int clingo_propagate_init_number_of_threads(clingo_propagate_init_t const *i) {
    return static_cast<int>(HI(i).threads.size());
}
void clingo_propagate_init_set_check_mode(clingo_propagate_init_t *i, clingo_propagator_check_mode_t mode) {
    HI(i).check_mode = mode;
}
clingo_propagator_check_mode_t clingo_propagate_init_get_check_mode(clingo_propagate_init_t const *i) {
    return HI(i).check_mode;
}
void clingo_propagate_init_set_undo_mode(clingo_propagate_init_t *, clingo_propagator_undo_mode_t) {}
clingo_propagator_undo_mode_t clingo_propagate_init_get_undo_mode(clingo_propagate_init_t const *) { return 0; }
clingo_assignment_t const *clingo_propagate_init_assignment(clingo_propagate_init_t const *i) {
    return reinterpret_cast<clingo_assignment_t const *>(HI(i).threads.front().get());
}
static bool init_conflict = false;
bool clingo_propagate_init_add_clause(clingo_propagate_init_t *i, clingo_literal_t const *clause, size_t size,
                                      bool *result) {
    auto &h = HI(i);
    bool taut = false;
    auto cl = simplify(*h.threads.front(), clause, size, taut);
    *result = !init_conflict;
    if (!taut) {
        for (auto &t : h.threads) {
            int nfree = 0;
            bool sat = false;
            lit_t unit = 0;
            for (auto l : cl) {
                int v = t->value(l);
                sat = sat || v > 0;
                if (v == 0) {
                    ++nfree;
                    unit = l;
                }
            }
            t->db.emplace_back(cl);
            t->static_db = static_cast<int>(t->db.size());
            if (!sat && nfree == 0) {
                init_conflict = true;
                *result = false;
            } else if (!sat && nfree == 1) {
                t->assign(unit, -1);
            }
        }
    }
    h.init_calls.emplace_back("{\"c\":" + lits_json(clause, size) + ",\"r\":" + (*result ? "true" : "false") + "}");
    return true;
}
bool clingo_propagate_init_propagate(clingo_propagate_init_t *i, bool *result) {
    for (auto &t : HI(i).threads) {
        if (unit_prop(*t) >= 0) {
            init_conflict = true;
        }
    }
    *result = !init_conflict;
    return true;
}
bool clingo_propagate_init_add_literal(clingo_propagate_init_t *i, bool, clingo_literal_t *result) {
    for (auto &t : HI(i).threads) {
        t->add_var();
        *result = t->nvars;
    }
    return true;
}

// propagation
clingo_id_t clingo_propagate_control_thread_id(clingo_propagate_control_t const *c) { return T(c).id; }
clingo_assignment_t const *clingo_propagate_control_assignment(clingo_propagate_control_t const *c) {
    return reinterpret_cast<clingo_assignment_t const *>(c);
}
bool clingo_propagate_control_add_literal(clingo_propagate_control_t *c, clingo_literal_t *result) {
    auto &t = T(c);
    t.add_var();
    *result = t.nvars;
    t.calls.emplace_back("{\"a\":" + std::to_string(t.nvars) + "}");
    return true;
}
bool clingo_propagate_control_add_watch(clingo_propagate_control_t *c, clingo_literal_t l) {
    add_watch(T(c), l, false);
    return true;
}
bool clingo_propagate_control_has_watch(clingo_propagate_control_t const *c, clingo_literal_t l) {
    return T(c).watch.count(l) > 0;
}
void clingo_propagate_control_remove_watch(clingo_propagate_control_t *c, clingo_literal_t l) { T(c).watch.erase(l); }
bool clingo_propagate_control_add_clause(clingo_propagate_control_t *c, clingo_literal_t const *clause, size_t size,
                                         clingo_clause_type_t, bool *result) {
    auto &t = T(c);
    // state of the literals when the clause is added
    int nfree = 0;
    int ntrue = 0;
    bool known = true;
    for (size_t i = 0; i < size; ++i) {
        if (clause[i] == 0 || std::abs(clause[i]) > t.nvars) {
            known = false;
            continue;
        }
        int v = t.value(clause[i]);
        nfree += v == 0 ? 1 : 0;
        ntrue += v > 0 ? 1 : 0;
    }
    if (t.refused || !known) {
        t.contract = true;
    }
    *result = known && ctl_add_clause(t, clause, size) && !t.refused;
    if (!*result) {
        t.refused = true;
    }
    t.calls.emplace_back("{\"c\":" + lits_json(clause, size) + ",\"f\":" + std::to_string(nfree) +
                         ",\"t\":" + std::to_string(ntrue) + ",\"r\":" + (*result ? "true" : "false") + "}");
    return true;
}
bool clingo_propagate_control_propagate(clingo_propagate_control_t *c, bool *result) {
    auto &t = T(c);
    if (t.refused) {
        t.contract = true;
        *result = false;
        return true;
    }
    if (!host->nodb) {
        int i = unit_prop(t);
        if (i >= 0) {
            t.refused = true;
            *result = false;
            return true;
        }
    }
    *result = true;
    return true;
}

// model
struct MockModel {
    clingo_id_t thread;
    std::vector<clingo_symbol_t> ext;
};
bool clingo_model_thread_id(clingo_model_t const *m, clingo_id_t *id) {
    *id = reinterpret_cast<MockModel const *>(m)->thread;
    return true;
}
bool clingo_model_extend(clingo_model_t *m, clingo_symbol_t const *symbols, size_t size) {
    auto &e = reinterpret_cast<MockModel *>(m)->ext;
    e.insert(e.end(), symbols, symbols + size);
    return true;
}
bool clingo_model_type(clingo_model_t const *, clingo_model_type_t *type) {
    *type = clingo_model_type_stable_model;
    return true;
}
bool clingo_model_number(clingo_model_t const *, uint64_t *number) {
    *number = 1;
    return true;
}

// control
bool clingo_control_add(clingo_control_t *, char const *, char const *const *, size_t, char const *program) {
    host->theory_text += program;
    return true;
}
bool clingo_control_register_propagator(clingo_control_t *, clingo_propagator_t const *p, void *data, bool) {
    host->prop = *p;
    host->prop_data = data;
    host->registered = true;
    return true;
}

// statistics: a tree of maps with values
struct Stats {
    struct Node {
        std::map<std::string, uint64_t> sub;
        double value = 0;
        int type = clingo_statistics_type_map;
    };
    std::vector<Node> nodes{Node{}};
};
static Stats &ST(clingo_statistics_t const *s) { return *reinterpret_cast<Stats *>(const_cast<clingo_statistics_t *>(s)); }
bool clingo_statistics_root(clingo_statistics_t const *, uint64_t *key) {
    *key = 0;
    return true;
}
bool clingo_statistics_type(clingo_statistics_t const *s, uint64_t key, clingo_statistics_type_t *type) {
    *type = ST(s).nodes.at(key).type;
    return true;
}
bool clingo_statistics_map_has_subkey(clingo_statistics_t const *s, uint64_t key, char const *name, bool *result) {
    *result = ST(s).nodes.at(key).sub.count(name) > 0;
    return true;
}
bool clingo_statistics_map_at(clingo_statistics_t const *s, uint64_t key, char const *name, uint64_t *subkey) {
    *subkey = ST(s).nodes.at(key).sub.at(name);
    return true;
}
bool clingo_statistics_map_add_subkey(clingo_statistics_t *s, uint64_t key, char const *name,
                                      clingo_statistics_type_t type, uint64_t *subkey) {
    auto &st = ST(s);
    auto it = st.nodes.at(key).sub.find(name);
    if (it == st.nodes.at(key).sub.end()) {
        st.nodes.emplace_back();
        st.nodes.back().type = type;
        st.nodes.at(key).sub[name] = st.nodes.size() - 1;
        *subkey = st.nodes.size() - 1;
    } else {
        *subkey = it->second;
    }
    return true;
}
bool clingo_statistics_value_get(clingo_statistics_t const *s, uint64_t key, double *value) {
    *value = ST(s).nodes.at(key).value;
    return true;
}
bool clingo_statistics_value_set(clingo_statistics_t *s, uint64_t key, double value) {
    ST(s).nodes.at(key).value = value;
    return true;
}

} // extern "C"

namespace {

// ---------------------------------------------------------------- the walk

struct Error {
    std::string msg;
};

// another theory in the same process
void elsewhere(Json const &sc);

struct Walk {
    Json const &sc;
    Host h;
    clingolpx_theory_t *th = nullptr;
    Rng rng;
    int max_ev;
    std::atomic<int> n_ev{0};
    int max_models;
    int n_models = 0;
    // threads run at the same time
    bool conc = false;
    std::mutex log_mutex;
    std::vector<std::string> log;
    // clingo reports one model at a time
    std::mutex model_mutex;
    std::atomic<size_t> reported{0};
    int p_split;
    int p_decide_hint, p_restart, p_forget, p_single, p_pop;
    bool both = false;
    std::vector<clingo_symbol_t> syms;
    std::vector<size_t> idx;
    Stats accu;

    explicit Walk(Json const &s)
        : sc(s), rng(static_cast<uint64_t>(s.get("seed", 1))), max_ev(static_cast<int>(s.get("maxev", 400))),
          max_models(static_cast<int>(s.get("maxmodels", 0))), p_split(static_cast<int>(s.get("split", 0))), p_decide_hint(static_cast<int>(s.get("hint", 0))),
          p_restart(static_cast<int>(s.get("restart", 0))), p_forget(static_cast<int>(s.get("forget", 0))),
          p_single(static_cast<int>(s.get("single", 0))), p_pop(static_cast<int>(s.get("pop", 0))) {}

    void ev(std::string const &s) {
        ++n_ev;
        if (conc) {
            std::lock_guard<std::mutex> lock{log_mutex};
            log.emplace_back(s);
        } else {
            emit(s);
        }
    }
    static std::string key(char const *e, Thread &t) {
        return std::string("{\"e\":\"") + e + "\",\"t\":" + std::to_string(t.id) + ",\"lv\":" + std::to_string(t.dl());
    }
    void fail_if(bool ok) {
        if (!ok) {
            char const *m = clingo_error_message();
            throw Error{m == nullptr ? "?" : m};
        }
    }

    // models that were reported before a callback
    std::string before(size_t n) { return h.threads.size() > 1 ? ",\"g\":" + std::to_string(n) : ""; }

    std::string values(clingo_id_t tid) {
        std::lock_guard<std::mutex> lock{model_mutex};
        return values_(tid);
    }

    std::string values_(clingo_id_t tid) {
        std::vector<std::string> v;
        for (auto i : idx) {
            clingolpx_value_t x;
            clingolpx_assignment_get_value(th, tid, i, &x);
            v.emplace_back(x.type == clingolpx_value_type_symbol ? sym_text(x.symbol) : "?type");
        }
        return ",\"v\":" + jslist(v);
    }

    void refresh_symbols() {
        syms.clear();
        idx.clear();
        size_t i = 0;
        clingolpx_assignment_begin(th, 0, &i);
        while (clingolpx_assignment_next(th, 0, &i)) {
            idx.emplace_back(i);
            syms.emplace_back(clingolpx_get_symbol(th, i));
        }
    }

    void flush_calls(Thread &t, std::string &s) {
        s += ",\"calls\":" + jjoin(t.calls);
        s += std::string(",\"ref\":") + (t.refused ? "true" : "false");
        s += std::string(",\"bad\":") + (t.contract ? "true" : "false");
        if (!t.calls.empty()) {
            // program literals true on level zero
            std::vector<lit_t> z;
            size_t e = t.level_start.size() > 1 ? t.level_start[1] : t.trail.size();
            for (size_t i = 0; i < e; ++i) {
                if (std::abs(t.trail[i]) <= t.program_vars) {
                    z.emplace_back(t.trail[i]);
                }
            }
            s += ",\"z\":" + jlist(z);
        }
        t.calls.clear();
        t.contract = false;
    }

    // deliver pending literals; false if the theory refused
    bool deliver(Thread &t) {
        std::vector<lit_t> ch;
        if (t.rng.pct(p_single)) {
            ch.emplace_back(t.pending.front());
            t.pending.erase(t.pending.begin());
        } else {
            ch.swap(t.pending);
        }
        if (t.undo.empty() || t.undo.back().first < t.dl()) {
            t.undo.emplace_back(t.dl(), std::vector<lit_t>{});
        }
        auto &u = t.undo.back().second;
        u.insert(u.end(), ch.begin(), ch.end());
        t.refused = false;
        std::string s = key("prop", t) + ",\"ch\":" + jlist(ch) + before(reported);
        bool ok = h.prop.propagate(reinterpret_cast<clingo_propagate_control_t *>(&t), ch.data(), ch.size(),
                                   h.prop_data);
        flush_calls(t, s);
        if (ok) {
            s += values(t.id);
        }
        ev(s + "}");
        fail_if(ok);
        return !t.refused;
    }

    // check callback; false if refused
    bool check(Thread &t) {
        t.refused = false;
        t.known = reported;
        std::string s = key("check", t) + before(t.known) + ",\"tot\":" + (t.total() ? "true" : "false");
        if (t.total()) {
            s += ",\"asg\":" + jlist(t.trail);
        }
        bool ok = h.prop.check(reinterpret_cast<clingo_propagate_control_t *>(&t), h.prop_data);
        flush_calls(t, s);
        if (ok) {
            s += values(t.id);
        }
        ev(s + "}");
        fail_if(ok);
        return !t.refused;
    }

    void undo_to(Thread &t, uint32_t level) {
        while (t.dl() > level) {
            auto d = t.dl();
            size_t b = t.level_start.back();
            for (size_t i = b; i < t.trail.size(); ++i) {
                auto v = std::abs(t.trail[i]);
                t.val[v] = 0;
                t.reason[v] = -1;
            }
            t.trail.resize(b);
            bool call = !t.undo.empty() && t.undo.back().first == d;
            if (call) {
                auto ch = t.undo.back().second;
                t.undo.pop_back();
                h.prop.undo(reinterpret_cast<clingo_propagate_control_t *>(&t), ch.data(), ch.size(), h.prop_data);
                ev(key("undo", t) + ",\"ch\":" + jlist(ch) + values(t.id) + "}");
            }
            t.level_start.pop_back();
        }
        // undelivered literals of removed levels are dropped
        t.pending.erase(std::remove_if(t.pending.begin(), t.pending.end(), [&](lit_t l) { return t.value(l) <= 0; }),
                        t.pending.end());
    }

    // flip the last decision above the root; false if there is none
    bool flip(Thread &t) {
        if (t.dl() <= t.root) {
            return false;
        }
        lit_t d = t.trail[t.level_start.back()];
        undo_to(t, t.dl() - 1);
        t.bt_level = t.dl();
        t.assign(-d, -1);
        return true;
    }

    // handle a false clause; false if the search is over
    bool resolve(Thread &t, std::vector<lit_t> c) {
        uint32_t m = 0;
        for (auto l : c) {
            m = std::max(m, t.lev[std::abs(l)]);
        }
        if (m < t.dl()) {
            undo_to(t, std::max(m, t.bt_level));
        }
        if (t.dl() <= t.bt_level || t.rng.pct(static_cast<int>(sc.get("chrono", 0)))) {
            return flip(t);
        }
        // first unique implication point
        std::vector<lit_t> learnt;
        std::set<int> seen;
        int open = 0;
        size_t pos = t.trail.size();
        lit_t uip = 0;
        auto add = [&](std::vector<lit_t> const &cl, lit_t skip) {
            for (auto l : cl) {
                auto v = std::abs(l);
                if (l == skip || seen.count(v) > 0) {
                    continue;
                }
                seen.insert(v);
                if (t.lev[v] == t.dl()) {
                    ++open;
                } else if (t.lev[v] > 0) {
                    learnt.emplace_back(l);
                }
            }
        };
        add(c, 0);
        while (true) {
            --pos;
            auto l = t.trail[pos];
            auto v = std::abs(l);
            if (seen.count(v) == 0) {
                continue;
            }
            --open;
            if (open == 0) {
                uip = l;
                break;
            }
            if (t.reason[v] < 0) {
                return flip(t); // should not happen
            }
            add(t.db[t.reason[v]], l);
        }
        uint32_t bj = 0;
        for (auto l : learnt) {
            bj = std::max(bj, t.lev[std::abs(l)]);
        }
        learnt.emplace_back(-uip);
        undo_to(t, std::max(bj, t.bt_level));
        t.db.emplace_back(learnt);
        t.assign(-uip, static_cast<int>(t.db.size() - 1));
        return true;
    }

    // handle clauses that stopped a callback; false if the search is over
    bool handle_todo(Thread &t) {
        auto todo = std::move(t.todo);
        t.todo.clear();
        for (auto &c : todo) {
            t.db.emplace_back(c);
            int nfree = 0;
            bool sat = false;
            lit_t unit = 0;
            uint32_t m = 0;
            for (auto l : c) {
                int v = t.value(l);
                sat = sat || v > 0;
                if (v == 0) {
                    ++nfree;
                    unit = l;
                } else {
                    m = std::max(m, t.lev[std::abs(l)]);
                }
            }
            if (sat || nfree > 1) {
                continue;
            }
            if (nfree == 1) {
                undo_to(t, std::max(m, t.bt_level));
                if (t.value(unit) == 0) {
                    t.assign(unit, static_cast<int>(t.db.size() - 1));
                }
                continue;
            }
            if (!resolve(t, c)) {
                return false;
            }
        }
        return true;
    }

    // one fixpoint; false if the search is over
    bool propagate(Thread &t) {
        while (true) {
            int c = unit_prop(t);
            if (c >= 0) {
                auto cl = t.db[c];
                if (!resolve(t, cl)) {
                    return false;
                }
                continue;
            }
            if (!t.pending.empty()) {
                if (!deliver(t) && !handle_todo(t)) {
                    return false;
                }
                continue;
            }
            if (both && t.last_check_trail != t.trail.size() && !t.total()) {
                t.last_check_trail = t.trail.size();
                size_t n = t.trail.size();
                if (!check(t)) {
                    t.last_check_trail = 0;
                    if (!handle_todo(t)) {
                        return false;
                    }
                }
                if (t.trail.size() != n || !t.pending.empty()) {
                    t.last_check_trail = 0;
                    continue;
                }
            }
            return true;
        }
    }

    void model(Thread &t) {
        std::lock_guard<std::mutex> lock{model_mutex};
        size_t slot = 0;
        if (conc) {
            // what others see of the model may be recorded before the model itself
            std::lock_guard<std::mutex> lock{log_mutex};
            slot = log.size();
            log.emplace_back();
        }
        MockModel m;
        m.thread = t.id;
        bool ok = clingolpx_on_model(th, reinterpret_cast<clingo_model_t *>(&m));
        ++reported;
        std::string s = key("model", t) + before(t.known);
        std::vector<lit_t> asg;
        for (int v = 2; v <= t.program_vars; ++v) {
            asg.emplace_back(t.val[v] > 0 ? v : -v);
        }
        s += ",\"asg\":" + jlist(asg);
        s += model_json(th, t.id, m.ext);
        if (conc) {
            ++n_ev;
            std::lock_guard<std::mutex> lock{log_mutex};
            log[slot] = s + "}";
        } else {
            ev(s + "}");
        }
        fail_if(ok);
        ++n_models;
    }

    lit_t pick(Thread &t) {
        std::vector<lit_t> free;
        for (int v = 2; v <= t.nvars; ++v) {
            if (t.val[v] == 0 && (v <= t.program_vars || t.dl() > 0)) {
                free.emplace_back(v);
            }
        }
        if (sc.has("prefs")) {
            // literals in the order of the thread
            for (auto const &x : sc["prefs"].a[t.id].a) {
                if (t.value(static_cast<lit_t>(x.i)) == 0) {
                    return static_cast<lit_t>(x.i);
                }
            }
        }
        lit_t l = free[t.rng.below(static_cast<int>(free.size()))];
        if (t.rng.pct(50)) {
            l = -l;
        }
        return l;
    }

    lit_t ask(Thread &t, lit_t l) {
        if (h.prop.decide == nullptr) {
            return l;
        }
        lit_t r = l;
        std::string s = key("dec", t) + ",\"f\":" + std::to_string(l);
        bool ok = h.prop.decide(t.id, reinterpret_cast<clingo_assignment_t const *>(&t), l, h.prop_data, &r);
        ev(s + ",\"r\":" + std::to_string(r) + "}");
        fail_if(ok);
        return std::abs(r) == std::abs(l) ? r : l;
    }

    void push_level(Thread &t, lit_t l) {
        t.level_start.emplace_back(t.trail.size());
        t.assign(l, -1);
    }

    // a conflict on level zero: there are no models in this and later steps
    std::atomic<bool> dead{false};

    // one step of the search of a thread
    void step(Thread &t) {
        if (t.waiting) {
            t.waiting = false;
            report(t);
            return;
        }
        if (!propagate(t)) {
            t.done = true;
            if (t.dl() == 0) {
                dead = true;
            }
            return;
        }
        if (t.rooted && t.root == 0) {
            // Solving happens below the step literal like in clasp; what holds
            // on level zero holds in all steps.
            t.root = 1;
            t.bt_level = 1;
            push_level(t, t.program_vars + 1);
            return;
        }
        if (t.assumed < t.assume.size()) {
            lit_t l = t.assume[t.assumed++];
            if (t.value(l) < 0) {
                t.done = true;
            } else if (t.value(l) == 0) {
                push_level(t, l);
                t.root = t.dl();
                t.bt_level = t.root;
            }
            return;
        }
        if (t.total()) {
            size_t n = t.trail.size();
            int nv = t.nvars;
            bool ok = check(t);
            if (!ok && !handle_todo(t)) {
                t.done = true;
                if (t.dl() == 0) {
                    dead = true;
                }
                return;
            }
            if (!ok || !t.pending.empty() || t.trail.size() != n || t.nvars != nv) {
                return;
            }
            if (t.rng.pct(p_split)) {
                t.waiting = true;
                return;
            }
            report(t);
            return;
        }
        if (t.dl() > t.bt_level && t.dl() > t.root && t.rng.pct(p_restart)) {
            undo_to(t, t.bt_level + static_cast<uint32_t>(t.rng.below(static_cast<int>(t.dl() - t.bt_level))));
            if (t.rng.pct(p_forget) && t.dl() == 0) {
                // reasons of assigned literals are not needed on level zero; units are never forgotten
                auto b = t.db.begin() + t.static_db;
                t.db.erase(std::remove_if(b, t.db.end(), [](auto const &c) { return c.size() > 1; }), t.db.end());
            }
            return;
        }
        push_level(t, ask(t, pick(t)));
    }

    void report(Thread &t) {
        model(t);
        if (max_models > 0 && n_models >= max_models) {
            for (auto &x : h.threads) {
                x->done = true;
            }
            return;
        }
        if (!flip(t)) {
            t.done = true;
        }
    }

    bool setup_step(Json const &st, size_t num) {
        // theory atoms of this step
        h.td = TData{};
        h.conds.assign(1, 1); // condition ids start over in each step
        for (auto const &a : st["atoms"].a) {
            h.td.atom(a);
        }
        for (auto &a : h.td.atoms) {
            if (a.lit != 0) {
                a.lit = a.lit < 0 ? a.lit - prg_off : a.lit + prg_off;
            }
        }
        for (auto &e : h.td.elems) {
            if (!e.cond.empty()) {
                auto it = std::find(h.conds.begin() + 1, h.conds.end(), e.cond.front());
                e.cond_id = cond_off + static_cast<lit_t>(it - h.conds.begin());
                if (it == h.conds.end()) {
                    h.conds.emplace_back(e.cond.front());
                }
                e.cond.front() += e.cond.front() < 0 ? -prg_off : prg_off;
            }
        }
        int nv = static_cast<int>(st["nvars"].i) + 1;
        for (auto &tp : h.threads) {
            auto &t = *tp;
            undo_to(t, 0);
            // auxiliary variables of the previous step are gone
            while (t.nvars > t.program_vars) {
                auto v = t.nvars;
                t.trail.erase(std::remove_if(t.trail.begin(), t.trail.end(), [&](lit_t l) { return std::abs(l) == v; }),
                              t.trail.end());
                t.watch.erase(v);
                t.watch.erase(-v);
                t.val.pop_back();
                t.lev.pop_back();
                t.reason.pop_back();
                --t.nvars;
            }
            t.db.resize(t.static_db);
            t.pending.erase(std::remove_if(t.pending.begin(), t.pending.end(),
                                           [&](lit_t l) { return std::abs(l) > t.program_vars; }),
                            t.pending.end());
            t.undo.clear();
            t.bt_level = 0;
            t.root = 0;
            t.assume.clear();
            t.assumed = 0;
            if (st.has("assume")) {
                for (auto const &l : st["assume"].a) {
                    t.assume.emplace_back(static_cast<lit_t>(l.i));
                }
            }
            t.done = false;
            t.waiting = false;
            t.known = 0;
            t.last_check_trail = 0;
            while (t.nvars < nv) {
                t.add_var();
            }
            t.program_vars = nv;
            t.rooted = sc["steps"].size() > 1;
            if (t.rooted) {
                t.add_var();
            }
            for (auto const &c : st["clauses"].a) {
                std::vector<lit_t> cl;
                for (auto const &l : c.a) {
                    cl.emplace_back(static_cast<lit_t>(l.i));
                }
                t.db.emplace_back(cl);
            }
            t.static_db = static_cast<int>(t.db.size());
        }
        init_conflict = false;
        h.init_calls.clear();
        h.check_mode = clingo_propagator_check_mode_total;
        for (auto &t : h.threads) {
            // all threads start from what the first thread knows
            bool clash = false;
            if (t != h.threads.front()) {
                for (auto l : h.threads.front()->trail) {
                    if (t->value(l) == 0) {
                        t->assign(l, -1);
                    }
                    clash = clash || t->value(l) < 0;
                }
            }
            if (clash || unit_prop(*t) >= 0) {
                ev("{\"e\":\"skip\",\"step\":" + std::to_string(num) + "}");
                return false;
            }
        }
        std::string s = "{\"e\":\"init\",\"step\":" + std::to_string(num) +
                        ",\"fix\":" + jlist(h.threads.front()->trail);
        pivots_reset();
        reported = 0;
        bool ok = h.prop.init(reinterpret_cast<clingo_propagate_init_t *>(&h), h.prop_data);
        both = h.check_mode == clingo_propagator_check_mode_both ||
               h.check_mode == clingo_propagator_check_mode_fixpoint;
        s += ",\"calls\":" + jjoin(h.init_calls);
        s += std::string(",\"conf\":") + (init_conflict ? "true" : "false");
        s += ",\"mode\":" + std::to_string(h.check_mode);
        s += std::string(",\"dec\":") + (h.prop.decide != nullptr ? "true" : "false");
        if (ok) {
            refresh_symbols();
            std::vector<std::string> names;
            for (auto x : syms) {
                names.emplace_back(sym_str(x));
            }
            s += ",\"syms\":" + jslist(names);
            if (!init_conflict) {
                s += values(0);
            }
        }
        ev(s + "}");
        fail_if(ok);
        for (auto &t : h.threads) {
            // propagation on level zero before search starts
            if (init_conflict || unit_prop(*t) >= 0) {
                return false;
            }
        }
        return true;
    }

    // all threads search at the same time
    void together() {
        conc = true;
        log.clear();
        std::atomic<size_t> ready{0};
        std::atomic<bool> stop{false};
        std::vector<std::string> errors(h.threads.size());
        std::vector<std::thread> all;
        for (auto &tp : h.threads) {
            all.emplace_back([&, t = tp.get()]() {
                ++ready;
                while (ready < h.threads.size()) {
                    std::this_thread::yield();
                }
                try {
                    while (!t->done && n_ev < max_ev && !stop) {
                        if (t->rng.pct(20)) {
                            std::this_thread::yield();
                        }
                        if (t->waiting && t->rng.pct(50)) {
                            std::this_thread::sleep_for(std::chrono::microseconds(t->rng.below(200)));
                        }
                        step(*t);
                    }
                } catch (Error const &e) {
                    errors[t->id] = e.msg + " ";
                    stop = true;
                }
            });
        }
        for (auto &t : all) {
            t.join();
        }
        conc = false;
        for (auto const &x : log) {
            if (!x.empty()) {
                emit(x);
            }
        }
        for (auto const &e : errors) {
            if (!e.empty()) {
                throw Error{e};
            }
        }
    }

    void stats(bool has) {
        Stats st;
        bool ok = clingolpx_on_statistics(th, reinterpret_cast<clingo_statistics_t *>(&st),
                                          reinterpret_cast<clingo_statistics_t *>(&accu));
        auto get = [](Stats &s, char const *k) -> std::string {
            auto it = s.nodes[0].sub.find("Simplex");
            if (it == s.nodes[0].sub.end()) {
                return "-1";
            }
            auto jt = s.nodes[it->second].sub.find(k);
            if (jt == s.nodes[it->second].sub.end()) {
                return "-1";
            }
            return std::to_string(static_cast<long long>(s.nodes[jt->second].value));
        };
        static_cast<void>(has);
        ev("{\"e\":\"stats\",\"sp\":" + get(st, "Pivots") + ",\"sb\":" + get(st, "Bounds propagated") +
           ",\"ap\":" + get(accu, "Pivots") + ",\"ab\":" + get(accu, "Bounds propagated") + ",\"pv\":" + std::to_string(pivots_count()) + "}");
        fail_if(ok);
    }

    void tape(Thread &t, std::vector<Json> const &ops) {
        // a refused level is taken back; nothing remains to be done if that is not possible
        auto refuse = [&]() {
            t.todo.clear();
            t.pending.clear();
            if (t.dl() <= t.root) {
                dead = dead || t.dl() == 0;
                return false;
            }
            undo_to(t, t.dl() - 1);
            return true;
        };
        // literals are asserted one by one
        auto settle = [&]() {
            while (true) {
                if (!t.pending.empty()) {
                    if (!deliver(t)) {
                        return refuse();
                    }
                } else if (t.rooted && both && !t.total() && t.last_check_trail != t.trail.size()) {
                    // fixpoints are checked, too, if the theory asks for it
                    t.last_check_trail = t.trail.size();
                    if (!check(t)) {
                        t.last_check_trail = 0;
                        return refuse();
                    }
                } else {
                    return true;
                }
            }
        };
        if (!settle()) {
            return;
        }
        for (auto const &o : ops) {
            if (o.kind == Json::Int) {
                auto l = static_cast<lit_t>(o.i);
                if (t.value(l) != 0) {
                    continue;
                }
                push_level(t, l);
                if (!settle()) {
                    return;
                }
            } else if (o.a[0].s == "new" || o.a[0].s == "same") {
                // a batch of literals on a new or the current level
                bool fresh = o.a[0].s == "new";
                for (size_t i = 1; i < o.a.size(); ++i) {
                    auto l = static_cast<lit_t>(o.a[i].i);
                    if (t.value(l) != 0) {
                        continue;
                    }
                    if (fresh) {
                        push_level(t, l);
                        fresh = false;
                    } else {
                        t.assign(l, -1);
                    }
                }
                if (!settle()) {
                    return;
                }
            } else if (o.a[0].s == "root") {
                // the literal of the step
                t.root = 1;
                t.bt_level = 1;
                push_level(t, t.program_vars + 1);
            } else if (o.a[0].s == "pop") {
                auto n = std::max(static_cast<uint32_t>(o.a[1].i), t.root);
                undo_to(t, n < t.dl() ? n : t.dl());
            } else if (o.a[0].s == "dec") {
                auto l = static_cast<lit_t>(o.a[1].i);
                if (t.value(l) == 0) {
                    ask(t, l);
                }
            } else if (o.a[0].s == "check") {
                // make the assignment total with literals that assert as little as possible, then check
                for (int v = 2; v <= t.nvars && t.total() == false; ++v) {
                    if (t.val[v] == 0) {
                        push_level(t, -v);
                        if (!settle()) {
                            return;
                        }
                    }
                }
                if (t.total() && t.pending.empty()) {
                    if (check(t)) {
                        model(t);
                    } else {
                        t.todo.clear();
                    }
                }
            }
        }
    }

    void run() {
        host = &h;
        h.sc = &sc;
        fail_if(clingolpx_create(&th));
        if (sc.has("cli")) {
            run_cli();
            return;
        }
        if (sc.get("strict", 0) != 0) {
            fail_if(clingolpx_configure(th, "strict", "yes"));
        }
        bool log = sc.get("optlog", 0) != 0;
        if (sc.has("opts")) {
            size_t n = 0;
            for (auto const &o : sc["opts"].a) {
                bool ok = clingolpx_configure(th, o[0].s.c_str(), o[1].s.c_str());
                if (log) {
                    std::string msg = ok || clingo_error_message() == nullptr ? "" : clingo_error_message();
                    ev("{\"e\":\"opt\",\"i\":" + std::to_string(n++) + ",\"ok\":" + (ok ? "true" : "false") +
                       ",\"msg\":" + jstr(msg) + "}");
                } else {
                    fail_if(ok);
                }
            }
        }
        if (log) {
            bool ok = clingolpx_validate_options(th);
            std::string msg = ok || clingo_error_message() == nullptr ? "" : clingo_error_message();
            ev(std::string("{\"e\":\"valid\",\"ok\":") + (ok ? "true" : "false") + ",\"msg\":" + jstr(msg) + "}");
            if (!ok) {
                clingolpx_destroy(th);
                return;
            }
        }
        if (sc.has("between")) {
            elsewhere(sc["between"]);
            host = &h;
        }
        body();
    }

    // options given on a command line that is parsed by clingo
    bool entered = false;
    bool failed = false;
    std::string failure;
    void run_cli() {
        clingo_application_t app{};
        app.program_name = [](void *) -> char const * { return "host"; };
        app.register_options = [](clingo_options_t *o, void *d) -> bool {
            return clingolpx_register_options(static_cast<Walk *>(d)->th, o);
        };
        app.validate_options = [](void *d) -> bool {
            return clingolpx_validate_options(static_cast<Walk *>(d)->th);
        };
        app.main = [](clingo_control_t *, char const *const *, size_t, void *d) -> bool {
            auto &w = *static_cast<Walk *>(d);
            w.entered = true;
            w.ev("{\"e\":\"cli\",\"ok\":true}");
            try {
                w.body();
            } catch (Error const &e) {
                w.failed = true;
                w.failure = e.msg;
            }
            return true;
        };
        std::vector<std::string> args;
        for (auto const &a : sc["cli"].a) {
            args.emplace_back(a.s);
        }
        std::vector<char const *> argv;
        for (auto const &a : args) {
            argv.emplace_back(a.c_str());
        }
        int rc = clingo_main(&app, argv.data(), argv.size(), this);
        if (!entered) {
            ev("{\"e\":\"cli\",\"ok\":false,\"rc\":" + std::to_string(rc) + "}");
            clingolpx_destroy(th);
        } else if (failed) {
            throw Error{failure};
        }
    }

    void body() {
        fail_if(clingolpx_register(th, nullptr));
        int nt = static_cast<int>(sc.get("threads", 1));
        for (int i = 0; i < nt; ++i) {
            h.threads.emplace_back(std::make_unique<Thread>());
            h.threads.back()->h = &h;
            h.threads.back()->id = static_cast<clingo_id_t>(i);
            h.threads.back()->rng = Rng{static_cast<uint64_t>(sc.get("seed", 1)) * 31 + static_cast<uint64_t>(i)};
        }
        size_t num = 0;
        for (auto const &st : sc["steps"].a) {
            n_models = 0;
            ++num;
            bool go = setup_step(st, num);
            if (go) {
                if (st.has("tape")) {
                    h.nodb = true;
                    tape(*h.threads.front(), st["tape"].a);
                    h.nodb = false;
                } else if (sc.get("conc", 0) != 0) {
                    together();
                } else {
                    if (sc.has("order")) {
                        // a thread runs until it is about to report a model or has done so
                        for (auto const &x : sc["order"].a) {
                            auto &t = *h.threads[static_cast<size_t>(x.i)];
                            for (bool w = t.waiting; n_ev < max_ev && !t.done;) {
                                step(t);
                                if (w || t.waiting) {
                                    break;
                                }
                            }
                        }
                    }
                    while (n_ev < max_ev) {
                        std::vector<Thread *> act;
                        for (auto &t : h.threads) {
                            if (!t->done) {
                                act.emplace_back(t.get());
                            }
                        }
                        if (act.empty()) {
                            break;
                        }
                        step(*act[rng.below(static_cast<int>(act.size()))]);
                    }
                }
            }
            bool all = true;
            for (auto &t : h.threads) {
                all = all && t->done;
            }
            ev(std::string("{\"e\":\"fin\",\"all\":") +
               ((!go || (all && max_models == 0)) && !st.has("tape") ? "true" : "false") + "}");
            for (auto &t : h.threads) {
                undo_to(*t, 0);
            }
            if (go) {
                stats(true);
            }
            if (!go || dead) {
                break;
            }
        }
        clingolpx_destroy(th);
    }
};

void elsewhere(Json const &sc) {
    quiet = true;
    Walk w(sc);
    try {
        w.run();
    } catch (Error const &e) {
        clingolpx_destroy(w.th);
    }
    quiet = false;
}

void child(std::string const &line) {
    rlimit rl{};
    try {
        Json sc = JsonParser::parse(line);
        rl.rlim_cur = static_cast<rlim_t>(sc.get("cpu", 10));
        rl.rlim_max = rl.rlim_cur + 1;
        setrlimit(RLIMIT_CPU, &rl);
        rlimit as{};
        as.rlim_cur = as.rlim_max = 4ull << 30;
#ifndef __SANITIZE_THREAD__
        setrlimit(RLIMIT_AS, &as);
#endif
        rlimit core{};
        setrlimit(RLIMIT_CORE, &core);
        freopen("/dev/null", "w", stderr);
        freopen("/dev/null", "w", stdout);
        if (sc.has("before")) {
            elsewhere(sc["before"]);
        }
        Walk w(sc);
        try {
            w.run();
            emit("{\"e\":\"end\",\"how\":\"ok\",\"msg\":\"\"}");
        } catch (Error const &e) {
            // the theory can still be destroyed
            clingolpx_destroy(w.th);
            emit("{\"e\":\"end\",\"how\":\"error\",\"msg\":" + jstr(e.msg) + "}");
        }
    } catch (std::exception const &e) {
        emit("{\"e\":\"end\",\"how\":\"exception\",\"msg\":" + jstr(e.what()) + "}");
    }
    _exit(0);
}

} // namespace

int main() {
    std::ios::sync_with_stdio(false);
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) {
            continue;
        }
        int fds[2];
        if (pipe(fds) != 0) {
            return 2;
        }
        auto pid = fork();
        if (pid < 0) {
            return 2;
        }
        if (pid == 0) {
            close(fds[0]);
            out_fd = fds[1];
            child(line);
        }
        close(fds[1]);
        std::string out;
        char buf[65536];
        ssize_t n = 0;
        while ((n = read(fds[0], buf, sizeof(buf))) > 0) {
            out.append(buf, static_cast<size_t>(n));
        }
        close(fds[0]);
        int status = 0;
        waitpid(pid, &status, 0);
        std::vector<std::string> evs;
        std::istringstream is(out);
        std::string l;
        while (std::getline(is, l)) {
            evs.emplace_back(l);
        }
        if (WIFSIGNALED(status)) {
            int s = WTERMSIG(status);
            bool cpu = s == SIGXCPU || s == SIGKILL;
            evs.emplace_back(std::string("{\"e\":\"end\",\"how\":\"") + (cpu ? "timeout" : "crash") + "\",\"msg\":\"signal " +
                             std::to_string(s) + "\"}");
        } else if (evs.empty() || evs.back().find("\"e\":\"end\"") == std::string::npos) {
            bool race = WIFEXITED(status) && WEXITSTATUS(status) == 66; // set by the thread sanitizer
            evs.emplace_back(std::string("{\"e\":\"end\",\"how\":\"") + (race ? "race" : "crash") + "\",\"msg\":\"exit " +
                             std::to_string(WEXITSTATUS(status)) + "\"}");
        }
        std::string r = "{\"ev\":" + jjoin(evs) + "}\n";
        fwrite(r.data(), 1, r.size(), stdout);
        fflush(stdout);
    }
    return 0;
}
