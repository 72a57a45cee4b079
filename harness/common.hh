// What both harness programs report about a model.
#pragma once
#include "json.hh"
#include <clingo-lpx.h>
#include <clingo.h>
#include <cstring>
#include <string>
#include <vector>

inline std::string sym_str(clingo_symbol_t s) {
    size_t n = 0;
    clingo_symbol_to_string_size(s, &n);
    std::vector<char> buf(n);
    clingo_symbol_to_string(s, buf.data(), n);
    return buf.data();
}

inline std::string sym_text(clingo_symbol_t s) {
    if (clingo_symbol_type(s) == clingo_symbol_type_string) {
        char const *c = nullptr;
        clingo_symbol_string(s, &c);
        return c;
    }
    return sym_str(s);
}

// A symbol that is found has to be the one stored at its index.
inline void probe_symbol(clingolpx_theory_t *th, clingo_symbol_t sym, std::vector<std::string> &bogus) {
    size_t j = 0;
    if (clingolpx_lookup_symbol(th, sym, &j) && !clingo_symbol_is_equal_to(clingolpx_get_symbol(th, j), sym)) {
        bogus.emplace_back(sym_str(sym));
    }
}

// The symbols attached to a model, and what the assignment interface says.
inline std::string model_json(clingolpx_theory_t *th, uint32_t thread, std::vector<clingo_symbol_t> const &added) {
    std::vector<std::string> ext;
    std::vector<std::string> obj;
    for (auto x : added) {
        char const *name = nullptr;
        clingo_symbol_t const *args = nullptr;
        size_t n = 0;
        if (clingo_symbol_type(x) == clingo_symbol_type_function) {
            clingo_symbol_name(x, &name);
            clingo_symbol_arguments(x, &args, &n);
        }
        if (name != nullptr && n == 2 && std::strcmp(name, "__lpx") == 0) {
            ext.emplace_back(jslist(std::vector<std::string>{sym_str(args[0]), sym_text(args[1])}));
        } else if (name != nullptr && n == 2 && std::strcmp(name, "__lpx_objective") == 0) {
            obj.emplace_back(jslist(std::vector<std::string>{sym_text(args[0]), sym_str(args[1])}));
        } else {
            ext.emplace_back(jslist(std::vector<std::string>{"?" + sym_str(x), ""}));
        }
    }
    std::string s = ",\"ext\":" + jjoin(ext) + ",\"obj\":" + jjoin(obj);
    std::vector<std::string> api;
    std::vector<std::string> bogus;
    size_t i = 0;
    clingolpx_assignment_begin(th, thread, &i);
    while (clingolpx_assignment_next(th, thread, &i)) {
        clingo_symbol_t sym = clingolpx_get_symbol(th, i);
        size_t j = 0;
        bool found = clingolpx_lookup_symbol(th, sym, &j);
        bool has = clingolpx_assignment_has_value(th, thread, i);
        clingolpx_value_t x;
        clingolpx_assignment_get_value(th, thread, i, &x);
        api.emplace_back("[" + jstr(sym_str(sym)) + "," + jstr(sym_text(x.symbol)) + "," +
                         (found && j == i && has && x.type == clingolpx_value_type_symbol ? "true" : "false") + "," + std::to_string(i) + "]");
        // neighbours of the variable
        clingo_symbol_t probe = sym;
        std::string text = sym_str(sym);
        if (clingo_symbol_type(sym) == clingo_symbol_type_function) {
            char const *name = nullptr;
            clingo_symbol_t const *args = nullptr;
            size_t n = 0;
            bool pos = true;
            clingo_symbol_name(sym, &name);
            clingo_symbol_arguments(sym, &args, &n);
            clingo_symbol_is_positive(sym, &pos);
            if (std::strlen(name) > 0) {
                clingo_symbol_create_function(name, args, n, !pos, &probe);
                probe_symbol(th, probe, bogus);
            }
            std::vector<clingo_symbol_t> more{args, args + n};
            more.emplace_back(sym);
            clingo_symbol_create_function(name, more.data(), more.size(), true, &probe);
            probe_symbol(th, probe, bogus);
        }
        clingo_symbol_create_string(text.c_str(), &probe);
        probe_symbol(th, probe, bogus);
    }
    if (clingolpx_assignment_has_value(th, thread, 1 << 20)) {
        bogus.emplace_back("large index");
    }
    s += ",\"api\":" + jjoin(api);
    // symbols that are no variables
    size_t j = 0;
    clingo_symbol_t no;
    clingo_symbol_create_id("no_such_variable__", true, &no);
    if (clingolpx_lookup_symbol(th, no, &j)) {
        bogus.emplace_back(sym_str(no));
    }
    for (int k = 0; k < 4; ++k) {
        clingo_symbol_create_number(k, &no);
        if (clingolpx_lookup_symbol(th, no, &j)) {
            bogus.emplace_back(sym_str(no));
        }
    }
    if (clingolpx_assignment_has_value(th, thread, 0)) {
        bogus.emplace_back("index 0");
    }
    s += ",\"bogus\":" + jslist(bogus);
    return s;
}
