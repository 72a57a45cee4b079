// A machine with registers of the number types of the theory.
//
// Scenario: {"ops":[op, ...]}; every operation is reported with the text of
// all registers afterwards.  See spec/NumTrace.tla for what has to come out.
#include "batch.hh"
#include "number.hh"
#include <array>

namespace {

constexpr size_t N = 3;
struct Regs {
    std::array<Integer, N> i;
    std::array<Rational, N> r;
    std::array<RationalQ, N> q;
};

template <class T> std::string text(T const &x) {
    std::ostringstream o;
    o << x;
    return o.str();
}

template <class T> std::string texts(T const &x) {
    std::vector<std::string> t;
    for (auto const &y : x) {
        t.emplace_back(text(y));
    }
    return jslist(t);
}

fixed_int fixed(Json const &op) { return std::strtoll(op["s"].s.c_str(), nullptr, 10); }

template <class T, class B> void apply(char op, std::string const &form, T &d, T const &a, B const &b) {
    if (form == "c") {
        T x = op == '+' ? a + b : op == '-' ? a - b : a * b;
        d = std::move(x);
    } else if (form == "m") {
        T y = a;
        T x = op == '+' ? std::move(y) + b : op == '-' ? std::move(y) - b : std::move(y) * b;
        d = std::move(x);
    } else {
        T &x = op == '+' ? (d += b) : op == '-' ? (d -= b) : (d *= b);
        if (&x != &d) {
            throw std::runtime_error("compound operator returns something else");
        }
    }
}

template <class T, class B> void apply_sum(char op, std::string const &form, T &d, T const &a, B const &b) {
    if (form == "c") {
        T x = op == '+' ? a + b : a - b;
        d = std::move(x);
    } else if (form == "m") {
        T y = a;
        T x = op == '+' ? std::move(y) + b : std::move(y) - b;
        d = std::move(x);
    } else {
        T &x = op == '+' ? (d += b) : (d -= b);
        if (&x != &d) {
            throw std::runtime_error("compound operator returns something else");
        }
    }
}

template <class T, class B> void apply_div(std::string const &form, T &d, T const &a, B const &b) {
    if (form == "c") {
        T x = a / b;
        d = std::move(x);
    } else if (form == "m") {
        T y = a;
        T x = std::move(y) / b;
        d = std::move(x);
    } else {
        T &x = d /= b;
        if (&x != &d) {
            throw std::runtime_error("compound operator returns something else");
        }
    }
}

template <class T, class B> std::string relations(T const &a, B const &b) {
    int c = compare(a, b);
    std::vector<std::string> r{std::to_string(c < 0 ? -1 : c > 0 ? 1 : 0)};
    for (bool x : {a < b, a <= b, a > b, a >= b, a == b, a != b}) {
        r.emplace_back(x ? "1" : "0");
    }
    return jjoin(r);
}

void run(Json const &sc, std::ostream &out) {
    Regs m;
    for (auto const &op : sc["ops"].a) {
        auto reg = [&](char const *k) { return static_cast<size_t>(op[k].i - 1); };
        std::string const o = op["o"].s;
        std::string const t = op.get("t", std::string{});
        std::string const bt = op.get("bt", std::string{});
        std::string res = "[]";
        if (o == "int") {
            m.i[reg("d")] = Integer{op["s"].s, 10};
        } else if (o == "inti") {
            m.i[reg("d")] = Integer{fixed(op)};
        } else if (o == "rat") {
            m.r[reg("d")] = Rational{op["s"].s, 10};
        } else if (o == "rati") {
            m.r[reg("d")] = Rational{fixed(op)};
        } else if (o == "ratnd") {
            m.r[reg("d")] = Rational{m.i[reg("a")], m.i[reg("b")]};
        } else if (o == "mk") {
            auto &r = m.r[reg("d")];
            r.num() = m.i[reg("a")];
            r.den() = m.i[reg("b")];
            r.canonicalize();
        } else if (o == "q") {
            m.q[reg("d")] = RationalQ{m.r[reg("a")], m.r[reg("b")]};
        } else if (o == "copy") {
            if (t == "I") {
                m.i[reg("d")] = m.i[reg("a")];
            } else if (t == "R") {
                m.r[reg("d")] = m.r[reg("a")];
            } else {
                m.q[reg("d")] = m.q[reg("a")];
            }
        } else if (o == "swap") {
            if (t == "I") {
                m.i[reg("a")].swap(m.i[reg("b")]);
            } else if (t == "R") {
                m.r[reg("a")].swap(m.r[reg("b")]);
            } else {
                m.q[reg("a")].swap(m.q[reg("b")]);
            }
        } else if (o == "neg") {
            bool method = op["f"].s == "m";
            if (t == "I") {
                method ? static_cast<void>(m.i[reg("d")].neg()) : static_cast<void>(m.i[reg("d")] = -m.i[reg("a")]);
            } else if (t == "R") {
                method ? static_cast<void>(m.r[reg("d")].neg()) : static_cast<void>(m.r[reg("d")] = -m.r[reg("a")]);
            } else {
                m.q[reg("d")] = -m.q[reg("a")];
            }
        } else if (o == "bin") {
            char const p = op["op"].s[0];
            std::string const f = op["f"].s;
            if (t == "I") {
                auto &d = m.i[reg("d")];
                auto &a = m.i[reg("a")];
                bt == "F" ? apply(p, f, d, a, fixed(op)) : apply(p, f, d, a, m.i[reg("b")]);
            } else if (t == "R") {
                auto &d = m.r[reg("d")];
                auto &a = m.r[reg("a")];
                if (p == '/') {
                    bt == "F"   ? apply_div(f, d, a, fixed(op))
                    : bt == "I" ? apply_div(f, d, a, m.i[reg("b")])
                                : apply_div(f, d, a, m.r[reg("b")]);
                } else {
                    bt == "F"   ? apply(p, f, d, a, fixed(op))
                    : bt == "I" ? apply(p, f, d, a, m.i[reg("b")])
                                : apply(p, f, d, a, m.r[reg("b")]);
                }
            } else {
                auto &d = m.q[reg("d")];
                auto &a = m.q[reg("a")];
                if (p == '/') {
                    bt == "F"   ? apply_div(f, d, a, fixed(op))
                    : bt == "I" ? apply_div(f, d, a, m.i[reg("b")])
                                : apply_div(f, d, a, m.r[reg("b")]);
                } else if (bt == "Q") {
                    apply_sum(p, f, d, a, m.q[reg("b")]);
                } else {
                    bt == "F"   ? apply(p, f, d, a, fixed(op))
                    : bt == "I" ? apply(p, f, d, a, m.i[reg("b")])
                                : apply(p, f, d, a, m.r[reg("b")]);
                }
            }
        } else if (o == "cmp") {
            if (t == "I") {
                auto &a = m.i[reg("a")];
                res = bt == "F" ? relations(a, fixed(op)) : relations(a, m.i[reg("b")]);
            } else if (t == "R") {
                auto &a = m.r[reg("a")];
                res = bt == "F" ? relations(a, fixed(op)) : bt == "I" ? relations(a, m.i[reg("b")]) : relations(a, m.r[reg("b")]);
            } else {
                auto &a = m.q[reg("a")];
                res = bt == "F"   ? relations(a, fixed(op))
                      : bt == "I" ? relations(a, m.i[reg("b")])
                      : bt == "R" ? relations(a, m.r[reg("b")])
                                  : relations(a, m.q[reg("b")]);
            }
        } else if (o == "gcd") {
            m.i[reg("d")] = gcd(m.i[reg("a")], m.i[reg("b")]);
        } else if (o == "gcddiv") {
            auto [g, x, y] = gcd_div(m.i[reg("a")], m.i[reg("b")]);
            res = jslist(std::vector<std::string>{text(g), text(x), text(y)});
        } else if (o == "divide") {
            m.i[reg("d")].divide(m.i[reg("a")]);
        } else if (o == "addmul") {
            if (op["f"].s == "m") {
                Integer x = m.i[reg("d")];
                m.i[reg("d")] = std::move(x).add_mul(m.i[reg("a")], m.i[reg("b")]);
            } else {
                m.i[reg("d")].add_mul(m.i[reg("a")], m.i[reg("b")]);
            }
        } else if (o == "asint") {
            auto x = m.i[reg("a")].as_int();
            res = x.has_value() ? jslist(std::vector<std::string>{std::to_string(*x)}) : "[]";
        } else if (o == "num") {
            m.i[reg("d")] = m.r[reg("a")].num();
        } else if (o == "den") {
            m.i[reg("d")] = m.r[reg("a")].den();
        } else if (o == "show") {
            // numbers that did not go through any operation
            auto c = Rational{op["c"].s, 10};
            auto k = Rational{op["k"].s, 10};
            res = jslist(std::vector<std::string>{text(Integer{op["s"].s, 10}), text(c), text(RationalQ{std::move(c), std::move(k)})});
        } else if (o == "asrat") {
            res = m.q[reg("a")].is_rational() ? "[1]" : "[0]";
            try {
                m.r[reg("d")] = m.q[reg("a")].as_rational();
            } catch (std::exception const &) {
                res = "[2]";
            }
        } else {
            throw std::logic_error("unknown operation " + o);
        }
        out << "{\"e\":\"op\",\"r\":" << res << ",\"I\":" << texts(m.i) << ",\"R\":" << texts(m.r) << ",\"Q\":" << texts(m.q)
            << "}\n";
    }
}

} // namespace

int main() { return batch_main(run); }
