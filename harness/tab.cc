// Drives the tableau of the simplex algorithm: set entries and exchange basis variables.
//
// Scenario: {"m":rows,"n":columns,"ops":[["set",i,j,"v"],["pivot",i,j],["clear"]]}.
// After each operation all three views of the tableau are reported.
#include "batch.hh"
#include "tableau.hh"

namespace {

template <class T> std::string text(T const &x) {
    std::ostringstream o;
    o << x;
    return o.str();
}

void run(Json const &sc, std::ostream &out) {
    Tableau t;
    auto m = static_cast<index_t>(sc["m"].i);
    auto n = static_cast<index_t>(sc["n"].i);
    for (auto const &op : sc["ops"].a) {
        std::string const o = op[0].s;
        if (o == "clear") {
            t.clear();
        } else {
            auto i = static_cast<index_t>(op[1].i - 1);
            auto j = static_cast<index_t>(op[2].i - 1);
            if (o == "set") {
                t.set(i, j, Rational{op[3].s, 10});
            } else {
                Integer *num = nullptr;
                Integer *den = nullptr;
                if (t.get(i, j) == 0) {
                    throw std::logic_error("no coefficient to exchange");
                }
                t.unsafe_get(i, j, num, den);
                t.pivot(i, j, *num, *den);
            }
        }
        std::vector<std::string> all;
        for (index_t i = 0; i < m; ++i) {
            std::vector<std::string> row;
            for (index_t j = 0; j < n; ++j) {
                row.emplace_back(text(t.get(i, j)));
            }
            all.emplace_back(jslist(row));
        }
        std::vector<std::string> rows;
        for (index_t i = 0; i < m; ++i) {
            t.update_row(i, [&](index_t j, Integer &val, Integer &den) {
                rows.emplace_back("[" + std::to_string(i + 1) + "," + std::to_string(j + 1) + "," +
                                  jstr(text(Rational{val, den})) + "]");
            });
        }
        std::vector<std::string> cols;
        for (index_t j = 0; j < n; ++j) {
            t.update_col(j, [&](index_t i, Integer &val, Integer &den) {
                cols.emplace_back("[" + std::to_string(i + 1) + "," + std::to_string(j + 1) + "," +
                                  jstr(text(Rational{val, den})) + "]");
            });
        }
        out << "{\"e\":\"tab\",\"all\":" << jjoin(all) << ",\"rows\":" << jjoin(rows) << ",\"cols\":" << jjoin(cols)
            << ",\"size\":" << t.size() << ",\"empty\":" << (t.empty() ? 1 : 0) << "}\n";
    }
}

} // namespace

int main() { return batch_main(run); }
