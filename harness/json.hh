// Minimal JSON reader/writer shared by the harness programs.
#pragma once
#include <cctype>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

struct Json {
    enum Kind { Null, Bool, Int, Str, Arr, Obj } kind = Null;
    bool b = false;
    long long i = 0;
    std::string s;
    std::vector<Json> a;
    std::map<std::string, Json> o;

    bool has(std::string const &k) const { return o.find(k) != o.end(); }
    Json const &operator[](std::string const &k) const {
        auto it = o.find(k);
        if (it == o.end()) {
            throw std::runtime_error("json: no key " + k);
        }
        return it->second;
    }
    Json const &operator[](size_t k) const { return a.at(k); }
    long long get(std::string const &k, long long d) const { return has(k) ? o.at(k).i : d; }
    std::string get(std::string const &k, std::string const &d) const { return has(k) ? o.at(k).s : d; }
    size_t size() const { return a.size(); }
};

class JsonParser {
  public:
    static Json parse(std::string const &text) {
        JsonParser p(text);
        Json r = p.value();
        return r;
    }

  private:
    explicit JsonParser(std::string const &t) : t_(t) {}
    void ws() {
        while (p_ < t_.size() && std::isspace(static_cast<unsigned char>(t_[p_]))) {
            ++p_;
        }
    }
    char peek() {
        ws();
        if (p_ >= t_.size()) {
            throw std::runtime_error("json: unexpected end");
        }
        return t_[p_];
    }
    void expect(char c) {
        if (peek() != c) {
            throw std::runtime_error(std::string("json: expected ") + c);
        }
        ++p_;
    }
    std::string str() {
        expect('"');
        std::string r;
        while (t_.at(p_) != '"') {
            char c = t_[p_++];
            if (c == '\\') {
                c = t_.at(p_++);
                switch (c) {
                    case 'n': r += '\n'; break;
                    case 't': r += '\t'; break;
                    case 'r': r += '\r'; break;
                    case 'u': {
                        unsigned v = std::strtoul(t_.substr(p_, 4).c_str(), nullptr, 16);
                        p_ += 4;
                        r += static_cast<char>(v);
                        break;
                    }
                    default: r += c;
                }
            } else {
                r += c;
            }
        }
        ++p_;
        return r;
    }
    Json value() {
        Json j;
        char c = peek();
        if (c == '{') {
            j.kind = Json::Obj;
            ++p_;
            if (peek() == '}') {
                ++p_;
                return j;
            }
            while (true) {
                std::string k = str();
                expect(':');
                j.o[k] = value();
                if (peek() == ',') {
                    ++p_;
                    ws();
                    continue;
                }
                expect('}');
                return j;
            }
        }
        if (c == '[') {
            j.kind = Json::Arr;
            ++p_;
            if (peek() == ']') {
                ++p_;
                return j;
            }
            while (true) {
                j.a.push_back(value());
                if (peek() == ',') {
                    ++p_;
                    continue;
                }
                expect(']');
                return j;
            }
        }
        if (c == '"') {
            j.kind = Json::Str;
            j.s = str();
            return j;
        }
        if (t_.compare(p_, 4, "true") == 0) {
            j.kind = Json::Bool;
            j.b = true;
            j.i = 1;
            p_ += 4;
            return j;
        }
        if (t_.compare(p_, 5, "false") == 0) {
            j.kind = Json::Bool;
            p_ += 5;
            return j;
        }
        if (t_.compare(p_, 4, "null") == 0) {
            p_ += 4;
            return j;
        }
        j.kind = Json::Int;
        size_t n = 0;
        j.i = std::stoll(t_.substr(p_, 32), &n);
        p_ += n;
        return j;
    }
    std::string const &t_;
    size_t p_ = 0;
};

inline std::string jstr(std::string const &s) {
    std::string r = "\"";
    for (char c : s) {
        switch (c) {
            case '"': r += "\\\""; break;
            case '\\': r += "\\\\"; break;
            case '\n': r += "\\n"; break;
            case '\t': r += "\\t"; break;
            case '\r': r += "\\r"; break;
            default:
                if (static_cast<unsigned char>(c) < 32) {
                    char buf[8];
                    std::snprintf(buf, sizeof(buf), "\\u%04x", c);
                    r += buf;
                } else {
                    r += c;
                }
        }
    }
    return r + "\"";
}

template <class C> std::string jlist(C const &c) {
    std::string r = "[";
    bool first = true;
    for (auto const &x : c) {
        if (!first) {
            r += ",";
        }
        first = false;
        r += std::to_string(x);
    }
    return r + "]";
}

template <class C> std::string jslist(C const &c) {
    std::string r = "[";
    bool first = true;
    for (auto const &x : c) {
        if (!first) {
            r += ",";
        }
        first = false;
        r += jstr(x);
    }
    return r + "]";
}

template <class C> std::string jjoin(C const &c) {
    std::string r = "[";
    bool first = true;
    for (auto const &x : c) {
        if (!first) {
            r += ",";
        }
        first = false;
        r += x;
    }
    return r + "]";
}

// deterministic random numbers (splitmix64)
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 0 ? 0 : static_cast<int>(next() % static_cast<uint64_t>(n)); }
    bool pct(int p) { return below(100) < p; }
};
