// Stand-in for the JSON library (external/json, not part of OpenSEMBA's own code) when the code is
// compiled for symbolic execution: same interface and meaning, but numbers in the text may be symbolic.
#ifndef SYM_JSON_HPP
#define SYM_JSON_HPP
#include <string>
#include <vector>
#include <map>
#include <utility>
#include <istream>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <type_traits>
#include <initializer_list>
#include <iterator>
namespace nlohmann {
namespace detail {
enum class value_t { null, object, array, string, boolean, number_integer, number_unsigned, number_float, discarded };
class exception : public std::exception { public: const int id; const char* what() const noexcept override { return m.what(); } protected: exception(int i, const std::string& s) : id(i), m(s) {} std::runtime_error m; };
class parse_error : public exception { public: parse_error(const std::string& s) : exception(101, s) {} };
class type_error : public exception { public: type_error(const std::string& s) : exception(302, s) {} };
class out_of_range : public exception { public: out_of_range(const std::string& s) : exception(403, s) {} };
class invalid_iterator : public exception { public: invalid_iterator(const std::string& s) : exception(214, s) {} };
}
class json {
public:
    typedef detail::value_t value_t; typedef detail::exception exception; typedef detail::parse_error parse_error; typedef detail::type_error type_error; typedef detail::out_of_range out_of_range; typedef detail::invalid_iterator invalid_iterator;
    typedef std::size_t size_type; typedef json value_type; typedef json& reference; typedef const json& const_reference; typedef std::string string_t; typedef bool boolean_t; typedef long number_integer_t; typedef unsigned long number_unsigned_t; typedef double number_float_t;
private:
    value_t t_; std::string s_; std::vector<std::string> k_; std::vector<json> v_;
    void need(bool ok, const char* what) const { if (!ok) throw type_error(std::string("[json.exception.type_error] ") + what + " " + type_name()); }
    static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
    static void bad() { throw parse_error("[json.exception.parse_error.101] parse error"); }
    static void skip(const std::string& s, std::size_t& p) { while (p < s.size() && ws(s[p])) p++; }
    static std::string quoted(const std::string& s, std::size_t& p) { std::string r; p++; for (;;) { if (p >= s.size()) bad(); char c = s[p++]; if (c == '"') return r; if (c == '\n' || c == '\t' || c == '\r') bad(); if (c != '\\') { r.push_back(c); continue; } if (p >= s.size()) bad(); c = s[p++]; switch (c) { case '"': case '\\': case '/': r.push_back(c); break; case 'n': r.push_back('\n'); break; case 't': r.push_back('\t'); break; case 'r': r.push_back('\r'); break; case 'b': r.push_back('\b'); break; case 'f': r.push_back('\f'); break; default: bad(); } } }
    static bool dig(char c) { return c >= '0' && c <= '9'; }
    static json number(const std::string& s, std::size_t& p) { json j; std::size_t b = p; if (s[p] == '-') p++; if (p < s.size() && s[p] == '\1') { j.t_ = value_t::number_float; while (p < s.size() && s[p] != '\2') p++; p++; j.s_ = s.substr(b, p - b); return j; }
        if (p >= s.size() || !dig(s[p])) bad(); if (s[p] == '0') p++; else while (p < s.size() && dig(s[p])) p++; bool f = false; if (p < s.size() && s[p] == '.') { f = true; p++; if (p >= s.size() || !dig(s[p])) bad(); while (p < s.size() && dig(s[p])) p++; } if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) { f = true; p++; if (p < s.size() && (s[p] == '+' || s[p] == '-')) p++; if (p >= s.size() || !dig(s[p])) bad(); while (p < s.size() && dig(s[p])) p++; } j.t_ = f ? value_t::number_float : s[b] == '-' ? value_t::number_integer : value_t::number_unsigned; j.s_ = s.substr(b, p - b); return j; }
    void put(const std::string& k, const json& v) { std::size_t i = 0; while (i < k_.size() && k_[i] < k) i++; if (i < k_.size() && k_[i] == k) { v_[i] = v; return; } k_.insert(k_.begin() + i, k); v_.insert(v_.begin() + i, v); }
    static json value(const std::string& s, std::size_t& p) { skip(s, p); if (p >= s.size()) bad(); json j; char c = s[p];
        if (c == '{') { j.t_ = value_t::object; p++; skip(s, p); if (p < s.size() && s[p] == '}') { p++; return j; } for (;;) { skip(s, p); if (p >= s.size() || s[p] != '"') bad(); std::string k = quoted(s, p); skip(s, p); if (p >= s.size() || s[p] != ':') bad(); p++; json v = value(s, p); j.put(k, v); skip(s, p); if (p < s.size() && s[p] == ',') { p++; continue; } if (p < s.size() && s[p] == '}') { p++; return j; } bad(); } }
        if (c == '[') { j.t_ = value_t::array; p++; skip(s, p); if (p < s.size() && s[p] == ']') { p++; return j; } for (;;) { j.v_.push_back(value(s, p)); skip(s, p); if (p < s.size() && s[p] == ',') { p++; continue; } if (p < s.size() && s[p] == ']') { p++; return j; } bad(); } }
        if (c == '"') { j.t_ = value_t::string; j.s_ = quoted(s, p); return j; }
        if (s.compare(p, 4, "true") == 0) { p += 4; j.t_ = value_t::boolean; j.s_ = "1"; return j; } if (s.compare(p, 5, "false") == 0) { p += 5; j.t_ = value_t::boolean; j.s_ = "0"; return j; } if (s.compare(p, 4, "null") == 0) { p += 4; return j; }
        return number(s, p); }
    void dump(std::string& o) const { if (t_ == value_t::null) o += "null"; else if (t_ == value_t::boolean) o += s_ == "1" ? "true" : "false"; else if (t_ == value_t::string) { o += "\""; for (char c : s_) { if (c == '"' || c == '\\') o.push_back('\\'); o.push_back(c); } o += "\""; } else if (t_ == value_t::object || t_ == value_t::array) { bool b = t_ == value_t::object; o += b ? "{" : "["; for (std::size_t i = 0; i < v_.size(); i++) { if (i) o += ","; if (b) o += "\"" + k_[i] + "\":"; v_[i].dump(o); } o += b ? "}" : "]"; } else o += s_; }
    void conv(json& x) const { x = *this; } void conv(std::string& x) const { need(is_string(), "type must be string, but is"); x = s_; } void conv(bool& x) const { need(is_boolean(), "type must be boolean, but is"); x = s_ == "1"; }
    void conv(double& x) const { need(is_number() || is_boolean(), "type must be number, but is"); __sym_parse_double(s_.data(), s_.size(), &x); } void conv(float& x) const { double d; conv(d); x = (float)d; }
    void conv(long& x) const { need(is_number() || is_boolean(), "type must be number, but is"); if (s_.find('\1') == std::string::npos && t_ == value_t::number_float) { double d; conv(d); x = (long)d; } else __sym_parse_int(s_.data(), s_.size(), 10, &x, 0); }
    template<class I> typename std::enable_if<std::is_integral<I>::value>::type conv(I& x) const { long l; conv(l); x = (I)l; }
    template<class T> void conv(std::vector<T>& x) const { need(is_array(), "type must be array, but is"); x.clear(); for (const json& j : v_) x.push_back(j.get<T>()); }
    template<class T> void conv(std::map<std::string, T>& x) const { need(is_object(), "type must be object, but is"); for (std::size_t i = 0; i < v_.size(); i++) x[k_[i]] = v_[i].get<T>(); }
    template<class A, class B> void conv(std::pair<A, B>& x) const { x = std::make_pair(at(0).get<A>(), at(1).get<B>()); }
    long where(const std::string& k) const { for (std::size_t i = 0; i < k_.size(); i++) if (k_[i] == k) return (long)i; return -1; }
public:
    template<class J> class iter { public: typedef std::ptrdiff_t difference_type; typedef json value_type; typedef J* pointer; typedef J& reference; typedef std::bidirectional_iterator_tag iterator_category;
        J* j; std::size_t i; iter() : j(0), i(0) {} iter(J* a, std::size_t b) : j(a), i(b) {} operator iter<const json>() const { return iter<const json>(j, i); }
        J& operator*() const { if (j->is_object() || j->is_array()) { if (i >= j->v_.size()) throw invalid_iterator("cannot get value"); return j->v_[i]; } if (i || j->is_null()) throw invalid_iterator("cannot get value"); return *j; } J* operator->() const { return &**this; }
        iter& operator++() { i++; return *this; } iter operator++(int) { iter r = *this; i++; return r; } iter& operator--() { i--; return *this; } iter operator+(long n) const { return iter(j, i + n); } iter& operator+=(long n) { i += n; return *this; } long operator-(const iter& o) const { return (long)i - (long)o.i; }
        bool operator==(const iter<const json>& o) const { return j == o.j && i == o.i; } bool operator!=(const iter<const json>& o) const { return !(*this == o); }
        const std::string& key() const { if (!j->is_object()) throw invalid_iterator("cannot use key() for non-object iterators"); return j->k_[i]; } J& value() const { return **this; } };
    typedef iter<json> iterator; typedef iter<const json> const_iterator;
    json() : t_(value_t::null) {} json(std::nullptr_t) : t_(value_t::null) {} json(const std::string& s) : t_(value_t::string), s_(s) {} json(const char* s) : t_(value_t::string), s_(s) {} json(bool b) : t_(value_t::boolean), s_(b ? "1" : "0") {}
    json(int v) : t_(value_t::number_integer) { std::stringstream s; s << v; s_ = s.str(); } json(long v) : t_(value_t::number_integer) { std::stringstream s; s << v; s_ = s.str(); } json(unsigned long v) : t_(value_t::number_unsigned) { std::stringstream s; s << v; s_ = s.str(); } json(double v) : t_(value_t::number_float) { std::stringstream s; s.precision(17); s << v; s_ = s.str(); }
    static json object() { json j; j.t_ = value_t::object; return j; } static json array() { json j; j.t_ = value_t::array; return j; }
    value_t type() const { return t_; } const char* type_name() const { switch (t_) { case value_t::null: return "null"; case value_t::object: return "object"; case value_t::array: return "array"; case value_t::string: return "string"; case value_t::boolean: return "boolean"; case value_t::discarded: return "discarded"; default: return "number"; } }
    bool is_null() const { return t_ == value_t::null; } bool is_object() const { return t_ == value_t::object; } bool is_array() const { return t_ == value_t::array; } bool is_string() const { return t_ == value_t::string; } bool is_boolean() const { return t_ == value_t::boolean; } bool is_number() const { return t_ == value_t::number_integer || t_ == value_t::number_unsigned || t_ == value_t::number_float; } bool is_number_integer() const { return t_ == value_t::number_integer || t_ == value_t::number_unsigned; } bool is_number_unsigned() const { return t_ == value_t::number_unsigned; } bool is_number_float() const { return t_ == value_t::number_float; } bool is_primitive() const { return !is_structured(); } bool is_structured() const { return is_object() || is_array(); } bool is_discarded() const { return false; }
    std::size_t size() const { return is_null() ? 0 : is_structured() ? v_.size() : 1; } bool empty() const { return size() == 0; }
    iterator begin() { return iterator(this, 0); } iterator end() { return iterator(this, size()); } const_iterator begin() const { return const_iterator(this, 0); } const_iterator end() const { return const_iterator(this, size()); } const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
    const json& at(const std::string& k) const { need(is_object(), "cannot use at() with"); long i = where(k); if (i < 0) throw out_of_range("[json.exception.out_of_range.403] key '" + k + "' not found"); return v_[i]; } json& at(const std::string& k) { return const_cast<json&>(static_cast<const json*>(this)->at(k)); }
    const json& at(const char* k) const { return at(std::string(k)); } json& at(const char* k) { return at(std::string(k)); }
    const json& at(int i) const { return at((std::size_t)i); } const json& at(std::size_t i) const { need(is_array(), "cannot use at() with"); if (i >= v_.size()) throw out_of_range("[json.exception.out_of_range.401] array index is out of range"); return v_[i]; }
    const json& operator[](const char* k) const { return at(std::string(k)); } const json& operator[](const std::string& k) const { return at(k); } json& operator[](const std::string& k) { if (is_null()) t_ = value_t::object; need(is_object(), "cannot use operator[] with"); if (where(k) < 0) put(k, json()); return v_[where(k)]; } json& operator[](const char* k) { return (*this)[std::string(k)]; } const json& operator[](int i) const { return at(i); } const json& operator[](std::size_t i) const { return at(i); }
    const_iterator find(const std::string& k) const { long i = where(k); return i < 0 ? end() : const_iterator(this, i); } iterator find(const std::string& k) { long i = where(k); return i < 0 ? end() : iterator(this, i); } std::size_t count(const std::string& k) const { return where(k) >= 0; }
    const json& front() const { return *begin(); } json& front() { return *begin(); } const json& back() const { const_iterator i = end(); --i; return *i; }
    void push_back(const json& j) { if (is_null()) t_ = value_t::array; need(is_array(), "cannot use push_back() with"); v_.push_back(j); }
    template<class T> T get() const { T x; conv(x); return x; }
    template<class T, typename std::enable_if<!std::is_pointer<T>::value && !std::is_same<T, char>::value && !std::is_same<T, json>::value && !std::is_same<T, std::initializer_list<char>>::value && !std::is_reference<T>::value, int>::type = 0> operator T() const { return get<T>(); }
    template<class T> T value(const std::string& k, const T& d) const { need(is_object(), "cannot use value() with"); long i = where(k); return i < 0 ? d : v_[i].get<T>(); } std::string value(const std::string& k, const char* d) const { return value(k, std::string(d)); }
    bool operator==(const json& o) const { return t_ == o.t_ && s_ == o.s_ && k_ == o.k_ && v_ == o.v_; } bool operator!=(const json& o) const { return !(*this == o); }
    std::string dump(int = -1) const { std::string o; dump(o); return o; }
    static json parse(const std::string& s) { std::size_t p = 0; json j = value(s, p); skip(s, p); if (p < s.size()) bad(); return j; }
    static json parse(std::istream& i) { json j; i >> j; return j; }
    friend std::istream& operator>>(std::istream& i, json& j) { j = json(); if (!i._R()) bad(); json r = value(*i._R(), i._P()); j = r; return i; } friend std::istream& operator<<(json& j, std::istream& i) { return i >> j; }
    friend std::ostream& operator<<(std::ostream& o, const json& j) { return o << j.dump(); } friend std::ostream& operator>>(const json& j, std::ostream& o) { return o << j; }
};
}
#endif
