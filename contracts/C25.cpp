// C25 CSV writer: one comma-separated, newline-terminated line per call, fields in order, nothing added to or lost from them
#include "ghost_stream.hpp"
#include <fiction/io/csv_writer.hpp>
#include <sstream>
#include <string>
//FV: pipe = inline
using namespace fiction;

// a field type of our own: insertion writes two arbitrary characters
struct tok
{
    char a, b;
};
static std::ostream& operator<<(std::ostream& os, const tok& t) { return os << t.a << t.b; }
static tok any_tok(const char* a, const char* b)
{
    const auto x = fv::any_in<uint8_t>(a, 32, 126), y = fv::any_in<uint8_t>(b, 32, 126);
    return {static_cast<char>(x), static_cast<char>(y)};
}
#ifdef FV_SYMBOLIC
struct sink
{
    alignas(std::ostringstream) unsigned char raw[sizeof(std::ostringstream)];
    sink() { ghost::reset(); }
    std::ostream& os() { return *reinterpret_cast<std::ostream*>(raw); }
    uint64_t      len() { return ghost::LEN; }
    char          at(uint64_t i) { return ghost::OUT[i]; }
};
#else
struct sink
{
    std::ostringstream s;
    std::ostream&      os() { return s; }
    uint64_t           len() { return s.str().size(); }
    char               at(uint64_t i) { return s.str()[i]; }
};
#endif
static bool is(sink& s, uint64_t i, const tok& t) { return s.at(i) == t.a && s.at(i + 1) == t.b; }

FV_PROOF(empty_line)
{
    sink s;
    csv_writer w{s.os()};
    w.write_line();
    CHECK(s.len() == 1);
    CHECK(s.at(0) == '\n');
}
FV_PROOF(one_field)
{
    sink s;
    csv_writer w{s.os()};
    const tok a = any_tok("a", "b");
    w.write_line(a);
    CHECK(s.len() == 3);
    CHECK(is(s, 0, a));
    CHECK(s.at(2) == '\n');
}
FV_PROOF(two_fields)
{
    sink s;
    csv_writer w{s.os()};
    const tok a = any_tok("a", "b"), b = any_tok("c", "d");
    w.write_line(a, b);
    CHECK(s.len() == 6);
    CHECK(is(s, 0, a) && s.at(2) == ',' && is(s, 3, b) && s.at(5) == '\n');
}
FV_PROOF(five_fields)
{
    sink s;
    csv_writer w{s.os()};
    const tok a = any_tok("a", "b"), b = any_tok("c", "d"), c = any_tok("e", "f"), d = any_tok("g", "h"), e = any_tok("i", "j");
    w.write_line(a, b, c, d, e);
    CHECK(s.len() == 15);
    CHECK(is(s, 0, a) && is(s, 3, b) && is(s, 6, c) && is(s, 9, d) && is(s, 12, e));
    CHECK(s.at(2) == ',' && s.at(5) == ',' && s.at(8) == ',' && s.at(11) == ',' && s.at(14) == '\n');
}
FV_PROOF(several_lines)
{
    sink s;
    csv_writer w{s.os()};
    const tok a = any_tok("a", "b"), b = any_tok("c", "d"), c = any_tok("e", "f");
    w.write_line("h1", 'x');
    w.write_line(a, b);
    w.write_line();
    w.write_line(tok{c});
    CHECK(s.len() == 5 + 6 + 1 + 3);
    CHECK(s.at(0) == 'h' && s.at(1) == '1' && s.at(2) == ',' && s.at(3) == 'x' && s.at(4) == '\n');
    CHECK(is(s, 5, a) && s.at(7) == ',' && is(s, 8, b) && s.at(10) == '\n');
    CHECK(s.at(11) == '\n');
    CHECK(is(s, 12, c) && s.at(14) == '\n');
}
FV_PROOF(string_fields)
{
    sink s;
    csv_writer w{s.os()};
    // a text field of arbitrary characters
    char t[4] = {static_cast<char>(fv::any_in<uint8_t>("t0", 33, 126)), static_cast<char>(fv::any_in<uint8_t>("t1", 33, 126)), static_cast<char>(fv::any_in<uint8_t>("t2", 33, 126)), 0};
    const char*       p = t;
    const std::string str{t, 3};
    w.write_line(p, str);
    CHECK(s.len() == 8);
    CHECK(s.at(0) == t[0] && s.at(1) == t[1] && s.at(2) == t[2] && s.at(3) == ',');
    CHECK(s.at(4) == t[0] && s.at(5) == t[1] && s.at(6) == t[2] && s.at(7) == '\n');
}
