// C28 technology mapping libraries: every gate entry has the function its name states
#include "fv.hpp"
#include <fiction/technology/technology_mapping_library.hpp>
//FV: pipe = light
//FV: max_iter = 3000
//FV: ctors = GATE_|DECAY_
using namespace fiction;

// truth tables over the inputs a (bit 0 of the index), b, c
static constexpr uint8_t A = 0xaa, B = 0xcc, C = 0xf0;
struct entry
{
    char    name[16];
    uint8_t tt;    // function of the entry
    uint8_t vars;  // set of inputs that occur
    bool    ok;
};
struct parser
{
    const char* p;
    bool        ok   = true;
    uint8_t     vars = 0;
    void        blank()
    {
        while (*p == ' ') ++p;
    }
    bool eat(char c)
    {
        blank();
        if (*p != c) return false;
        ++p;
        return true;
    }
    bool word(const char* w)
    {
        blank();
        const char* q = p;
        while (*w != 0 && *q == *w) ++q, ++w;
        if (*w != 0) return false;
        p = q;
        return true;
    }
    uint8_t factor()
    {
        if (eat('!')) return static_cast<uint8_t>(~factor());
        if (eat('('))
        {
            const auto r = sum();
            ok           = eat(')') && ok;
            return r;
        }
        if (word("CONST0")) return 0;
        if (word("CONST1")) return 0xff;
        blank();
        if (*p < 'a' || *p > 'c')
        {
            ok = false;
            return 0;
        }
        vars |= static_cast<uint8_t>(1u << (*p - 'a'));
        const uint8_t r = *p == 'a' ? A : *p == 'b' ? B : C;
        ++p;
        return r;
    }
    uint8_t product()
    {
        auto r = factor();
        while (ok && eat('*')) r &= factor();
        return r;
    }
    uint8_t exor()
    {
        auto r = product();
        while (ok && eat('^')) r ^= product();
        return r;
    }
    uint8_t sum()
    {
        auto r = exor();
        while (ok && eat('+')) r |= exor();
        return r;
    }
    bool skip(char c)  // to the character after the next c on this line
    {
        while (*p != 0 && *p != c && *p != '\n') ++p;
        return *p == c ? (++p, true) : false;
    }
    entry next()
    {
        entry e{};
        ok   = word("GATE");
        vars = 0;
        blank();
        int k = 0;
        while (*p != ' ' && *p != 0 && k < 15) e.name[k++] = *p++;
        ok = ok && skip('O') && eat('=');
        if (!ok) return e;
        e.tt   = sum();
        e.vars = vars;
        ok     = ok && eat(';');
        // the remaining part of the line: a pin description, and the end of the line so that libraries can be concatenated
        ok   = ok && skip('\n');
        e.ok = ok;
        return e;
    }
};
static bool eqs(const char* a, const char* b)
{
    while (*a != 0 && *a == *b) ++a, ++b;
    return *a == *b;
}
// the functions the names stand for (inputs a, b, c in this order)
struct def
{
    const char* name;
    uint8_t     tt;
    uint8_t     vars;
};
static constexpr uint8_t N(int x) { return static_cast<uint8_t>(~x); }
static constexpr def     DEFS[] = {
    {"zero", 0x00, 0},       {"one", 0xff, 0},        {"buf", A, 1},           {"inv1", N(A), 1},      {"and2", A & B, 3},         {"nand2", N(A & B), 3}, {"or2", A | B, 3},
    {"nor2", N(A | B), 3},   {"xor2", A ^ B, 3},      {"xnor2", N(A ^ B), 3},  {"lt2", N(A) & B, 3},   {"gt2", A & N(B), 3},       {"le2", N(A & N(B)), 3}, {"ge2", N(N(A) & B), 3},
    {"and3", A & B & C, 7},  {"xor_and", A & (B ^ C), 7}, {"or_and", A & (B | C), 7},
    {"onehot", (A & N(B) & N(C)) | (N(A) & B & N(C)) | (N(A) & N(B) & C), 7},
    {"maj3", (A & B) | (A & C) | (B & C), 7},
    {"gamble", (A & B & C) | (N(A) & N(B) & N(C)), 7},
    {"dot", A ^ (C | (A & B)), 7},
    {"mux", (A & N(C)) | (B & C), 7},
    {"and_xor", A ^ (B & C), 7},
};
static void single(const char* text, const char* name)
{
    parser     p{text};
    const auto e = p.next();
    CHECKN("the entry can be parsed", e.ok && *p.p == 0);
    CHECKN("the entry has its name", eqs(e.name, name));
    for (const auto& d : DEFS)
        if (eqs(d.name, name))
        {
            CHECKN("exactly the input pins of the gate occur", e.vars == d.vars);
            const auto i = fv::any_in<uint8_t>("assignment", 0, 7);
            CHECKN("the function is the one the name states", ((e.tt >> i) & 1) == ((d.tt >> i) & 1));
        }
}
// restriction of a three-input function to input k = v, over the remaining inputs in order
static uint8_t cofactor(uint8_t tt, int k, int v)
{
    uint8_t r = 0;
    for (int i = 0; i < 8; ++i)
    {
        // index into the parent: insert v at position k into the two low bits of i
        const int lo = i & ((1 << k) - 1), hi = (i & 3) >> k;
        const int j = lo | (v << k) | (hi << (k + 1));
        r |= static_cast<uint8_t>(((tt >> j) & 1) << i);
    }
    return r;
}
// decayed gates: their gate with one input held constant, the remaining inputs keeping their order
static void decayed(const char* text, const char* gate, unsigned n)
{
    uint8_t parent = 0;
    for (const auto& d : DEFS)
        if (eqs(d.name, gate)) parent = d.tt;
    parser   p{text};
    unsigned seen = 0;
    uint8_t  had[8]{};
    while (*p.p != 0 && seen < 8)
    {
        const auto e = p.next();
        CHECKN("the entry can be parsed", e.ok);
        if (!e.ok) return;
        ++seen;
        CHECKN("decayed entries are numbered and carry their gate's name", e.name[0] == 'd' && e.name[1] == static_cast<char>('0' + seen) && e.name[2] == '_' && eqs(e.name + 3, gate));
        CHECKN("at most two input pins remain, named in order", e.vars == 1 || e.vars == 3);
        bool is = false, fresh = true;
        for (int k = 0; k < 3; ++k)
            for (int v = 0; v < 2; ++v)
            {
                const uint8_t f = cofactor(parent, k, v);
                is              = is || e.tt == f;
                // an input the restriction does not depend on has no pin: the other one is then the first
                const bool only_b = (((f >> 1) ^ f) & 0x55) == 0;
                const auto g      = static_cast<uint8_t>((f & 1 ? 0x55 : 0) | (f & 4 ? 0xaa : 0));
                is                = is || (only_b && e.tt == g);
            }
        CHECKN("a decayed gate is its gate with one input held constant", is);
        for (unsigned i = 0; i + 1 < seen; ++i) fresh = fresh && had[i] != e.tt;
        CHECKN("decayed variants of a gate differ", fresh);
        had[seen - 1] = e.tt;
    }
    CHECKN("number of decayed variants", seen == n);
}
FV_PROOF(small_gates)
{
    single(GATE_ZERO, "zero");
    single(GATE_ONE, "one");
    single(GATE_BUF, "buf");
    single(GATE_INV, "inv1");
    single(GATE_AND2, "and2");
    single(GATE_NAND2, "nand2");
    single(GATE_OR2, "or2");
    single(GATE_NOR2, "nor2");
    single(GATE_XOR2, "xor2");
    single(GATE_XNOR2, "xnor2");
    single(GATE_LT2, "lt2");
    single(GATE_GT2, "gt2");
    single(GATE_LE2, "le2");
    single(GATE_GE2, "ge2");
}
FV_PROOF(three_input_gates)
{
    single(GATE_AND3, "and3");
    single(GATE_XOR_AND, "xor_and");
    single(GATE_OR_AND, "or_and");
    single(GATE_ONEHOT, "onehot");
    single(GATE_MAJ3, "maj3");
    single(GATE_GAMBLE, "gamble");
    single(GATE_DOT, "dot");
    single(GATE_MUX, "mux");
    single(GATE_AND_XOR, "and_xor");
}
FV_PROOF(decayed_gates)
{
    decayed(DECAY_AND3, "and3", 1);
    decayed(DECAY_XOR_AND, "xor_and", 3);
    decayed(DECAY_OR_AND, "or_and", 3);
    decayed(DECAY_ONEHOT, "onehot", 2);
    decayed(DECAY_MAJ3, "maj3", 2);
    decayed(DECAY_GAMBLE, "gamble", 2);
    decayed(DECAY_DOT, "dot", 6);
    decayed(DECAY_MUX, "mux", 5);
    decayed(DECAY_AND_XOR, "and_xor", 3);
}
