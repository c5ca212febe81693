// Documents of 13 shapes, with a symbolic letter each.
#pragma once
#include "md.h"
namespace
{
    std::string letter(const char* name)
    {
        std::string s = sym_str_n(name, 1);
        sym_assume((s[0] >= 'a') & (s[0] <= 'c'));
        return s;
    }
    enum { SHAPES = 13 };
    std::string sym_of(int shape, const char* name) { return shape % 3 == 2 || shape == 12 ? std::string("A") : letter(name); }
    bool sym_choice(int shape, const char* name) { return (shape == 0 || shape == 12) && sym_bool(name); }
    // documents that define what others refer to, of a letter and a choice
    void write(md::Doc& d, int shape, const std::string& x, bool choice)
    {
        switch (shape) {
            case 0:
                d.text("HOST: http://a/" + x);
                d.header(1, choice ? "N\xc3\xa9" : "Nee"); // as many octets, fewer characters
                d.text("t");
                break;
            case 1: // a named type
                d.header(1, "Data Structures");
                d.header(2, "A (object)");
                d.item("k: " + x);
                d.end();
                d.header(2, "D");
                d.item("p: 1 (A)");
                d.end();
                break;
            case 2: // referred to, with a body generated from it
                d.header(1, "GET /r");
                d.item("Response 200 (application/json)");
                d.item("Attributes (A)");
                d.end();
                d.end();
                break;
            case 3: // a model
                d.header(1, "M [/m]");
                d.item("Model (text/plain)");
                d.code(x);
                d.end();
                d.header(2, "GET");
                d.item("Response 200");
                d.end();
                break;
            case 4: // referred to
                d.header(1, "R [/r]");
                d.header(2, "GET");
                d.item("Response 200");
                d.text("[M][]");
                d.end();
                d.text(x);
                break;
            case 5: // parameters, headers
                d.header(1, "GET /{id}");
                d.item("Parameters");
                d.item("id: 1 (number)");
                d.end();
                d.end();
                d.item("Response 200");
                d.item("Headers");
                d.code("X: 1");
                d.end();
                d.end();
                break;
            case 6: // the same once more, named
                d.header(1, "GET /r");
                d.item("Relation: x");
                d.end();
                d.item("Response 200");
                d.end();
                d.text(x);
                break;
            case 7: // a type with the same name, of another kind
                d.header(1, "Data Structures");
                d.header(2, "A (enum)");
                d.item(x);
                d.end();
                break;
            case 8: // a mixin of it
                d.header(1, "Data Structures");
                d.header(2, "B");
                d.item("Include A");
                d.end();
                d.item("j: 2 (number)");
                d.end();
                break;
            case 9: // a group with a resource that is defined twice
                d.header(1, "Group " + x);
                d.header(2, "GET /r");
                d.item("Response 200");
                d.end();
                d.header(2, "GET /r");
                d.item("Response 200");
                d.end();
                break;
            case 10: // a circle
                d.header(1, "Data Structures");
                d.header(2, "A (B)");
                d.header(2, "B (A)");
                d.text(x);
                break;
            case 12: // a type with the same name, and a value of it
                d.header(1, "Data Structures");
                d.header(2, choice ? "A (number)" : "A (string)");
                d.header(2, "D");
                d.item("p: 1 (A)");
                d.end();
                break;
            default: // attributes that are another's type
                d.header(1, "R [/r]");
                d.item("Attributes (B)");
                d.end();
                d.header(2, "GET");
                d.item("Response 200 (application/json)");
                d.item("Attributes (R)");
                d.end();
                d.end();
        }
    }
    // other names in the order of those that are used
    const char names[] = "ABDMR", others[] = "PQSUV";
    void rename(std::string& s, const char* from, const char* to)
    {
        auto letter = [&](size_t i) { return i < s.size() && ((s[i] >= 'A' && s[i] <= 'Z') || (s[i] >= 'a' && s[i] <= 'z')); };
        for (size_t i = 0; i < s.size(); ++i)
            for (int k = 0; from[k]; ++k)
                if (s[i] == from[k] && !letter(i - 1) && !letter(i + 1)) {
                    s[i] = to[k];
                    break;
                }
    }
    void rename(mdp::MarkdownNode& n)
    {
        rename(n.text, names, others);
        for (auto& c : n.children()) rename(c);
    }
}
