// Stand-in for the command line library drafter is built with, which is not in the tree: what drafter uses of it.
#pragma once
#include <cstdlib>
#include <iostream>
#include <string>
#include <vector>
namespace cmdline
{
    template <typename T>
    struct oneof_reader {
        std::vector<T> of;
    };
    template <typename T>
    oneof_reader<T> oneof(const T& a, const T& b) { return { { a, b } }; }
    class parser
    {
        struct Option {
            std::string name;
            char letter;
            bool valued, needed, given;
            std::string value;
            std::vector<std::string> of;
        };
        std::vector<Option> options;
        std::vector<std::string> others, errors;
        std::string program, end;
        Option* named(const std::string& n)
        {
            for (auto& o : options)
                if (o.name == n) return &o;
            return nullptr;
        }
        void give(Option& o, const std::string& v)
        {
            bool ok = o.of.empty();
            for (auto& x : o.of) ok |= x == v;
            if (!ok) errors.push_back("option value is invalid: --" + o.name + "=" + v);
            else o.given = true, o.value = v;
        }

    public:
        void set_program_name(const std::string& n) { program = n; }
        void footer(const std::string& f) { end = f; }
        void add(const std::string& n, char letter = 0, const std::string& = "") { options.push_back({ n, letter, false, false, false, "", {} }); }
        template <typename T>
        void add(const std::string& n, char letter = 0, const std::string& = "", bool need = true, const T def = T())
        {
            options.push_back({ n, letter, true, need, false, def, {} });
        }
        template <typename T, typename F>
        void add(const std::string& n, char letter, const std::string&, bool need, const T def, F reader)
        {
            options.push_back({ n, letter, true, need, false, def, reader.of });
        }
        bool exist(const std::string& n) const
        {
            auto* o = const_cast<parser*>(this)->named(n);
            if (!o) throw "no such option";
            return o->given;
        }
        template <typename T>
        const T& get(const std::string& n) const
        {
            auto* o = const_cast<parser*>(this)->named(n);
            if (!o) throw "no such option";
            return o->value;
        }
        const std::vector<std::string>& rest() const { return others; }
        std::string error() const { return errors.empty() ? "" : errors[0]; }
        std::string usage() const { return "usage: " + program + " [options] ... " + end; }
        bool parse(int argc, const char* const argv[])
        {
            for (int i = 1; i < argc; ++i) {
                std::string a = argv[i];
                if (a.size() > 2 && a[0] == '-' && a[1] == '-') {
                    size_t eq = a.find('=');
                    Option* o = named(a.substr(2, eq == a.npos ? a.npos : eq - 2));
                    if (!o) errors.push_back("undefined option: " + a);
                    else if (eq != a.npos) {
                        if (o->valued) give(*o, a.substr(eq + 1));
                        else errors.push_back("option needs no value: " + a);
                    } else if (!o->valued) o->given = true;
                    else if (i + 1 < argc) give(*o, argv[++i]);
                    else errors.push_back("option needs value: " + a);
                } else if (a.size() > 1 && a[0] == '-') {
                    for (size_t k = 1; k < a.size(); ++k) {
                        Option* o = nullptr;
                        for (auto& x : options)
                            if (x.letter == a[k]) o = &x;
                        if (!o) errors.push_back("undefined short option: " + a);
                        else if (!o->valued) o->given = true;
                        else if (k + 1 == a.size() && i + 1 < argc) give(*o, argv[++i]);
                        else errors.push_back("option needs value: " + a);
                    }
                } else
                    others.push_back(a);
            }
            for (auto& o : options)
                if (o.needed && !o.given) errors.push_back("need option: --" + o.name);
            return errors.empty();
        }
        void parse_check(int argc, const char* const argv[])
        {
            if (!named("help")) add("help", '?', "print this message");
            bool ok = parse(argc, argv);
            if ((argc == 1 && !ok) || exist("help")) {
                std::cerr << usage();
                exit(0);
            }
            if (!ok) {
                std::cerr << error() << std::endl << usage();
                exit(1);
            }
        }
    };
}
