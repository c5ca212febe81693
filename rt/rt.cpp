// Definitions of the libstdc++/libc entry points that are not header-only, for the symbolic engine.
// Behaviour follows the C++ and C standards in the "C" locale; allocation never fails below 8 MiB.
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>

namespace std
{
    exception::~exception() noexcept {}
    const char* exception::what() const noexcept { return "std::exception"; }
    bad_exception::~bad_exception() noexcept {}
    const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
    bad_alloc::~bad_alloc() noexcept {}
    const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
    bad_cast::~bad_cast() noexcept {}
    const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
    bad_typeid::~bad_typeid() noexcept {}
    const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
    bad_array_new_length::~bad_array_new_length() noexcept {}
    const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
    bad_function_call::~bad_function_call() noexcept {}
    const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
    type_info::~type_info() {}

    // __cow_string: keep a shared, reference-counted copy of the message
    struct __symmsg {
        size_t rc;
        char* p;
    };
    static void* mkmsg(const char* s, size_t n)
    {
        __symmsg* m = new __symmsg;
        m->rc = 1;
        m->p = new char[n + 1];
        for (size_t i = 0; i < n; ++i) m->p[i] = s[i];
        m->p[n] = 0;
        return m;
    }
#define MSG(x) (*reinterpret_cast<__symmsg**>(&(x)))
    __cow_string::__cow_string() { MSG(*this) = (__symmsg*)mkmsg("", 0); }
    __cow_string::__cow_string(const std::string& s) { MSG(*this) = (__symmsg*)mkmsg(s.data(), s.size()); }
    __cow_string::__cow_string(const char* s, size_t n) { MSG(*this) = (__symmsg*)mkmsg(s, n); }
    __cow_string::__cow_string(const __cow_string& o) noexcept { MSG(*this) = *reinterpret_cast<__symmsg* const*>(&o); MSG(*this)->rc++; }
    __cow_string& __cow_string::operator=(const __cow_string& o) noexcept
    {
        __symmsg* n = *reinterpret_cast<__symmsg* const*>(&o);
        n->rc++;
        this->~__cow_string();
        MSG(*this) = n;
        return *this;
    }
    __cow_string::~__cow_string()
    {
        __symmsg* m = MSG(*this);
        if (m && --m->rc == 0) {
            delete[] m->p;
            delete m;
        }
    }
    logic_error::logic_error(const string& s) : _M_msg(s) {}
    logic_error::logic_error(const char* s) : _M_msg(s, __builtin_strlen(s)) {}
    logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
    logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
    logic_error::~logic_error() noexcept {}
    const char* logic_error::what() const noexcept { return (*reinterpret_cast<__symmsg* const*>(&_M_msg))->p; }
    runtime_error::runtime_error(const string& s) : _M_msg(s) {}
    runtime_error::runtime_error(const char* s) : _M_msg(s, __builtin_strlen(s)) {}
    runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
    runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
    runtime_error::~runtime_error() noexcept {}
    const char* runtime_error::what() const noexcept { return (*reinterpret_cast<__symmsg* const*>(&_M_msg))->p; }
#define DEFERR(n, b)                                                                                                   \
    n::n(const string& s) : b(s) {}                                                                                    \
    n::n(const char* s) : b(s) {}                                                                                      \
    n::~n() noexcept {}
    DEFERR(domain_error, logic_error)
    DEFERR(invalid_argument, logic_error)
    DEFERR(length_error, logic_error)
    DEFERR(out_of_range, logic_error)
    DEFERR(range_error, runtime_error)
    DEFERR(overflow_error, runtime_error)
    DEFERR(underflow_error, runtime_error)

    void __throw_bad_exception() { throw bad_exception(); }
    void __throw_bad_alloc() { throw bad_alloc(); }
    void __throw_bad_array_new_length() { throw bad_array_new_length(); }
    void __throw_bad_cast() { throw bad_cast(); }
    void __throw_bad_typeid() { throw bad_typeid(); }
    void __throw_bad_function_call() { throw bad_function_call(); }
    void __throw_logic_error(const char* s) { throw logic_error(s); }
    void __throw_domain_error(const char* s) { throw domain_error(s); }
    void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
    void __throw_length_error(const char* s) { throw length_error(s); }
    void __throw_out_of_range(const char* s) { throw out_of_range(s); }
    void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
    void __throw_runtime_error(const char* s) { throw runtime_error(s); }
    void __throw_range_error(const char* s) { throw range_error(s); }
    void __throw_overflow_error(const char* s) { throw overflow_error(s); }
    void __throw_underflow_error(const char* s) { throw underflow_error(s); }
    void __throw_system_error(int) { throw runtime_error("system_error"); }

    // red-black tree primitives: ordering semantics only (a plain binary search tree keeps every invariant the
    // containers rely on; balance affects cost, not behaviour)
    _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
    {
        if (x->_M_right) {
            x = x->_M_right;
            while (x->_M_left) x = x->_M_left;
        } else {
            _Rb_tree_node_base* y = x->_M_parent;
            while (x == y->_M_right) {
                x = y;
                y = y->_M_parent;
            }
            if (x->_M_right != y) x = y;
        }
        return x;
    }
    const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw()
    {
        return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
    }
    _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
    {
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) // header
            x = x->_M_right;
        else if (x->_M_left) {
            _Rb_tree_node_base* y = x->_M_left;
            while (y->_M_right) y = y->_M_right;
            x = y;
        } else {
            _Rb_tree_node_base* y = x->_M_parent;
            while (x == y->_M_left) {
                x = y;
                y = y->_M_parent;
            }
            x = y;
        }
        return x;
    }
    const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw()
    {
        return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
    }
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
    {
        x->_M_parent = p;
        x->_M_left = x->_M_right = 0;
        x->_M_color = _S_black; // header alone is red: see decrement
        if (left) {
            p->_M_left = x;
            if (p == &h) {
                h._M_parent = x;
                h._M_right = x;
            } else if (p == h._M_left)
                h._M_left = x;
        } else {
            p->_M_right = x;
            if (p == h._M_right) h._M_right = x;
        }
    }
    _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
    {
        auto replace = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) {
            if (h._M_parent == u) h._M_parent = v;
            else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
            else u->_M_parent->_M_right = v;
            if (v) v->_M_parent = u->_M_parent;
        };
        if (h._M_left == z) h._M_left = _Rb_tree_increment(z);
        if (h._M_right == z) {
            if (h._M_parent == z && !z->_M_left && !z->_M_right) h._M_right = &h;
            else h._M_right = _Rb_tree_decrement(z);
        }
        if (!z->_M_left) replace(z, z->_M_right);
        else if (!z->_M_right) replace(z, z->_M_left);
        else {
            _Rb_tree_node_base* y = z->_M_right;
            while (y->_M_left) y = y->_M_left;
            if (y->_M_parent != z) {
                replace(y, y->_M_right);
                y->_M_right = z->_M_right;
                y->_M_right->_M_parent = y;
            }
            replace(z, y);
            y->_M_left = z->_M_left;
            y->_M_left->_M_parent = y;
        }
        if (!h._M_parent) h._M_left = h._M_right = &h;
        return z;
    }
    namespace __detail
    {
        void _List_node_base::_M_hook(_List_node_base* const p) noexcept
        {
            _M_next = p;
            _M_prev = p->_M_prev;
            p->_M_prev->_M_next = this;
            p->_M_prev = this;
        }
        void _List_node_base::_M_unhook() noexcept
        {
            _M_next->_M_prev = _M_prev;
            _M_prev->_M_next = _M_next;
        }
        void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept
        {
            if (this != l) {
                l->_M_prev->_M_next = this;
                f->_M_prev->_M_next = l;
                this->_M_prev->_M_next = f;
                _List_node_base* t = this->_M_prev;
                this->_M_prev = l->_M_prev;
                l->_M_prev = f->_M_prev;
                f->_M_prev = t;
            }
        }
    }
    ostream cout, cerr, clog;
    istream cin;
    namespace
    {
        struct File {
            string name, text;
            File* next;
        }* files;
    }
    string* _sym_file(const char* name, bool make)
    {
        for (File* f = files; f; f = f->next)
            if (f->name == name) return &f->text;
        if (!make) return nullptr;
        files = new File{ name, string(), files };
        return &files->text;
    }
    static struct SinkInit {
        SinkInit() { cout._sink = cerr._sink = clog._sink = true; }
    } sinkInit;
}

#include "ere.inc"
extern "C" {
void __sym_throw_bad_alloc() { throw std::bad_alloc(); }
void __sym_throw_bad_cast() { throw std::bad_cast(); }

}
#include "sundown.inc"
