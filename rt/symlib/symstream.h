// Model of the iostream library used under symbolic execution: streams are append-only byte sequences.
// Covers what drafter uses: <<, put, write, hex/uppercase manipulators, endl, ostringstream/stringstream, getline.
#pragma once
#include <iosfwd>
#include <string>
#include <exception>
#include <stdexcept>
#include <memory>
#include <bits/localefwd.h>
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <cstddef>
namespace std
{
    class ios_base
    {
    public:
        typedef int fmtflags;
        typedef int openmode;
        typedef int iostate;
        typedef int seekdir;
        static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
        static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
        static constexpr fmtflags hex = 1, dec = 2, oct = 4, uppercase = 8, basefield = 7, boolalpha = 16;
        static constexpr seekdir beg = 0, cur = 1, end = 2;
        struct Init { Init() {} };
        class failure : public exception {};
        iostate _st = 0;
        fmtflags _fl = dec;
        int _w = 0;
        char _fill = ' ';
        fmtflags flags() const { return _fl; }
        int width() const { return _w; }
        int width(int w) { int o = _w; _w = w; return o; }
        virtual ~ios_base() {}
    };
    template <typename C, typename T>
    class basic_streambuf
    {
    public:
        virtual ~basic_streambuf() {}
        virtual void _sput(const C*, size_t) {}
        // what is left to read, which counts as read
        virtual basic_string<C> _srest() { return basic_string<C>(); }
    };
    // a file: its contents for as long as the run lasts; null if there is no such file and none is made
    string* _sym_file(const char* name, bool make);
    template <typename C, typename T>
    class basic_ios : public ios_base
    {
    public:
        bool good() const { return _st == 0; }
        bool eof() const { return _st & eofbit; }
        bool fail() const { return _st & (failbit | badbit); }
        bool bad() const { return _st & badbit; }
        explicit operator bool() const { return !fail(); }
        bool operator!() const { return fail(); }
        void setstate(iostate s) { _st |= s; }
        void clear(iostate s = 0) { _st = s; }
        iostate rdstate() const { return _st; }
        C fill(C c) { C o = _fill; _fill = c; return o; }
    };
    template <typename C, typename T>
    class basic_ostream : virtual public basic_ios<C, T>
    {
    public:
        basic_string<C> _buf;
        bool _sink = false;
        basic_streambuf<C, T>* _sb = nullptr;
        basic_ostream() {}
        explicit basic_ostream(basic_streambuf<C, T>* b) : _sb(b) {}
        virtual ~basic_ostream() {}
        void __put(const C* s, size_t n)
        {
            if (_sb) {
                for (int w = this->_w - (int)n; w > 0; --w) _sb->_sput(&this->_fill, 1);
                this->_w = 0;
                _sb->_sput(s, n);
                return;
            }
            if (_sink) return;
            if (this->_w > (int)n) _buf.append(this->_w - n, this->_fill);
            this->_w = 0;
            _buf.append(s, n);
        }
        void __num(unsigned long long v, bool neg)
        {
            C b[24];
            int i = 24;
            unsigned base = (this->_fl & ios_base::hex) ? 16 : (this->_fl & ios_base::oct) ? 8 : 10;
            do {
                unsigned d = v % base;
                b[--i] = d < 10 ? '0' + d : ((this->_fl & ios_base::uppercase) ? 'A' : 'a') + d - 10;
                v /= base;
            } while (v);
            if (neg) b[--i] = '-';
            __put(b + i, 24 - i);
        }
        basic_ostream& write(const C* s, streamsize n) { int w = this->_w; this->_w = 0; __put(s, n); (void)w; return *this; }
        basic_ostream& put(C c) { this->_w = 0; __put(&c, 1); return *this; }
        basic_ostream& flush() { return *this; }
        basic_ostream& operator<<(int v) { if (this->_fl & ios_base::hex) __num((unsigned)v, false); else __num(v < 0 ? 0ull - (unsigned long long)(long long)v : v, v < 0); return *this; }
        basic_ostream& operator<<(unsigned v) { __num(v, false); return *this; }
        basic_ostream& operator<<(short v) { return *this << (int)v; }
        basic_ostream& operator<<(unsigned short v) { return *this << (unsigned)v; }
        basic_ostream& operator<<(long v) { if (this->_fl & ios_base::hex) __num(v, false); else __num(v < 0 ? 0ull - (unsigned long long)v : v, v < 0); return *this; }
        basic_ostream& operator<<(unsigned long v) { __num(v, false); return *this; }
        basic_ostream& operator<<(long long v) { return *this << (long)v; }
        basic_ostream& operator<<(unsigned long long v) { __num(v, false); return *this; }
        basic_ostream& operator<<(bool v)
        {
            if (this->_fl & ios_base::boolalpha) { if (v) __put("true", 4); else __put("false", 5); }
            else __num(v, false);
            return *this;
        }
        basic_ostream& operator<<(double v)
        {
            char b[40];
            int n = ::snprintf(b, sizeof b, "%g", v);
            __put(b, n);
            return *this;
        }
        basic_ostream& operator<<(const void* p) { __put("0x", 2); return *this; }
        basic_ostream& operator<<(nullptr_t) { __put("nullptr", 7); return *this; }
        basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
        basic_ostream& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
        basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
        basic_ostream& operator<<(basic_streambuf<C, T>* b)
        {
            basic_string<C> s = b ? b->_srest() : basic_string<C>();
            if (s.empty()) this->_st |= b ? ios_base::failbit : ios_base::badbit;
            else __put(s.data(), s.size());
            return *this;
        }
        basic_streambuf<C, T>* rdbuf() const { return _sb; }
        basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { basic_streambuf<C, T>* o = _sb; _sb = b; return o; }
    };
    template <typename T>
    inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s)
    {
        o.__put(s, __builtin_strlen(s));
        return o;
    }
    template <typename T>
    inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { o.__put(&c, 1); return o; }
    template <typename T>
    inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { o.__put((char*)&c, 1); return o; }
    template <typename T>
    inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { o.__put((char*)&c, 1); return o; }
    template <typename T>
    inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const unsigned char* s) { return o << (const char*)s; }
    template <typename C, typename T>
    inline basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { C c = '\n'; return o.put(c); }
    template <typename C, typename T>
    inline basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
    inline ios_base& hex(ios_base& b) { b._fl = (b._fl & ~ios_base::basefield) | ios_base::hex; return b; }
    inline ios_base& dec(ios_base& b) { b._fl = (b._fl & ~ios_base::basefield) | ios_base::dec; return b; }
    inline ios_base& oct(ios_base& b) { b._fl = (b._fl & ~ios_base::basefield) | ios_base::oct; return b; }
    inline ios_base& uppercase(ios_base& b) { b._fl |= ios_base::uppercase; return b; }
    inline ios_base& nouppercase(ios_base& b) { b._fl &= ~ios_base::uppercase; return b; }
    inline ios_base& boolalpha(ios_base& b) { b._fl |= ios_base::boolalpha; return b; }
    inline ios_base& noboolalpha(ios_base& b) { b._fl &= ~ios_base::boolalpha; return b; }
    inline ios_base& left(ios_base& b) { return b; }
    inline ios_base& right(ios_base& b) { return b; }
    inline ios_base& fixed(ios_base& b) { return b; }
    struct _SymSetw { int n; };
    inline _SymSetw setw(int n) { return { n }; }
    template <typename C, typename T>
    basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _SymSetw w) { o._w = w.n; return o; }
    template <typename C>
    struct _SymFill { C c; };
    template <typename C>
    inline _SymFill<C> setfill(C c) { return { c }; }
    template <typename C, typename T>
    basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _SymFill<C> w) { o._fill = w.c; return o; }

    template <typename C, typename T>
    class basic_istream : virtual public basic_ios<C, T>
    {
    public:
        basic_string<C> _in;
        size_t _pos = 0;
        struct _Rest : basic_streambuf<C, T>
        {
            basic_istream* _of = nullptr;
            basic_string<C> _srest() override
            {
                basic_string<C> s = _of->_in.substr(_of->_pos);
                _of->_pos = _of->_in.size();
                return s;
            }
        };
        mutable _Rest _own;
        basic_streambuf<C, T>* _isb = nullptr; // another's, of which only the rest can be had
        basic_istream() {}
        explicit basic_istream(basic_streambuf<C, T>* b) : _isb(b) {}
        virtual ~basic_istream() {}
        int get()
        {
            if (_pos >= _in.size()) { this->_st |= ios_base::eofbit | ios_base::failbit; return -1; }
            return (unsigned char)_in[_pos++];
        }
        // decimal, as num_get reads it
        basic_istream& operator>>(unsigned& v)
        {
            while (_pos < _in.size() && (_in[_pos] == ' ' || (unsigned)(_in[_pos] - 9) <= 4u)) ++_pos;
            bool neg = false, any = false, over = false;
            if (this->_st) { this->_st |= ios_base::failbit; return *this; }
            if (_pos < _in.size() && (_in[_pos] == '+' || _in[_pos] == '-')) neg = _in[_pos++] == '-';
            unsigned long n = 0;
            for (; _pos < _in.size() && (unsigned)(_in[_pos] - '0') <= 9u; ++_pos) {
                any = true;
                if (!over) n = n * 10 + (unsigned)(_in[_pos] - '0');
                over |= n > 0xffffffffu;
            }
            if (_pos >= _in.size()) this->_st |= ios_base::eofbit;
            if (!any) v = 0, this->_st |= ios_base::failbit;
            else if (over) v = 0xffffffffu, this->_st |= ios_base::failbit;
            else v = neg ? 0u - (unsigned)n : (unsigned)n;
            return *this;
        }
        int peek() { return _pos < _in.size() ? (unsigned char)_in[_pos] : -1; }
        basic_streambuf<C, T>* rdbuf() const
        {
            if (_isb) return _isb;
            _own._of = const_cast<basic_istream*>(this);
            return &_own;
        }
        basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { basic_streambuf<C, T>* o = _isb; _isb = b; return o; }
    };
    // non-template overloads: preferred over libstdc++'s buffer-based templates
    inline istream& getline(istream& is, string& s, char delim)
    {
        typedef char C;
        if (is._st) { is._st |= ios_base::failbit; return is; }
        s.clear();
        if (is._pos >= is._in.size()) { is._st |= ios_base::eofbit | ios_base::failbit; return is; }
        while (true) {
            if (is._pos >= is._in.size()) { is._st |= ios_base::eofbit; break; }
            C c = is._in[is._pos++];
            if (c == delim) break;
            s.push_back(c);
        }
        return is;
    }
    inline istream& getline(istream& is, string& s) { return getline(is, s, '\n'); }

    template <typename C, typename T>
    class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T>
    {
    public:
        virtual ~basic_iostream() {}
    };
    _GLIBCXX_BEGIN_NAMESPACE_CXX11
    template <typename C, typename T, typename A>
    class basic_ostringstream : public basic_ostream<C, T>
    {
    public:
        basic_ostringstream() {}
        explicit basic_ostringstream(ios_base::openmode) {}
        explicit basic_ostringstream(const basic_string<C>& s, ios_base::openmode m = ios_base::out) { if (m & (ios_base::app | ios_base::ate)) this->_buf = s; }
        basic_string<C> str() const { return this->_buf; }
        void str(const basic_string<C>& s) { this->_buf = s; }
    };
    template <typename C, typename T, typename A>
    class basic_istringstream : public basic_istream<C, T>
    {
    public:
        basic_istringstream() {}
        explicit basic_istringstream(const basic_string<C>& s, ios_base::openmode = ios_base::in) { this->_in = s; }
        basic_string<C> str() const { return this->_in; }
    };
    // writes are visible to str(); reads start from the constructor's string
    template <typename C, typename T, typename A>
    class basic_stringstream : public basic_iostream<C, T>
    {
    public:
        basic_stringstream() {}
        explicit basic_stringstream(ios_base::openmode) {}
        explicit basic_stringstream(const basic_string<C>& s, ios_base::openmode m = ios_base::in | ios_base::out) { this->_in = s; if (m & (ios_base::app | ios_base::ate)) this->_buf = s; }
        basic_string<C> str() const { return this->_buf.empty() ? this->_in : this->_buf; }
        void str(const basic_string<C>& s) { this->_in = s; this->_buf.clear(); this->_pos = 0; }
    };
    template <typename C, typename T, typename A>
    class basic_stringbuf : public basic_streambuf<C, T>
    {
        basic_string<C> _t;
        size_t _at = 0;
    public:
        basic_stringbuf() {}
        explicit basic_stringbuf(ios_base::openmode) {}
        explicit basic_stringbuf(const basic_string<C>& s, ios_base::openmode = ios_base::in | ios_base::out) : _t(s) {}
        void _sput(const C* s, size_t n) override { _t.append(s, n); }
        basic_string<C> _srest() override
        {
            basic_string<C> s = _t.substr(_at);
            _at = _t.size();
            return s;
        }
        basic_string<C> str() const { return _t; }
        void str(const basic_string<C>& s) { _t = s; _at = 0; }
    };
    _GLIBCXX_END_NAMESPACE_CXX11
    template <typename C, typename T>
    class basic_ofstream : public basic_ostream<C, T>
    {
        struct _File : basic_streambuf<C, T>
        {
            string* _s = nullptr;
            void _sput(const C* s, size_t n) override { if (_s) _s->append(s, n); }
        } _file;
    public:
        basic_ofstream() {}
        explicit basic_ofstream(const char* n, ios_base::openmode m = ios_base::out) { open(n, m); }
        explicit basic_ofstream(const string& n, ios_base::openmode m = ios_base::out) { open(n.c_str(), m); }
        void open(const char* n, ios_base::openmode m = ios_base::out)
        {
            _file._s = _sym_file(n, true);
            if (!(m & ios_base::app)) _file._s->clear();
            this->_sb = &_file;
        }
        void open(const string& n, ios_base::openmode m = ios_base::out) { open(n.c_str(), m); }
        bool is_open() const { return _file._s; }
        void close() { _file._s = nullptr; }
    };
    template <typename C, typename T>
    class basic_ifstream : public basic_istream<C, T>
    {
        bool _open = false;
    public:
        basic_ifstream() {}
        explicit basic_ifstream(const char* n, ios_base::openmode m = ios_base::in) { open(n, m); }
        explicit basic_ifstream(const string& n, ios_base::openmode m = ios_base::in) { open(n.c_str(), m); }
        void open(const char* n, ios_base::openmode = ios_base::in)
        {
            if (string* s = _sym_file(n, false)) this->_in = *s, _open = true;
            else this->_st |= ios_base::failbit;
        }
        bool is_open() const { return _open; }
        void close() { _open = false; }
    };
    extern ostream cout, cerr, clog;
    extern istream cin;

    // stream iterators
    template <typename Tp, typename C = char, typename T = char_traits<C>>
    class ostream_iterator
    {
        basic_ostream<C, T>* _s;
        const C* _d;
    public:
        typedef output_iterator_tag iterator_category;
        typedef void value_type;
        typedef ptrdiff_t difference_type;
        typedef void pointer;
        typedef void reference;
        typedef C char_type;
        typedef T traits_type;
        typedef basic_ostream<C, T> ostream_type;
        ostream_iterator(ostream_type& s) : _s(&s), _d(nullptr) {}
        ostream_iterator(ostream_type& s, const C* d) : _s(&s), _d(d) {}
        ostream_iterator& operator=(const Tp& v)
        {
            *_s << v;
            if (_d) *_s << _d;
            return *this;
        }
        ostream_iterator& operator*() { return *this; }
        ostream_iterator& operator++() { return *this; }
        ostream_iterator& operator++(int) { return *this; }
    };
    template <typename C, typename T>
    class istreambuf_iterator;
    template <typename C, typename T>
    class ostreambuf_iterator;
}
