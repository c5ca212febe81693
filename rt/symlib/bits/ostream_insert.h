// model: string insertion forwards to basic_ostream::write (see symstream.h)
#pragma once
#include <iosfwd>
#include <bits/cxxabi_forced.h>
#include <bits/exception_defines.h>
namespace std
{
    template <typename C, typename T>
    basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>& o, const C* s, streamsize n)
    {
        o.__put(s, (size_t)n);
        return o;
    }
}
