#pragma once
#include "../../pegtl.hpp"
namespace tao
{
    namespace pegtl
    {
        namespace abnf
        {
            struct ALPHA : alpha {
            };
            struct DIGIT : digit {
            };
            struct HEXDIG : xdigit {
            };
            struct WSP : one<' ', '\t'> {
            };
            struct VCHAR : range<0x21, 0x7E> {
            };
        }
    }
}
