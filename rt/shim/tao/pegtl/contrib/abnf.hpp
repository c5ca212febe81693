#include "../../../../PEGTL/include/tao/pegtl/contrib/abnf.hpp"
