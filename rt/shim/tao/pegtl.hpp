#include "../../PEGTL/include/tao/pegtl.hpp"
