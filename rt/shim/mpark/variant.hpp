// Stand-in for the absent MPark.Variant submodule: the same interface, from the standard library.
#pragma once
#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <memory>
#include <variant>
namespace mpark
{
    using std::bad_variant_access;
    using std::get;
    using std::get_if;
    using std::holds_alternative;
    using std::in_place_index_t;
    using std::in_place_type_t;
    using std::monostate;
    using std::variant;
    using std::visit;
}
