// Instantiations and overload resolution for specs/p20.py and p21.py
#include "lue/data_model/hl/util.hpp"

namespace vl {
    using S = std::string;
    std::array<S, 3> parse3(S const& s) { return lue::parse_array_pathname3(s); }
    std::array<S, 4> parse4(S const& s) { return lue::parse_array_pathname(s); }
}
