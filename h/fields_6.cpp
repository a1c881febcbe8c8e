#include "fields_view.h"
MC_SCENARIO(view_sizes_79, {.inproc = true}) { sizes<79>(std::make_integer_sequence<int, 7>{}); }
