#include "fields_view.h"
MC_SCENARIO(view_sizes_71, {.inproc = true}) { sizes<71>(std::make_integer_sequence<int, 8>{}); }
