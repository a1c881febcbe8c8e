#include "fields_view.h"
MC_SCENARIO(view_sizes_0, {.inproc = true}) { sizes<0>(std::make_integer_sequence<int, 25>{}); }
