#include "fields_view.h"
MC_SCENARIO(view_sizes_40, {.inproc = true}) { sizes<40>(std::make_integer_sequence<int, 12>{}); }
