#include "fields_view.h"
MC_SCENARIO(view_sizes_52, {.inproc = true}) { sizes<52>(std::make_integer_sequence<int, 10>{}); }
