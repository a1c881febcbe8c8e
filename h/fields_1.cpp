#include "fields_view.h"
MC_SCENARIO(view_sizes_25, {.inproc = true}) { sizes<25>(std::make_integer_sequence<int, 15>{}); }
