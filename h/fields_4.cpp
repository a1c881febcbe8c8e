#include "fields_view.h"
MC_SCENARIO(view_sizes_62, {.inproc = true}) { sizes<62>(std::make_integer_sequence<int, 9>{}); }
