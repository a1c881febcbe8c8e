#include "fields_view.h"
MC_SCENARIO(view_sizes_92, {.inproc = true}) { sizes<92>(std::make_integer_sequence<int, 5>{}); }
