#include "fields_view.h"
MC_SCENARIO(view_sizes_97, {.inproc = true}) { sizes<97>(std::make_integer_sequence<int, 4>{}); }
