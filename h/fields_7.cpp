#include "fields_view.h"
MC_SCENARIO(view_sizes_86, {.inproc = true}) { sizes<86>(std::make_integer_sequence<int, 6>{}); }
