#include "when.h"
SCENARIO(when_all_range, "C11,C17") { when_range<true>(); }
SCENARIO(when_all_vector, "C11,C17") { when_vector_alloc<true>(); }
