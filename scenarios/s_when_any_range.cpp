#include "when.h"
SCENARIO(when_any_range, "C12,C17") { when_range<false>(); }
SCENARIO(when_any_vector, "C12,C17") { when_vector_alloc<false>(); }
