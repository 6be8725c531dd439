#include "when.h"
SCENARIO_W(when_any_tuple, "C12,C17", 2) { when_tuple<false>(); }
SCENARIO(when_shared_copies, "C12,C11,C21") { when_shared<0>(); }
