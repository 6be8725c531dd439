#include "when.h"
SCENARIO_W(when_all_tuple, "C11,C17,C05", 2) { when_tuple<true>(); }
SCENARIO(when_all_nested, "C11,C04") { when_nested<0>(); }
