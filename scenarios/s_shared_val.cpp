#include "shared.h"
SCENARIO(shared_val, "C01,C02,C03,C05,C17,C21,C04,C07,C09") { shared_deliver<Val>(); }
