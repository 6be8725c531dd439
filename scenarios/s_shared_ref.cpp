#include "shared.h"
SCENARIO(shared_ref, "C01,C02,C03,C05,C17,C21") { shared_deliver<Val &>(); }
