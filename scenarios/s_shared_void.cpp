#include "shared.h"
SCENARIO(shared_void, "C01,C02,C03,C05,C17,C21,C16") { shared_deliver<void>(); }
