#include "unwrap.h"
SCENARIO(unwrap_void_future, "C10,C05,C03,C17,C01,C02,C04") { unwrap_body<void, false>(); }
SCENARIO(unwrap_void_shared, "C10,C21,C03,C17") { unwrap_body<void, true>(); }
