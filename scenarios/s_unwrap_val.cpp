#include "unwrap.h"
SCENARIO(unwrap_val_future, "C10,C05,C03,C17,C01,C02,C04,C18") { unwrap_body<Val, false>(); }
SCENARIO(unwrap_val_shared, "C10,C21,C03,C17,C04") { unwrap_body<Val, true>(); }
