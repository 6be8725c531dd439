#include "unwrap.h"
SCENARIO(unwrap_mval_future, "C10,C05,C03,C17,C01") { unwrap_body<MVal, false>(); }
SCENARIO(unwrap_mval_shared, "C10,C21,C03,C17") { unwrap_body<MVal, true>(); }
