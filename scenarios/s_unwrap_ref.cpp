#include "unwrap.h"
SCENARIO(unwrap_ref_future, "C10,C05,C03,C17,C01") { unwrap_body<Val &, false>(); }
SCENARIO(unwrap_ref_shared, "C10,C21,C03,C17") { unwrap_body<Val &, true>(); }
