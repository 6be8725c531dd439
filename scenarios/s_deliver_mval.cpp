#include "deliver.h"
SCENARIO(deliver_mval, "C01,C02,C03,C05,C17") { deliver<MVal>(); }
