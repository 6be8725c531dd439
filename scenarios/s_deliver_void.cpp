#include "deliver.h"
SCENARIO(deliver_void, "C01,C02,C03,C05,C17,C04") { deliver<void>(); }
