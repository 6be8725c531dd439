#include "deliver.h"
SCENARIO(deliver_val, "C01,C02,C03,C05,C17,C04,C07,C09,C16,C18,C22") { deliver<Val>(); }
