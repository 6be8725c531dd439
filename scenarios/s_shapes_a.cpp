#include "shapes.h"
SCENARIO(shape_a, "C01,C17,C04,C10") { switch (choose(4)) { case 0: shape<int>(); break; case 1: shape<bool>(); break; case 2: shape<Wide>(); break; default: shape<Big>(); } }
