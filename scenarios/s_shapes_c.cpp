#include "shapes.h"
SCENARIO(shape_c, "C01,C17,C04") { switch (choose(3)) { case 0: shape<std::vector<Val>>(); break; case 1: shape<std::tuple<int, Val>>(); break; default: shape<pc::unique_function<int()>>(); } }
