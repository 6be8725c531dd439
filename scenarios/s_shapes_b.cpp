#include "shapes.h"
SCENARIO(shape_b, "C01,C17,C04") { switch (choose(4)) { case 0: shape<std::unique_ptr<Poly>>(); break; case 1: shape<std::shared_ptr<Val>>(); break; case 2: shape<NoDefault>(); break; default: shape<std::string>(); } }
