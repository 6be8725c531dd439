#include "forms.h"
SCENARIO(form_mval, "C04,C03,C10,C01,C05,C18,C17") { forms<MVal>(); }
