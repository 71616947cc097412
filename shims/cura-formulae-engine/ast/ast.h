#include "cura-formulae-engine/eval.h"
