// Programs and texts nobody in their right mind would write.
#pragma once
#include "vm.hpp"
str wildProgram(Rng &r, int size);          // well-formed (mostly), wildly mistyped
str templateProgram(Rng &r, bool big);      // resource abuse and odd uses, parametrised
str hostileText(Ctx &c, Rng &r, str *kind); // any bytes
// Anything a host may do with a machine, whatever its state.
void hostOps(Vm &v, Rng &r, int n, Ctx &c, bool calls = true);
