#include "C03.hpp"
GROUP(rectangular_more, 4000, 100000) { switch (c.index % 4) { case 0: rect<4, 3, 2>(c); break; case 1: rect<2, 5, 3>(c); break; case 2: rect<3, 4, 2>(c); break; default: { auto m = mk<4, 4>(c.rng); c.in("m", m); AllMinors<0, 4>::go(m); } } }
