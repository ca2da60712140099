#include "C03.hpp"
GROUP(views, 1500, 20000) {
    switch (c.index % 4) { case 0: { auto m = mk<2, 2>(c.rng); c.in("m", m); Views<0, 0, 2, 2>::go(m); AllMinors<0, 2>::go(m); break; } case 1: { auto m = mk<3, 3>(c.rng); c.in("m", m); Views<0, 0, 3, 3>::go(m); AllMinors<0, 3>::go(m); break; }
    case 2: { auto m = mk<4, 4>(c.rng); c.in("m", m); Views<0, 0, 4, 4>::go(m);  break; } default: { auto m = mk<3, 5>(c.rng); c.in("m", m); Views<0, 0, 3, 5>::go(m); } }
}
