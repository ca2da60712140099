#include "C03.hpp"
GROUP(rectangular, 8000, 200000) {
    switch (c.index % 5) { case 0: rect<2, 2, 2>(c); break; case 1: rect<2, 3, 4>(c); break; case 2: rect<3, 2, 3>(c); break; case 3: rect<3, 3, 3>(c); break; default: rect<4, 4, 4>(c); }
}
