#include "C03.hpp"
GROUP(inverse_trace, 8000, 200000) { switch (c.index % 4) { case 0: invc<2>(c); tr<2>(c); break; case 1: invc<3>(c); tr<3>(c); break; case 2: invc<4>(c); tr<4>(c); break; default: invc<5>(c); tr<5>(c); } }
