#include "C03.hpp"
GROUP(determinant, 12000, 300000) { switch (c.index % 6) { case 0: square<1>(c, false); break; case 1: square<2>(c, true); break; case 2: square<3>(c, true); break; case 3: square<4>(c, true); break; case 4: square<5>(c, true); break; default: square<6>(c, true); } }
GROUP(composite, 1500, 20000) {
    Rng& r = c.rng; auto m = mk<3, 3>(r); c.in("m", m); geometrix::vector<double, 3> v; geometrix::vector<double, 4> w; for (int i = 0; i < 3; ++i) v[i] = r.in(-5, 5); for (int i = 0; i < 4; ++i) w[i] = r.in(-5, 5); c.in("v", v); c.in("w", w);
    geometrix::column_vector<geometrix::vector<double, 3>> cv(v); geometrix::row_vector<geometrix::vector<double, 4>> rv(w);
    auto cm = geometrix::as_matrix<4, 4>(m, cv, rv); Ref<4, 4> e; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) e[i][j] = m[i][j]; e[i][3] = v[i]; } for (int j = 0; j < 4; ++j) e[3][j] = w[j];
#define EL(I, J) REQ((get<I, J>(cm) == (double)e[I][J]), "composite element " << I << "," << J);
    EL(0, 0) EL(0, 1) EL(0, 2) EL(0, 3) EL(1, 0) EL(1, 1) EL(1, 2) EL(1, 3) EL(2, 0) EL(2, 1) EL(2, 2) EL(2, 3) EL(3, 0) EL(3, 1) EL(3, 2) EL(3, 3)
    double d = get(det(cm)); ld D = det_ref<4>(e); REQ(std::fabs(d - (double)D) <= 1e-6 * (1 + fabsl(D)), "determinant of composite got " << d << " want " << (double)D); count("composite matrices");
}
