// C15: rigid-body kinematics (EquatnHelper, Sylinder::stepEuler)
#include "vp.hpp"
#include "Sylinder/Sylinder.hpp"
static Emat3 rodrigues(const Evec3 &w, double dt) {
    const double th = w.norm() * dt;
    if (w.norm() == 0)
        return Emat3::Identity();
    Evec3 n = w / w.norm();
    Emat3 K;
    K << 0, -n[2], n[1], n[2], 0, -n[0], -n[1], n[0], 0;
    return Emat3::Identity() + std::sin(th) * K + (1 - std::cos(th)) * K * K;
}
static Emat3 mat(double w, double x, double y, double z) { // own quaternion to matrix
    Emat3 R;
    R << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z),
        2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
    return R;
}
int main(int argc, char **argv) {
    vp::init(argc, argv);
    const bool th = vp::S().thorough;
    std::vector<Equatn> qs;
    for (int w = -2; w <= 2; w++)
        for (int x = -2; x <= 2; x++)
            for (int y = -2; y <= 2; y++)
                for (int z = -2; z <= 2; z++) {
                    if (!w && !x && !y && !z)
                        continue;
                    if (!th && (std::abs(w) + std::abs(x) + std::abs(y) + std::abs(z)) > 3)
                        continue;
                    Equatn q(w, x, y, z);
                    q.normalize();
                    qs.push_back(q);
                }
    const double scales[] = {1e-5, 0.01, 0.5, 1, 1.5707963267948966, 3.141592653589793, 50};
    const double dts[] = {0, 1e-4, 0.1, 1, -0.25};
    double mind = 1;
    for (size_t qi = 0; qi < qs.size(); qi++)
        for (int a = -1; a <= 1; a++)
            for (int b = -1; b <= 1; b++)
                for (int c = -1; c <= 1; c++)
                    for (int si = 0; si < 7; si++)
                        for (int di = 0; di < 5; di++) {
                            if (!vp::begin(vp::fmt("q%zu/w%d,%d,%d/s%d/dt%d", qi, a, b, c, si, di)))
                                continue;
                            const Evec3 om = scales[si] * Evec3(a, b, c * 0.75);
                            const double dt = dts[di];
                            const double tol = 1e-11 * (1 + std::fabs(om.norm() * dt));
                            const Equatn q0 = qs[qi];
                            Equatn q = q0;
                            EquatnHelper::rotateEquatn(q, om, dt);
                            const Emat3 R = rodrigues(om, dt);
                            const Emat3 M0 = mat(q0.w(), q0.x(), q0.y(), q0.z()), M1 = mat(q.w(), q.x(), q.y(), q.z());
                            VP_CHECK(vp::near(q.norm(), 1, 1e-12), "norm %.15g", q.norm());
                            VP_CHECK((M1 - R * M0).norm() <= tol, "orientation is not exp(omega dt) * old: error %g", (M1 - R * M0).norm());
                            // back
                            Equatn qb = q;
                            EquatnHelper::rotateEquatn(qb, om, -dt);
                            VP_CHECK(std::fabs(std::fabs(qb.coeffs().dot(q0.coeffs())) - 1) <= tol, "rotation does not invert");
                            // half steps
                            Equatn qh = q0;
                            EquatnHelper::rotateEquatn(qh, om, dt / 2);
                            EquatnHelper::rotateEquatn(qh, om, dt / 2);
                            VP_CHECK(std::fabs(std::fabs(qh.coeffs().dot(q.coeffs())) - 1) <= tol, "two half rotations differ from one");
                            // stepEuler of a particle
                            double pos[3] = {0.5 * a, -1.25, 3 + c}, ori[4] = {q0.x(), q0.y(), q0.z(), q0.w()};
                            Sylinder sy(7, 0.5, 0.6, 2, 2.2, pos, ori);
                            sy.group = 9;
                            for (int k = 0; k < 3; k++) {
                                sy.vel[k] = 0.3 * (k + 1) * (a + 2 * b) - c;
                                sy.omega[k] = om[k];
                                sy.force[k] = k + 1;
                                sy.velNonB[k] = 100;
                                sy.omegaNonB[k] = -100;
                            }
                            Sylinder s0 = sy;
                            sy.stepEuler(dt);
                            for (int k = 0; k < 3; k++)
                                VP_CHECK(vp::near(sy.pos[k], pos[k] + dt * s0.vel[k], 1e-12), "pos[%d]=%.15g", k, sy.pos[k]);
                            const Evec3 d0 = M0.col(2), d1 = ECmapq(sy.orientation) * Evec3(0, 0, 1);
                            VP_CHECK((d1 - R * d0).norm() <= tol, "direction error %g", (d1 - R * d0).norm());
                            VP_CHECK(vp::near(ECmapq(sy.orientation).norm(), 1, 1e-12), "particle quaternion norm");
                            // the whole frame, not only the axis
                            const Evec3 x1 = ECmapq(sy.orientation) * Evec3(1, 0, 0);
                            VP_CHECK((x1 - R * Evec3(M0.col(0))).norm() <= tol, "frame error");
                            Sylinder s2 = sy;
                            memcpy(s2.pos, s0.pos, sizeof s0.pos);
                            memcpy(s2.orientation, s0.orientation, sizeof s0.orientation);
                            VP_CHECK(s2.gid == s0.gid && s2.group == s0.group && s2.radius == s0.radius && s2.length == s0.length &&
                                         s2.radiusCollision == s0.radiusCollision && s2.lengthCollision == s0.lengthCollision &&
                                         s2.isImmovable == s0.isImmovable && !memcmp(s2.vel, s0.vel, 24) &&
                                         !memcmp(s2.omega, s0.omega, 24) && !memcmp(s2.force, s0.force, 24) &&
                                         !memcmp(s2.velNonB, s0.velNonB, 24),
                                     "stepEuler changed another field");
                            if (om.norm() * dt != 0)
                                vp::nontrivial();
                            vp::outcome(vp::fmt("%lld %lld %lld", vp::rnd(d1[0], 1e-4), vp::rnd(d1[1], 1e-4), vp::rnd(d1[2], 1e-4)));
                        }
    // long chains: the norm must not drift, and the angle must add up
    for (int a = -1; a <= 1; a++)
        for (int b = -1; b <= 1; b++)
            for (int c = -1; c <= 1; c++) {
                if (!vp::begin(vp::fmt("chain/%d,%d,%d", a, b, c)))
                    continue;
                Equatn q = qs[5];
                const Emat3 M0 = mat(q.w(), q.x(), q.y(), q.z());
                const Evec3 om(0.3 * a, 0.2 * b, 0.7 * c);
                const int n = 20000;
                for (int i = 0; i < n; i++)
                    EquatnHelper::rotateEquatn(q, om, 0.01);
                VP_CHECK(vp::near(q.norm(), 1, 1e-12), "norm after %d steps %.15g", n, q.norm());
                const Emat3 M1 = mat(q.w(), q.x(), q.y(), q.z());
                VP_CHECK((M1 - rodrigues(om, 0.01 * n) * M0).norm() < 1e-8, "angle drifts");
                vp::nontrivial();
            }
    // helper matrices
    for (size_t qi = 0; qi < qs.size(); qi++)
        for (int k = 0; k < 3; k++) {
            if (!vp::begin(vp::fmt("psi/q%zu/%d", qi, k)))
                continue;
            EmatPsi psi;
            EquatnHelper::getPsiMatFromEquatn(qs[qi], psi);
            const double h = 1e-5;
            Equatn p = qs[qi], m = qs[qi];
            EquatnHelper::rotateEquatn(p, Evec3::Unit(k), h);
            EquatnHelper::rotateEquatn(m, Evec3::Unit(k), -h);
            const double fd[4] = {(p.w() - m.w()) / (2 * h), (p.x() - m.x()) / (2 * h), (p.y() - m.y()) / (2 * h), (p.z() - m.z()) / (2 * h)};
            for (int r = 0; r < 4; r++)
                VP_CHECK(vp::near(fd[r], psi(r, k), 1e-8), "Psi(%d,%d)=%g, derivative %g", r, k, psi(r, k), fd[r]);
            vp::nontrivial();
        }
    for (int a = -2; a <= 2; a++)
        for (int b = -2; b <= 2; b++)
            for (int c = -2; c <= 2; c++) {
                if (!vp::begin(vp::fmt("cross/%d,%d,%d", a, b, c)))
                    continue;
                Emat3 P;
                EquatnHelper::getCrossProductMatrix(Evec3(a, b, c), P);
                for (int k = 0; k < 3; k++)
                    VP_CHECK((P * Evec3::Unit(k) - Evec3(a, b, c).cross(Evec3(Evec3::Unit(k)))).norm() < 1e-14, "cross product matrix");
                vp::nontrivial();
            }
    // setUnitRandomEquatn: unit norm on a lattice of the unit cube, and the first and second moments of the uniform
    // distribution on SO(3) (midpoint lattices integrate them exactly)
    const int n = th ? 40 : 16;
    if (vp::begin("haar")) {
        Emat4 C = Emat4::Zero();
        Emat3 MR = Emat3::Zero();
        Eigen::Matrix<double, 9, 9> M2 = Eigen::Matrix<double, 9, 9>::Zero();
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++)
                for (int k = 0; k < n; k++) {
                    Equatn q;
                    EquatnHelper::setUnitRandomEquatn(q, (i + 0.5) / n, (j + 0.5) / n, (k + 0.5) / n);
                    VP_CHECK(vp::near(q.norm(), 1, 1e-12), "random quaternion norm %g", q.norm());
                    Evec4 v(q.w(), q.x(), q.y(), q.z());
                    C += v * v.transpose();
                    const Emat3 R = mat(q.w(), q.x(), q.y(), q.z());
                    MR += R;
                    Eigen::Matrix<double, 9, 1> rv = Eigen::Map<const Eigen::Matrix<double, 9, 1>>(R.data());
                    M2 += rv * rv.transpose();
                    vp::count("haar_points");
                }
        const double N = double(n) * n * n;
        VP_CHECK((C / N - Emat4::Identity() / 4).norm() < 1e-10, "second moment of the quaternion is not I/4");
        VP_CHECK((MR / N).norm() < 1e-10, "mean rotation is not zero");
        VP_CHECK((M2 / N - Eigen::Matrix<double, 9, 9>::Identity() / 3).norm() < 3.0 / (n * n), "E[R_ij R_kl] is not I/3: %g", (M2 / N - Eigen::Matrix<double, 9, 9>::Identity() / 3).norm());
        vp::nontrivial();
    }
    for (double u1 : {0.0, 1e-300, 0.5, 1 - 1e-16})
        for (double u2 : {0.0, 0.5, 1 - 1e-16})
            for (double u3 : {0.0, 0.25, 1 - 1e-16}) {
                if (!vp::begin(vp::fmt("haaredge/%g/%g/%g", u1, u2, u3)))
                    continue;
                Equatn q;
                EquatnHelper::setUnitRandomEquatn(q, u1, u2, u3);
                VP_CHECK(vp::near(q.norm(), 1, 1e-12), "norm %g", q.norm());
            }
    vp::done();
    vp::finish();
    return 0;
}
