CHECK = r'''
static int bad = 0;
#define EXPECT(c, msg) do { if (!(c)) { std::printf("FAILED: %s\n", msg); bad = 1; } } while (0)
'''
SEEDS = {}
SEEDS["s01"] = dict(property="C01", lib="msckf",
  edits=[("ov_msckf/src/state/StateHelper.cpp", "    int old_loc = type_check->id();", "    int old_loc = state->_variables.at(k)->id();")],
  needs="cloning a sub-variable that does not start at the first row of its parent (e.g. the velocity of the IMU)",
  breaks="the clone of a sub-variable gets the covariance of another part of its parent",
  demo=PRIV + r'''
#include "state/State.h"
#include "state/StateHelper.h"
#include "state/StateOptions.h"
using namespace ov_msckf;
''' + CHECK + r'''
int main() {
  StateOptions o; o.num_cameras = 1;
  auto s = std::make_shared<State>(o);
  int n = s->_Cov.rows();
  Eigen::MatrixXd A = Eigen::MatrixXd::Random(n, n);
  s->_Cov = A * A.transpose();
  Eigen::MatrixXd P0 = s->_Cov;
  int id = s->_imu->v()->id();
  auto c = StateHelper::clone(s, s->_imu->v());
  EXPECT(c->id() == n && s->_Cov.rows() == n + 3, "placed at the end");
  EXPECT((s->_Cov.block(n, n, 3, 3) - P0.block(id, id, 3, 3)).norm() < 1e-9, "variance of the clone");
  EXPECT((s->_Cov.block(0, n, n, 3) - P0.block(0, id, n, 3)).norm() < 1e-9, "cross covariance of the clone");
  EXPECT((s->_Cov - s->_Cov.transpose()).norm() < 1e-9, "symmetric");
  return bad;
}
''')
SEEDS["s03"] = dict(property="C10", lib="msckf",
  edits=[("ov_msckf/src/state/Propagator.cpp", "imu_data.at(i).timestamp >= time0 && imu_data.at(i + 1).timestamp <= time1", "imu_data.at(i).timestamp >= time0 && imu_data.at(i + 1).timestamp < time1")],
  needs="an IMU reading with exactly the timestamp of the end of the interval",
  breaks="the last reading before the end of the interval is dropped when a reading coincides with the end",
  demo=PRIV + r'''
#include "state/Propagator.h"
using namespace ov_msckf;
''' + CHECK + r'''
int main() {
  std::vector<ov_core::ImuData> d;
  for (int i = 0; i < 10; i++) { ov_core::ImuData x; x.timestamp = i * 0.25; x.wm << i * i, 0, 0; x.am << i, 0, 0; d.push_back(x); }
  auto r = Propagator::select_imu_readings(d, 0.5, 1.5);
  EXPECT(r.size() == 5, "number of readings in [0.5,1.5]");
  for (size_t i = 0; i < r.size(); i++) EXPECT(std::abs(r[i].timestamp - (0.5 + 0.25 * i)) < 1e-12, "every reading of the interval is there");
  return bad;
}
''')
SEEDS["s04"] = dict(property="C12", lib="none", flags="-g -fsanitize=thread", src="ov_core/src/feat/FeatureDatabase.cpp ov_core/src/feat/Feature.cpp ov_core/src/utils/print.cpp",
  edits=[("ov_core/src/feat/FeatureDatabase.cpp", """  std::lock_guard<std::mutex> lck(mtx);
  if (features_idlookup.find(id) != features_idlookup.end()) {
    // Get our feature
    std::shared_ptr<Feature> feat = features_idlookup.at(id);
    // Append this new information to it!
""", """  std::shared_ptr<Feature> found;
  {
    std::lock_guard<std::mutex> lck(mtx);
    auto it = features_idlookup.find(id);
    if (it != features_idlookup.end())
      found = it->second;
  }
  if (found != nullptr) {
    // Get our feature
    std::shared_ptr<Feature> feat = found;
    // Append this new information to it!
""")],
  needs="two tracking workers inserting features into the database at the same time",
  breaks="a new feature is inserted into the shared table without the lock",
  demo=r'''#include <thread>
#include <vector>
#include "feat/Feature.h"
#include "feat/FeatureDatabase.h"
int main() {
  ov_core::FeatureDatabase db;
  auto w = [&](size_t cam) { for (size_t i = 0; i < 3000; i++) db.update_feature(cam * 100000 + i, i, cam, 1, 2, 3, 4); };
  std::thread a(w, 0), b(w, 1);
  a.join(); b.join();
  return db.size() == 6000 ? 0 : 1;
}
''')
SEEDS["s05"] = dict(property="C13", lib="core",
  edits=[("ov_core/src/cam/CamEqui.h", "9 * cam_d(7) * std::pow(theta, 8);", "8 * cam_d(7) * std::pow(theta, 8);")],
  needs="an equidistant camera with a non-zero fourth coefficient and a point far from the centre",
  breaks="the derivative of the distorted point does not match the distortion for the highest order term",
  demo=PRIV + r'''
#include "cam/CamEqui.h"
''' + CHECK + r'''
int main() {
  ov_core::CamEqui c(640, 480);
  Eigen::MatrixXd k(8, 1); k << 400, 410, 320, 240, 0.05, -0.03, 0.02, 0.1;
  c.set_value(k);
  Eigen::Vector2d p(0.9, -0.7);
  auto f = [&](Eigen::Vector2d q) {
    double r = q.norm(), th = std::atan(r), td = th + k(4) * pow(th, 3) + k(5) * pow(th, 5) + k(6) * pow(th, 7) + k(7) * pow(th, 9);
    return Eigen::Vector2d(k(0) * q(0) * td / r + k(2), k(1) * q(1) * td / r + k(3)); };
  Eigen::MatrixXd Hz, Hk;
  c.compute_distort_jacobian(p, Hz, Hk);
  for (int i = 0; i < 2; i++) { Eigen::Vector2d d = Eigen::Vector2d::Zero(); d(i) = 1e-6; Eigen::Vector2d n = (f(p + d) - f(p - d)) / 2e-6;
    EXPECT((n - Hz.col(i)).norm() < 1e-3, "derivative with respect to the point"); }
  return bad;
}
''')
SEEDS["s06"] = dict(property="C18", lib="msckf",
  edits=[("ov_msckf/src/state/StateOptions.h", "feat_rep_aruco = ov_type::LandmarkRepresentation::from_string(rep3);", "feat_rep_aruco = ov_type::LandmarkRepresentation::from_string(rep2);")],
  needs="a configuration whose aruco representation differs from its SLAM representation",
  breaks="the representation configured for aruco tags has no effect",
  demo=PRIV + r'''
#include "state/StateOptions.h"
''' + CHECK + r'''
int main() {
  { std::ofstream f("./c.yaml"); f << "%YAML:1.0\nfeat_rep_msckf: \"GLOBAL_3D\"\nfeat_rep_slam: \"ANCHORED_3D\"\nfeat_rep_aruco: \"ANCHORED_FULL_INVERSE_DEPTH\"\nrelative_config_imu: \"imu.yaml\"\n"; }
  { std::ofstream f("imu.yaml"); f << "%YAML:1.0\nimu0:\n  model: \"kalibr\"\n"; }

  auto p = std::make_shared<ov_core::YamlParser>("./c.yaml", false);
  ov_msckf::StateOptions o; o.print(p);
  using R = ov_type::LandmarkRepresentation::Representation;
  EXPECT(o.feat_rep_msckf == R::GLOBAL_3D, "msckf");
  EXPECT(o.feat_rep_slam == R::ANCHORED_3D, "slam");
  EXPECT(o.feat_rep_aruco == R::ANCHORED_FULL_INVERSE_DEPTH, "aruco");
  return bad;
}
''')
SEEDS["s07"] = dict(property="C22", lib="eval",
  edits=[("ov_eval/src/alignment/AlignUtils.cpp", "gt_covpos_temp.push_back(gt_covpos.at(best_gt_idx));", "gt_covpos_temp.push_back(gt_covpos.at(i));")],
  needs="a groundtruth with covariances whose poses do not correspond one to one with the estimate",
  breaks="a matched groundtruth pose is paired with the position covariance of another pose",
  demo=PRIV + r'''
#include "alignment/AlignUtils.h"
''' + CHECK + r'''
int main() {
  typedef Eigen::Matrix<double, 7, 1> P;
  std::vector<double> te, tg; std::vector<P> pe, pg; std::vector<Eigen::Matrix3d> oe, ce, og, cg;
  for (int i = 0; i < 40; i++) { tg.push_back(i * 0.5); P p = P::Zero(); p(0) = i; pg.push_back(p); og.push_back(Eigen::Matrix3d::Identity() * (100 + i)); cg.push_back(Eigen::Matrix3d::Identity() * i); }
  for (int i = 3; i < 30; i += 3) { te.push_back(i * 0.5); P p = P::Zero(); p(0) = i; pe.push_back(p); oe.push_back(Eigen::Matrix3d::Identity()); ce.push_back(Eigen::Matrix3d::Identity()); }
  ov_eval::AlignUtils::perform_association(0, 0.02, te, tg, pe, pg, oe, ce, og, cg);
  EXPECT(pg.size() == 9 && cg.size() == 9, "matches");
  for (size_t i = 0; i < pg.size(); i++) { EXPECT(std::abs(cg[i](0, 0) - pg[i](0)) < 1e-9, "position covariance of its own pose"); EXPECT(std::abs(og[i](0, 0) - 100 - pg[i](0)) < 1e-9, "orientation covariance of its own pose"); }
  return bad;
}
''')
SEEDS["s09"] = dict(property="C29", lib="msckf",
  edits=[("ov_msckf/src/state/StateHelper.cpp", 'initialize() - Found a value of %.2f at row %d and column %d', 'initialize() - Found a value of %.2f at row %s and column %d')],
  needs="the error branch for a non-diagonal measurement noise at a row other than zero",
  breaks="the error message reads an integer as a string pointer",
  demo=PRIV + r'''
#include "state/State.h"
#include "state/StateHelper.h"
#include "types/Vec.h"
#include <sys/wait.h>
#include <unistd.h>
using namespace ov_msckf;
int main() {
  int pid = fork();
  if (pid == 0) {
    StateOptions o; o.num_cameras = 1;
    auto s = std::make_shared<State>(o);
    auto v = std::make_shared<ov_type::Vec>(3);
    Eigen::MatrixXd HR = Eigen::MatrixXd::Zero(4, 3), HL = Eigen::MatrixXd::Random(4, 3), R = Eigen::MatrixXd::Identity(4, 4);
    R(2, 1) = 0.5;
    Eigen::VectorXd res = Eigen::VectorXd::Zero(4);
    StateHelper::initialize(s, v, {s->_imu->p()}, HR, HL, R, res, 1.0);
    _exit(0);
  }
  int st = 0; waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAILURE) return 0;
  std::printf("FAILED: refused noise did not end with an error message (status %d)\n", st);
  return 1;
}
''')
SEEDS["s11"] = dict(property="C14", lib="msckf",
  edits=[("ov_core/src/types/JPLQuat.h", "    _Rfej = ov_core::quat_2_Rot(new_value);", "    _Rfej = ov_core::quat_2_Rot(_value);")],
  needs="a first estimate that is set to something else than the current value",
  breaks="the cached first-estimate rotation does not belong to the first-estimate quaternion",
  demo=PRIV + r'''
#include "types/JPLQuat.h"
''' + CHECK + r'''
int main() {
  ov_type::JPLQuat q;
  Eigen::Vector4d a(0, 0, 0, 1), b(0.5, 0.5, 0.5, 0.5);
  q.set_value(a); q.set_fej(b);
  EXPECT((q.Rot_fej() - ov_core::quat_2_Rot(q.fej())).norm() < 1e-12, "first estimate rotation");
  EXPECT((q.Rot() - ov_core::quat_2_Rot(q.value())).norm() < 1e-12, "rotation");
  return bad;
}
''')
