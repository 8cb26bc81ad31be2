CHECK = r'''
static int bad = 0;
#define EXPECT(c, msg) do { if (!(c)) { std::printf("FAILED: %s\n", msg); bad = 1; } } while (0)
'''
SEEDS = {}
SEEDS["s10"] = dict(property="C30", lib="core",
  edits=[("ov_core/src/sim/BsplineSE3.cpp", "2 * A0 * A1dot * A2dot + 2 * A0dot * A1 * A2dot);", "2 * A0 * A1dot * A2dot + A0dot * A1 * A2dot);")],
  needs="a trajectory whose first and third spline segments both rotate",
  breaks="the acceleration is not the second derivative of the spline position",
  demo=PRIV + r'''
#include "sim/BsplineSE3.h"
#include "utils/quat_ops.h"
''' + CHECK + r'''
int main() {
  std::vector<Eigen::VectorXd> tr;
  for (int i = 0; i < 60; i++) { double t = i * 0.1; Eigen::VectorXd p(8); Eigen::Vector3d w(sin(1.7 * t), 0.8 * cos(2.3 * t), 1.5 * t);
    Eigen::Vector4d q = ov_core::rot_2_quat(ov_core::exp_so3(w)); p << t, 3 * sin(t), 2 * cos(1.3 * t), t, q; tr.push_back(p); }
  ov_core::BsplineSE3 s; s.feed_trajectory(tr);
  for (double t = 1.03; t < 4.5; t += 0.371) {
    Eigen::Matrix3d R; Eigen::Vector3d p, w, v, v1, v2, al, a; 
    double h = 1e-5;
    if (!s.get_velocity(t - h, R, p, w, v1) || !s.get_velocity(t + h, R, p, w, v2) || !s.get_acceleration(t, R, p, w, v, al, a)) { EXPECT(false, "inside of the trajectory"); continue; }
    EXPECT(((v2 - v1) / (2 * h) - a).norm() < 1e-3 * (1 + a.norm()), "acceleration is the derivative of the velocity");
  }
  return bad;
}
''')
SEEDS["s13"] = dict(property="C05", lib="core",
  edits=[("ov_core/src/feat/Feature.cpp", "      if (*it1 <= timestamp) {", "      if (*it1 < timestamp) {")],
  needs="a measurement exactly at the time up to which measurements are dropped",
  breaks="the measurement of a frame that left the window stays in the feature and is used again",
  demo=PRIV + r'''
#include "feat/FeatureDatabase.h"
#include "feat/Feature.h"
''' + CHECK + r'''
int main() {
  ov_core::FeatureDatabase db;
  for (int i = 0; i < 6; i++) for (size_t c = 0; c < 2; c++) db.update_feature(7, i * 0.5, c, i, c, i, c);
  db.cleanup_measurements(1.0);
  auto f = db.get_feature(7);
  EXPECT(f != nullptr, "still there");
  if (f) for (auto &p : f->timestamps) { EXPECT(p.second.size() == 3, "measurements after 1.0"); for (double t : p.second) EXPECT(t > 1.0, "older measurement kept"); EXPECT(f->uvs[p.first].size() == p.second.size() && f->uvs_norm[p.first].size() == p.second.size(), "lockstep"); }
  return bad;
}
''')
SEEDS["s14"] = dict(property="C26", lib="core",
  edits=[("ov_core/src/cpi/CpiV1.cpp", "  H_a -= H_al;\n  H_a += delta_t * H_b;\n  H_b -= H_be;\n", "  H_a -= H_al;\n  H_b -= H_be;\n  H_a += delta_t * H_b;\n")],
  needs="any preintegration interval, seen only through the accelerometer bias Jacobian of the position",
  breaks="the position Jacobian with respect to the accelerometer bias uses the velocity Jacobian of the wrong end of the interval",
  demo=PRIV + r'''
#include "cpi/CpiV1.h"
''' + CHECK + r'''
typedef Eigen::Matrix<double, 3, 1> V;
static ov_core::CpiV1 run(V bg, V ba) {
  ov_core::CpiV1 c(0.01, 0.001, 0.02, 0.002, true);
  Eigen::Matrix<double, 4, 1> q; q << 0, 0, 0, 1;
  c.setLinearizationPoints(bg, ba, q, V(0, 0, 9.81));
  for (int i = 0; i < 12; i++) { double t = i * 0.05; auto w = [](double t) { return V(0.4 * sin(3 * t), 0.7, -0.5 * t); }; auto a = [](double t) { return V(t, 2 * cos(t), 9.8); };
    c.feed_IMU(t, t + 0.05, w(t), a(t), w(t + 0.05), a(t + 0.05)); }
  return c;
}
int main() {
  V bg(0.01, -0.02, 0.03), ba(0.1, 0.05, -0.2);
  auto c = run(bg, ba);
  for (int i = 0; i < 3; i++) { V d = V::Zero(); d(i) = 1e-5; auto p = run(bg, ba + d), m = run(bg, ba - d);
    EXPECT(((p.alpha_tau - m.alpha_tau) / 2e-5 - c.H_a.col(i)).norm() < 1e-6, "position Jacobian"); EXPECT(((p.beta_tau - m.beta_tau) / 2e-5 - c.H_b.col(i)).norm() < 1e-6, "velocity Jacobian"); }
  return bad;
}
''')
SEEDS["s18"] = dict(property="C17", lib="core",
  edits=[("ov_core/src/track/Grider_GRID.h", "mask.at<uint8_t>((int)pt_cor.pt.y, (int)pt_cor.pt.x) > 127", "mask.at<uint8_t>((int)pts_new.at(i).pt.y, (int)pts_new.at(i).pt.x) > 127")],
  needs="a mask that differs between the cell a point lies in and the same place in the first cell",
  breaks="the mask is read at the position inside of the grid cell rather than in the image",
  demo=PRIV + r'''
#include "track/Grider_FAST.h"
#include "track/Grider_GRID.h"
''' + CHECK + r'''
int main() {
  cv::Mat img(400, 400, CV_8UC1); cv::theRNG().state = 5; cv::randu(img, 0, 255);
  cv::Mat mask = cv::Mat::zeros(400, 400, CV_8UC1); mask(cv::Rect(200, 0, 200, 400)).setTo(255);
  std::vector<cv::KeyPoint> pts; std::vector<std::pair<int, int>> loc; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) loc.push_back({i, j});
  ov_core::Grider_GRID::perform_griding(img, mask, loc, pts, 160, 4, 4, 10, true);
  EXPECT(!pts.empty(), "features in the visible part");
  for (auto &p : pts) EXPECT(p.pt.x < 206, "no feature in the masked part");
  return bad;
}
''')
SEEDS["s21"] = dict(property="C08", lib="core",
  edits=[("ov_core/src/types/Landmark.cpp", "    p_invFinA_MSCKF(2) = 1 / p_FinG(2);", "    p_invFinA_MSCKF(2) = 1 / p_FinG.norm();")],
  needs="a feature off the optical axis in the MSCKF inverse depth representation",
  breaks="a position set in the anchored MSCKF inverse depth representation is not the one read back",
  demo=PRIV + r'''
#include "types/Landmark.h"
''' + CHECK + r'''
int main() {
  using R = ov_type::LandmarkRepresentation::Representation;
  for (R r : {R::GLOBAL_3D, R::ANCHORED_3D, R::ANCHORED_FULL_INVERSE_DEPTH, R::ANCHORED_MSCKF_INVERSE_DEPTH, R::GLOBAL_FULL_INVERSE_DEPTH}) {
    ov_type::Landmark l(3); l._feat_representation = r;
    Eigen::Vector3d p(0.7, -1.1, 3.5);
    l.set_from_xyz(p, false); l.set_from_xyz(2 * p, true);
    EXPECT((l.get_xyz(false) - p).norm() < 1e-9, "value round trip"); EXPECT((l.get_xyz(true) - 2 * p).norm() < 1e-9, "first estimate round trip");
  }
  return bad;
}
''')
