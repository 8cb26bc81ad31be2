E = []
def e(i, f, a, b): E.append((i, f, a, b))
ZV='ov_msckf/src/update/UpdaterZeroVelocity.cpp'; MS='ov_msckf/src/update/UpdaterMSCKF.cpp'; FI='ov_core/src/feat/FeatureInitializer.cpp'
e('y01',ZV,'''  if (!disparity_passed && (chi2 > _options.chi2_multipler * chi2_check || state->_imu->vel().norm() > _zupt_max_velocity)) {
''','''  const double chi2_limit = _options.chi2_multipler * chi2_check;
  const bool chi2_failed = (chi2 > chi2_limit);
  const bool vel_failed = (state->_imu->vel().norm() > _zupt_max_velocity);
  if (!disparity_passed && (vel_failed || chi2_failed)) {
''')
e('y02',ZV,'''    disparity_passed = (disp_avg < _zupt_max_disparity && num_features > 20);
    if (disparity_passed) {
      PRINT_INFO''','''    if (num_features > 20 && disp_avg < _zupt_max_disparity) {
      disparity_passed = true;
      PRINT_INFO''')
e('y03',ZV,'''  Eigen::MatrixXd Q_bias = Eigen::MatrixXd::Identity(6, 6);
  Q_bias.block(0, 0, 3, 3) *= dt_summed * _noises.sigma_wb_2;
  Q_bias.block(3, 3, 3, 3) *= dt_summed * _noises.sigma_ab_2;
''','''  Eigen::MatrixXd Q_bias = Eigen::MatrixXd::Zero(6, 6);
  Q_bias.block(3, 3, 3, 3) = dt_summed * _noises.sigma_ab_2 * Eigen::Matrix3d::Identity();
  Q_bias.block(0, 0, 3, 3) = dt_summed * _noises.sigma_wb_2 * Eigen::Matrix3d::Identity();
''')
e('y04',ZV,'''bool UpdaterZeroVelocity::try_update(''','''static double chi2_threshold(const std::map<int, double> &table, int rows) {
  if (rows < 1000) {
    return table.at(rows);
  }
  PRINT_WARNING(YELLOW "[ZUPT]: chi2_check over the residual limit - %d\\n" RESET, rows);
  boost::math::chi_squared dist(rows);
  return boost::math::quantile(dist, 0.95);
}

bool UpdaterZeroVelocity::try_update(''')
e('y04',ZV,'''  double chi2_check;
  if (res.rows() < 1000) {
    chi2_check = chi_squared_table[res.rows()];
  } else {
    boost::math::chi_squared chi_squared_dist(res.rows());
    chi2_check = boost::math::quantile(chi_squared_dist, 0.95);
    PRINT_WARNING(YELLOW "[ZUPT]: chi2_check over the residual limit - %d\\n" RESET, (int)res.rows());
  }
''','''  double chi2_check = chi2_threshold(chi_squared_table, (int)res.rows());
''')
e('y05',ZV,'''  for (size_t i = 0; i < imu_recent.size() - 1; i++) {

    // Precomputed values
    double dt = imu_recent.at(i + 1).timestamp - imu_recent.at(i).timestamp;
    Eigen::Vector3d a_hat = state->_calib_imu_ACCtoIMU->Rot() * Da * (imu_recent.at(i).am - state->_imu->bias_a());
    Eigen::Vector3d w_hat = state->_calib_imu_GYROtoIMU->Rot() * Dw * (imu_recent.at(i).wm - state->_imu->bias_g() - Tg * a_hat);
''','''  const Eigen::Matrix3d R_Da = state->_calib_imu_ACCtoIMU->Rot() * Da;
  const Eigen::Matrix3d R_Dw = state->_calib_imu_GYROtoIMU->Rot() * Dw;
  for (size_t i = 1; i < imu_recent.size(); i++) {

    // Precomputed values
    const auto &meas = imu_recent[i - 1];
    double dt = imu_recent[i].timestamp - meas.timestamp;
    Eigen::Vector3d a_hat = R_Da * (meas.am - state->_imu->bias_a());
    Eigen::Vector3d w_hat = R_Dw * (meas.wm - state->_imu->bias_g() - Tg * a_hat);
''')
for a,b in [("res.block(6 * i + 0, 0, 3, 1)","res.block(6 * (i - 1) + 0, 0, 3, 1)"),("      res.block(6 * i + 3, 0, 3, 1) = -w_accel * (a","      res.block(6 * (i - 1) + 3, 0, 3, 1) = -w_accel * (a"),("      res.block(6 * i + 3, 0, 3, 1) = -w_accel_v","      res.block(6 * (i - 1) + 3, 0, 3, 1) = -w_accel_v"),
 ("H.block(6 * i + 0, 3","H.block(6 * (i - 1) + 0, 3"),("H.block(6 * i + 3, 0, 3, 3) = -w_accel * ","H.block(6 * (i - 1) + 3, 0, 3, 3) = -w_accel * "),("H.block(6 * i + 3, 6, 3, 3) = -w_accel * ","H.block(6 * (i - 1) + 3, 6, 3, 3) = -w_accel * "),
 ("H.block(6 * i + 3, 0, 3, 3) = -w_accel_v","H.block(6 * (i - 1) + 3, 0, 3, 3) = -w_accel_v"),("H.block(6 * i + 3, 6, 3, 3) = -w_accel_v","H.block(6 * (i - 1) + 3, 6, 3, 3) = -w_accel_v"),("H.block(6 * i + 3, 9","H.block(6 * (i - 1) + 3, 9")]:
    e('y05',ZV,a,b)
e('y06',MS,'''    int ct_meas = 0;
    for (const auto &pair : (*it0)->timestamps) {
      ct_meas += (*it0)->timestamps[pair.first].size();
    }
''','''    size_t ct_meas = 0;
    for (const auto &pair : (*it0)->timestamps) {
      ct_meas += pair.second.size();
    }
''')
e('y07',MS,'''  for (size_t f = 0; f < feature_vec.size(); f++) {
    feature_vec[f]->to_delete = true;
  }
''','''  for (auto &feat : feature_vec) {
    feat->to_delete = true;
  }
''')
e('y08',MS,'''    for (const auto &var : Hx_order) {

      // Ensure that this variable is in our Jacobian
      if (Hx_mapping.find(var) == Hx_mapping.end()) {
        Hx_mapping.insert({var, ct_jacob});
        Hx_order_big.push_back(var);
        ct_jacob += var->size();
      }

      // Append to our large Jacobian
      Hx_big.block(ct_meas, Hx_mapping[var], H_x.rows(), var->size()) = H_x.block(0, ct_hx, H_x.rows(), var->size());
      ct_hx += var->size();
    }
''','''    for (const auto &var : Hx_order) {

      // Ensure that this variable is in our Jacobian
      const int var_size = var->size();
      if (Hx_mapping.count(var) == 0) {
        Hx_mapping[var] = ct_jacob;
        ct_jacob += var_size;
        Hx_order_big.push_back(var);
      }

      // Append to our large Jacobian
      Hx_big.block(ct_meas, Hx_mapping.at(var), H_x.rows(), var_size) = H_x.middleCols(ct_hx, var_size);
      ct_hx += var_size;
    }
''')
e('y09',MS,'''    feat.feat_representation = state->_options.feat_rep_msckf;
    if (state->_options.feat_rep_msckf == LandmarkRepresentation::Representation::ANCHORED_INVERSE_DEPTH_SINGLE) {
      feat.feat_representation = LandmarkRepresentation::Representation::ANCHORED_MSCKF_INVERSE_DEPTH;
    }
''','''    const bool is_single = (state->_options.feat_rep_msckf == LandmarkRepresentation::Representation::ANCHORED_INVERSE_DEPTH_SINGLE);
    feat.feat_representation =
        is_single ? LandmarkRepresentation::Representation::ANCHORED_MSCKF_INVERSE_DEPTH : state->_options.feat_rep_msckf;
''')
e('y10',MS,'''    // Triangulate the feature and remove if it fails
    bool success_tri = true;
    if (initializer_feat->config().triangulate_1d) {
      success_tri = initializer_feat->single_triangulation_1d(*it1, clones_cam);
    } else {
      success_tri = initializer_feat->single_triangulation(*it1, clones_cam);
    }
''','''    // Triangulate the feature and remove if it fails
    const bool success_tri = initializer_feat->config().triangulate_1d ? initializer_feat->single_triangulation_1d(*it1, clones_cam)
                                                                       : initializer_feat->single_triangulation(*it1, clones_cam);
''')
e('y11',MS,'''    S.diagonal() += _options.sigma_pix_sq * Eigen::VectorXd::Ones(S.rows());
    double chi2 = res.dot(S.llt().solve(res));
''','''    S += _options.sigma_pix_sq * Eigen::MatrixXd::Identity(S.rows(), S.cols());
    const Eigen::VectorXd S_inv_res = S.llt().solve(res);
    double chi2 = S_inv_res.dot(res);
''')
HELP='''static void bearing_terms(const Eigen::Matrix<double, 3, 3> &R_GtoA, const Eigen::Matrix<double, 3, 1> &p_AinG, FeatureInitializer::ClonePose &pose,
                          const Eigen::VectorXf &uv_norm, Eigen::Matrix3d &Bperp, Eigen::Matrix<double, 3, 1> &p_CiinA) {
  const Eigen::Matrix<double, 3, 3> R_AtoCi = pose.Rot() * R_GtoA.transpose();
  p_CiinA = R_GtoA * (pose.pos() - p_AinG);
  Eigen::Matrix<double, 3, 1> b_i;
  b_i << uv_norm(0), uv_norm(1), 1;
  b_i = R_AtoCi.transpose() * b_i;
  b_i = b_i / b_i.norm();
  Bperp = skew_x(b_i);
}

bool FeatureInitializer::single_triangulation(std::shared_ptr<Feature> feat,
'''
e('y12',FI,'''bool FeatureInitializer::single_triangulation(std::shared_ptr<Feature> feat,
''',HELP)
e('y12',FI,'''      // Get the position of this clone in the global
      const Eigen::Matrix<double, 3, 3> &R_GtoCi = clonesCAM.at(pair.first).at(feat->timestamps.at(pair.first).at(m)).Rot();
      const Eigen::Matrix<double, 3, 1> &p_CiinG = clonesCAM.at(pair.first).at(feat->timestamps.at(pair.first).at(m)).pos();

      // Convert current position relative to anchor
      Eigen::Matrix<double, 3, 3> R_AtoCi;
      R_AtoCi.noalias() = R_GtoCi * R_GtoA.transpose();
      Eigen::Matrix<double, 3, 1> p_CiinA;
      p_CiinA.noalias() = R_GtoA * (p_CiinG - p_AinG);

      // Get the UV coordinate normal
      Eigen::Matrix<double, 3, 1> b_i;
      b_i << feat->uvs_norm.at(pair.first).at(m)(0), feat->uvs_norm.at(pair.first).at(m)(1), 1;
      b_i = R_AtoCi.transpose() * b_i;
      b_i = b_i / b_i.norm();
      Eigen::Matrix3d Bperp = skew_x(b_i);

      // Append to our linear system
      Eigen::Matrix3d Ai''','''      Eigen::Matrix3d Bperp;
      Eigen::Matrix<double, 3, 1> p_CiinA;
      bearing_terms(R_GtoA, p_AinG, clonesCAM.at(pair.first).at(pair.second.at(m)), feat->uvs_norm.at(pair.first).at(m), Bperp, p_CiinA);

      // Append to our linear system
      Eigen::Matrix3d Ai''')
e('y13',FI,'''  if (p_f(2, 0) < _options.min_dist || p_f(2, 0) > _options.max_dist || std::isnan(p_f.norm())) {
    return false;
  }

  // Store it in our feature object
  feat->p_FinA = p_f;
  feat->p_FinG = R_GtoA.transpose() * feat->p_FinA + p_AinG;
  return true;
''','''  const double z = p_f(2, 0);
  const bool valid = !std::isnan(p_f.norm()) && z >= _options.min_dist && z <= _options.max_dist;
  if (valid) {
    // Store it in our feature object
    feat->p_FinA = p_f;
    feat->p_FinG = R_GtoA.transpose() * p_f + p_AinG;
  }
  return valid;
''')
e('y14',FI,'''      if (base_line > base_line_max)
        base_line_max = base_line;
''','''      base_line_max = std::max(base_line_max, base_line);
''')
e('y15',FI,'''    if (cost <= cost_old && (cost_old - cost) / cost_old < _options.min_dcost) {
      alpha += dx(0, 0);
      beta += dx(1, 0);
      rho += dx(2, 0);
      eps = 0;
      break;
    }

    // If cost is lowered, accept step
    // Else inflate lambda (try to make more stable)
    if (cost <= cost_old) {
      recompute = true;
      cost_old = cost;
      alpha += dx(0, 0);
      beta += dx(1, 0);
      rho += dx(2, 0);
      runs++;
      lam = lam / _options.lam_mult;
      eps = dx.norm();
    } else {
      recompute = false;
      lam = lam * _options.lam_mult;
      continue;
    }
''','''    if (cost > cost_old) {
      recompute = false;
      lam *= _options.lam_mult;
      continue;
    }

    alpha += dx(0, 0);
    beta += dx(1, 0);
    rho += dx(2, 0);
    if ((cost_old - cost) / cost_old < _options.min_dcost) {
      eps = 0;
      break;
    }
    recompute = true;
    cost_old = cost;
    runs++;
    lam /= _options.lam_mult;
    eps = dx.norm();
''')
e('y16',FI,'''  double rho = 1 / feat->p_FinA(2);
  double alpha = feat->p_FinA(0) / feat->p_FinA(2);
  double beta = feat->p_FinA(1) / feat->p_FinA(2);
''','''  double rho = 1.0 / feat->p_FinA(2);
  double alpha = feat->p_FinA(0) * rho;
  double beta = feat->p_FinA(1) * rho;
''')
