E = []
def e(i, f, a, b): E.append((i, f, a, b))
ZV='ov_msckf/src/update/UpdaterZeroVelocity.cpp'; MS='ov_msckf/src/update/UpdaterMSCKF.cpp'; FI='ov_core/src/feat/FeatureInitializer.cpp'
e('z01',ZV,"  last_prop_time_offset = t_off_new;\n\n  // Check that we have","  // Check that we have")
e('z02',ZV,"  if (last_zupt_count >= 2) {","  if (last_zupt_count >= 1) {")
e('z03',ZV,"disp_avg < _zupt_max_disparity && num_features > 20","disp_avg < _zupt_max_disparity || num_features > 20")
e('z04',ZV,"!disparity_passed && (chi2 >","(chi2 >")
e('z05',ZV,"Q_bias.block(0, 0, 3, 3) *= dt_summed * _noises.sigma_wb_2;","Q_bias.block(0, 0, 3, 3) *= dt_summed * _noises.sigma_wb;")
e('z06',ZV,"P_marg.block(3, 3, 6, 6) += Q_bias;","P_marg.block(3, 3, 6, 6) = Q_bias;")
e('z07',ZV,"      Phi_order.push_back(state->_imu->bg());\n      Phi_order.push_back(state->_imu->ba());","      Phi_order.push_back(state->_imu->ba());\n      Phi_order.push_back(state->_imu->bg());")
e('z08',ZV,"    last_zupt_state_timestamp = 0.0;\n    last_zupt_count = 0;","    last_zupt_state_timestamp = 0.0;")
e('z09',ZV,"if (res.rows() < 1000) {","if (res.rows() <= 1000) {")
e('z10',ZV,"    StateHelper::EKFUpdate(state, Hx_order, H, res, R);\n    state->_timestamp = timestamp;\n\n","    state->_timestamp = timestamp;\n    if (model_time_varying_bias)\n      StateHelper::EKFUpdate(state, Hx_order, H, res, Eigen::MatrixXd::Identity(res.rows(), res.rows()));\n\n")
e('z11',ZV,"    if (imu_data.empty()) {\n      last_zupt_state_timestamp = 0.0;\n      return false;","    if (imu_data.empty()) {\n      return false;")
e('z12',ZV,"double w_accel = std::sqrt(dt) / _noises.sigma_a;","double w_accel = std::sqrt(dt) / _noises.sigma_w;")
e('z13',ZV,"-w_accel * skew_x(R_GtoI_jacob * _gravity);","-w_accel * skew_x(state->_imu->Rot() * _gravity);")
e('z14',ZV,"if (H.rows() < 1) {\n    return false;","if (H.rows() < 1) {\n    return true;")
e('m01',MS,"if (ct_meas < 2) {\n      (*it0)->to_delete = true;","if (ct_meas < 2) {")
e('m02',MS,"ct_meas += (*it0)->timestamps[pair.first].size();","ct_meas = (*it0)->timestamps[pair.first].size();")
e('m03',MS,"clone_imu.second->pos() - R_GtoCi.transpose() * clone_calib.second->pos();","clone_imu.second->pos() - clone_imu.second->Rot().transpose() * clone_calib.second->pos();")
e('m04',MS,"if (!success_tri || !success_refine) {","if (!success_tri && !success_refine) {")
e('m05',MS,"max_hx_size -= landmark.second->size();","max_hx_size -= 3;")
e('m06',MS,"if (chi2 > _options.chi2_multipler * chi2_check) {\n      (*it2)->to_delete = true;\n      it2 = feature_vec.erase(it2);","if (chi2 > _options.chi2_multipler * chi2_check) {\n      (*it2)->to_delete = true;\n      it2++;")
e('m07',MS,"feat.p_FinA_fej = (*it2)->p_FinA;","feat.p_FinA_fej = (*it2)->p_FinG;")
e('m08',MS,"_options.sigma_pix_sq = std::pow(_options.sigma_pix, 2);","_options.sigma_pix_sq = _options.sigma_pix;")
e('m09',MS,"  for (int i = 1; i < 500; i++) {","  for (int i = 1; i < 400; i++) {")
e('m10',MS,"    if (chi2 > _options.chi2_multipler * chi2_check) {\n      (*it2)->to_delete = true;","    if (chi2 > _options.chi2_multipler * chi2_check && Hx_order_big.size() > 0) {\n      (*it2)->to_delete = true;")
e('m11',MS,"UpdaterHelper::nullspace_project_inplace(H_f, H_x, res);\n","if (H_f.rows() > H_f.cols() + 1) UpdaterHelper::nullspace_project_inplace(H_f, H_x, res);\n")
e('m12',MS,"  // Return if we don't have anything and resize our matrices\n  if (ct_meas < 1) {","  // Return if we don't have anything and resize our matrices\n  if (ct_meas <= 1) {")
e('f01',FI,"if (pair.second.size() > most_meas) {\n      anchor_most_meas = pair.first;\n      most_meas = pair.second.size();\n    }\n  }\n  feat->anchor_cam_id = anchor_most_meas;\n  feat->anchor_clone_timestamp = feat->timestamps.at(feat->anchor_cam_id).back();\n  size_t","if (pair.second.size() > most_meas) {\n      anchor_most_meas = pair.first;\n    }\n  }\n  feat->anchor_cam_id = anchor_most_meas;\n  feat->anchor_clone_timestamp = feat->timestamps.at(feat->anchor_cam_id).back();\n  size_t")
e('f02',FI,"if ((int)pair.first == feat->anchor_cam_id && m == idx_anchor_bearing)","if (m == idx_anchor_bearing)")
e('f03',FI,"if (std::abs(condA) > _options.max_cond_number || p_f(2, 0) < _options.min_dist || p_f(2, 0) > _options.max_dist ||\n      std::isnan(p_f.norm())) {","if (std::abs(condA) > _options.max_cond_number || p_f(2, 0) < _options.min_dist || p_f.norm() > _options.max_dist ||\n      std::isnan(p_f.norm())) {")
e('f04',FI,"if (p_f(2, 0) < _options.min_dist || p_f(2, 0) > _options.max_dist || std::isnan(p_f.norm())) {","if (depth < _options.min_dist || depth > _options.max_dist || std::isnan(p_f.norm())) {")
e('f05',FI,"      recompute = false;\n      lam = lam * _options.lam_mult;","      recompute = true;\n      lam = lam * _options.lam_mult;")
e('f06',FI,"      cost_old = cost;\n      alpha","      alpha")
e('f07',FI,"  feat->p_FinG = R_GtoA.transpose() * feat->p_FinA + p_AinG;\n  return true;\n}\n\ndouble","  return true;\n}\n\ndouble")
e('f08',FI,"(feat->p_FinA.norm() / base_line_max) > _options.max_baseline","(feat->p_FinA(2) / base_line_max) > _options.max_baseline")
e('f09',FI,"if (base_line > base_line_max)\n        base_line_max = base_line;","base_line_max = base_line;")
e('f10',FI,"Eigen::Vector3d BperpBanchor = Bperp * bearing_inA;","Eigen::Vector3d BperpBanchor = Bperp * b_i;")
e('f11',FI,"      alpha += dx(0, 0);\n      beta += dx(1, 0);\n      rho += dx(2, 0);\n      eps = 0;\n      break;","      eps = 0;\n      break;")
e('f12',FI,"singularValues(0, 0) / singularValues(singularValues.rows() - 1, 0)","singularValues(0, 0) / singularValues(1, 0)")
