E = []
def e(i, f, a, b): E.append((i, f, a, b))
VM='ov_msckf/src/core/VioManager.cpp'; PR='ov_msckf/src/state/Propagator.cpp'
e('b01',VM,"img = message.images.at(i);","img = message.images.at(0);")
e('b02',VM,"    message.masks.at(i) = mask_temp;\n","")
e('b03',VM,"if (state->_timestamp != message.timestamp) {\n      did_zupt_update","{\n      did_zupt_update")
e('b04',VM,"propagator->clean_old_imu_measurements(message.timestamp + state->_calib_dt_CAMtoIMU->value()(0) - 0.10);\n      updaterZUPT","propagator->clean_old_imu_measurements(message.timestamp - state->_calib_dt_CAMtoIMU->value()(0) - 0.10);\n      updaterZUPT")
e('b05',VM,"features_not_containing_newer(state->_timestamp, false, true)","features_not_containing_newer(state->_timestamp, false, false)")
e('b06',VM,"features_not_containing_newer(state->_timestamp, false, true)","features_not_containing_newer(message.timestamp, false, true)")
e('b07',VM,"state->_options.max_clone_size || (int)state->_clones_IMU.size() > 5)","state->_options.max_clone_size && (int)state->_clones_IMU.size() > 5)")
e('b08',VM,"      if ((int)cams.second.size() > state->_options.max_clone_size) {","      if ((int)cams.second.size() >= state->_options.max_clone_size) {")
e('b09',VM,"_featid <= 4 * state->_options.max_aruco_features)\n      curr","_featid <= state->_options.max_aruco_features)\n      curr")
e('b10',VM,"      feats_maxtracks.erase(feats_maxtracks.end() - valid_amount, feats_maxtracks.end());\n","")
e('b11',VM,"if (feat2 == nullptr && current_unique_cam)","if (feat2 == nullptr)")
e('b12',VM,"update_fail_count > 1)","update_fail_count > 2)")
e('b13',VM,"return asize < bsize;","return asize > bsize;")
e('b14',VM,"for (const auto &pair : b->timestamps)\n      bsize += pair.second.size();","for (const auto &pair : b->timestamps)\n      bsize = pair.second.size();")
e('b15',VM,"  updaterSLAM->change_anchors(state);\n\n","")
e('b15',VM,"  // Finally marginalize the oldest clone if needed\n  StateHelper::marginalize_old_clone(state);\n","  // Finally marginalize the oldest clone if needed\n  StateHelper::marginalize_old_clone(state);\n  updaterSLAM->change_anchors(state);\n")
e('b16',VM,"    feat->to_delete = true;\n","")
e('b17',VM,"trackARUCO->get_feature_database()->cleanup_measurements(state->margtimestep());","trackFEATS->get_feature_database()->cleanup_measurements(state->margtimestep());")
e('b18',VM,"    PRINT_WARNING(RED \"[PROP]: Propagator unable to propagate the state forward in time!\\n\" RESET);\n","    timelastupdate = message.timestamp;\n    PRINT_WARNING(RED \"[PROP]: Propagator unable to propagate the state forward in time!\\n\" RESET);\n")
e('b19',VM,"    feats_slam_UPDATE_TEMP.insert(feats_slam_UPDATE_TEMP.end(), featsup_TEMP.begin(), featsup_TEMP.end());\n    propagator->invalidate_cache();\n","    feats_slam_UPDATE_TEMP.insert(feats_slam_UPDATE_TEMP.end(), featsup_TEMP.begin(), featsup_TEMP.end());\n")
e('b20',VM,"  timelastupdate = message.timestamp;\n\n  // Debug, print","  timelastupdate = state->margtimestep();\n\n  // Debug, print")
e('b21',VM,"if (message.sensor_ids.at(0) == 0) {","if (message.sensor_ids.size() > 1 || message.sensor_ids.at(0) == 0) {")
e('b22',PR,"double time0 = state->_timestamp + last_prop_time_offset;","double time0 = state->_timestamp + t_off_new;")
e('b23',PR,"      Qd_summed = F * Qd_summed * F.transpose() + Qdi;","      Qd_summed = Phi_summed * Qd_summed * Phi_summed.transpose() + Qdi;")
e('b24',PR,"    last_w = state->_calib_imu_GYROtoIMU->Rot() * Dw * (prop_data.at(prop_data.size() - 1).wm","    last_w = state->_calib_imu_GYROtoIMU->Rot() * Dw * (prop_data.at(0).wm")
e('b25',PR,"  last_prop_time_offset = t_off_new;\n","  last_prop_time_offset = state->_calib_dt_CAMtoIMU->fej()(0);\n")
e('b26',PR,"  // Set timestamp data\n  state->_timestamp = timestamp;\n  last_prop_time_offset = t_off_new;\n\n  // Now perform stochastic cloning\n  StateHelper::augment_clone(state, last_w);\n","  // Now perform stochastic cloning\n  StateHelper::augment_clone(state, last_w);\n  state->_timestamp = timestamp;\n  last_prop_time_offset = t_off_new;\n")
e('b27',PR,"    cache_t_off = state->_calib_dt_CAMtoIMU->value()(0);\n    cache_imu_valid = true;","    cache_imu_valid = true;")
e('b28',PR,"  cache_state_time = time1;\n  cache_t_off = 0.0;","  cache_state_time = timestamp;\n  cache_t_off = 0.0;")
e('b29',PR,"  double time0 = cache_state_time + cache_t_off;\n  double time1 = timestamp + cache_t_off;","  double time0 = cache_state_time + cache_t_off;\n  double time1 = timestamp;")
e('b30',PR,"  covariance.block(0, 0, 9, 9) = covariance_tmp.block(0, 0, 9, 9);","  covariance.block(0, 0, 9, 9) = cache_state_covariance.block(0, 0, 9, 9);")
e('b31',PR,"  for (size_t i = 0; i < prop_data.size() - 1; i++) {\n    if (std::abs(prop_data.at(i + 1).timestamp - prop_data.at(i).timestamp) < 1e-12) {\n      if (warn)","  for (size_t i = 0; i < prop_data.size() - 1; i++) {\n    if (prop_data.at(i + 1).timestamp == prop_data.at(i).timestamp) {\n      if (warn)")
e('b32',PR,"      prop_data.erase(prop_data.begin() + i);\n      i--;","      prop_data.erase(prop_data.begin() + i);")
e('b33',PR,"if (imu_data.at(i).timestamp >= time0 && imu_data.at(i + 1).timestamp <= time1) {","if (imu_data.at(i).timestamp > time0 && imu_data.at(i + 1).timestamp <= time1) {")
e('b34',PR,"    if (imu_data.at(i + 1).timestamp > time0 && imu_data.at(i).timestamp < time0) {","    if (imu_data.at(i + 1).timestamp >= time0 && imu_data.at(i).timestamp < time0) {")
e('b35',PR,"interpolate_data(imu_data.at(i - 1), imu_data.at(i), time1);","interpolate_data(imu_data.at(i), imu_data.at(i + 1), time1);")
e('b36',PR,"  w_hat1 = R_GYROtoIMU * Dw * w_hat1;\n","  w_hat1 = Dw * R_GYROtoIMU * w_hat1;\n")
e('b37',PR,"    predict_mean_rk4(state, dt, w_hat1, a_hat1, w_hat2, a_hat2, new_q, new_v, new_p);","    predict_mean_rk4(state, dt, w_hat1, a_hat1, w_hat2, a_hat_avg, new_q, new_v, new_p);")
e('b38',PR,"  if (prop_data.size() > 1) {\n    for (size_t i = 0; i < prop_data.size() - 1; i++) {","  if (prop_data.size() > 1) {\n    for (size_t i = 1; i < prop_data.size() - 1; i++) {")
e('b39',PR,"    std::lock_guard<std::mutex> lck(imu_data_mtx);\n    prop_data = Propagator::select_imu_readings(imu_data, time0, time1, false);","    prop_data = Propagator::select_imu_readings(imu_data, time0, time1, false);")
e('b40',PR,"if (imu_data.at(i).timestamp > time1 && i == 0) {","if (imu_data.at(i).timestamp > time1) {")
