E = []
def e(i, f, a, b): E.append((i, f, a, b))
VM='ov_msckf/src/core/VioManager.cpp'; PR='ov_msckf/src/state/Propagator.cpp'; PH='ov_msckf/src/state/Propagator.h'
# helper extracted: static function for feature length
e('q01',VM,'''  auto compare_feat = [](const std::shared_ptr<Feature> &a, const std::shared_ptr<Feature> &b) -> bool {
    size_t asize = 0;
    size_t bsize = 0;
    for (const auto &pair : a->timestamps)
      asize += pair.second.size();
    for (const auto &pair : b->timestamps)
      bsize += pair.second.size();
    return asize < bsize;
  };
''','''  auto track_length = [](const std::shared_ptr<Feature> &feat) -> size_t {
    size_t total = 0;
    for (const auto &pair : feat->timestamps)
      total += pair.second.size();
    return total;
  };
  auto compare_feat = [&track_length](const std::shared_ptr<Feature> &a, const std::shared_ptr<Feature> &b) -> bool {
    return track_length(a) < track_length(b);
  };
''')
e('q02',VM,'''void VioManager::track_image_and_update(const ov_core::CameraData &message_const) {
''','''static void downsample_pair(cv::Mat &img, cv::Mat &mask) {
  cv::Mat img_temp, mask_temp;
  cv::pyrDown(img, img_temp, cv::Size(img.cols / 2.0, img.rows / 2.0));
  cv::pyrDown(mask, mask_temp, cv::Size(mask.cols / 2.0, mask.rows / 2.0));
  img = img_temp;
  mask = mask_temp;
}

void VioManager::track_image_and_update(const ov_core::CameraData &message_const) {
''')
e('q02',VM,'''  for (size_t i = 0; i < message.sensor_ids.size() && params.downsample_cameras; i++) {
    cv::Mat img = message.images.at(i);
    cv::Mat mask = message.masks.at(i);
    cv::Mat img_temp, mask_temp;
    cv::pyrDown(img, img_temp, cv::Size(img.cols / 2.0, img.rows / 2.0));
    message.images.at(i) = img_temp;
    cv::pyrDown(mask, mask_temp, cv::Size(mask.cols / 2.0, mask.rows / 2.0));
    message.masks.at(i) = mask_temp;
  }
''','''  if (params.downsample_cameras) {
    for (size_t i = 0; i < message.sensor_ids.size(); i++) {
      downsample_pair(message.images.at(i), message.masks.at(i));
    }
  }
''')
# erase-remove idiom
e('q03',VM,'''  it1 = feats_lost.begin();
  while (it1 != feats_lost.end()) {
    if (std::find(feats_marg.begin(), feats_marg.end(), (*it1)) != feats_marg.end()) {
      // PRINT_WARNING(YELLOW "FOUND FEATURE THAT WAS IN BOTH feats_lost and feats_marg!!!!!!\\n" RESET);
      it1 = feats_lost.erase(it1);
    } else {
      it1++;
    }
  }
''','''  feats_lost.erase(std::remove_if(feats_lost.begin(), feats_lost.end(),
                                  [&feats_marg](const std::shared_ptr<Feature> &feat) {
                                    return std::find(feats_marg.begin(), feats_marg.end(), feat) != feats_marg.end();
                                  }),
                   feats_lost.end());
''')
e('q04',VM,'''  auto it0 = state->_features_SLAM.begin();
  while (it0 != state->_features_SLAM.end()) {
    if ((int)(*it0).second->_featid <= 4 * state->_options.max_aruco_features)
      curr_aruco_tags++;
    it0++;
  }
''','''  for (const auto &landmark : state->_features_SLAM) {
    if ((int)landmark.second->_featid <= 4 * state->_options.max_aruco_features)
      curr_aruco_tags++;
  }
''')
e('q05',VM,'''  for (size_t i = 0; i < feats_slam.size(); i++) {
    if (state->_features_SLAM.find(feats_slam.at(i)->featid) != state->_features_SLAM.end()) {
      feats_slam_UPDATE.push_back(feats_slam.at(i));
      // PRINT_DEBUG("[UPDATE-SLAM]: found old feature %d (%d
      // measurements)\\n",(int)feats_slam.at(i)->featid,(int)feats_slam.at(i)->timestamps_left.size());
    } else {
      feats_slam_DELAYED.push_back(feats_slam.at(i));
''','''  for (const auto &feat : feats_slam) {
    bool is_known = (state->_features_SLAM.count(feat->featid) > 0);
    if (is_known) {
      feats_slam_UPDATE.push_back(feat);
    } else {
      feats_slam_DELAYED.push_back(feat);
''')
e('q06',VM,'''  while (!feats_slam_UPDATE.empty()) {
    // Get sub vector of the features we will update with
    std::vector<std::shared_ptr<Feature>> featsup_TEMP;
    featsup_TEMP.insert(featsup_TEMP.begin(), feats_slam_UPDATE.begin(),
                        feats_slam_UPDATE.begin() + std::min(state->_options.max_slam_in_update, (int)feats_slam_UPDATE.size()));
    feats_slam_UPDATE.erase(feats_slam_UPDATE.begin(),
                            feats_slam_UPDATE.begin() + std::min(state->_options.max_slam_in_update, (int)feats_slam_UPDATE.size()));
''','''  while (!feats_slam_UPDATE.empty()) {
    // Get sub vector of the features we will update with
    const int num_batch = std::min(state->_options.max_slam_in_update, (int)feats_slam_UPDATE.size());
    const auto batch_end = feats_slam_UPDATE.begin() + num_batch;
    std::vector<std::shared_ptr<Feature>> featsup_TEMP(feats_slam_UPDATE.begin(), batch_end);
    feats_slam_UPDATE.erase(feats_slam_UPDATE.begin(), batch_end);
''')
e('q07',VM,'''    if (feat2 == nullptr && current_unique_cam)
      landmark.second->should_marg = true;
    if (landmark.second->update_fail_count > 1)
      landmark.second->should_marg = true;
''','''    const bool lost_tracking = (feat2 == nullptr && current_unique_cam);
    const bool failed_updates = (landmark.second->update_fail_count > 1);
    if (lost_tracking || failed_updates) {
      landmark.second->should_marg = true;
    }
''')
# Propagator
e('q08',PR,'''    Qc.block(0, 0, 3, 3) = _noises.sigma_w_2 / dt * Eigen::Matrix3d::Identity();
    Qc.block(3, 3, 3, 3) = _noises.sigma_a_2 / dt * Eigen::Matrix3d::Identity();
    Qc.block(6, 6, 3, 3) = _noises.sigma_wb_2 * dt * Eigen::Matrix3d::Identity();
    Qc.block(9, 9, 3, 3) = _noises.sigma_ab_2 * dt * Eigen::Matrix3d::Identity();
''','''    Qc.diagonal().segment<3>(0).setConstant(_noises.sigma_w_2 / dt);
    Qc.diagonal().segment<3>(3).setConstant(_noises.sigma_a_2 / dt);
    Qc.diagonal().segment<3>(6).setConstant(_noises.sigma_wb_2 * dt);
    Qc.diagonal().segment<3>(9).setConstant(_noises.sigma_ab_2 * dt);
''')
e('q09',PR,'''      Phi_summed = F * Phi_summed;
      Qd_summed = F * Qd_summed * F.transpose() + Qdi;
      Qd_summed = 0.5 * (Qd_summed + Qd_summed.transpose());
      dt_summed += prop_data.at(i + 1).timestamp - prop_data.at(i).timestamp;
''','''      dt_summed += prop_data.at(i + 1).timestamp - prop_data.at(i).timestamp;
      const Eigen::MatrixXd Qd_next = F * Qd_summed * F.transpose() + Qdi;
      Qd_summed = (Qd_next + Qd_next.transpose()) / 2.0;
      Phi_summed = (F * Phi_summed).eval();
''')
e('q10',PR,'''  if (prop_data.size() > 1) {
    for (size_t i = 0; i < prop_data.size() - 1; i++) {
''','''  {
    for (size_t i = 0; i + 1 < prop_data.size(); i++) {
''')
e('q11',PR,'''    // START OF THE INTEGRATION PERIOD
    // If the next timestamp is greater then our current state time
    // And the current is not greater then it yet...
    // Then we should "split" our current IMU measurement
    if (imu_data.at(i + 1).timestamp > time0 && imu_data.at(i).timestamp < time0) {
      ov_core::ImuData data = Propagator::interpolate_data(imu_data.at(i), imu_data.at(i + 1), time0);
      prop_data.push_back(data);
''','''    const ov_core::ImuData &data_curr = imu_data.at(i);
    const ov_core::ImuData &data_next = imu_data.at(i + 1);
    if (data_curr.timestamp < time0 && time0 < data_next.timestamp) {
      prop_data.push_back(Propagator::interpolate_data(data_curr, data_next, time0));
''')
e('q12',PR,'''  for (size_t i = 0; i < prop_data.size() - 1; i++) {
    if (std::abs(prop_data.at(i + 1).timestamp - prop_data.at(i).timestamp) < 1e-12) {
      if (warn)
        PRINT_WARNING(YELLOW "Propagator::select_imu_readings(): Zero DT between IMU reading %d and %d, removing it!\\n" RESET, (int)i,
                      (int)(i + 1));
      prop_data.erase(prop_data.begin() + i);
      i--;
    }
  }
''','''  size_t i = 0;
  while (i < prop_data.size() - 1) {
    if (std::abs(prop_data.at(i + 1).timestamp - prop_data.at(i).timestamp) < 1e-12) {
      if (warn)
        PRINT_WARNING(YELLOW "Propagator::select_imu_readings(): Zero DT between IMU reading %d and %d, removing it!\\n" RESET, (int)i,
                      (int)(i + 1));
      prop_data.erase(prop_data.begin() + i);
    } else {
      i++;
    }
  }
''')
e('q13',PR,'''  if (state->_options.integration_method == StateOptions::IntegrationMethod::ANALYTICAL) {
    predict_mean_analytic(state, dt, w_hat_avg, a_hat_avg, new_q, new_v, new_p, Xi_sum);
  } else if (state->_options.integration_method == StateOptions::IntegrationMethod::RK4) {
    predict_mean_rk4(state, dt, w_hat1, a_hat1, w_hat2, a_hat2, new_q, new_v, new_p);
  } else {
    predict_mean_discrete(state, dt, w_hat_avg, a_hat_avg, new_q, new_v, new_p);
  }
''','''  switch (state->_options.integration_method) {
  case StateOptions::IntegrationMethod::RK4:
    predict_mean_rk4(state, dt, w_hat1, a_hat1, w_hat2, a_hat2, new_q, new_v, new_p);
    break;
  case StateOptions::IntegrationMethod::ANALYTICAL:
    predict_mean_analytic(state, dt, w_hat_avg, a_hat_avg, new_q, new_v, new_p, Xi_sum);
    break;
  default:
    predict_mean_discrete(state, dt, w_hat_avg, a_hat_avg, new_q, new_v, new_p);
    break;
  }
''')
e('q14',PR,'''    R_k = state->_imu->Rot_fej();
    v_k = state->_imu->vel_fej();
    p_k = state->_imu->pos_fej();
  }
  Eigen::Matrix3d dR_ktok1 = quat_2_Rot(new_q) * R_k.transpose();

  Eigen::Matrix3d Dw''','''    R_k = state->_imu->Rot_fej();
    v_k = state->_imu->vel_fej();
    p_k = state->_imu->pos_fej();
  }
  const Eigen::Matrix3d R_kT = R_k.transpose();
  Eigen::Matrix3d dR_ktok1 = quat_2_Rot(new_q) * R_kT;

  Eigen::Matrix3d Dw''')
e('q14',PR,'''  G.block(p_id, 0, 3, 3) = R_k.transpose() * Xi_4 * R_wtoI * Dw;
  G.block(v_id, 0, 3, 3) = R_k.transpose() * Xi_3 * R_wtoI * Dw;
  G.block(th_id, 3, 3, 3) = dR_ktok1 * Jr_ktok1 * dt * R_wtoI * Dw * Tg * R_atoI * Da;
''','''  G.block(v_id, 0, 3, 3) = R_kT * Xi_3 * R_wtoI * Dw;
  G.block(p_id, 0, 3, 3) = R_kT * Xi_4 * R_wtoI * Dw;
  const Eigen::Matrix3d TgRaDa = Tg * R_atoI * Da;
  G.block(th_id, 3, 3, 3) = dt * dR_ktok1 * Jr_ktok1 * R_wtoI * Dw * TgRaDa;
''')
e('q15',PR,'''  int th_id = local_size;
  local_size += state->_imu->q()->size();
  int p_id = local_size;
  local_size += state->_imu->p()->size();
  int v_id = local_size;
  local_size += state->_imu->v()->size();
  int bg_id = local_size;
  local_size += state->_imu->bg()->size();
  int ba_id = local_size;
  local_size += state->_imu->ba()->size();
''','''  auto next_id = [&local_size](const std::shared_ptr<Type> &var) {
    int id = local_size;
    local_size += var->size();
    return id;
  };
  int th_id = next_id(state->_imu->q());
  int p_id = next_id(state->_imu->p());
  int v_id = next_id(state->_imu->v());
  int bg_id = next_id(state->_imu->bg());
  int ba_id = next_id(state->_imu->ba());
''')
e('q16',PR,'''  Eigen::Vector3d a_hat1 = data_minus.am - state->_imu->bias_a();
  Eigen::Vector3d a_hat2 = data_plus.am - state->_imu->bias_a();
  Eigen::Vector3d a_hat_avg = .5 * (a_hat1 + a_hat2);
''','''  const Eigen::Vector3d bias_a = state->_imu->bias_a();
  Eigen::Vector3d a_hat1 = data_minus.am - bias_a;
  Eigen::Vector3d a_hat2 = data_plus.am - bias_a;
  Eigen::Vector3d a_hat_avg = .5 * (data_minus.am + data_plus.am) - bias_a;
''')
e('q17',PR,'''  Eigen::Vector3d k1_p = p0_dot * dt;
  Eigen::Vector3d k1_v = v0_dot * dt;
''','''  Eigen::Vector3d k1_v = v0_dot * dt;
  Eigen::Vector3d k1_p = v_0 * dt;
''')
e('q17',PR,'''  new_v = v_0 + (1.0 / 6.0) * k1_v + (1.0 / 3.0) * k2_v + (1.0 / 3.0) * k3_v + (1.0 / 6.0) * k4_v;
''','''  new_v = v_0 + (k1_v + 2.0 * k2_v + 2.0 * k3_v + k4_v) / 6.0;
''')
e('q18',PR,'''  // If the difference between the current update time and state is zero
  // We should crash, as this means we would have two clones at the same time!!!!
  if (state->_timestamp == timestamp) {
    PRINT_ERROR(RED "Propagator::propagate_and_clone(): Propagation called again at same timestep at last update timestep!!!!\\n" RESET);
    std::exit(EXIT_FAILURE);
  }

  // We should crash if we are trying to propagate backwards
  if (state->_timestamp > timestamp) {
    PRINT_ERROR(RED "Propagator::propagate_and_clone(): Propagation called trying to propagate backwards in time!!!!\\n" RESET);
    PRINT_ERROR(RED "Propagator::propagate_and_clone(): desired propagation = %.4f\\n" RESET, (timestamp - state->_timestamp));
    std::exit(EXIT_FAILURE);
  }
''','''  if (state->_timestamp >= timestamp) {
    if (state->_timestamp == timestamp) {
      PRINT_ERROR(RED "Propagator::propagate_and_clone(): Propagation called again at same timestep at last update timestep!!!!\\n" RESET);
    } else {
      PRINT_ERROR(RED "Propagator::propagate_and_clone(): Propagation called trying to propagate backwards in time!!!!\\n" RESET);
      PRINT_ERROR(RED "Propagator::propagate_and_clone(): desired propagation = %.4f\\n" RESET, (timestamp - state->_timestamp));
    }
    std::exit(EXIT_FAILURE);
  }
''')
e('q19',PR,'''    Phi_order.push_back(state->_calib_imu_dw);
    Phi_order.push_back(state->_calib_imu_da);
    if (state->_options.do_calib_imu_g_sensitivity) {
      Phi_order.push_back(state->_calib_imu_tg);
    }
    if (state->_options.imu_model == StateOptions::ImuModel::KALIBR) {
      Phi_order.push_back(state->_calib_imu_GYROtoIMU);
    } else {
      Phi_order.push_back(state->_calib_imu_ACCtoIMU);
    }
''','''    Phi_order.insert(Phi_order.end(), {state->_calib_imu_dw, state->_calib_imu_da});
    if (state->_options.do_calib_imu_g_sensitivity)
      Phi_order.emplace_back(state->_calib_imu_tg);
    const bool is_kalibr = (state->_options.imu_model == StateOptions::ImuModel::KALIBR);
    std::shared_ptr<Type> rotation = state->_calib_imu_ACCtoIMU;
    if (is_kalibr)
      rotation = state->_calib_imu_GYROtoIMU;
    Phi_order.push_back(rotation);
''')
e('q20',PR,'''  state->_timestamp = timestamp;
  last_prop_time_offset = t_off_new;
''','''  last_prop_time_offset = t_off_new;
  state->_timestamp = timestamp;
''')
