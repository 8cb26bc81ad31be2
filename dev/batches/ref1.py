E = []
def e(i, f, a, b): E.append((i, f, a, b))
FD='ov_core/src/feat/FeatureDatabase.cpp'; VM='ov_msckf/src/core/VioManager.cpp'; SH='ov_msckf/src/state/StateHelper.cpp'; FE='ov_core/src/feat/Feature.cpp'
# get_feature: single lookup
e('r01',FD,'''  if (features_idlookup.find(id) != features_idlookup.end()) {
    std::shared_ptr<Feature> temp = features_idlookup.at(id);
    if (remove)
      features_idlookup.erase(id);
    return temp;
  } else {
    return nullptr;
  }
''','''  auto it = features_idlookup.find(id);
  if (it == features_idlookup.end())
    return nullptr;
  std::shared_ptr<Feature> temp = it->second;
  if (remove)
    features_idlookup.erase(it);
  return temp;
''')
# update_feature: find or create first then append once
e('r02',FD,'''  if (features_idlookup.find(id) != features_idlookup.end()) {
    // Get our feature
    std::shared_ptr<Feature> feat = features_idlookup.at(id);
    // Append this new information to it!
    feat->uvs[cam_id].push_back(Eigen::Vector2f(u, v));
    feat->uvs_norm[cam_id].push_back(Eigen::Vector2f(u_n, v_n));
    feat->timestamps[cam_id].push_back(timestamp);
    return;
  }
''','''  auto found = features_idlookup.find(id);
  if (found != features_idlookup.end()) {
    // Append this new information to it!
    const std::shared_ptr<Feature> &feat = found->second;
    feat->timestamps[cam_id].push_back(timestamp);
    feat->uvs[cam_id].push_back(Eigen::Vector2f(u, v));
    feat->uvs_norm[cam_id].push_back(Eigen::Vector2f(u_n, v_n));
    return;
  }
''')
e('r03',FD,'''    bool has_newer_measurement = false;
    for (auto const &pair : (*it).second->timestamps) {
      has_newer_measurement = (!pair.second.empty() && pair.second.at(pair.second.size() - 1) >= timestamp);
      if (has_newer_measurement) {
        break;
      }
    }
    // If it is not being actively tracked, then it is old
    if (!has_newer_measurement) {
      feats_old.push_back((*it).second);
      if (remove)
        features_idlookup.erase(it++);
      else
        it++;
    } else {
      it++;
    }
  }

  // Debugging
  // PRINT_DEBUG("feature db size = %u\\n", features_idlookup.size())

  // Return the old features
  return feats_old;
}

std::vector<std::shared_ptr<Feature>> FeatureDatabase::features_containing_older''','''    const auto &times = it->second->timestamps;
    bool has_newer_measurement = std::any_of(times.begin(), times.end(), [&](const std::pair<const size_t, std::vector<double>> &pair) {
      return !pair.second.empty() && pair.second.back() >= timestamp;
    });
    // If it is still being actively tracked, then it is not old
    if (has_newer_measurement) {
      ++it;
      continue;
    }
    feats_old.push_back(it->second);
    if (remove)
      it = features_idlookup.erase(it);
    else
      ++it;
  }

  // Return the old features
  return feats_old;
}

std::vector<std::shared_ptr<Feature>> FeatureDatabase::features_containing_older''')
# feature cleanup helper extracted
e('r04',FE,'''void Feature::clean_old_measurements(const std::vector<double> &valid_times) {
''','''static bool contains_time(const std::vector<double> &times, double t) { return std::find(times.begin(), times.end(), t) != times.end(); }

void Feature::clean_old_measurements(const std::vector<double> &valid_times) {
''')
e('r04',FE,'''      if (std::find(valid_times.begin(), valid_times.end(), *it1) == valid_times.end()) {''','''      if (!contains_time(valid_times, *it1)) {''')
e('r05',FE,'''  for (auto const &pair : timestamps) {

    // Assert that we have all the parts of a measurement
    assert(timestamps[pair.first].size() == uvs[pair.first].size());
    assert(timestamps[pair.first].size() == uvs_norm[pair.first].size());

    // Our iterators
    auto it1 = timestamps[pair.first].begin();
    auto it2 = uvs[pair.first].begin();
    auto it3 = uvs_norm[pair.first].begin();

    // Loop through measurement times, remove ones that are older then the specified one
    while (it1 != timestamps[pair.first].end()) {
      if (*it1 <= timestamp) {
        it1 = timestamps[pair.first].erase(it1);
        it2 = uvs[pair.first].erase(it2);
        it3 = uvs_norm[pair.first].erase(it3);
      } else {
        ++it1;
        ++it2;
        ++it3;
      }
    }
  }
''','''  for (auto const &pair : timestamps) {
    const size_t cam = pair.first;
    std::vector<double> &times = timestamps[cam];
    auto &raw = uvs[cam];
    auto &norm = uvs_norm[cam];

    // Assert that we have all the parts of a measurement
    assert(times.size() == raw.size());
    assert(times.size() == norm.size());

    // Loop through measurement times, remove ones that are older then the specified one
    auto it1 = times.begin();
    auto it2 = raw.begin();
    auto it3 = norm.begin();
    while (it1 != times.end()) {
      if (*it1 > timestamp) {
        ++it1;
        ++it2;
        ++it3;
        continue;
      }
      it1 = times.erase(it1);
      it2 = raw.erase(it2);
      it3 = norm.erase(it3);
    }
  }
''')
# VioManager: count_if for aruco tags
e('r06',VM,'''  int curr_aruco_tags = 0;
  auto it0 = state->_features_SLAM.begin();
  while (it0 != state->_features_SLAM.end()) {
    if ((int)(*it0).second->_featid <= 4 * state->_options.max_aruco_features)
      curr_aruco_tags++;
    it0++;
  }
''','''  int curr_aruco_tags = 0;
  for (const auto &feat_slam : state->_features_SLAM) {
    if ((int)feat_slam.second->_featid <= 4 * state->_options.max_aruco_features)
      curr_aruco_tags++;
  }
''')
e('r07',VM,'''    int valid_amount = (amount_to_add > (int)feats_maxtracks.size()) ? (int)feats_maxtracks.size() : amount_to_add;
''','''    int valid_amount = std::min(amount_to_add, (int)feats_maxtracks.size());
''')
e('r08',VM,'''  for (size_t i = 0; i < feats_slam.size(); i++) {
    if (state->_features_SLAM.find(feats_slam.at(i)->featid) != state->_features_SLAM.end()) {
      feats_slam_UPDATE.push_back(feats_slam.at(i));
      // PRINT_DEBUG("[UPDATE-SLAM]: found old feature %d (%d
      // measurements)\\n",(int)feats_slam.at(i)->featid,(int)feats_slam.at(i)->timestamps_left.size());
    } else {
      feats_slam_DELAYED.push_back(feats_slam.at(i));
''','''  for (const auto &feat : feats_slam) {
    const bool in_state = state->_features_SLAM.count(feat->featid) > 0;
    if (in_state) {
      feats_slam_UPDATE.push_back(feat);
    } else {
      feats_slam_DELAYED.push_back(feat);
''')
e('r09',VM,'''      // PRINT_WARNING(YELLOW "FOUND FEATURE THAT WAS IN BOTH feats_lost and feats_marg!!!!!!\\n" RESET);
      it1 = feats_lost.erase(it1);
    } else {
      it1++;
    }
''','''      it1 = feats_lost.erase(it1);
      continue;
    }
    ++it1;
''')
# marginal covariance: offsets precomputed
e('r10',SH,'''  int i_index = 0;
  for (size_t i = 0; i < small_variables.size(); i++) {
    int k_index = 0;
    for (size_t k = 0; k < small_variables.size(); k++) {
      Small_cov.block(i_index, k_index, small_variables[i]->size(), small_variables[k]->size()) =
          state->_Cov.block(small_variables[i]->id(), small_variables[k]->id(), small_variables[i]->size(), small_variables[k]->size());
      k_index += small_variables[k]->size();
    }
    i_index += small_variables[i]->size();
  }
''','''  int i_index = 0;
  for (const auto &var_i : small_variables) {
    int k_index = 0;
    for (const auto &var_k : small_variables) {
      Small_cov.block(i_index, k_index, var_i->size(), var_k->size()) = state->_Cov.block(var_i->id(), var_k->id(), var_i->size(), var_k->size());
      k_index += var_k->size();
    }
    i_index += var_i->size();
  }
''')
e('r11',SH,'''  for (size_t i = 0; i < small_variables.size(); i++) {
    cov_size += small_variables[i]->size();
  }
''','''  for (const auto &v : small_variables)
    cov_size += v->size();
''')
e('r12',SH,'''  int size_order_OLD = order_OLD.at(0)->size();
  for (size_t i = 0; i < order_OLD.size() - 1; i++) {
    size_order_OLD += order_OLD.at(i + 1)->size();
  }
''','''  int size_order_OLD = 0;
  for (const auto &v : order_OLD) {
    size_order_OLD += v->size();
  }
''')
e('r13',SH,'''  Eigen::VectorXd diags = state->_Cov.diagonal();
  bool found_neg = false;
  for (int i = 0; i < diags.rows(); i++) {
    if (diags(i) < 0.0) {
      PRINT_WARNING(RED "StateHelper::EKFPropagation() - diagonal at %d is %.2f\\n" RESET, i, diags(i));
      found_neg = true;
    }
  }
  if (found_neg) {
    std::exit(EXIT_FAILURE);
  }
}

void StateHelper::EKFUpdate''','''  const Eigen::MatrixXd &P = state->_Cov;
  bool found_neg = false;
  for (int i = 0; i < P.rows(); i++) {
    if (P(i, i) >= 0.0)
      continue;
    PRINT_WARNING(RED "StateHelper::EKFPropagation() - diagonal at %d is %.2f\\n" RESET, i, P(i, i));
    found_neg = true;
  }
  if (found_neg) {
    std::exit(EXIT_FAILURE);
  }
}

void StateHelper::EKFUpdate''')
e('r14',SH,'''  std::vector<std::shared_ptr<Type>> remaining_variables;
  for (size_t i = 0; i < state->_variables.size(); i++) {
    // Only keep non-marginal states
    if (state->_variables.at(i) != marg) {
      if (state->_variables.at(i)->id() > marg_id) {
        // If the variable is "beyond" the marginal one in ordering, need to "move it forward"
        state->_variables.at(i)->set_local_id(state->_variables.at(i)->id() - marg_size);
      }
      remaining_variables.push_back(state->_variables.at(i));
    }
  }
''','''  std::vector<std::shared_ptr<Type>> remaining_variables;
  for (const auto &var : state->_variables) {
    // Only keep non-marginal states
    if (var == marg)
      continue;
    // If the variable is "beyond" the marginal one in ordering, need to "move it forward"
    if (var->id() > marg_id)
      var->set_local_id(var->id() - marg_size);
    remaining_variables.push_back(var);
  }
''')
