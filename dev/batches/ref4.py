E = []
def e(i, f, a, b): E.append((i, f, a, b))
SH='ov_msckf/src/state/StateHelper.cpp'; H='ov_msckf/src/state/StateHelper.h'
NEG1='''  Eigen::VectorXd diags = state->_Cov.diagonal();
  bool found_neg = false;
  for (int i = 0; i < diags.rows(); i++) {
    if (diags(i) < 0.0) {
      PRINT_WARNING(RED "StateHelper::EKFPropagation() - diagonal at %d is %.2f\\n" RESET, i, diags(i));
      found_neg = true;
    }
  }
  if (found_neg) {
    std::exit(EXIT_FAILURE);
  }
'''
NEG2=NEG1.replace("EKFPropagation","EKFUpdate")
HELP='''namespace {
void exit_on_negative_diagonal(const Eigen::MatrixXd &cov, const char *caller) {
  bool found_neg = false;
  for (int i = 0; i < cov.rows(); i++) {
    if (cov(i, i) < 0.0) {
      PRINT_WARNING(RED "StateHelper::%s() - diagonal at %d is %.2f\\n" RESET, caller, i, cov(i, i));
      found_neg = true;
    }
  }
  if (found_neg)
    std::exit(EXIT_FAILURE);
}
} // namespace

'''
TOP='void StateHelper::EKFPropagation('
e('w01',SH,TOP,HELP+TOP)
e('w01',SH,NEG1,'  exit_on_negative_diagonal(state->_Cov, "EKFPropagation");\n')
e('w01',SH,NEG2,'  exit_on_negative_diagonal(state->_Cov, "EKFUpdate");\n')
# any-of style
e('w02',SH,NEG1,'''  if ((state->_Cov.diagonal().array() < 0.0).any()) {
    PRINT_WARNING(RED "StateHelper::EKFPropagation() - negative diagonal\\n" RESET);
    std::exit(EXIT_FAILURE);
  }
''')
e('w03',SH,NEG2,'''  const Eigen::VectorXd diags = state->_Cov.diagonal();
  int num_neg = 0;
  for (int i = 0; i < diags.rows(); i++) {
    if (diags(i) >= 0.0)
      continue;
    PRINT_WARNING(RED "StateHelper::EKFUpdate() - diagonal at %d is %.2f\\n" RESET, i, diags(i));
    num_neg++;
  }
  if (num_neg > 0) {
    std::exit(EXIT_FAILURE);
  }
''')
# contiguous loop from 1
e('w04',SH,'''  for (size_t i = 0; i < order_NEW.size() - 1; i++) {
    if (order_NEW.at(i)->id() + order_NEW.at(i)->size() != order_NEW.at(i + 1)->id()) {''','''  for (size_t i = 1; i < order_NEW.size(); i++) {
    const auto &prev = order_NEW.at(i - 1);
    if (prev->id() + prev->size() != order_NEW.at(i)->id()) {''')
e('w04',SH,'''    size_order_NEW += order_NEW.at(i + 1)->size();
''','''    size_order_NEW += order_NEW.at(i)->size();
''')
e('w05',SH,'''  int size_order_OLD = order_OLD.at(0)->size();
  for (size_t i = 0; i < order_OLD.size() - 1; i++) {
    size_order_OLD += order_OLD.at(i + 1)->size();
  }
''','''  int size_order_OLD = 0;
  for (const auto &var : order_OLD) {
    size_order_OLD += var->size();
  }
''')
e('w06',SH,'''  int current_it = 0;
  std::vector<int> Phi_id;
  for (const auto &var : order_OLD) {
    Phi_id.push_back(current_it);
    current_it += var->size();
  }
''','''  std::vector<int> Phi_id(order_OLD.size());
  int current_it = 0;
  for (size_t i = 0; i < order_OLD.size(); i++) {
    Phi_id[i] = current_it;
    current_it += order_OLD[i]->size();
  }
''')
# running offset instead of vector
e('w07',SH,'''  for (size_t i = 0; i < order_OLD.size(); i++) {
    std::shared_ptr<Type> var = order_OLD.at(i);
    Cov_PhiT.noalias() +=
        state->_Cov.block(0, var->id(), state->_Cov.rows(), var->size()) * Phi.block(0, Phi_id[i], Phi.rows(), var->size()).transpose();
  }
''','''  int phi_col = 0;
  for (const auto &var : order_OLD) {
    const int var_size = var->size();
    Cov_PhiT.noalias() += state->_Cov.middleCols(var->id(), var_size) * Phi.middleCols(phi_col, var_size).transpose();
    phi_col += var_size;
  }
''')
e('w08',SH,'''  int start_id = order_NEW.at(0)->id();
  int phi_size = Phi.rows();
  int total_size = state->_Cov.rows();
  state->_Cov.block(start_id, 0, phi_size, total_size) = Cov_PhiT.transpose();
  state->_Cov.block(0, start_id, total_size, phi_size) = Cov_PhiT;
''','''  const int start_id = order_NEW.front()->id();
  const int phi_size = (int)Phi.rows();
  state->_Cov.middleRows(start_id, phi_size) = Cov_PhiT.transpose();
  state->_Cov.middleCols(start_id, phi_size) = Cov_PhiT;
''')
e('w09',SH,'''  for (const auto &var : state->_variables) {
    // Sum up effect of each subjacobian = K_i= \\sum_m (P_im Hm^T)
    Eigen::MatrixXd M_i = Eigen::MatrixXd::Zero(var->size(), res.rows());
    for (size_t i = 0; i < H_order.size(); i++) {
      std::shared_ptr<Type> meas_var = H_order[i];
''','''  for (size_t k = 0; k < state->_variables.size(); k++) {
    const std::shared_ptr<Type> &var = state->_variables[k];
    Eigen::MatrixXd M_i = Eigen::MatrixXd::Zero(var->size(), res.rows());
    for (size_t i = 0; i < H_order.size(); i++) {
      const std::shared_ptr<Type> &meas_var = H_order[i];
''')
# extract helper for H ids, used in two functions
HID='''  int current_it = 0;
  std::vector<int> H_id;
  for (const auto &meas_var : H_order) {
    H_id.push_back(current_it);
    current_it += meas_var->size();
  }
'''
HH='''static std::vector<int> local_offsets(const std::vector<std::shared_ptr<Type>> &order) {
  std::vector<int> ids;
  ids.reserve(order.size());
  int current_it = 0;
  for (const auto &var : order) {
    ids.push_back(current_it);
    current_it += var->size();
  }
  return ids;
}

'''
e('w10',SH,TOP,HH+TOP)
e('w10',SH,HID,'  const std::vector<int> H_id = local_offsets(H_order);\n')
e('w10',SH,HID,'  const std::vector<int> H_id = local_offsets(H_order);\n')
e('w10',SH,'''  int current_it = 0;
  std::vector<int> Phi_id;
  for (const auto &var : order_OLD) {
    Phi_id.push_back(current_it);
    current_it += var->size();
  }
''','''  const std::vector<int> Phi_id = local_offsets(order_OLD);
''')
# get_marginal: only compute upper and mirror? no - swap loops
e('w11',SH,'''  int i_index = 0;
  for (size_t i = 0; i < small_variables.size(); i++) {
    int k_index = 0;
    for (size_t k = 0; k < small_variables.size(); k++) {
      Small_cov.block(i_index, k_index, small_variables[i]->size(), small_variables[k]->size()) =
          state->_Cov.block(small_variables[i]->id(), small_variables[k]->id(), small_variables[i]->size(), small_variables[k]->size());
      k_index += small_variables[k]->size();
    }
    i_index += small_variables[i]->size();
  }
''','''  int i_index = 0;
  for (const auto &var_i : small_variables) {
    int k_index = 0;
    for (const auto &var_k : small_variables) {
      Small_cov.block(i_index, k_index, var_i->size(), var_k->size()) = state->_Cov.block(var_i->id(), var_k->id(), var_i->size(), var_k->size());
      k_index += var_k->size();
    }
    i_index += var_i->size();
  }
''')
e('w12',SH,'''  Eigen::MatrixXd full_cov = Eigen::MatrixXd::Zero(cov_size, cov_size);

  // Copy in the active state elements
  full_cov.block(0, 0, state->_Cov.rows(), state->_Cov.rows()) = state->_Cov;
''','''  Eigen::MatrixXd full_cov = state->_Cov;
  (void)cov_size;
''')
e('w13',SH,'''  std::vector<std::shared_ptr<Type>> remaining_variables;
  for (size_t i = 0; i < state->_variables.size(); i++) {
    // Only keep non-marginal states
    if (state->_variables.at(i) != marg) {
      if (state->_variables.at(i)->id() > marg_id) {
        // If the variable is "beyond" the marginal one in ordering, need to "move it forward"
        state->_variables.at(i)->set_local_id(state->_variables.at(i)->id() - marg_size);
      }
      remaining_variables.push_back(state->_variables.at(i));
    }
  }
''','''  std::vector<std::shared_ptr<Type>> remaining_variables;
  remaining_variables.reserve(state->_variables.size());
  for (const auto &var : state->_variables) {
    if (var == marg)
      continue;
    if (marg_id < var->id())
      var->set_local_id(var->id() - marg_size);
    remaining_variables.push_back(var);
  }
''')
e('w14',SH,'''  Eigen::MatrixXd Cov_new(state->_Cov.rows() - marg_size, state->_Cov.rows() - marg_size);

  // P_(x_1,x_1)
  Cov_new.block(0, 0, marg_id, marg_id) = state->_Cov.block(0, 0, marg_id, marg_id);

  // P_(x_1,x_2)
  Cov_new.block(0, marg_id, marg_id, x2_size) = state->_Cov.block(0, marg_id + marg_size, marg_id, x2_size);

  // P_(x_2,x_1)
  Cov_new.block(marg_id, 0, x2_size, marg_id) = Cov_new.block(0, marg_id, marg_id, x2_size).transpose();

  // P(x_2,x_2)
  Cov_new.block(marg_id, marg_id, x2_size, x2_size) = state->_Cov.block(marg_id + marg_size, marg_id + marg_size, x2_size, x2_size);
''','''  const int x2_id = marg_id + marg_size;
  const int new_size = marg_id + x2_size;
  Eigen::MatrixXd Cov_new(new_size, new_size);
  Cov_new.block(marg_id, marg_id, x2_size, x2_size) = state->_Cov.block(x2_id, x2_id, x2_size, x2_size);
  Cov_new.topLeftCorner(marg_id, marg_id) = state->_Cov.topLeftCorner(marg_id, marg_id);
  Cov_new.block(0, marg_id, marg_id, x2_size) = state->_Cov.block(0, x2_id, marg_id, x2_size);
  Cov_new.block(marg_id, 0, x2_size, marg_id) = Cov_new.block(0, marg_id, marg_id, x2_size).transpose();
''')
e('w15',SH,'''  // delete marg;
  marg->set_local_id(-1);

  // Now set variables as the remaining ones
  state->_variables = remaining_variables;
''','''  state->_variables = std::move(remaining_variables);
  marg->set_local_id(-1);
''')
e('w16',SH,'''    std::shared_ptr<Type> type_check = state->_variables.at(k)->check_if_subvariable(variable_to_clone);
    if (state->_variables.at(k) == variable_to_clone) {
      type_check = state->_variables.at(k);
    } else if (type_check != variable_to_clone) {
      continue;
    }
''','''    const std::shared_ptr<Type> &var = state->_variables.at(k);
    std::shared_ptr<Type> type_check = (var == variable_to_clone) ? var : var->check_if_subvariable(variable_to_clone);
    if (type_check != variable_to_clone)
      continue;
''')
e('w17',SH,'''  int total_size = variable_to_clone->size();
  int old_size = (int)state->_Cov.rows();
  int new_loc = (int)state->_Cov.rows();

  // Resize both our covariance to the new size
  state->_Cov.conservativeResizeLike(Eigen::MatrixXd::Zero(old_size + total_size, old_size + total_size));

  // What is the new state, and variable we inserted
  const std::vector<std::shared_ptr<Type>> new_variables = state->_variables;
''','''  const int total_size = variable_to_clone->size();
  const int old_size = (int)state->_Cov.rows();
  const int new_loc = old_size;
  const int new_size = old_size + total_size;
  state->_Cov.conservativeResizeLike(Eigen::MatrixXd::Zero(new_size, new_size));
''')
e('w18',SH,'''  for (int r = 0; r < R.rows(); r++) {
    for (int c = 0; c < R.cols(); c++) {
      if (r == c && R(0, 0) != R(r, c)) {
        PRINT_ERROR(RED "StateHelper::initialize() - Your noise is not isotropic!\\n" RESET);
        PRINT_ERROR(RED "StateHelper::initialize() - Found a value of %.2f verses value of %.2f\\n" RESET, R(r, c), R(0, 0));
        std::exit(EXIT_FAILURE);
      } else if (r != c && R(r, c) != 0.0) {
        PRINT_ERROR(RED "StateHelper::initialize() - Your noise is not diagonal!\\n" RESET);
        PRINT_ERROR(RED "StateHelper::initialize() - Found a value of %.2f at row %d and column %d\\n" RESET, R(r, c), r, c);
        std::exit(EXIT_FAILURE);
      }
    }
  }
''','''  const double noise = R(0, 0);
  for (int r = 0; r < R.rows(); r++) {
    for (int c = 0; c < R.cols(); c++) {
      if (r == c) {
        if (R(r, c) != noise) {
          PRINT_ERROR(RED "StateHelper::initialize() - Your noise is not isotropic!\\n" RESET);
          PRINT_ERROR(RED "StateHelper::initialize() - Found a value of %.2f verses value of %.2f\\n" RESET, R(r, c), noise);
          std::exit(EXIT_FAILURE);
        }
      } else {
        if (R(r, c) != 0.0) {
          PRINT_ERROR(RED "StateHelper::initialize() - Your noise is not diagonal!\\n" RESET);
          PRINT_ERROR(RED "StateHelper::initialize() - Found a value of %.2f at row %d and column %d\\n" RESET, R(r, c), r, c);
          std::exit(EXIT_FAILURE);
        }
      }
    }
  }
''')
e('w19',SH,'''  Eigen::JacobiRotation<double> tempHo_GR;
  for (int n = 0; n < H_L.cols(); ++n) {
    for (int m = (int)H_L.rows() - 1; m > n; m--) {
      // Givens matrix G
      tempHo_GR.makeGivens(H_L(m - 1, n), H_L(m, n));
''','''  const int num_rows = (int)H_L.rows();
  const int num_cols = (int)H_L.cols();
  for (int n = 0; n < num_cols; ++n) {
    for (int m = num_rows - 1; m > n; m--) {
      Eigen::JacobiRotation<double> tempHo_GR;
      tempHo_GR.makeGivens(H_L(m - 1, n), H_L(m, n));
''')
e('w20',SH,'''      (H_L.block(m - 1, n, 2, H_L.cols() - n)).applyOnTheLeft(0, 1, tempHo_GR.adjoint());
      (res.block(m - 1, 0, 2, 1)).applyOnTheLeft(0, 1, tempHo_GR.adjoint());
      (H_R.block(m - 1, 0, 2, H_R.cols())).applyOnTheLeft(0, 1, tempHo_GR.adjoint());
''','''      const auto G = tempHo_GR.adjoint();
      (H_R.block(m - 1, 0, 2, H_R.cols())).applyOnTheLeft(0, 1, G);
      (res.block(m - 1, 0, 2, 1)).applyOnTheLeft(0, 1, G);
      (H_L.block(m - 1, n, 2, H_L.cols() - n)).applyOnTheLeft(0, 1, G);
''')
e('w21',SH,'''  boost::math::chi_squared chi_squared_dist(res.rows());
  double chi2_check = boost::math::quantile(chi_squared_dist, 0.95);
  if (chi2 > chi_2_mult * chi2_check) {
    return false;
  }
''','''  const double chi2_thresh = chi_2_mult * boost::math::quantile(boost::math::chi_squared(res.rows()), 0.95);
  const bool is_inlier = !(chi2 > chi2_thresh);
  if (!is_inlier)
    return false;
''')
e('w22',SH,'''  Eigen::MatrixXd Hxinit = H_R.block(0, 0, new_var_size, H_R.cols());
  Eigen::MatrixXd H_finit = H_L.block(0, 0, new_var_size, new_var_size);
  Eigen::VectorXd resinit = res.block(0, 0, new_var_size, 1);
  Eigen::MatrixXd Rinit = R.block(0, 0, new_var_size, new_var_size);
''','''  Eigen::MatrixXd Hxinit = H_R.topRows(new_var_size);
  Eigen::MatrixXd H_finit = H_L.topLeftCorner(new_var_size, new_var_size);
  Eigen::VectorXd resinit = res.head(new_var_size);
  Eigen::MatrixXd Rinit = R.topLeftCorner(new_var_size, new_var_size);
''')
e('w23',SH,'''  Eigen::MatrixXd Hup = H_R.block(new_var_size, 0, H_R.rows() - new_var_size, H_R.cols());
  Eigen::VectorXd resup = res.block(new_var_size, 0, res.rows() - new_var_size, 1);
  Eigen::MatrixXd Rup = R.block(new_var_size, new_var_size, R.rows() - new_var_size, R.rows() - new_var_size);
''','''  const int up_size = (int)H_R.rows() - (int)new_var_size;
  Eigen::MatrixXd Hup = H_R.bottomRows(up_size);
  Eigen::VectorXd resup = res.tail(res.rows() - new_var_size);
  Eigen::MatrixXd Rup = R.block(new_var_size, new_var_size, R.rows() - new_var_size, R.rows() - new_var_size);
''')
e('w24',SH,'''  size_t oldSize = state->_Cov.rows();
  state->_Cov.conservativeResizeLike(Eigen::MatrixXd::Zero(oldSize + new_variable->size(), oldSize + new_variable->size()));
  state->_Cov.block(0, oldSize, oldSize, new_variable->size()).noalias() = -M_a * H_Linv.transpose();
  state->_Cov.block(oldSize, 0, new_variable->size(), oldSize) = state->_Cov.block(0, oldSize, oldSize, new_variable->size()).transpose();
  state->_Cov.block(oldSize, oldSize, new_variable->size(), new_variable->size()) = P_LL;
''','''  const size_t oldSize = state->_Cov.rows();
  const int varSize = new_variable->size();
  const Eigen::MatrixXd P_xL = -M_a * H_Linv.transpose();
  state->_Cov.conservativeResizeLike(Eigen::MatrixXd::Zero(oldSize + varSize, oldSize + varSize));
  state->_Cov.block(oldSize, oldSize, varSize, varSize) = P_LL;
  state->_Cov.block(0, oldSize, oldSize, varSize) = P_xL;
  state->_Cov.block(oldSize, 0, varSize, oldSize) = P_xL.transpose();
''')
e('w25',SH,'''  new_variable->update(H_Linv * res);

  // Now collect results, and add it to the state variables
  new_variable->set_local_id(oldSize);
  state->_variables.push_back(new_variable);
''','''  const Eigen::VectorXd dx = H_Linv * res;
  new_variable->set_local_id((int)oldSize);
  new_variable->update(dx);
  state->_variables.emplace_back(new_variable);
''')
e('w26',SH,'''    Eigen::Matrix<double, 6, 1> dnc_dt = Eigen::MatrixXd::Zero(6, 1);
    dnc_dt.block(0, 0, 3, 1) = last_w;
    dnc_dt.block(3, 0, 3, 1) = state->_imu->vel();
    // Augment covariance with time offset Jacobian
    // TODO: replace this with a call to the EKFPropagate function instead....
    state->_Cov.block(0, pose->id(), state->_Cov.rows(), 6) +=
        state->_Cov.block(0, state->_calib_dt_CAMtoIMU->id(), state->_Cov.rows(), 1) * dnc_dt.transpose();
    state->_Cov.block(pose->id(), 0, 6, state->_Cov.rows()) +=
        dnc_dt * state->_Cov.block(state->_calib_dt_CAMtoIMU->id(), 0, 1, state->_Cov.rows());
''','''    Eigen::Matrix<double, 6, 1> dnc_dt;
    dnc_dt << last_w, state->_imu->vel();
    const int id_pose = pose->id();
    const int id_dt = state->_calib_dt_CAMtoIMU->id();
    const int cov_size = (int)state->_Cov.rows();
    state->_Cov.block(0, id_pose, cov_size, 6) += state->_Cov.col(id_dt) * dnc_dt.transpose();
    state->_Cov.block(id_pose, 0, 6, cov_size) += dnc_dt * state->_Cov.row(id_dt);
''')
e('w27',SH,'''  if ((int)state->_clones_IMU.size() > state->_options.max_clone_size) {
    double marginal_time = state->margtimestep();
    // Lock the mutex to avoid deleting any elements from _clones_IMU while accessing it from other threads
    std::lock_guard<std::mutex> lock(state->_mutex_state);
    assert(marginal_time != INFINITY);
    StateHelper::marginalize(state, state->_clones_IMU.at(marginal_time));
    // Note that the marginalizer should have already deleted the clone
    // Thus we just need to remove the pointer to it from our state
    state->_clones_IMU.erase(marginal_time);
  }
''','''  if ((int)state->_clones_IMU.size() <= state->_options.max_clone_size)
    return;
  const double marginal_time = state->margtimestep();
  std::lock_guard<std::mutex> lock(state->_mutex_state);
  assert(marginal_time != INFINITY);
  const auto clone = state->_clones_IMU.at(marginal_time);
  StateHelper::marginalize(state, clone);
  state->_clones_IMU.erase(marginal_time);
''')
e('w28',SH,'''  int ct_marginalized = 0;
  auto it0 = state->_features_SLAM.begin();
  while (it0 != state->_features_SLAM.end()) {
    if ((*it0).second->should_marg && (int)(*it0).first > 4 * state->_options.max_aruco_features) {
      StateHelper::marginalize(state, (*it0).second);
      it0 = state->_features_SLAM.erase(it0);
      ct_marginalized++;
    } else {
      it0++;
    }
  }
''','''  const int max_aruco_id = 4 * state->_options.max_aruco_features;
  for (auto it = state->_features_SLAM.begin(); it != state->_features_SLAM.end();) {
    const bool is_aruco = (int)it->first <= max_aruco_id;
    if (is_aruco || !it->second->should_marg) {
      ++it;
      continue;
    }
    StateHelper::marginalize(state, it->second);
    it = state->_features_SLAM.erase(it);
  }
''')
e('w29',SH,'''  for (size_t i = 0; i < state->_variables.size(); i++) {
    state->_variables.at(i)->update(dx.block(state->_variables.at(i)->id(), 0, state->_variables.at(i)->size(), 1));
  }
''','''  for (auto &var : state->_variables) {
    var->update(dx.segment(var->id(), var->size()));
  }
''')
e('w30',SH,'''    for (auto const &calib : state->_cam_intrinsics) {
      state->_cam_intrinsics_cameras.at(calib.first)->set_value(calib.second->value());
    }
''','''    for (auto it = state->_cam_intrinsics.begin(); it != state->_cam_intrinsics.end(); ++it) {
      const size_t cam_id = it->first;
      const Eigen::MatrixXd calib = it->second->value();
      state->_cam_intrinsics_cameras.at(cam_id)->set_value(calib);
    }
''')
e('w31',SH,'''  Eigen::MatrixXd S(R.rows(), R.rows());
  S.triangularView<Eigen::Upper>() = H * P_small * H.transpose();
  S.triangularView<Eigen::Upper>() += R;
''','''  const Eigen::MatrixXd HP = H * P_small;
  Eigen::MatrixXd S(R.rows(), R.rows());
  S.triangularView<Eigen::Upper>() = HP * H.transpose();
  S.triangularView<Eigen::Upper>() += R;
''')
e('w32',SH,'''  int i_index = 0;
  for (size_t i = 0; i < order.size(); i++) {
    int k_index = 0;
    for (size_t k = 0; k < order.size(); k++) {
      state->_Cov.block(order[i]->id(), order[k]->id(), order[i]->size(), order[k]->size()) =
          covariance.block(i_index, k_index, order[i]->size(), order[k]->size());
      k_index += order[k]->size();
    }
    i_index += order[i]->size();
  }
''','''  int i_index = 0;
  for (size_t i = 0; i < order.size(); i_index += order[i]->size(), i++) {
    const auto &var_i = order[i];
    int k_index = 0;
    for (size_t k = 0; k < order.size(); k_index += order[k]->size(), k++) {
      const auto &var_k = order[k];
      state->_Cov.block(var_i->id(), var_k->id(), var_i->size(), var_k->size()) = covariance.block(i_index, k_index, var_i->size(), var_k->size());
    }
  }
''')
