E = []
def e(i, f, a, b): E.append((i, f, a, b))
SH='ov_msckf/src/state/StateHelper.cpp'
def r(i, a, b): e(i, SH, a, b)
r('c01','  if (order_NEW.empty() || order_OLD.empty()) {','  if (order_NEW.empty() && order_OLD.empty()) {')
r('c02','    if (order_NEW.at(i)->id() + order_NEW.at(i)->size() != order_NEW.at(i + 1)->id()) {','    if (order_NEW.at(i)->id() + order_NEW.at(i)->size() > order_NEW.at(i + 1)->id()) {')
r('c03','  for (size_t i = 0; i < order_NEW.size() - 1; i++) {','  for (size_t i = 0; i + 2 < order_NEW.size(); i++) {')
r('c04','''  state->_Cov.block(start_id, 0, phi_size, total_size) = Cov_PhiT.transpose();
''','')
r('c05','''  Eigen::MatrixXd Phi_Cov_PhiT = Q.selfadjointView<Eigen::Upper>();''','''  Eigen::MatrixXd Phi_Cov_PhiT = Q.selfadjointView<Eigen::Lower>();''')
r('c06','''  for (int i = 0; i < diags.rows(); i++) {
    if (diags(i) < 0.0) {
      PRINT_WARNING(RED "StateHelper::EKFPropagation()''','''  for (int i = 1; i < diags.rows(); i++) {
    if (diags(i) < 0.0) {
      PRINT_WARNING(RED "StateHelper::EKFPropagation()''')
r('c07','''      PRINT_WARNING(RED "StateHelper::EKFUpdate() - diagonal at %d is %.2f\\n" RESET, i, diags(i));
      found_neg = true;''','''      PRINT_WARNING(RED "StateHelper::EKFUpdate() - diagonal at %d is %.2f\\n" RESET, i, diags(i));
      found_neg = (i < diags.rows() - 1);''')
r('c08','  Eigen::MatrixXd K = M_a * Sinv.selfadjointView<Eigen::Upper>();','  Eigen::MatrixXd K = M_a * Sinv.triangularView<Eigen::Upper>();')
r('c09','  state->_Cov = state->_Cov.selfadjointView<Eigen::Upper>();\n  // Cov -= K','  // Cov -= K')
r('c10','  Eigen::VectorXd dx = K * res;\n  for (size_t i = 0; i < state->_variables.size(); i++) {','  Eigen::VectorXd dx = K * res;\n  for (size_t i = 0; i < H_order.size(); i++) {')
r('c11','  if (state->_options.do_calib_camera_intrinsics) {\n    for (auto','  if (state->_options.do_calib_camera_pose) {\n    for (auto')
r('c12','  S.triangularView<Eigen::Upper>() += R;\n  // Eigen::MatrixXd S = H','  S.diagonal() += R.diagonal();\n  // Eigen::MatrixXd S = H')
r('c13','          covariance.block(i_index, k_index, order[i]->size(), order[k]->size());\n      k_index','          covariance.block(k_index, i_index, order[i]->size(), order[k]->size());\n      k_index')
r('c14','      k_index += order[k]->size();\n    }\n    i_index += order[i]->size();','      k_index += order[i]->size();\n    }\n    i_index += order[i]->size();')
r('c15','      if (state->_variables.at(i)->id() > marg_id) {','      if (state->_variables.at(i)->id() > marg_id + marg_size) {')
r('c16','  marg->set_local_id(-1);\n','  // marg->set_local_id(-1);\n')
r('c17','  Cov_new.block(0, marg_id, marg_id, x2_size) = state->_Cov.block(0, marg_id + marg_size, marg_id, x2_size);','  Cov_new.block(0, marg_id, marg_id, x2_size) = state->_Cov.block(0, marg_id, marg_id, x2_size);')
r('c18','    state->_Cov.block(new_loc, 0, total_size, old_size) = state->_Cov.block(old_loc, 0, total_size, old_size);\n','')
r('c19','    new_clone->set_local_id(new_loc);','    new_clone->set_local_id(old_loc);')
r('c20','    } else if (type_check != variable_to_clone) {\n      continue;','    } else if (type_check == nullptr) {\n      continue;')
r('c21','      if (r == c && R(0, 0) != R(r, c)) {\n        PRINT_ERROR(RED "StateHelper::initialize() - Your','      if (r == c && R(0, 0) < R(r, c)) {\n        PRINT_ERROR(RED "StateHelper::initialize() - Your')
r('c22','    for (int m = (int)H_L.rows() - 1; m > n; m--) {','    for (int m = (int)H_L.rows() - 1; m > n + 1; m--) {')
r('c23','  double chi2 = resup.dot(S.llt().solve(resup));','  double chi2 = resup.dot(S.llt().solve(resup)) / resup.rows();')
r('c24','  boost::math::chi_squared chi_squared_dist(res.rows());','  boost::math::chi_squared chi_squared_dist(resup.rows());')
r('c25','  if (Hup.rows() > 0) {','  if (Hup.rows() > (int)new_var_size) {')
r('c26','  StateHelper::initialize_invertible(state, new_variable, H_order, Hxinit, H_finit, Rinit, resinit);\n\n  // Update with updating portion\n  if (Hup.rows() > 0) {\n    StateHelper::EKFUpdate(state, H_order, Hup, resup, Rup);\n  }','  if (Hup.rows() > 0) {\n    StateHelper::EKFUpdate(state, H_order, Hup, resup, Rup);\n  }\n  StateHelper::initialize_invertible(state, new_variable, H_order, Hxinit, H_finit, Rinit, resinit);')
r('c27','.noalias() = -M_a * H_Linv.transpose();','.noalias() = M_a * H_Linv.transpose();')
r('c28','  new_variable->set_local_id(oldSize);\n  state->_variables.push_back(new_variable);','  new_variable->set_local_id(oldSize);\n  state->_variables.insert(state->_variables.begin(), new_variable);')
r('c29','    dnc_dt.block(3, 0, 3, 1) = state->_imu->vel();','    dnc_dt.block(3, 0, 3, 1) = state->_imu->vel_fej();')
r('c30','    state->_Cov.block(pose->id(), 0, 6, state->_Cov.rows()) +=\n        dnc_dt * state->_Cov.block(state->_calib_dt_CAMtoIMU->id(), 0, 1, state->_Cov.rows());','    state->_Cov.block(pose->id(), 0, 6, state->_Cov.rows()) = state->_Cov.block(0, pose->id(), state->_Cov.rows(), 6).transpose();')
r('c31','  if ((int)state->_clones_IMU.size() > state->_options.max_clone_size) {','  if ((int)state->_clones_IMU.size() > state->_options.max_clone_size + 1) {')
r('c32','(*it0).second->should_marg && (int)(*it0).first > 4 * state->_options.max_aruco_features','(*it0).second->should_marg && (int)(*it0).first > state->_options.max_aruco_features')
r('c33','''      StateHelper::marginalize(state, (*it0).second);
      it0 = state''','''      it0 = state''')
r('c34','''  state->_clones_IMU[state->_timestamp] = pose;
''','''  state->_clones_IMU.insert({state->_timestamp, pose});
  if (state->_clones_IMU.size() > 3)
    pose->set_fej(state->_imu->pose()->fej());
''')
r('c35','  Eigen::MatrixXd H_Linv = H_L.inverse();\n','  Eigen::MatrixXd H_Linv = H_L.transpose().inverse();\n')
r('c36','  new_variable->update(H_Linv * res);\n','  new_variable->update(H_Linv * res);\n  new_variable->set_fej(new_variable->value());\n')
r('c37','''        state->_Cov.block(0, var->id(), state->_Cov.rows(), var->size()) * Phi.block(0, Phi_id[i], Phi.rows(), var->size()).transpose();''','''        state->_Cov.block(0, var->id(), state->_Cov.rows(), var->size()) * Phi.block(0, Phi_id[0] + (int)i * var->size(), Phi.rows(), var->size()).transpose();''')
r('c38','      Small_cov.block(i_index, k_index, small_variables[i]->size(), small_variables[k]->size()) =\n          state->_Cov.block(small_variables[i]->id(), small_variables[k]->id(),','      Small_cov.block(i_index, k_index, small_variables[i]->size(), small_variables[k]->size()) =\n          state->_Cov.block(small_variables[i]->id(), small_variables[i]->id(),')
